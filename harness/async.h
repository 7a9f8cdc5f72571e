// Recording sinks, pool construction and message generation shared by the monitors of the loggers.
#pragma once
#include "vf.h"
#include "learnlog.h"
#include "sinks/sink.h"
#include "base/os.h"

namespace vf {
namespace ll = learnlog;
using lvl = ll::level::level_enum;

struct rec {
    bool flush = false;
    std::string text, lname, file, func;
    int level = 0, line = 0;
    bool has_file = false, has_func = false;
    int64_t time = 0;
    size_t tid = 0;       // as carried by the message
    long worker = 0;      // the thread that called the sink
    uint64_t ev = 0;      // global event number
};

inline std::atomic<uint64_t>& evno() { static std::atomic<uint64_t> e{0}; return e; }
inline long gettid_() { return syscall(SYS_gettid); }

inline rec make_rec(const ll::base::log_msg& m) {
    rec r;
    r.text.assign(m.msg.data(), m.msg.size());
    r.lname.assign(m.logger_name.data(), m.logger_name.size());
    if (m.loc.filename) { r.has_file = true; r.file = m.loc.filename; }
    if (m.loc.funcname) { r.has_func = true; r.func = m.loc.funcname; }
    r.line = m.loc.line;
    r.level = m.level;
    r.time = std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count();
    r.tid = m.tid;
    r.worker = gettid_();
    return r;
}

// a sink that records what it is given, with optional hooks run before recording
class rec_sink : public ll::sinks::sink {
public:
    std::function<void(const ll::base::log_msg&)> on_log;   // may block or throw
    std::function<void()> on_flush;
    std::atomic<size_t> nlog{0}, nflush{0};
    std::atomic<int> nset{0};                               // set_pattern/set_formatter calls

    void log(const ll::base::log_msg& m) override {
        if (on_log) on_log(m);
        rec r = make_rec(m);
        {
            std::lock_guard<std::mutex> g(m_);
            r.ev = evno()++;
            v_.push_back(std::move(r));
        }
        nlog++;
        tick();
    }
    void flush() override {
        if (on_flush) on_flush();
        {
            std::lock_guard<std::mutex> g(m_);
            rec r;
            r.flush = true;
            r.worker = gettid_();
            r.ev = evno()++;
            v_.push_back(std::move(r));
        }
        nflush++;
        tick();
    }
    void set_pattern(const std::string&) override { nset++; }
    void set_formatter(ll::formatter_uni_ptr) override { nset++; }

    std::vector<rec> all() { std::lock_guard<std::mutex> g(m_); return v_; }
    std::vector<rec> logs() {
        std::lock_guard<std::mutex> g(m_);
        std::vector<rec> r;
        for (auto& x : v_) if (!x.flush) r.push_back(x);
        return r;
    }
    void clear() { std::lock_guard<std::mutex> g(m_); v_.clear(); nlog = 0; nflush = 0; }

private:
    std::mutex m_;
    std::vector<rec> v_;
};

enum kind_t { K_LOCK, K_LOCKFREE, K_CONC };
inline const char* kind_name(int k) {
    static const char* n[] = {"lock", "lockfree", "lockfree_concurrent"};
    return n[k];
}
inline ll::thread_pool_shr_ptr make_pool(int kind, size_t q, size_t w) {
    switch (kind) {
        case K_LOCK: return std::make_shared<ll::base::lock_thread_pool>(q, w);
        case K_LOCKFREE: return std::make_shared<ll::base::lockfree_thread_pool>(q, w);
        default: return std::make_shared<ll::base::lockfree_concurrent_thread_pool>(q, w);
    }
}
inline ll::thread_pool_shr_ptr make_pool(int kind, size_t q, size_t w, std::function<void()> a, std::function<void()> b) {
    switch (kind) {
        case K_LOCK: return std::make_shared<ll::base::lock_thread_pool>(q, w, a, b);
        case K_LOCKFREE: return std::make_shared<ll::base::lockfree_thread_pool>(q, w, a, b);
        default: return std::make_shared<ll::base::lockfree_concurrent_thread_pool>(q, w, a, b);
    }
}
inline ll::thread_pool_shr_ptr make_pool(int kind, size_t q, size_t w, std::function<void()> a) {
    switch (kind) {
        case K_LOCK: return std::make_shared<ll::base::lock_thread_pool>(q, w, a);
        case K_LOCKFREE: return std::make_shared<ll::base::lockfree_thread_pool>(q, w, a);
        default: return std::make_shared<ll::base::lockfree_concurrent_thread_pool>(q, w, a);
    }
}

inline const std::vector<size_t>& queue_sizes() {
    static std::vector<size_t> v{1, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100, 128, 500, 1000, 8192};
    return v;
}

// ---- generated messages: everything about message (p, s) of a case follows from the case seed
struct gmsg {
    int p = 0, s = 0;
    int level = 2;
    std::string text;
    int api = 0;                 // overload used
    bool loc = false;
    const char* file = nullptr;
    int line = 0;
    const char* func = nullptr;
    bool has_time = false;
    int64_t time = 0;
    int logger = 0;
};
inline const char* pick_file(uint64_t h) {
    static const char* f[] = {"a.cpp", "/x/y/some_file.cc", "dir/with space/c.h", "", "looooooooooooooooooooooooooooooooooooooooooong.cpp"};
    return f[h % 5];
}
inline const char* pick_func(uint64_t h) {
    static const char* f[] = {"main", "operator()", "f<int>(x, y)", "z"};
    return (h % 5 == 4) ? nullptr : f[h % 5];
}
inline gmsg gen_msg(uint64_t cs, int p, int s, int nloggers, bool bytes = true) {
    rng r(hash_mix(hash_mix(cs, static_cast<uint64_t>(p)), static_cast<uint64_t>(s)));
    gmsg g;
    g.p = p;
    g.s = s;
    g.level = r.range(0, 5);
    if (r.chance(50)) g.level = r.range(2, 4);
    g.logger = static_cast<int>(r.below(static_cast<uint64_t>(nloggers)));
    size_t len;
    int k = r.range(0, 99);
    if (k < 60) len = r.below(40);
    else if (k < 85) len = r.below(300);
    else if (k < 97) len = 200 + r.below(120);      // around the 250-byte inline buffer
    else len = r.below(6000);
    g.text = sf("%d:%d:", p, s);
    for (size_t i = 0; i < len; i++) {
        if (bytes && r.below(8) == 0) g.text += static_cast<char>(r.below(256));
        else g.text += static_cast<char>(' ' + r.below(95));
    }
    g.text += sf(":%d:%d", p, s);
    g.api = r.range(0, 6);
    g.loc = g.api == 1 || g.api == 2 || g.api == 3;
    if (g.loc) {
        g.file = pick_file(r.next());
        g.line = r.range(1, 99999);
        g.func = pick_func(r.next());
    }
    if (g.api == 3) {
        g.has_time = true;
        g.time = static_cast<int64_t>(r.below(4000000000ull)) * 1000000000ll + static_cast<int64_t>(r.below(1000000000));
    }
    return g;
}
struct sent {
    int64_t t0 = 0, t1 = 0;   // system clock around the call
    size_t tid = 0;
};
inline int64_t sys_ns() {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(ll::sys_clock::now().time_since_epoch()).count();
}
inline ll::sys_clock::time_point tp_of(int64_t ns) {
    return ll::sys_clock::time_point(std::chrono::duration_cast<ll::sys_clock::duration>(std::chrono::nanoseconds(ns)));
}
inline sent send_msg(ll::logger& l, const gmsg& g) {
    sent s;
    s.tid = static_cast<size_t>(gettid_());
    auto lv = static_cast<lvl>(g.level);
    s.t0 = sys_ns();
    {
        std::string copy = g.text;    // destroyed right after the call
        ll::fmt_string_view sv(copy.data(), copy.size());
        switch (g.api) {
            case 0: l.log(lv, sv); break;
            case 1: l.log(ll::source_loc{g.file, g.line, g.func}, lv, sv); break;
            case 2: l.log(ll::source_loc{g.file, g.line, g.func}, lv, "{}", copy); break;
            case 3: l.log(tp_of(g.time), ll::source_loc{g.file, g.line, g.func}, lv, sv); break;
            case 4: l.log(lv, "{}{}", copy.substr(0, copy.size() / 2), copy.substr(copy.size() / 2)); break;
            case 5:
                switch (g.level) {
                    case 0: l.trace("{}", copy); break;
                    case 1: l.debug("{}", copy); break;
                    case 2: l.info("{}", copy); break;
                    case 3: l.warn("{}", copy); break;
                    case 4: l.error("{}", copy); break;
                    default: l.critical("{}", copy); break;
                }
                break;
            default:
                switch (g.level) {
                    case 0: l.trace(copy); break;
                    case 1: l.debug(copy); break;
                    case 2: l.info(copy); break;
                    case 3: l.warn(copy); break;
                    case 4: l.error(copy); break;
                    default: l.critical(copy); break;
                }
        }
        for (auto& c : copy) c = '#';   // what is output later must not refer to this
    }
    s.t1 = sys_ns();
    return s;
}
// what is wrong with a record of g, or ""
inline std::string compare(const gmsg& g, const sent* s, const rec& r, const std::string& lname) {
    if (r.text != g.text)
        return sf("text of message %d:%d: got %zu bytes '%s' instead of %zu bytes '%s'", g.p, g.s, r.text.size(),
                   esc(r.text, 80).c_str(), g.text.size(), esc(g.text, 80).c_str());
    if (r.level != g.level) return sf("level of message %d:%d: %d instead of %d", g.p, g.s, r.level, g.level);
    if (r.lname != lname) return sf("logger name of message %d:%d: '%s' instead of '%s'", g.p, g.s, esc(r.lname, 60).c_str(), lname.c_str());
    bool lok = g.loc ? (r.has_file && r.file == g.file && r.line == g.line && r.has_func == (g.func != nullptr)
                        && (!g.func || r.func == g.func))
                     : (r.line <= 0 && !r.has_func);
    if (!lok) return sf("source location of message %d:%d (overload %d): %s:%d %s", g.p, g.s, g.api, r.file.c_str(), r.line, r.func.c_str());
    if (s) {
        if (r.tid != s->tid) return sf("thread id of message %d:%d: %zu instead of %zu", g.p, g.s, r.tid, s->tid);
        if (g.has_time) {
            if (r.time != g.time) return sf("time of message %d:%d: %lld instead of %lld", g.p, g.s, (long long)r.time, (long long)g.time);
        } else if (s->t0 <= s->t1 && (r.time < s->t0 || r.time > s->t1))
            return sf("time of message %d:%d: %lld not within the call [%lld, %lld]", g.p, g.s, (long long)r.time, (long long)s->t0, (long long)s->t1);
    }
    return "";
}
// (p, s) of a generated text; false when it is none
inline bool parse_id(const std::string& t, int& p, int& s) {
    char* e;
    p = static_cast<int>(strtol(t.c_str(), &e, 10));
    if (e == t.c_str() || *e != ':') return false;
    const char* b = e + 1;
    s = static_cast<int>(strtol(b, &e, 10));
    return e != b && *e == ':';
}

}  // namespace vf
