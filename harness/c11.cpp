// C11: exceptions thrown by sinks, formatters, custom flags, streams and argument formatting.
// Every exception is noted before it is thrown; afterwards the reports on stderr must be exactly these.
#include "async.h"
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/formatters/pattern_formatter.h"
#include <ctime>
#include <regex>
#include <system_error>

using namespace vf;

// ---- the system clock may step back between reports
static std::atomic<long> g_step{0};
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
#define VF_CLOCK 1
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    int r = static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    long s = g_step.load(std::memory_order_relaxed);
    if (id == CLOCK_REALTIME && s) ts->tv_sec -= s * ((ts->tv_nsec / 1000) % 7);
    return r;
}
#endif

// ---- what was thrown
static std::mutex g_m;
static std::vector<std::string> g_thrown;
static std::atomic<uint64_t> g_no{0};
static void note(const std::string& w) { std::lock_guard<std::mutex> g(g_m); g_thrown.push_back(w); }

struct own_exception : std::exception {
    std::string w;
    explicit own_exception(std::string s) : w(std::move(s)) {}
    const char* what() const noexcept override { return w.c_str(); }
};
struct derived_exception : own_exception, virtual std::nested_exception { using own_exception::own_exception; };
static std::string gen_text(rng& r, const char* where) {
    uint64_t n = g_no++;
    std::string t = sf("%s %llu", where, (unsigned long long)n);
    switch (r.range(0, 9)) {
        case 0: t += " %s %n %d %"; break;
        case 1: t += " {} {:d} }{ {"; break;
        case 2: t += std::string(r.below(300), 'x'); break;
        case 3: t += std::string(r.below(20000), 'y'); break;
        case 4: t += " [*** EXCEPTION #0001 ***] [x] y"; break;
        case 5: t += "\t\x01\x7f\xc3\xa4\xff"; break;
        default: break;
    }
    return t;
}
[[noreturn]] static void throw_one(rng& r, const char* where) {
    std::string t = gen_text(r, where);
    switch (r.range(0, 7)) {
        case 0: { std::runtime_error e(t); note(e.what()); throw e; }
        case 1: { std::logic_error e(t); note(e.what()); throw e; }
        case 2: { std::system_error e(5, std::generic_category(), t); note(e.what()); throw e; }
        case 3: { own_exception e(t); note(e.what()); throw e; }
        case 4: { derived_exception e(t); note(e.what()); throw e; }
        case 5: { ll::learnlog_excpt e(t); note(e.what()); throw e; }
        case 6: { std::out_of_range e(t); note(e.what()); throw e; }
        default: { ll::learnlog_excpt e(t, 2); note(e.what()); throw e; }
    }
}
// whether part k of the case throws for this message: the same for everybody who asks
static bool throws_for(uint64_t cs, int k, const char* text, size_t n, int pct) {
    return static_cast<int>(hash_mix(hash_mix(cs, static_cast<uint64_t>(k)), hash_bytes(text, n)) % 100) < pct;
}

struct bad_formatter : ll::sinks::formatter {
    uint64_t cs; int k, pct;
    bad_formatter(uint64_t c, int kk, int p) : cs(c), k(kk), pct(p) {}
    void format(const ll::base::log_msg& m, ll::fmt_memory_buf& b) override {
        const char* junk = "half a rec";
        b.append(junk, junk + 10);
        if (throws_for(cs, k, m.msg.data(), m.msg.size(), pct)) {
            static thread_local rng r(static_cast<uint64_t>(gettid_()));
            throw_one(r, "formatter");
        }
        b.clear();
        b.append(m.msg.data(), m.msg.data() + m.msg.size());
        b.push_back('\n');
    }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<bad_formatter>(cs, k, pct); }
};
struct bad_flag : ll::sinks::custom_flag_formatter {
    uint64_t cs; int k, pct;
    bad_flag(uint64_t c, int kk, int p) : cs(c), k(kk), pct(p) {}
    void format(const ll::base::log_msg& m, const std::tm&, ll::fmt_memory_buf&) override {
        if (throws_for(cs, k, m.msg.data(), m.msg.size(), pct)) {
            static thread_local rng r(static_cast<uint64_t>(gettid_()) + 77);
            throw_one(r, "custom flag");
        }
    }
    std::unique_ptr<ll::sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<bad_flag>(new bad_flag(cs, k, pct)); }
};
// a stream buffer that throws; the stream passes it on
struct bad_buf : std::stringbuf {
    uint64_t cs; int k, pct, fpct;
    rng r;
    bad_buf(uint64_t c, int kk, int p, int f) : cs(c), k(kk), pct(p), fpct(f), r(c) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        size_t m = static_cast<size_t>(n);
        if (m && p[m - 1] == '\n' && throws_for(cs, k, p, m - 1, pct)) throw_one(r, "stream");
        return std::stringbuf::xsputn(p, n);
    }
    int sync() override { if (r.chance(fpct)) throw_one(r, "stream sync"); return std::stringbuf::sync(); }
};

// arguments whose formatting fails
struct bad_arg { int mode; };
namespace fmt {
template <> struct formatter<bad_arg> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    auto format(const bad_arg& a, format_context& c) const -> decltype(c.out()) {
        static thread_local rng r(static_cast<uint64_t>(gettid_()) + 99);
        if (a.mode) throw_one(r, "argument");
        return fmt::format_to(c.out(), "ok");
    }
};
}

struct tsink {
    int kind = 0;                       // 0 recording sink, 1 formatter in ostream, 2 custom flag in ostream, 3 stream, 4 file, 5 rolling file
    int k = 0, pct = 0, fpct = 0;
    ll::sink_shr_ptr s;
    std::shared_ptr<rec_sink> rec;
    std::shared_ptr<std::stringbuf> buf;
    std::shared_ptr<std::ostream> os;
    std::string path, dir;
    std::shared_ptr<std::atomic<uint64_t>> flush_tries = std::make_shared<std::atomic<uint64_t>>(0);
};

static void one_case(uint64_t i, stderr_capture& cap, unsigned long& last_no) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    int kind = r.range(0, 2), nsinks = r.range(1, 4), nlog = r.range(1, 3), nt = r.range(1, 5), per = r.range(1, 60);
    bool async = r.chance(65), one = r.chance(70);
    size_t q = r.pick(queue_sizes()), w = one ? 1 : static_cast<size_t>(r.range(2, 5));
    label(sf("case %llu: %s, %d sinks, %d loggers, %d threads of %d messages, %zu workers, queue %zu", (unsigned long long)i, async ? kind_name(kind) : "synchronous", nsinks, nlog, nt, per, w, q));
#ifdef VF_CLOCK
    if (r.chance(40)) g_step = 100;
#endif
    noise(cs, static_cast<unsigned>(r.range(0, 2)));
    size_t text0 = cap.text().size();
    g_thrown.clear();
    std::vector<tsink> ts(static_cast<size_t>(nsinks));
    std::string dir = S().tmp + "/c11";
    rm_rf(dir);
    mkdir(dir.c_str(), 0755);
    for (int k = 0; k < nsinks; k++) {
        tsink& t = ts[static_cast<size_t>(k)];
        t.kind = r.range(0, 5);
        t.k = k;
        t.pct = r.pick(std::vector<int>{0, 0, 3, 30, 100});
        t.fpct = r.pick(std::vector<int>{0, 0, 20, 100});
        int kk = k, pct = t.pct;
        auto flag_formatter = [&] {
            std::unordered_map<char, std::unique_ptr<ll::sinks::custom_flag_formatter>> tab;
            tab['*'] = std::unique_ptr<bad_flag>(new bad_flag(cs, kk, pct));
            return ll::formatter_uni_ptr(new ll::sinks::pattern_formatter(r.chance(50) ? "%v%*" : "%*%v", "\n", std::move(tab)));
        };
        switch (t.kind) {
            case 0: {
                t.rec = std::make_shared<rec_sink>();
                auto tries = t.flush_tries;
                int fpct = t.fpct;
                t.rec->on_log = [cs, kk, pct](const ll::base::log_msg& m) {
                    if (throws_for(cs, kk, m.msg.data(), m.msg.size(), pct)) { static thread_local rng q(static_cast<uint64_t>(gettid_()) + 5); throw_one(q, "sink"); }
                };
                t.rec->on_flush = [tries, fpct] {
                    (*tries)++;
                    static thread_local rng q(static_cast<uint64_t>(gettid_()) + 6);
                    if (q.chance(fpct)) throw_one(q, "flush");
                };
                t.s = t.rec;
                break;
            }
            case 1: case 2:
                t.buf = std::make_shared<std::stringbuf>();
                t.os = std::make_shared<std::ostream>(t.buf.get());
                t.s = std::make_shared<ll::sinks::ostream_sink_mt>(*t.os, r.chance(30));
                t.s->set_formatter(t.kind == 1 ? ll::formatter_uni_ptr(new bad_formatter(cs, k, t.pct)) : flag_formatter());
                break;
            case 3:
                t.buf = std::make_shared<bad_buf>(cs, k, t.pct, t.fpct);
                t.os = std::make_shared<std::ostream>(t.buf.get());
                t.os->exceptions(std::ios::badbit);
                t.s = std::make_shared<ll::sinks::ostream_sink_mt>(*t.os);
                t.s->set_pattern("%v");
                break;
            default:
                t.path = dir + sf("/f%d.txt", k);
                if (t.kind == 4) t.s = std::make_shared<ll::sinks::basic_file_sink_mt>(t.path);
                else t.s = std::make_shared<ll::sinks::rolling_file_sink_mt>(t.path, 1u << 30, 9u);
                t.s->set_formatter(r.chance(50) ? ll::formatter_uni_ptr(new bad_formatter(cs, k, t.pct)) : flag_formatter());
        }
    }
    // a stream whose buffer threw has badbit set: what follows throws or is refused until it is cleared
    for (auto& t : ts) if (t.kind == 3 && (t.pct || t.fpct)) { t.pct = 0; t.fpct = 0; static_cast<bad_buf*>(t.buf.get())->pct = 0; static_cast<bad_buf*>(t.buf.get())->fpct = 0; }
    auto tp = async ? make_pool(kind, q, w) : nullptr;
    std::vector<ll::logger_shr_ptr> lg;
    std::vector<lvl> fl_lv;
    std::vector<std::vector<int>> of(static_cast<size_t>(nlog));
    for (int l = 0; l < nlog; l++) {
        std::vector<ll::sink_shr_ptr> v;
        for (int k = 0; k < nsinks; k++) if (l == 0 || r.chance(60)) { v.push_back(ts[static_cast<size_t>(k)].s); of[static_cast<size_t>(l)].push_back(k); }
        if (async && r.chance(80)) lg.push_back(std::make_shared<ll::async_logger>(sf("l%d", l), v.begin(), v.end(), tp));
        else lg.push_back(std::make_shared<ll::logger>(sf("l%d", l), v.begin(), v.end()));
        lg.back()->set_log_level(ll::level::trace);
        fl_lv.push_back(r.chance(40) ? static_cast<lvl>(r.range(0, 6)) : ll::level::off);
        lg.back()->set_flush_level(fl_lv.back());
        ll::register_logger(lg.back());
    }
    bool periodic = r.chance(15);
    if (periodic) ll::flush_every(std::chrono::milliseconds(1));

    std::vector<std::vector<std::string>> sent(static_cast<size_t>(nsinks));   // texts each sink was to get
    std::mutex sm;
    std::atomic<uint64_t> bad_args{0}, flushes{0};
    std::vector<uint64_t> must_flush(static_cast<size_t>(nsinks));             // flushes each sink was asked for (with sm)
    auto throws_somewhere = [&](size_t l, const std::string& x) {
        for (int k : of[l]) if (throws_for(cs, k, x.data(), x.size(), ts[static_cast<size_t>(k)].pct)) return true;
        return false;
    };
    auto guard = [&](const char* what, std::function<void()> f) {
        try { f(); }
        catch (const std::exception& e) { viol("escaped", sf("%s let an exception escape: %s", what, esc(e.what(), 100).c_str())); }
        catch (...) { viol("escaped", sf("%s let an exception escape", what)); }
    };
    auto producer = [&](int t, int from, int to) {
        rng p(hash_mix(cs, static_cast<uint64_t>(t) + 1000));
        for (int s = from; s < to; s++) {
            size_t l = p.below(static_cast<uint64_t>(nlog));
            ll::logger& g = *lg[l];
            auto lv = static_cast<lvl>(p.range(0, 5));
            std::string text = sf("%d:%d:", t, s) + std::string(p.below(40), 'z');
            int k = p.range(0, 99);
            if (k < 70) {
                {
                    std::lock_guard<std::mutex> gg(sm);
                    for (int x : of[l]) sent[static_cast<size_t>(x)].push_back(text);
                    if (fl_lv[l] != ll::level::off && lv >= fl_lv[l] && !throws_somewhere(l, text)) for (int x : of[l]) must_flush[static_cast<size_t>(x)]++;
                }
                guard("a logging call", [&] {
                    if (k < 30) g.log(lv, ll::fmt_string_view(text)); else if (k < 50) g.log(lv, "{}", text); else g.log(ll::source_loc{"f", 1, "g"}, lv, "{0}{1}", text, "");
                });
            } else if (k < 90) {
                // nothing of this may be output
                bad_args++;
                int m = p.range(0, 5);
                auto fmt_error = [&](const char* f, auto... a) {
                    std::string w;
                    try { fmt::memory_buffer b; fmt::vformat_to(fmt::appender(b), f, fmt::make_format_args(a...)); }
                    catch (const std::exception& e) { w = e.what(); }
                    if (w.empty()) return false;
                    note(w);
                    return true;
                };
                guard("a logging call with a failing argument", [&] {
                    int one_i = 1;
                    std::string str = "s";
                    switch (m) {
                        case 0: g.log(lv, "never {}", bad_arg{1}); break;
                        case 1: if (fmt_error("never {} {}", one_i)) g.log(lv, "never {} {}", one_i); break;
                        case 2: if (fmt_error("never {:d}", str)) g.log(ll::source_loc{"f", 2, "h"}, lv, "never {:d}", str); break;
                        case 3: if (fmt_error("never {", one_i)) g.info("never {", one_i); break;
                        case 4: if (fmt_error("never {:{}}", one_i, str)) g.error("never {:{}}", one_i, str); break;
                        default: g.log(lv, bad_arg{1}); break;
                    }
                });
            } else {
                flushes++;
                {
                    std::lock_guard<std::mutex> gg(sm);
                    for (int x : of[l]) must_flush[static_cast<size_t>(x)]++;
                }
                guard("flush()", [&] { g.flush(); });
            }
            tick();
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back(producer, t, 0, per);
    for (auto& t : th) t.join();
    // the logger and its workers are still of use
    if (async) {
        for (int t = 0; t < 2; t++) producer(100 + t, 0, r.range(1, 8));
        if (kind != K_CONC || w == 1) {
            // all workers at once
            auto gate = std::make_shared<rec_sink>();
            auto in_p = std::make_shared<std::atomic<size_t>>(0);
            auto open_p = std::make_shared<std::atomic<bool>>(false);
            auto& in = *in_p;
            auto& open = *open_p;
            gate->on_log = [in_p, open_p](const ll::base::log_msg&) { (*in_p)++; wait_until([&] { return open_p->load(); }); };
            ll::sink_shr_ptr gs = gate;
            auto gl = std::make_shared<ll::async_logger>("gate", gs, tp);
            std::thread feeder([&] { for (size_t k = 0; k < w; k++) gl->info("x"); });
            bool all = settle([&] { return in.load() == w; });
            VF_CHECK(all, "worker_lost", "only %zu of %zu workers still handle messages", in.load(), w);
            open = true;
            feeder.join();
            stat("workers_checked", w);
        }
    }
    for (auto& v : of) for (int x : v) must_flush[static_cast<size_t>(x)]++;
    guard("flush_all()", [] { ll::flush_all(); });
    ll::close();           // ends the periodic flushing
    uint64_t gone = 0;
    if (async) {
        tp.reset();
        for (int k = 0, n = r.range(0, 4); k < n; k++) {
            auto& g = lg[r.below(lg.size())];
            if (!g->is_async()) continue;
            bool fl = r.chance(30);
            guard("a call after the pool is gone", [&] { if (fl) g->flush(); else g->info("never"); });
            note("~thread pool does not exist");
            gone++;
        }
    }
    bool had_step = g_step != 0;
    g_step = 0;
    guard("the destruction of loggers and sinks", [&] { lg.clear(); for (auto& t : ts) t.s.reset(); });
    noise_off();

    // ---- reports
    std::string text = cap.text().substr(text0);
    std::vector<std::string> got;
    std::vector<unsigned long> nos;
    size_t pos = 0;
    while (pos < text.size()) {
        size_t e = text.find('\n', pos);
        std::string line = text.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        pos = e == std::string::npos ? text.size() : e + 1;
        VF_CHECK(e != std::string::npos, "line", "the last report does not end its line");
        unsigned no = 0;
        int y, mo, d, hh, mi, ss, n = 0;
        if (sscanf(line.c_str(), "[*** EXCEPTION #%u ***] [%4d-%2d-%2d %2d:%2d:%2d] %n", &no, &y, &mo, &d, &hh, &mi, &ss, &n) < 7 || n == 0) {
            viol("line", sf("this is not a report on a line of its own: '%s'", esc(line, 200).c_str()));
            continue;
        }
        VF_CHECK(line.compare(0, 16 + std::max<size_t>(4, std::to_string(no).size()), sf("[*** EXCEPTION #%04u", no)) == 0, "number", "'%s'", esc(line, 60).c_str());
        nos.push_back(no);
        got.push_back(line.substr(static_cast<size_t>(n)));
    }
    std::sort(nos.begin(), nos.end());
    for (size_t k = 0; k < nos.size(); k++)
        if (nos[k] != last_no + k + 1) { viol("number", sf("the %zu reports after number %lu have the numbers %lu to %lu, but number %zu of them is %lu", nos.size(), last_no, nos.front(), nos.back(), k + 1, nos[k])); break; }
    if (!nos.empty()) last_no = nos.back();
    std::multiset<std::string> want;
    {
        std::lock_guard<std::mutex> g(g_m);
        for (auto& t : g_thrown) if (t[0] != '~') want.insert(t);
    }
    uint64_t gone_reports = 0;
    for (auto& t : got) {
        auto f = want.find(t);
        if (f != want.end()) { want.erase(f); continue; }
        if (gone_reports < gone && t.find("thread pool does not exist") != std::string::npos) { gone_reports++; continue; }
        viol("report_unknown", sf("a report '%s' for nothing that was thrown, or one too many", esc(t, 150).c_str()));
    }
    if (!want.empty()) viol("report_missing", sf("%zu of %zu exceptions were not reported, e.g. '%s'", want.size(), g_thrown.size(), esc(*want.begin(), 150).c_str()));
    VF_CHECK(gone_reports == gone, "report_missing", "%llu of %llu calls without a pool were reported", (unsigned long long)gone_reports, (unsigned long long)gone);

    // ---- what the sinks got
    uint64_t delivered = 0, thrown_msgs = 0, h = cs;
    for (auto& t : ts) {
        std::multiset<std::string> e, g;
        for (auto& x : sent[static_cast<size_t>(t.k)])
            if (throws_for(cs, t.k, x.data(), x.size(), t.pct)) thrown_msgs++; else e.insert(x);
        auto lines = [&](const std::string& c) { std::istringstream is(c); std::string l; while (std::getline(is, l)) g.insert(l); };
        if (t.kind == 0) { for (auto& x : t.rec->logs()) { g.insert(x.text); h = hash_mix(h, hash_str(x.text)); } }
        else if (t.kind <= 3) lines(t.buf->str());
        else for (auto& f : vf::ls(dir)) if (f.compare(0, 2, sf("f%d", t.k)) == 0) lines(read_file(dir + "/" + f));
        if (e != g) {
            std::string miss, extra;
            for (auto& x : e) if (g.count(x) < e.count(x)) { miss = x; break; }
            for (auto& x : g) if (e.count(x) < g.count(x)) { extra = x; break; }
            viol("other_messages", sf("sink %d of kind %d got %zu messages instead of %zu; missing '%s', extra '%s'", t.k, t.kind, g.size(), e.size(), esc(miss, 60).c_str(), esc(extra, 60).c_str()));
        }
        delivered += g.size();
        // a flush that throws in one sink does not keep the others from being flushed
        if (t.kind == 0) {
            uint64_t tries = *t.flush_tries, must = must_flush[static_cast<size_t>(t.k)];
            VF_CHECK(tries >= must, "other_flushes", "sink %d was flushed %llu times, but was to be flushed at least %llu times", t.k, (unsigned long long)tries, (unsigned long long)must);
            stat("sink_flushes_checked", must);
        }
    }
    stat("exceptions_thrown", g_thrown.size());
    stat("reports_checked", got.size());
    stat("messages_delivered", delivered);
    stat("messages_lost_to_exceptions", thrown_msgs);
    stat("failing_arguments", bad_args);
    stat("explicit_flushes", flushes);
    if (had_step) stat("cases_with_clock_steps");
    for (auto no : nos) h = hash_mix(h, no);
    casedone(h, !g_thrown.empty());
    if (i < 4) sample(S().label + sf(": %zu exceptions, %llu messages delivered", g_thrown.size(), (unsigned long long)delivered));
}

void vf_main() {
    budget b;
    unsigned long last_no = 0;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many();) {
        stderr_capture cap;
        for (int k = 0; k < 20 && b.left(); k++) one_case(i++, cap, last_no);
    }
}
