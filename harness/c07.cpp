// C07: mixed multi-threaded programs over the whole public interface. The verdict comes from the sanitizers
// (races, lock order, memory, arithmetic, leaks), from valgrind (uninitialised memory), and from objects that
// are counted: what the library was given is released once everything has been closed.
#include "async.h"
#include "base/block_queue.h"
#include "base/periodic_function.h"
#include "base/registry.h"
#include "sinks/basic_file_sink.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
#include "sinks/formatters/pattern_formatter.h"

using namespace vf;
namespace sk = learnlog::sinks;

static std::atomic<int> live_sinks{0}, live_formatters{0};

// a thread-safe sink of the user's; built on basic_sink like the library's own
class user_sink : public sk::basic_sink<std::mutex> {
public:
    uint64_t sum = 0, n = 0, flushes = 0;     // unprotected on purpose: basic_sink's mutex must cover them
    int throw_every = 0;
    user_sink() { live_sinks++; }
    ~user_sink() override { live_sinks--; }
protected:
    void output_(const ll::base::log_msg& m) override {
        n++;
        if (throw_every && n % static_cast<uint64_t>(throw_every) == 0) throw std::runtime_error("user sink");
        ll::fmt_memory_buf b;
        formatter_->format(m, b);
        // touches every byte, also those of the source location
        sum = hash_bytes(b.data(), b.size(), sum);
        if (m.loc.filename) sum = hash_bytes(m.loc.filename, strlen(m.loc.filename), sum);
        if (m.loc.funcname) sum = hash_bytes(m.loc.funcname, strlen(m.loc.funcname), sum);
    }
    void flush_() override { flushes++; }
};
struct user_formatter : sk::formatter {
    std::string tag;
    uint64_t used = 0;                        // a formatter belongs to one sink and is used under its lock
    explicit user_formatter(std::string t) : tag(std::move(t)) { live_formatters++; }
    ~user_formatter() override { live_formatters--; }
    void format(const ll::base::log_msg& m, ll::fmt_memory_buf& b) override {
        used++;
        b.append(tag.data(), tag.data() + tag.size());
        b.append(m.msg.data(), m.msg.data() + m.msg.size());
        b.push_back('\n');
    }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<user_formatter>(tag); }
};
struct user_flag : sk::custom_flag_formatter {
    uint64_t used = 0;
    void format(const ll::base::log_msg& m, const std::tm&, ll::fmt_memory_buf& b) override {
        used++;
        std::string s = sf("<%zu>", m.msg.size());
        b.append(s.data(), s.data() + s.size());
    }
    std::unique_ptr<sk::custom_flag_formatter> clone() const override { return ll::make_unique<user_flag>(); }
};
// an argument whose formatting allocates and may throw
struct arg_t { int v; };
template <> struct fmt::formatter<arg_t> : fmt::formatter<int> {
    template <typename C> auto format(const arg_t& a, C& ctx) const {
        if (a.v == 13) throw std::runtime_error("argument");
        return fmt::formatter<int>::format(a.v, ctx);
    }
};

static const char* patterns[] = {"%+", "[%n] [%^%l%$] %v", "%Y-%m-%d %H:%M:%S.%e %t %v", "%v", "%20n|%-20l|%=30v|", "%@ %s:%# %! %v", "%o %i %u %O %v", "%%%",
                                 "%5!v", "%D %R %T %r %z %P %v", "%c %C %v", "%E %F %f %v"};
static std::string scratch_text(rng& r) {
    size_t n = r.chance(60) ? r.below(40) : r.chance(90) ? r.below(600) : r.below(9000);
    std::string s(n, 'x');
    for (auto& c : s) c = static_cast<char>(' ' + r.below(95));
    return s;
}

struct shared_case {
    uint64_t cs;
    std::string dir;
    std::vector<std::string> names;
    std::vector<ll::sink_shr_ptr> sinks;
    std::vector<std::shared_ptr<sk::stdout_color_sink_mt>> colored;
    std::vector<ll::logger_shr_ptr> loggers;    // with backtraces enabled from the beginning
    bool closing = false, pools = false, flusher = false, use_default = false, settings = false;
    std::vector<std::shared_ptr<std::ostringstream>> streams;
    std::atomic<uint64_t> ops{0}, logged{0};
    std::atomic<int> serial{0};
};
static std::atomic<uint64_t> opcount[40];

static ll::sink_shr_ptr make_sink(shared_case& c, rng& r) {
    switch (r.below(9)) {
        case 0: return std::make_shared<sk::basic_file_sink_mt>(c.dir + sf("/b%d.txt", c.serial++), r.chance(50));
        case 1: return std::make_shared<sk::rolling_file_sink_mt>(c.dir + sf("/r%d.txt", c.serial++), 500 + r.below(3000), 1 + r.below(5));
        case 2: {
            auto o = std::make_shared<std::ostringstream>();
            c.streams.push_back(o);
            return std::make_shared<sk::ostream_sink_mt>(*o);
        }
        case 3: return std::make_shared<sk::null_sink_mt>();
        case 4: return std::make_shared<sk::stdout_sink_mt>();
        case 5: return std::make_shared<sk::stderr_sink_mt>();
        case 6: {
            auto s = std::make_shared<sk::stdout_color_sink_mt>();
            c.colored.push_back(s);
            return s;
        }
        default: {
            auto s = std::make_shared<user_sink>();
            if (r.chance(20)) s->throw_every = r.range(2, 20);
            return s;
        }
    }
}
static void log_some(ll::logger& l, rng& r) {
    lvl v = static_cast<lvl>(r.range(0, 5));
    std::string t = scratch_text(r);
    switch (r.below(12)) {
        case 0: l.log(v, t); break;
        case 1: l.log(v, "{} and {}", t, r.next()); break;
        case 2: l.log(ll::source_loc{__FILE__, __LINE__, __func__}, v, "{:>20}", t); break;
        case 3: l.log(ll::source_loc{pick_file(r.next()), r.range(1, 9999), pick_func(r.next())}, v, ll::fmt_string_view(t.data(), t.size())); break;
        case 4: l.log(tp_of(static_cast<int64_t>(r.below(4000000000ull)) * 1000000000), ll::source_loc{}, v, ll::fmt_string_view(t.data(), t.size())); break;
        case 5: l.info("{:.3f} {:x} {}", 1.5 * static_cast<double>(r.below(1000)), r.next(), r.chance(50)); break;
        case 6: l.error(r.range(-1000, 1000)); break;
        case 7: l.critical("{}", arg_t{r.range(0, 40)}); break;
        case 8: l.warn(3.25); break;
        case 9: l.debug("{:{}}", t, r.range(0, 80)); break;
        case 10: l.trace("{0} {1} {0}", t, 'c'); break;
        default: l.log(v, "plain"); break;
    }
}
static ll::logger_shr_ptr make_logger(shared_case& c, rng& r, const std::string& name) {
    // through a factory: registered, asynchronous ones on the registered pool
    std::string f = c.dir + sf("/l%d.txt", c.serial++);
    switch (r.below(8)) {
        case 0: return ll::create<user_sink>(name);
        case 1: return ll::basic_file_logger_mt(name, f);
        case 2: return ll::null_logger_mt(name);
        case 3: return ll::rolling_file_logger_mt(name, f, 400, 3);
        case 4: return ll::create_async_lock<user_sink>(name);
        case 5: return ll::create_async_lockfree<user_sink>(name);
        case 6: return ll::create_async_lockfree_concurrent<user_sink>(name);
        default: return ll::create<user_sink>(name);
    }
}

static void actor(shared_case& c, int who, int nops) {
    rng r(hash_mix(c.cs, static_cast<uint64_t>(who) * 7 + 3));
    std::vector<ll::logger_shr_ptr> own;
    std::atomic<int> beats{0};
    std::unique_ptr<ll::base::periodic_function> pf;
    for (int k = 0; k < nops; k++) {
        int w = static_cast<int>(r.below(100));
        auto& l = *c.loggers[r.below(c.loggers.size())];
        int op = 0;
        if (w < 40) { log_some(l, r); op = 1; c.logged++; }
        else if (w < 46) {
            auto p = ll::get_logger(r.pick(c.names));
            if (p) { log_some(*p, r); c.logged++; }
            op = 2;
        } else if (w < 50) { l.flush(); op = 3; }
        else if (w < 53) {
            if (c.pools) { own.push_back(make_logger(c, r, r.pick(c.names))); log_some(*own.back(), r); }
            op = 4;
        } else if (w < 55) { ll::remove_logger(r.pick(c.names)); op = 5; }
        else if (w < 57) { l.set_log_level(static_cast<lvl>(r.range(0, 6))); op = 6; }
        else if (w < 58) { l.set_flush_level(static_cast<lvl>(r.range(0, 6))); op = 7; }
        else if (w < 61) {
            if (c.settings) ll::set_pattern(r.pick(c.names), patterns[r.below(12)]);
            op = 8;
        } else if (w < 63) { ll::set_log_level(r.pick(c.names), static_cast<lvl>(r.range(0, 6))); ll::set_flush_level(r.pick(c.names), static_cast<lvl>(r.range(0, 6))); op = 9; }
        else if (w < 65) {
            if (c.settings) switch (r.below(5)) {
                case 4: ll::set_auto_register_logger(true); break;
                case 0: ll::set_global_pattern(patterns[r.below(12)]); break;
                case 1: ll::set_global_formatter(ll::make_unique<user_formatter>(sf("g%d ", k))); break;
                case 2: ll::set_global_log_level(static_cast<lvl>(r.range(0, 5))); break;
                default: ll::set_global_flush_level(static_cast<lvl>(r.range(0, 6)));
            }
            op = 10;
        } else if (w < 67) { uint64_t n = 0; ll::exec_all([&](ll::logger_shr_ptr p) { n += p->name().size() + static_cast<uint64_t>(p->get_log_level()); }); op = 11; }
        else if (w < 69) { ll::flush_all(); op = 12; }
        else if (w < 71) {
            if (c.flusher) { if (r.chance(50)) ll::flush_every(std::chrono::milliseconds(r.range(0, 5))); else ll::flush_every(std::chrono::microseconds(r.range(0, 2000))); }
            op = 13;
        } else if (w < 74) { l.dump_backtrace(); op = 14; }
        else if (w < 76) { if (r.chance(60)) l.enable_backtrace_n(r.below(20)); else l.disable_backtrace(); op = 15; }
        else if (w < 78) { c.sinks[r.below(c.sinks.size())]->set_level(static_cast<lvl>(r.range(0, 6))); op = 16; }
        else if (w < 81) {
            auto& s = c.sinks[r.below(c.sinks.size())];
            if (r.chance(50)) s->set_pattern(patterns[r.below(12)]);
            else if (r.chance(50)) s->set_formatter(ll::make_unique<user_formatter>("u "));
            else {
                auto f = ll::make_unique<sk::pattern_formatter>();
                f->add_custom_flag<user_flag>('*');
                f->set_pattern("%* %v %H");
                s->set_formatter(std::move(f));
            }
            op = 17;
        } else if (w < 82) {
            if (!c.colored.empty()) c.colored[r.below(c.colored.size())]->set_level_color(static_cast<lvl>(r.range(0, 5)), "\033[1m");
            op = 18;
        } else if (w < 84) {
            if (c.pools) {
                int kind = static_cast<int>(r.below(3));
                size_t q = r.pick(queue_sizes()), n = 1 + r.below(3);
                if (q > 1000) q = 100;
                if (c.closing && r.chance(25)) { ll::close(); stat("closed_meanwhile"); }
                else if (c.closing && r.chance(10)) ll::remove_all();
                else ll::register_thread_pool(make_pool(kind, q, n));
            }
            op = 19;
        } else if (w < 86) {
            if (auto p = ll::get_thread_pool()) { c.ops += p->message_queue_size() + p->threads_size(); }
            op = 20;
        } else if (w < 88) {
            // a pool and loggers of its own, on shared sinks
            auto p = make_pool(static_cast<int>(r.below(3)), 1 + r.below(50), 1 + r.below(2));
            auto a = std::make_shared<ll::async_logger>(sf("own%d", k), c.sinks[r.below(c.sinks.size())], p);
            for (int j = r.range(0, 20); j; j--) log_some(*a, r);
            if (r.chance(50)) a->flush();
            if (r.chance(30)) { p.reset(); log_some(*a, r); }
            if (r.chance(30)) own.push_back(a);
            op = 21;
        } else if (w < 90) {
            if (c.use_default) {
                if (r.chance(20)) ll::set_default_logger(c.loggers[r.below(c.loggers.size())]);
                else { ll::info("{} {}", k, who); ll::log(lvl::error, scratch_text(r)); if (auto d = ll::get_default_logger()) c.ops += d->name().size(); }
            }
            op = 22;
        } else if (w < 92) {
            auto n = sf("z%d_%d", who, k);
            auto x = std::make_shared<ll::logger>(n, c.sinks[r.below(c.sinks.size())]);
            if (c.settings) { if (r.chance(50)) ll::initialize_logger(x); else ll::register_logger(x); }
            log_some(*x, r);
            if (r.chance(70)) ll::remove_logger(n);
            op = 23;
        } else if (w < 94) {
            if (pf && r.chance(60)) pf.reset();
            else pf = ll::make_unique<ll::base::periodic_function>([&] { beats++; }, std::chrono::microseconds(r.range(0, 1500)));
            op = 24;
        } else if (w < 96) {
            std::shared_ptr<ll::logger> x = std::make_shared<ll::logger>("base", c.sinks[r.below(c.sinks.size())]);
            auto y = x->clone(sf("clone%d", k));
            log_some(*y, r);
            x.reset();
            log_some(*y, r);
            op = 25;
        } else if (w < 98) {
            // a short-lived thread: its thread-local parts of the queues come and go
            uint64_t sd = r.next();
            std::thread([&c, sd] {
                rng q(sd);
                auto& x = *c.loggers[q.below(c.loggers.size())];
                for (int j = q.range(1, 10); j; j--) log_some(x, q);
                if (q.chance(50)) x.flush();
            }).join();
            op = 26;
        } else {
            own.clear();
            op = 27;
        }
        opcount[op]++;
        c.ops++;
        tick();
    }
}

static void block_queue_case(rng& r, uint64_t cs) {
    // the queue itself, with elements that own memory
    ll::base::block_queue<std::unique_ptr<std::string>> q(1 + r.below(10));
    int np = r.range(1, 3), nc = r.range(1, 3), n = r.range(10, 80);
    std::vector<std::thread> ts;
    std::atomic<int> taken{0}, put{0}, producing{np};
    for (int p = 0; p < np; p++) ts.emplace_back([&, p] {
        rng x(hash_mix(cs, static_cast<uint64_t>(p) + 50));
        for (int k = 0; k < n; k++) {
            std::unique_ptr<std::string> e(new std::string(scratch_text(x)));
            if (x.chance(80)) q.enqueue(std::move(e));
            else if (x.chance(50)) q.enqueue_nowait(std::move(e));
            else q.enqueue_if_have_room(std::move(e));
            put++;
            tick();
        }
        producing--;
    });
    for (int p = 0; p < nc; p++) ts.emplace_back([&, p] {
        rng x(hash_mix(cs, static_cast<uint64_t>(p) + 150));
        while (producing.load() || q.size()) {
            std::unique_ptr<std::string> e;
            if (q.dequeue_for(e, std::chrono::milliseconds(1)) && e) { taken++; opcount[38] += e->size() ? 1 : 0; }
            tick();
        }
    });
    for (auto& t : ts) t.join();
    stat("queue_elements", static_cast<uint64_t>(put.load()));
    (void)taken;
}

static void backtracer_case(rng& r, uint64_t cs) {
    // a backtracer that is copied while others use it
    ll::base::backtracer b;
    b.enable_with_size(1 + r.below(6));
    std::vector<std::thread> ts;
    std::atomic<uint64_t> seen{0};
    int n = r.range(10, 80), nt = r.range(2, 4);
    for (int p = 0; p < nt; p++) ts.emplace_back([&, p] {
        rng x(hash_mix(cs, static_cast<uint64_t>(p) + 250));
        ll::base::backtracer mine;
        auto look = [&](const ll::base::log_msg& m) { seen += m.msg.size() + m.logger_name.size(); };
        for (int k = 0; k < n; k++) {
            std::string t = scratch_text(x);
            switch (x.below(8)) {
                case 0: { ll::base::backtracer c(b); c.foreach_do(look); break; }
                case 1: mine = b; mine.foreach_do(look); break;
                case 2: if (x.chance(30)) { ll::base::backtracer c(std::move(b)); c.foreach_do(look); } else b.foreach_do(look); break;
                case 3: if (x.chance(20)) b.disable(); else if (x.chance(30)) b.enable_with_size(x.below(8)); else seen += b.is_enabled(); break;
                default: b.push_back(ll::base::log_msg(lvl::info, ll::fmt_string_view(t.data(), t.size()), "tracer"));
            }
            tick();
        }
    });
    for (auto& t : ts) t.join();
    stat("backtracer_operations", static_cast<uint64_t>(n * nt));
}

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    shared_case c;
    c.cs = cs;
    c.dir = S().tmp + sf("/w%llu", (unsigned long long)i);
    ::mkdir(c.dir.c_str(), 0755);
    ll::close();
    ll::set_auto_register_logger(true);
    ll::set_global_pattern("%+");
    ll::set_global_log_level(lvl::trace);
    ll::set_global_flush_level(lvl::off);
    c.pools = r.chance(60);
    c.closing = r.chance(40);
    c.flusher = r.chance(50);
    c.use_default = r.chance(40);
    c.settings = r.chance(70);
    int nth = r.range(2, 6), nops = r.range(20, 120);
    unsigned lv = static_cast<unsigned>(r.below(4));
    int kind = static_cast<int>(r.below(3));
    size_t q = 1 + r.below(r.chance(50) ? 8 : 300), w = 1 + r.below(4);
    for (int k = 0; k < 5; k++) c.names.push_back(sf("n%d", k));
    int ns = r.range(1, 5);
    for (int k = 0; k < ns; k++) c.sinks.push_back(make_sink(c, r));
    auto pool = make_pool(kind, q, w, [] { opcount[35]++; }, [] { opcount[36]++; });
    ll::register_thread_pool(pool);
    // a part of the cases keeps a second pool outside the registry, for loggers that survive replacements
    auto kept = make_pool(static_cast<int>(r.below(3)), 1 + r.below(100), 1 + r.below(2));
    if (r.chance(50)) pool.reset();
    int nl = r.range(1, 5);
    for (int k = 0; k < nl; k++) {
        std::vector<ll::sink_shr_ptr> ss;
        for (int j = r.range(1, 3); j; j--) ss.push_back(c.sinks[r.below(c.sinks.size())]);
        std::string n = k < 3 ? c.names[static_cast<size_t>(k)] : sf("x%d", k);
        ll::logger_shr_ptr l;
        if (r.chance(40)) l = std::make_shared<ll::logger>(n, ss.begin(), ss.end());
        else l = std::make_shared<ll::async_logger>(n, ss.begin(), ss.end(), r.chance(50) ? kept : ll::get_thread_pool());
        l->set_log_level(static_cast<lvl>(r.range(0, 3)));
        l->enable_backtrace_n(r.below(10));
        if (r.chance(50)) l->disable_backtrace();
        if (k < 3) ll::register_logger(l);
        c.loggers.push_back(l);
    }
    if (c.use_default) ll::set_default_logger(c.loggers[0]);
    // free functions need a default logger: its name is not removed in these cases, and pools stay
    if (c.use_default) { c.names = {"n3", "n4"}; c.pools = false; }
    label(sf("case %llu: %d threads, %d operations, %s(%zu,%zu)%s%s%s%s, noise %u", (unsigned long long)i, nth, nops, kind_name(kind), q, w, c.pools ? ", pools" : "",
             c.flusher ? ", flusher" : "", c.use_default ? ", default" : "", c.settings ? ", settings" : "", lv));
    noise(cs, lv);
    std::vector<std::thread> ts;
    for (int t = 0; t < nth; t++) ts.emplace_back([&, t] { actor(c, t, nops); });
    bool early = r.chance(20), last_ref = r.chance(30);
    if (early && !c.use_default) { sleep_us(static_cast<long>(r.below(3000))); ll::register_thread_pool(nullptr); }
    if (last_ref) { kept.reset(); pool.reset(); }
    for (auto& t : ts) t.join();
    noise_off();
    uint64_t n = c.ops.load(), lg = c.logged.load();
    if (r.chance(20)) block_queue_case(r, cs);
    if (r.chance(20)) backtracer_case(r, cs);
    // in any order: loggers, pools, sinks
    switch (r.below(4)) {
        case 0: ll::close(); c.loggers.clear(); kept.reset(); pool.reset(); break;
        case 1: c.loggers.clear(); ll::remove_all(); kept.reset(); pool.reset(); ll::close(); break;
        case 2: kept.reset(); pool.reset(); ll::close(); c.loggers.clear(); break;
        default: c.sinks.clear(); c.colored.clear(); kept.reset(); c.loggers.clear(); pool.reset(); ll::close();
    }
    c.sinks.clear();
    c.colored.clear();
    ll::set_global_pattern("%+");      // releases a formatter installed as the global one
    // nothing the library was given is kept
    VF_CHECK(live_sinks.load() == 0, "sink_kept", "%d sinks of the user's still exist after everything was closed", live_sinks.load());
    VF_CHECK(live_formatters.load() == 0, "formatter_kept", "%d formatters of the user's still exist after everything was closed", live_formatters.load());
    live_sinks = 0;
    live_formatters = 0;
    stat("operations", n);
    stat("messages", lg);
    casedone(hash_mix(cs, n * 1000003 + lg), nth > 1);
    if (i < 3) sample(S().label);
    rm_rf(c.dir);
}

void vf_main() {
    // console sinks write to files, reports too
    fflush(stdout);
    int fd = ::open((S().tmp + "/stdout").c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
    dup2(fd, 1);
    ::close(fd);
    fd = ::open("/dev/null", O_WRONLY);
    if (!arg("stderr", 0)) dup2(fd, 2);
    ::close(fd);
    long n = arg("cases", 1000);
    budget b;
    for (long i = 0; i < n && b.left() && !too_many(); i++) {
        one_case(static_cast<uint64_t>(i));
        if (i % 50 == 49) { fflush(stdout); if (ftruncate(1, 0)) _exit(3); }
    }
    static const char* on[] = {"", "log", "log_by_name", "flush", "create", "remove", "set_log_level", "set_flush_level", "set_pattern", "set_levels_by_name", "set_global",
                               "exec_all", "flush_all", "flush_every", "dump_backtrace", "toggle_backtrace", "sink_level", "sink_formatter", "level_color", "replace_pool",
                               "get_pool", "own_pool", "default_logger", "register", "periodic_function", "clone", "short_thread"};
    for (int k = 1; k <= 26; k++) stat(std::string("op_") + on[k], opcount[k].load());
}
