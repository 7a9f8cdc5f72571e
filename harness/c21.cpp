// C21: periodic functions and periodic flushing.
#include "async.h"
#include "clock.h"
#include "base/periodic_function.h"

using namespace vf;
using pf = ll::base::periodic_function;

[[noreturn]] static void stuck(const std::string& key, const std::string& d) {
    viol(key, d);
    flush_results();
    emit("END");
    _exit(0);
}
struct mon {
    std::mutex m;
    std::vector<int64_t> start, end;
    std::atomic<int> inside{0}, calls{0};
    std::atomic<bool> dead{false};
    int64_t born = 0, every = 0;
    long work_us = 0;
    std::function<void()> extra;
    void call() {
        int64_t t = now_ns();
        if (dead) viol("after_destruction", "the function was called after its destruction had returned");
        if (inside++) viol("overlap", "two calls at the same time");
        {
            std::lock_guard<std::mutex> g(m);
            int64_t k = static_cast<int64_t>(start.size()) + 1;
            if (t < born + k * every) viol("too_early", sf("call %lld came %lld us after the construction with an interval of %lld us", (long long)k, (long long)(t - born) / 1000, (long long)every / 1000));
            if (!end.empty() && t < end.back() + every) viol("too_often", sf("a call %lld us after the end of the one before, interval %lld us", (long long)(t - end.back()) / 1000, (long long)every / 1000));
            start.push_back(t);
        }
        if (work_us) sleep_us(work_us);
        if (extra) extra();
        {
            std::lock_guard<std::mutex> g(m);
            end.push_back(now_ns());
        }
        inside--;
        calls++;
        tick();
    }
};
// an interval of ns in one of several representations
static std::unique_ptr<pf> make(const std::function<void()>& f, int64_t ns, int rep) {
    using namespace std::chrono;
    switch (rep) {
        case 0: return std::unique_ptr<pf>(new pf(f, nanoseconds(ns)));
        case 1: if (ns % 1000 == 0) return std::unique_ptr<pf>(new pf(f, microseconds(ns / 1000))); break;
        case 2: if (ns % 1000000 == 0) return std::unique_ptr<pf>(new pf(f, milliseconds(ns / 1000000))); break;
        case 3: return std::unique_ptr<pf>(new pf(f, duration<double>(static_cast<double>(ns + 1) / 1e9)));
        case 4: if (ns % 1000000 == 0) return std::unique_ptr<pf>(new pf(f, duration<int, std::milli>(static_cast<int>(ns / 1000000)))); break;
    }
    return std::unique_ptr<pf>(new pf(f, nanoseconds(ns)));
}
// destroys p in a thread of its own, so that a destruction that does not come back is seen
static int64_t destroy(std::unique_ptr<pf>& p, const char* what) {
    std::atomic<bool> done{false};
    int64_t t = now_ns();
    std::thread d([&] { p.reset(); done = true; });
    int64_t since = now_ns();
    while (!done) {
        if (now_ns() - since > 20000000000ll) stuck("destruction_hangs", sf("the destruction of a periodic function %s did not return within 20 s", what));
        sleep_us(20);
    }
    d.join();
    return now_ns() - t;
}

static size_t g_threads = 0;      // of the harness itself

// ---- single functions
static void run_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int64_t ns = r.pick(std::vector<int64_t>{1, 1000, 50000, 200000, 1000000, 1000000, 2000000, 3000000, 5000000});
    int want = r.range(0, 6), rep = r.range(0, 4);
    auto m = std::make_shared<mon>();
    m->every = ns;
    m->work_us = r.chance(50) ? 0 : static_cast<long>(r.below(3000));
    label(sf("case %llu: interval %lld us, work %ld us, %d calls", (unsigned long long)i, (long long)ns / 1000, m->work_us, want));
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    clock_setter clk(cs, r.chance(40));
    m->born = now_ns();
    auto p = make([m] { m->call(); }, ns, rep);
    if (!settle([&] { return m->calls >= want; })) stuck("not_called", sf("only %d calls with an interval of %lld us", m->calls.load(), (long long)ns / 1000));
    if (r.chance(50)) sleep_us(static_cast<long>(r.below(static_cast<uint64_t>(ns / 1000 + m->work_us + 10))));
    destroy(p, "in use");
    VF_CHECK(m->inside == 0, "running_after_destruction", "a call is still running after the destruction");
    m->dead = true;
    int c = m->calls;
    if (r.chance(30)) sleep_us(std::min<long>(5000, static_cast<long>(ns / 500)));
    VF_CHECK(m->calls == c && m->inside == 0, "after_destruction", "called after the destruction");
    noise_off();
    stat("calls", static_cast<uint64_t>(c));
    stat("functions");
    uint64_t h = cs;
    casedone(hash_mix(h, static_cast<uint64_t>(c)), c > 0);
    if (i < 3) sample(S().label);
}
// ---- the moment of destruction
static void destruct_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    auto m = std::make_shared<mon>();
    int k = r.range(0, 2);
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    clock_setter clk(cs, r.chance(40));
    if (k == 0) {
        // the rest of a long interval is not waited for; nothing is called
        int what = r.range(0, 6);
        label(sf("case %llu: destruction within a long interval (%d)", (unsigned long long)i, what));
        m->every = 3600ll * 1000000000;
        m->born = now_ns();
        std::unique_ptr<pf> p;
        using namespace std::chrono;
        auto f = [m] { m->call(); };
        switch (what) {
            case 0: p.reset(new pf(f, hours(1))); break;
            case 1: p.reset(new pf(f, hours::max())); break;
            case 2: p.reset(new pf(f, seconds::max())); break;
            case 3: p.reset(new pf(f, nanoseconds::max())); break;
            case 4: p.reset(new pf(f, duration<double>(1e30))); break;
            case 5: p.reset(new pf(f, milliseconds(9223372036855ll + static_cast<long long>(r.below(100))))); break;
            default: p.reset(new pf(f, hours(24 * 365 * 99))); break;
        }
        if (r.chance(60)) sleep_us(static_cast<long>(r.below(r.chance(20) ? 9000 : 300)));
        destroy(p, "with an interval of an hour or more");
        VF_CHECK(m->calls == 0, "too_early", "a function with an interval of an hour or more was called at once");
        stat("long_intervals");
    } else if (k == 1) {
        // a running call is waited for
        label(sf("case %llu: destruction during a call", (unsigned long long)i));
        auto gate = std::make_shared<std::atomic<int>>(0);
        m->every = 1000;
        m->extra = [gate] { if ((*gate)++ == 0) { while (*gate < 1000) sleep_us(20); } };
        m->born = now_ns();
        std::unique_ptr<pf> p(new pf([m] { m->call(); }, std::chrono::microseconds(1)));
        wait_until([&] { return m->inside > 0; });
        std::atomic<bool> back{false};
        bool open_late = r.chance(50);
        std::thread d([&] { p.reset(); back = true; });
        sleep_us(static_cast<long>(r.below(open_late ? 3000 : 200)));
        VF_CHECK(!back || m->inside == 0, "does_not_wait", "the destruction returned during a call");
        bool was_back = back;
        VF_CHECK(!was_back, "does_not_wait", "the destruction returned although a call cannot end");
        *gate = 1000;
        d.join();
        VF_CHECK(m->inside == 0, "does_not_wait", "a call is still running after the destruction");
        m->dead = true;
        stat("destructions_during_calls");
    } else {
        label(sf("case %llu: destruction right after construction", (unsigned long long)i));
        int64_t ns = r.pick(std::vector<int64_t>{1, 1000, 1000000, 3600ll * 1000000000});
        for (int n = r.range(1, 5); n > 0; n--) {
            auto mm = std::make_shared<mon>();
            mm->every = ns;
            mm->born = now_ns();
            auto p = make([mm] { mm->call(); }, ns, 0);
            destroy(p, "just made");
            VF_CHECK(mm->inside == 0, "does_not_wait", "a call is still running after the destruction");
            mm->dead = true;
            stat("functions");
        }
    }
    noise_off();
    casedone(hash_mix(cs, static_cast<uint64_t>(m->calls)), true);
}
static void never_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    label(sf("case %llu: intervals that are not positive", (unsigned long long)i));
    using namespace std::chrono;
    std::atomic<int> calls{0};
    auto f = [&] { calls++; };
    size_t t0 = g_threads;
    bool steady = wait_for([&] { return thread_count() == t0; }, 5000000);
    {
        pf a(f, seconds(0)), b(f, nanoseconds(-1)), c(f, milliseconds(-5)), d(f, hours::min()), e(f, duration<double>(-0.001)), g(f, duration<double>(0.0)), h(f, nanoseconds::min());
        sleep_us(static_cast<long>(2000 + r.below(3000)));
        VF_CHECK(!steady || thread_count() == t0, "thread", "%zu threads for intervals that are not positive", thread_count() - t0);
    }
    VF_CHECK(calls == 0, "not_positive", "%d calls although no interval was positive", calls.load());
    stat("non_positive_intervals", 7);
    casedone(cs, true);
}
// ---- often enough, compared with a thread that sleeps as long
static void rate_case(uint64_t i) {
    label(sf("case %llu: rate", (unsigned long long)i));
    double worst = 1;
    for (int attempt = 0; attempt < 4; attempt++) {
        std::atomic<int> calls{0}, ref{0};
        std::atomic<bool> stop{false};
        long us = 4000;
        std::thread t([&] { while (!stop) { sleep_us(us); ref++; } });
        std::unique_ptr<pf> p(new pf([&] { calls++; }, std::chrono::microseconds(us)));
        sleep_us(200000);
        int c = calls, n = ref;
        stop = true;
        p.reset();
        t.join();
        tick();
        worst = n ? static_cast<double>(c) / n : 1;
        if (n >= 10 && worst < 0.65) continue;
        stat("rate_checks");
        return casedone(caseseed(i), true);
    }
    viol("too_rare", sf("four times in a row the function was called only %.2f times as often as a thread woke up that sleeps for the same interval", worst));
}

// ---- periodic flushing
struct flogger {
    ll::logger_shr_ptr l;
    std::shared_ptr<rec_sink> s;
};
static flogger fl(const std::string& name, const ll::thread_pool_shr_ptr& tp, std::function<void()> on_flush = nullptr) {
    flogger f;
    f.s = std::make_shared<rec_sink>();
    f.s->on_flush = on_flush;
    ll::sink_shr_ptr sp = f.s;
    if (tp) f.l = std::make_shared<ll::async_logger>(name, sp, tp); else f.l = std::make_shared<ll::logger>(name, sp);
    return f;
}
static void flush_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    int n = r.range(1, 5);
    bool async = r.chance(40);
    auto tp = async ? make_pool(r.range(0, 2), r.pick(queue_sizes()), 1) : nullptr;
    if (async) ll::register_thread_pool(tp);
    int ms = r.range(1, 3);
    label(sf("case %llu: flush_every(%d ms), %d loggers", (unsigned long long)i, ms, n));
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    std::vector<flogger> f;
    // every flush of a synchronous logger, with its time
    struct times { std::mutex m; std::vector<int64_t> t; };
    auto tm = std::make_shared<times>();
    for (int k = 0; k < n; k++) {
        bool timed = k == 0;
        f.push_back(fl(sf("l%d", k), !timed && async && r.chance(60) ? tp : nullptr, timed ? std::function<void()>([tm] { std::lock_guard<std::mutex> g(tm->m); tm->t.push_back(now_ns()); }) : nullptr));
        ll::register_logger(f.back().l);
    }
    auto outside = fl("not registered", nullptr);
    // threads that were joined may be listed for a moment
    size_t threads0 = g_threads + (async ? 1 : 0);
    bool steady = wait_for([&] { return thread_count() == threads0; }, 5000000);
    int replace = r.range(0, 4);
    int64_t t0 = now_ns();
    ll::flush_every(std::chrono::milliseconds(ms));
    for (int k = 0; k < replace; k++) {
        if (r.chance(50)) sleep_us(static_cast<long>(r.below(4000)));
        if (r.chance(20)) ll::flush_every(std::chrono::hours(1));
        if (r.chance(20)) ll::flush_every(std::chrono::seconds(0));
        t0 = now_ns();
        ll::flush_every(std::chrono::milliseconds(ms));
        { std::lock_guard<std::mutex> g(tm->m); tm->t.clear(); }     // those of the previous one
    }
    size_t th = 0;
    // a thread that ended may be listed for a moment
    VF_CHECK(!steady || wait_for([&] { th = thread_count(); return th == threads0 + 1; }, 5000000), "flusher_threads", "%zu threads more after setting periodic flushing %d times", th - threads0, replace + 1);
    std::vector<size_t> base;
    for (auto& x : f) base.push_back(x.s->nflush);
    int rounds = r.range(1, 4);
    bool ok = settle([&] { for (size_t k = 0; k < f.size(); k++) if (f[k].s->nflush < base[k] + static_cast<size_t>(rounds)) return false; return true; });
    if (!ok) stuck("not_flushed", "a registered logger is not flushed periodically");
    // setting it again ends the previous one: nothing is flushed for the next hour
    int how = r.range(0, 3);
    if (how == 0) ll::flush_every(std::chrono::hours(1));
    else if (how == 1) ll::flush_every(std::chrono::seconds(0));
    else if (how == 2) ll::flush_every(std::chrono::seconds::max());
    else ll::close();
    std::vector<size_t> after;
    for (auto& x : f) after.push_back(x.s->nflush);
    sleep_us(static_cast<long>(ms * 1000 + r.below(5000)));
    for (size_t k = 0; k < f.size(); k++) VF_CHECK(f[k].s->nflush == after[k], "still_flushing", "flushed %zu times more after periodic flushing was %s", f[k].s->nflush - after[k], how == 3 ? "closed" : how == 1 ? "switched off" : "replaced by one with a long interval");
    VF_CHECK(outside.s->nflush == 0, "not_registered", "a logger that is not registered was flushed");
    if (how != 3) ll::close();
    noise_off();
    {
        std::lock_guard<std::mutex> g(tm->m);
        // with one flusher at a time the flushes of one logger are an interval apart
        int64_t prev = t0;
        for (auto t : tm->t) {
            VF_CHECK(t - prev >= ms * 1000000ll, "too_often", "flushed again after %lld us with an interval of %d ms", (long long)(t - prev) / 1000, ms);
            prev = t;
        }
        stat("flushes_timed", tm->t.size());
    }
    stat("flush_cases");
    casedone(hash_mix(cs, f[0].s->nflush), true);
}
// loggers, pools and threads come and go
static void churn_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    label(sf("case %llu: loggers, pools and threads come and go", (unsigned long long)i));
    noise(cs, static_cast<unsigned>(r.range(0, 2)));
    stderr_capture cap;
    ll::flush_every(std::chrono::microseconds(r.pick(std::vector<int>{100, 500, 1000})));
    auto fixed = fl("fixed", nullptr);
    ll::register_logger(fixed.l);
    std::atomic<uint64_t> made{0};
    std::vector<std::thread> th;
    int nt = r.range(1, 3), per = r.range(3, 20);
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            rng p(hash_mix(cs, static_cast<uint64_t>(t) + 9));
            for (int k = 0; k < per; k++) {
                if (t == 0 && p.chance(30)) ll::register_thread_pool(make_pool(p.range(0, 2), p.pick(std::vector<size_t>{1, 2, 64}), static_cast<size_t>(p.range(1, 2))));
                auto f = fl(sf("t%d_%d", t, k), ll::get_thread_pool());
                ll::register_logger(f.l);
                for (int m = p.range(0, 20); m > 0; m--) f.l->info("x");
                if (p.chance(30)) sleep_us(static_cast<long>(p.below(1500)));
                if (p.chance(70)) ll::remove_logger(f.l->name());
                if (p.chance(20)) std::thread([&] { f.l->info("from a thread"); }).join();
                if (p.chance(10)) ll::flush_every(std::chrono::microseconds(p.range(100, 2000)));
                made++;
            }
        });
    for (auto& t : th) t.join();
    size_t b = fixed.s->nflush;
    if (!settle([&] { return fixed.s->nflush >= b + 3; })) stuck("not_flushed", "periodic flushing stopped while loggers and pools came and went");
    ll::close();
    noise_off();
    b = fixed.s->nflush;
    sleep_us(1500);
    VF_CHECK(fixed.s->nflush == b, "still_flushing", "flushed after close()");
    stat("churned_loggers", made);
    casedone(hash_mix(cs, b), true);
}

// ---- the process ends normally while loggers are flushed periodically
static std::atomic<bool> g_gone{false};       // the registry has been destroyed
static std::vector<std::shared_ptr<ll::logger>> g_keep;
struct exit_sink : ll::sinks::sink {
    std::atomic<bool> alive{true};
    long us = 0;
    void log(const ll::base::log_msg&) override {}
    void flush() override {
        if (g_gone) { fprintf(stderr, "FLUSH AFTER THE END\n"); fflush(stderr); _exit(3); }
        if (us) sleep_us(us);
        if (!alive) { fprintf(stderr, "DESTROYED IN A FLUSH\n"); fflush(stderr); _exit(4); }
    }
    ~exit_sink() override { alive = false; }
    void set_pattern(const std::string&) override {}
    void set_formatter(ll::formatter_uni_ptr) override {}
};
static void child() {
    atexit([] { g_gone = true; });            // registered before the registry exists: called after its destruction
    int n = static_cast<int>(arg("n", 10)), how = static_cast<int>(arg("how", 0));
    if (how & 1) ll::register_thread_pool(make_pool(how >> 4 & 3, 8, 1));
    for (int k = 0; k < n; k++) {
        auto s = std::make_shared<exit_sink>();
        s->us = arg("us", 100);
        auto tp = how & 1 && k % 2 ? ll::get_thread_pool() : nullptr;
        std::shared_ptr<ll::logger> l;
        if (tp) l = std::make_shared<ll::async_logger>(sf("l%d", k), s, tp);
        else l = std::make_shared<ll::logger>(sf("l%d", k), s);
        ll::register_logger(l);
        if (how & 2) g_keep.push_back(l);
    }
    ll::flush_every(std::chrono::microseconds(arg("every", 1000)));
    sleep_us(arg("run", 1000));
    if (how & 4) ll::close();
    S().done = true;
    if (how & 8) std::thread([] { exit(0); }).join();
    exit(0);
}
static void exit_case(uint64_t i) {
    uint64_t cs = caseseed(i + 700000);
    rng r(cs);
    int how = static_cast<int>(r.below(16)) | r.range(0, 2) << 4, n = r.pick(std::vector<int>{1, 5, 30, 200});
    label(sf("exit %llu: %d loggers, how=%d", (unsigned long long)i, n, how));
    std::vector<std::string> a{"/proc/self/exe", "child", sf("n=%d", n), sf("how=%d", how), sf("us=%d", r.pick(std::vector<int>{0, 10, 300, 1000})),
                               sf("every=%d", r.pick(std::vector<int>{1, 100, 1000})), sf("run=%d", r.range(0, 30000)), "watchdog=100000"};
    std::vector<char*> av;
    for (auto& x : a) av.push_back(&x[0]);
    av.push_back(nullptr);
    std::string errp = sf("%s/exit_%llu.err", S().tmp.c_str(), (unsigned long long)i);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = ::open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        unsetenv("VF_OUT");
        execv("/proc/self/exe", av.data());
        _exit(127);
    }
    int st = 0;
    int64_t end = now_ns() + 40000000000ll;
    bool done = false;
    while (now_ns() < end) {
        if (waitpid(pid, &st, WNOHANG) == pid) { done = true; break; }
        tick();
        sleep_us(300);
    }
    if (!done) { kill(pid, SIGKILL); waitpid(pid, &st, 0); viol("exit_hangs", "a process that flushes periodically and exits did not end within 40 s"); return; }
    std::string err = read_file(errp);
    VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit_status", "a process that ended normally while flushing periodically had status 0x%x: %s", st, esc(err, 1500).c_str());
    ::unlink(errp.c_str());
    stat("process_exits");
    casedone(hash_mix(cs, static_cast<uint64_t>(how)), true);
}

void vf_main() {
    if (S().mode == "child") child();
    sleep_us(20000);
    g_threads = thread_count();
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++) {
        if (S().mode == "exit") { exit_case(i); continue; }
        switch (i % 12) {
            case 0: case 1: case 2: run_case(i); break;
            case 3: case 4: case 5: case 6: destruct_case(i); break;
            case 7: case 8: case 9: flush_case(i); break;
            case 10: churn_case(i); break;
            default: if (i % 24 == 11) never_case(i); else if (i % 120 == 23) rate_case(i); else destruct_case(i);
        }
    }
}
