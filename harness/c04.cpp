// C04: tearing a pool down drains it, ends its workers, and leaves other and later pools alone.
#include "async.h"
#include "sinks/basic_file_sink.h"
using namespace vf;

struct worker_set {
    std::mutex m;
    std::set<long> in;
    std::atomic<int> started{0}, stopped{0};
    void add() { std::lock_guard<std::mutex> g(m); in.insert(gettid_()); started++; }
    bool has(long t) { std::lock_guard<std::mutex> g(m); return in.count(t) != 0; }
};
struct pool_t {
    int kind;
    size_t q, w;
    std::shared_ptr<worker_set> ws = std::make_shared<worker_set>();
    ll::thread_pool_shr_ptr tp;
};
static pool_t new_pool(rng& r, int kind) {
    pool_t p;
    p.kind = kind;
    p.q = r.chance(60) ? queue_sizes()[r.below(9)] : r.pick(queue_sizes());
    p.w = static_cast<size_t>(r.range(1, 3));
    auto ws = p.ws;
    p.tp = make_pool(kind, p.q, p.w, [ws] { ws->add(); }, [ws] { ws->stopped++; });
    return p;
}
static size_t drop_reports(const std::string& err, size_t* other) {
    size_t n = 0;
    *other = 0;
    for (auto& x : reports(err)) { if (x.second.find("thread pool does not exist") != std::string::npos) n++; else (*other)++; }
    return n;
}

// one pool, many producers; torn down at some point of progress
static void teardown_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = static_cast<int>(i % 3);
    int prods = r.range(1, 8), per = r.range(1, static_cast<int>(arg("per", 60)));
    // 0: after the producers ended; 1: while they run; 2: while a sink is stalled; 3: after a pause
    int when = r.range(0, 3);
    int slow = r.chance(40) ? r.range(1, 100) : 0;
    bool flushers = r.chance(40);
    size_t threads0 = thread_count();
    stderr_capture cap;
    pool_t P = new_pool(r, kind);
    label(sf("teardown %llu: %s queue=%zu workers=%zu threads=%d messages=%d when=%d slow=%d flush=%d", (unsigned long long)i, kind_name(kind),
             P.q, P.w, prods, per, when, slow, flushers));
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400, 1500})));
    auto sink = std::make_shared<rec_sink>();
    std::atomic<bool> gate{when != 2};
    sink->on_log = [&](const ll::base::log_msg& m) { while (!gate.load()) sleep_us(20); if (slow && m.msg.size() % 4 == 0) sleep_us(slow); };
    auto lg = std::make_shared<ll::async_logger>("L", sink, P.tp);
    std::weak_ptr<ll::base::thread_pool> weak = P.tp;
    std::atomic<uint64_t> calls{0}, flush_calls{0};
    std::atomic<bool> torn{false};
    std::vector<std::thread> ts;
    for (int p = 0; p < prods; p++)
        ts.emplace_back([&, p] {
            rng t(hash_mix(cs, static_cast<uint64_t>(p)));
            for (int s = 0; s < per; s++) {
                lg->log(ll::level::info, "{}:{}:{}", p, s, std::string(t.below(20), 'y'));
                calls++;
                tick();
                if (flushers && t.chance(10)) { lg->flush(); flush_calls++; tick(); }
            }
        });
    std::thread opener;
    if (when == 2) opener = std::thread([&, d = r.range(0, 3000)] { sleep_us(d); gate = true; });
    if (when == 0) for (auto& t : ts) t.join();
    if (when == 1 || when == 2) sleep_us(r.range(0, 400));
    if (when == 3) sleep_us(r.range(500, 5000));
    P.tp.reset();
    torn = true;
    if (when == 0) {
        // nobody else holds the pool: reset() was the teardown
        VF_CHECK(weak.expired(), "C04-alive", "the pool outlives its last owner");
        VF_CHECK(sink->nlog.load() == calls.load(), "C04-not-drained", "%zu of %llu messages were output when the destruction returned", sink->nlog.load(), (unsigned long long)calls.load());
        VF_CHECK(P.ws->stopped.load() == static_cast<int>(P.w), "C04-workers", "%d of %zu workers had ended when the destruction returned", P.ws->stopped.load(), P.w);
    } else
        for (auto& t : ts) t.join();
    if (opener.joinable()) opener.join();
    noise_off();
    size_t n1 = sink->nlog.load();
    VF_CHECK(weak.expired(), "C04-alive", "the pool outlives its last owner");
    // joined threads leave /proc/self/task at their own pace; it has to happen
    bool gone = wait_for([&] { return thread_count() <= threads0; }, 10000000);
    VF_CHECK(gone, "C04-threads", "%zu threads instead of %zu after the teardown", thread_count(), threads0);
    // a logger without pool drops and reports
    lg->log(ll::level::info, "after {}", 1);
    lg->flush();
    std::string err = cap.text();
    size_t other, drops = drop_reports(err, &other);
    uint64_t extra = 2;
    VF_CHECK(other == 0, "C04-reports", "unexpected report: %s", esc(err, 300).c_str());
    VF_CHECK(sink->nlog.load() == n1, "C04-deliver-without-pool", "a logger without pool output a message");
    // each call was delivered exactly once or dropped with a report (flushes report too)
    auto logs = sink->logs();
    std::set<std::pair<int, int>> seen;
    std::map<int, int> last;
    for (auto& x : logs) {
        int p, s;
        if (!parse_id(x.text, p, s)) { viol("C04-invented", x.text); continue; }
        if (!seen.insert({p, s}).second) viol("C04-duplicate", sf("message %d:%d was output twice", p, s));
        VF_CHECK(P.ws->has(x.worker), "C04-wrong-worker", "message %d:%d was output by thread %ld which is no worker of the pool", p, s, x.worker);
    }
    uint64_t nf = sink->nflush.load();
    VF_CHECK(seen.size() + nf + drops == calls.load() + flush_calls.load() + extra, "C04-accounting",
             "%llu log and %llu flush calls, %zu messages and %llu flushes done, %zu dropped with a report", (unsigned long long)calls.load(),
             (unsigned long long)flush_calls.load() + 1, seen.size(), (unsigned long long)nf, drops);
    stat("messages", calls.load());
    stat("dropped_with_report", drops);
    stat(sf("teardown_%s", kind_name(kind)));
    stat(sf("teardown_when_%d", when));
    if (i < 3) sample(sf("%s queue=%zu workers=%zu threads=%d messages=%d: %zu output, %zu dropped", kind_name(kind), P.q, P.w, prods, per, seen.size(), drops));
    casedone(hash_mix(hash_mix(cs, seen.size()), drops), calls.load() > 1);
}

// several pools over time and at once, used by the same threads
static void isolation_case(uint64_t i) {
    uint64_t cs = caseseed(i + 500000);
    rng r(cs);
    int nthreads = r.range(1, 5), steps = r.range(3, 10);
    stderr_capture cap;
    size_t threads0 = thread_count();
    label(sf("isolation %llu: threads=%d steps=%d", (unsigned long long)i, nthreads, steps));
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400})));
    struct live { pool_t p; std::shared_ptr<ll::async_logger> l; std::shared_ptr<rec_sink> s; std::atomic<uint64_t> sent{0}; std::string name; };
    std::vector<std::shared_ptr<live>> cur;
    // persistent threads executing batches handed to them
    struct task { std::vector<std::pair<std::shared_ptr<live>, int>> jobs; };
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::deque<task>> todo(static_cast<size_t>(nthreads));
    int busy = 0;
    bool end = false;
    std::vector<std::thread> ts;
    auto work = [&](size_t t, task& k) {
        for (auto& j : k.jobs) { uint64_t n = j.first->sent++; (void)n; j.first->l->info("{}:{}:{}", t, j.second, j.first->name); tick(); }
    };
    for (size_t t = 0; t < static_cast<size_t>(nthreads); t++)
        ts.emplace_back([&, t] {
            for (;;) {
                task k;
                {
                    std::unique_lock<std::mutex> g(m);
                    cv.wait(g, [&] { return end || !todo[t].empty(); });
                    if (todo[t].empty()) return;
                    k = std::move(todo[t].front());
                    todo[t].pop_front();
                }
                work(t + 1, k);
                k.jobs.clear();
                { std::lock_guard<std::mutex> g(m); busy--; }
                cv.notify_all();
            }
        });
    size_t created = 0;
    int seq = 0;
    auto finish = [&](std::shared_ptr<live>& v) {
        uint64_t want = v->sent.load();
        std::weak_ptr<ll::base::thread_pool> weak = v->p.tp;
        v->p.tp.reset();
        VF_CHECK(weak.expired(), "C04-alive", "the pool outlives its last owner");
        VF_CHECK(v->s->nlog.load() == want, "C04-not-drained", "pool %s: %zu of %llu messages were output when the destruction returned", v->name.c_str(), v->s->nlog.load(), (unsigned long long)want);
        VF_CHECK(v->p.ws->stopped.load() == static_cast<int>(v->p.w), "C04-workers", "%d of %zu workers had ended when the destruction returned", v->p.ws->stopped.load(), v->p.w);
        for (auto& x : v->s->logs()) {
            VF_CHECK(v->p.ws->has(x.worker), "C04-foreign-worker", "pool %s: a message was output by a thread that is no worker of its pool", v->name.c_str());
            VF_CHECK(x.text.size() > v->name.size() && x.text.compare(x.text.size() - v->name.size(), v->name.size(), v->name) == 0, "C04-foreign-message",
                     "pool %s output '%s'", v->name.c_str(), esc(x.text, 80).c_str());
        }
        stat("messages", want);
    };
    for (int st = 0; st < steps && !S().violations.load(); st++) {
        if (cur.size() < 3 && (cur.empty() || r.chance(60))) {
            auto v = std::make_shared<live>();
            v->p = new_pool(r, r.chance(60) ? K_CONC : r.range(0, 2));
            v->s = std::make_shared<rec_sink>();
            if (r.chance(40)) v->s->on_log = [](const ll::base::log_msg& mm) { if (mm.msg.size() % 2) sleep_us(30); };
            v->name = sf("pool%zu_%s", created++, kind_name(v->p.kind));
            v->l = std::make_shared<ll::async_logger>(v->name, v->s, v->p.tp);
            cur.push_back(v);
        }
        // each thread (and sometimes this one) logs to a random mix of the live pools
        {
            std::lock_guard<std::mutex> g(m);
            for (auto& q : todo) {
                task k;
                int n = r.range(0, 30);
                for (int a = 0; a < n; a++) k.jobs.emplace_back(cur[r.below(cur.size())], seq++);
                busy++;
                q.push_back(std::move(k));
            }
        }
        cv.notify_all();
        if (r.chance(50)) { task k; for (int a = 0; a < 10; a++) k.jobs.emplace_back(cur[r.below(cur.size())], seq++); work(0, k); }
        { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return busy == 0; }); }
        while (!cur.empty() && r.chance(45)) {
            size_t k = r.below(cur.size());
            finish(cur[k]);
            cur.erase(cur.begin() + static_cast<long>(k));
        }
    }
    for (auto& v : cur) finish(v);
    cur.clear();
    { std::lock_guard<std::mutex> g(m); end = true; }
    cv.notify_all();
    for (auto& t : ts) t.join();
    noise_off();
    bool gone = wait_for([&] { return thread_count() <= threads0; }, 10000000);
    VF_CHECK(gone, "C04-threads", "%zu threads instead of %zu", thread_count(), threads0);
    VF_CHECK(cap.text().empty(), "C04-reports", "unexpected report: %s", esc(cap.text(), 300).c_str());
    stat("isolation_cases");
    stat("pools_created", created);
    casedone(hash_mix(cs, created), created > 1);
}

// replacement and closing through the registry
static void registry_case(uint64_t i) {
    uint64_t cs = caseseed(i + 900000);
    rng r(cs);
    stderr_capture cap;
    size_t threads0 = thread_count();
    label(sf("registry %llu", (unsigned long long)i));
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 50, 400})));
    std::shared_ptr<ll::async_logger> old;
    std::shared_ptr<rec_sink> olds;
    int rounds = r.range(1, 4);
    uint64_t expected_drops = 0;
    for (int k = 0; k < rounds; k++) {
        int kind = r.range(0, 2);
        size_t q = r.pick(queue_sizes());
        size_t w = static_cast<size_t>(r.range(1, 3));
        size_t oldn = olds ? olds->nlog.load() : 0;
        uint64_t oldsent = 0;
        if (old) { for (int s = 0; s < 40; s++) { old->info("{}:{}", k, s); oldsent++; } }
        std::weak_ptr<ll::base::thread_pool> prev = ll::get_thread_pool();
        if (r.chance(50)) {
            if (kind == 0) ll::initialize_thread_pool<ll::base::lock_thread_pool>(q, w);
            else if (kind == 1) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(q, w);
            else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(q, w);
        } else ll::register_thread_pool(make_pool(kind, q, w));
        if (old) {
            VF_CHECK(prev.expired(), "C04-replaced-alive", "the replaced pool is still alive");
            VF_CHECK(olds->nlog.load() == oldn + oldsent, "C04-replace-drain", "%zu of %llu messages were output when the pool was replaced", olds->nlog.load(), (unsigned long long)(oldn + oldsent));
            size_t n = olds->nlog.load();
            old->info("dropped");
            old->flush();
            expected_drops += 2;
            VF_CHECK(olds->nlog.load() == n && olds->nflush.load() == 0, "C04-deliver-without-pool", "a logger of a replaced pool output something");
            VF_CHECK(ll::get_logger("R") == nullptr, "C04-registered", "the logger of the replaced pool is still registered");
        }
        auto tp = ll::get_thread_pool();
        VF_CHECK(tp && tp->message_queue_size() == q && tp->threads_size() == w && static_cast<int>(tp->message_queue_type()) == kind, "C04-registered-pool", "the registered pool is not the one asked for");
        olds = std::make_shared<rec_sink>();
        old = std::make_shared<ll::async_logger>("R", olds, tp);
        ll::register_logger(old);
        std::vector<std::thread> ts;
        int pr = r.range(1, 4);
        for (int p = 0; p < pr; p++) ts.emplace_back([&, p] { for (int s = 0; s < 30; s++) { old->info("{}:{}", p, s); tick(); } });
        for (auto& t : ts) t.join();
        if (r.chance(50)) { old->flush(); }
        olds->nflush = 0;
        // messages from now on are checked at the next replacement
        tp.reset();
        settle([&] { return olds->nlog.load() >= static_cast<size_t>(pr) * 30; });
        VF_CHECK(olds->nlog.load() == static_cast<size_t>(pr) * 30, "C04-lost", "%zu of %d messages on the new pool", olds->nlog.load(), pr * 30);
        stat("messages", static_cast<uint64_t>(pr) * 30 + oldsent);
    }
    size_t n0 = olds->nlog.load();
    for (int s = 0; s < 50; s++) old->info("{}:{}", 1000, s);
    if (r.chance(50)) {
        ll::close();
        VF_CHECK(ll::get_logger("R") == nullptr && ll::get_thread_pool() == nullptr, "C04-close", "close() left loggers or a pool behind");
    } else {
        ll::register_thread_pool(nullptr);
        VF_CHECK(ll::get_logger("R") == nullptr && ll::get_thread_pool() == nullptr, "C04-unregister", "replacing the pool by none left a logger or a pool behind");
    }
    VF_CHECK(olds->nlog.load() == n0 + 50, "C04-close-drain", "%zu of %zu messages were output when the pool was closed", olds->nlog.load(), n0 + 50);
    old->info("dropped");
    expected_drops++;
    noise_off();
    size_t other, drops = drop_reports(cap.text(), &other);
    VF_CHECK(drops == expected_drops && other == 0, "C04-reports", "%zu reports of dropped messages instead of %llu, %zu other reports", drops, (unsigned long long)expected_drops, other);
    bool gone = wait_for([&] { return thread_count() <= threads0; }, 10000000);
    VF_CHECK(gone, "C04-threads", "%zu threads instead of %zu", thread_count(), threads0);
    stat("registry_cases");
    casedone(hash_mix(cs, static_cast<uint64_t>(rounds)), true);
}

// ---- normal process exit: a child logs and leaves; the parent looks at the file
static std::shared_ptr<ll::logger> g_keep;     // destroyed after or before the registry, depending on first use
static void child() {
    int kind = static_cast<int>(arg("kind", 0)), n = static_cast<int>(arg("n", 100)), how = static_cast<int>(arg("how", 0));
    int threads = static_cast<int>(arg("threads", 2)), q = static_cast<int>(arg("q", 8)), w = static_cast<int>(arg("w", 1));
    std::string path = sarg("path", "");
    if (kind == 0) ll::initialize_thread_pool<ll::base::lock_thread_pool>(static_cast<size_t>(q), static_cast<size_t>(w));
    else if (kind == 1) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(static_cast<size_t>(q), static_cast<size_t>(w));
    else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(static_cast<size_t>(q), static_cast<size_t>(w));
    std::shared_ptr<ll::logger> l;
    if (kind == 0) l = ll::basic_file_logger_mt<ll::async_factory_lock>("child", path);
    else if (kind == 1) l = ll::basic_file_logger_mt<ll::async_factory_lockfree>("child", path);
    else l = ll::basic_file_logger_mt<ll::async_factory_lockfree_concurrent>("child", path);
    l->set_pattern("%v");
    if (how & 1) ll::flush_every(std::chrono::milliseconds(3));
    if (how & 2) g_keep = l;
    if (how & 4) ll::set_default_logger(l);
    std::vector<std::thread> ts;
    for (int p = 0; p < threads; p++)
        ts.emplace_back([&, p] { for (int s = 0; s < n; s++) l->info("{}:{}", p, s); });
    for (auto& t : ts) t.join();
    if (how & 8) ll::close();
    l.reset();
    if (how & 16) {
        std::thread([] { vf::S().done = true; exit(0); }).join();
    }
    vf::S().done = true;
    exit(0);
}
static void exit_case(uint64_t i) {
    uint64_t cs = caseseed(i + 300000);
    rng r(cs);
    int kind = static_cast<int>(i % 3), n = r.range(1, 200), threads = r.range(1, 4), how = static_cast<int>(r.below(32));
    int q = static_cast<int>(r.pick(queue_sizes())), w = r.range(1, 3);
    std::string path = sf("%s/exit_%llu.log", S().tmp.c_str(), (unsigned long long)i);
    label(sf("exit %llu: %s n=%d threads=%d how=%d queue=%d workers=%d", (unsigned long long)i, kind_name(kind), n, threads, how, q, w));
    std::vector<std::string> a{"/proc/self/exe", "child", sf("kind=%d", kind), sf("n=%d", n), sf("threads=%d", threads), sf("how=%d", how), sf("q=%d", q), sf("w=%d", w), "path=" + path, "watchdog=100000"};
    std::vector<char*> av;
    for (auto& x : a) av.push_back(&x[0]);
    av.push_back(nullptr);
    std::string errp = path + ".err";
    pid_t pid = fork();
    if (pid == 0) {
        int fd = ::open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        unsetenv("VF_OUT");
        execv("/proc/self/exe", av.data());
        _exit(127);
    }
    int st = 0;
    int64_t end = now_ns() + 30000000000ll;
    bool done = false;
    while (now_ns() < end) {
        if (waitpid(pid, &st, WNOHANG) == pid) { done = true; break; }
        tick();
        sleep_us(300);
    }
    if (!done) { kill(pid, SIGKILL); waitpid(pid, &st, 0); viol("C04-exit-hang", "a process that logs and exits did not end within 30 s"); return; }
    VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "C04-exit-status", "the child ended with status 0x%x: %s", st, esc(read_file(errp), 300).c_str());
    std::istringstream f(read_file(path));
    std::string line;
    std::map<std::string, int> got;
    size_t lines = 0;
    while (std::getline(f, line)) { lines++; if (++got[line] > 1) viol("C04-exit-duplicate", line); }
    VF_CHECK(lines == static_cast<size_t>(n * threads) && got.size() == lines, "C04-exit-lost", "%zu of %d messages are in the file after the process ended normally", lines, n * threads);
    std::string err = read_file(errp);
    // periodic flushing may still meet loggers whose pool is gone: that is reported and harmless
    size_t other, drops = drop_reports(err, &other);
    VF_CHECK(other == 0 && (drops == 0 || (how & 1)), "C04-exit-report", "the child reported: %s", esc(err, 200).c_str());
    ::unlink(path.c_str());
    ::unlink(errp.c_str());
    stat("process_exits");
    casedone(cs, true);
}

void vf_main() {
    if (S().mode == "child") { child(); return; }
    budget b;
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left() && !S().violations.load(); i++) {
        if (S().mode == "exit") { exit_case(static_cast<uint64_t>(i)); continue; }
        teardown_case(static_cast<uint64_t>(i));
        if (i % 2 == 0) isolation_case(static_cast<uint64_t>(i));
        if (i % 3 == 0) registry_case(static_cast<uint64_t>(i));
    }
    if (S().mode != "exit") ll::close();
}
