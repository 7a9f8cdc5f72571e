// C22: number of workers, where messages are processed, callbacks, getters, invalid worker counts.
#include "async.h"
using namespace vf;

struct wlog {
    std::mutex m;
    std::map<long, int> started, stopped;
    std::map<long, uint64_t> start_ev, stop_ev;
    std::atomic<int> nstart{0}, nstop{0};
    void start() { std::lock_guard<std::mutex> g(m); started[gettid_()]++; start_ev[gettid_()] = evno()++; nstart++; tick(); }
    void stop() { std::lock_guard<std::mutex> g(m); stopped[gettid_()]++; stop_ev[gettid_()] = evno()++; nstop++; tick(); }
};

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = static_cast<int>(i % 3);
    size_t q = r.pick(queue_sizes());
    size_t w = static_cast<size_t>(r.chance(80) ? r.range(1, 5) : r.range(6, 24));
    if (kind == K_CONC && w > 8) w = 8;
    int cbs = r.range(0, 2);                 // 0 none, 1 start only, 2 both
    int style = r.range(0, 3);               // 0 never used, 1 gate all, 2 free running, 3 few messages
    size_t P = style == 1 ? w + static_cast<size_t>(r.range(0, 2)) : static_cast<size_t>(r.range(1, 5));
    size_t per = style == 1 ? 3 : style == 2 ? 60 : 1;
    bool slowcb = r.chance(30);
    label(sf("case %llu: %s queue=%zu workers=%zu callbacks=%d style=%d producers=%zu", (unsigned long long)i, kind_name(kind), q, w, cbs, style, P));
    size_t threads0 = thread_count();
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400})));
    auto L = std::make_shared<wlog>();
    ll::thread_pool_shr_ptr tp;
    auto st = [L, slowcb] { if (slowcb) sleep_us(200); L->start(); };
    auto sp = [L, slowcb] { if (slowcb) sleep_us(200); L->stop(); };
    if (cbs == 0) tp = make_pool(kind, q, w);
    else if (cbs == 1) tp = make_pool(kind, q, w, st);
    else tp = make_pool(kind, q, w, st, sp);
    VF_CHECK(tp->message_queue_size() == q && tp->threads_size() == w && static_cast<int>(tp->message_queue_type()) == kind, "C22-getters",
             "size %zu, kind %d, %zu workers", tp->message_queue_size(), static_cast<int>(tp->message_queue_type()), tp->threads_size());
    auto sink = std::make_shared<rec_sink>();
    std::atomic<bool> gate{style != 1};
    std::atomic<int> in{0}, most{0};
    sink->on_log = [&](const ll::base::log_msg&) {
        int n = ++in;
        int m = most.load();
        while (n > m && !most.compare_exchange_weak(m, n)) {}
        tick();
        while (!gate.load()) sleep_us(30);
        in--;
    };
    auto lg = std::make_shared<ll::async_logger>("l", sink, tp);
    std::set<long> loggers{gettid_()};
    std::mutex lm;
    uint64_t sent = 0;
    if (style != 0) {
        std::vector<std::thread> ts;
        std::atomic<size_t> up{0};
        for (size_t p = 0; p < P; p++)
            ts.emplace_back([&, p] {
                { std::lock_guard<std::mutex> g(lm); loggers.insert(gettid_()); }
                up++;
                while (up.load() < P) sleep_us(10);     // all exist at once: distinct thread ids
                for (size_t s = 0; s < per; s++) { lg->info("{}:{}:", p, s); tick(); }
            });
        sent = P * per;
        if (style == 1) {
            // as many at a time as there are workers
            bool ok = settle([&] { return in.load() >= static_cast<int>(w); });
            VF_CHECK(ok, "C22-too-few", "only %d messages are processed at the same time by %zu workers", in.load(), w);
            sleep_us(300);
            gate = true;
            stat("full_occupancy_checks");
        }
        for (auto& t : ts) t.join();
        if (r.chance(50)) lg->flush();
    }
    if (cbs && r.chance(50)) {
        bool ok = settle([&] { return L->nstart.load() >= static_cast<int>(w); });
        VF_CHECK(ok, "C22-start", "%d of %zu workers ran the start callback", L->nstart.load(), w);
    }
    std::weak_ptr<ll::base::thread_pool> weak = tp;
    lg.reset();
    tp.reset();
    uint64_t endev = evno()++;
    noise_off();
    VF_CHECK(weak.expired(), "C22-alive", "the pool outlives its last owner");
    VF_CHECK(sink->nlog.load() == sent, "C22-drain", "%zu of %llu messages were output", sink->nlog.load(), (unsigned long long)sent);
    VF_CHECK(most.load() <= static_cast<int>(w), "C22-too-many", "%d messages were processed at the same time by %zu workers", most.load(), w);
    {
        std::lock_guard<std::mutex> g(L->m);
        if (cbs) {
            VF_CHECK(L->nstart.load() == static_cast<int>(w) && L->started.size() == w, "C22-start", "start callback: %d calls on %zu threads for %zu workers", L->nstart.load(), L->started.size(), w);
            stat("start_callbacks", L->started.size());
        }
        if (cbs == 2) {
            VF_CHECK(L->nstop.load() == static_cast<int>(w) && L->stopped.size() == w, "C22-stop", "stop callback: %d calls on %zu threads for %zu workers", L->nstop.load(), L->stopped.size(), w);
            for (auto& s : L->stop_ev) {
                VF_CHECK(L->start_ev.count(s.first) && L->start_ev[s.first] < s.second, "C22-callback-order", "a worker ran the stop callback before or without the start callback");
                VF_CHECK(s.second < endev, "C22-stop-late", "a stop callback ran after the destruction");
            }
        }
        std::set<long> workers;
        for (auto& x : sink->all()) {
            workers.insert(x.worker);
            VF_CHECK(!loggers.count(x.worker), "C22-in-logging-thread", "a message was processed by a thread that logs");
            if (cbs) {
                VF_CHECK(L->start_ev.count(x.worker), "C22-foreign-thread", "a message was processed by a thread that is no worker");
                VF_CHECK(!L->start_ev.count(x.worker) || L->start_ev[x.worker] < x.ev, "C22-before-start", "a worker processed a message before its start callback");
            }
            if (cbs == 2) VF_CHECK(!L->stop_ev.count(x.worker) || x.ev < L->stop_ev[x.worker], "C22-after-stop", "a worker processed a message after its stop callback");
        }
        VF_CHECK(workers.size() <= w, "C22-too-many-threads", "messages were processed by %zu threads, there are %zu workers", workers.size(), w);
    }
    bool gone = wait_for([&] { return thread_count() <= threads0; }, 10000000);
    VF_CHECK(gone, "C22-threads", "%zu threads instead of %zu", thread_count(), threads0);
    stat(sf("cases_%s", kind_name(kind)));
    stat_max("workers", w);
    if (i < 4) { std::string l; { std::lock_guard<std::mutex> g(S().m); l = S().label; } sample(l); }
    casedone(hash_mix(cs, static_cast<uint64_t>(most.load())), true);
}

static void limits() {
    for (int kind = 0; kind < 3; kind++) {
        for (size_t w : std::vector<size_t>{0, 1025, 1026, 5000, 1u << 20, static_cast<size_t>(-1)}) {
            label(sf("limits: %s workers=%zu", kind_name(kind), w));
            size_t t0 = thread_count();
            int calls = 0;
            bool threw = false;
            for (int v = 0; v < 3; v++) {
                threw = false;
                try {
                    if (v == 0) make_pool(kind, 8, w);
                    else if (v == 1) make_pool(kind, 8, w, [&] { calls++; });
                    else make_pool(kind, 8, w, [&] { calls++; }, [&] { calls++; });
                }
                catch (const ll::learnlog_excpt& e) { threw = true; VF_CHECK(strlen(e.what()) > 0, "C22-limit-text", "empty message"); }
                VF_CHECK(threw, "C22-limit", "a %s pool with %zu workers was created", kind_name(kind), w);
            }
            VF_CHECK(calls == 0 && thread_count() <= t0, "C22-limit-started", "%d callbacks, %zu threads instead of %zu", calls, thread_count(), t0);
            casedone(hash_mix(w, static_cast<uint64_t>(kind)), true);
            stat("invalid_worker_counts");
        }
        bool threw = false;
        auto before = ll::get_thread_pool();
        try {
            if (kind == 0) ll::initialize_thread_pool<ll::base::lock_thread_pool>(8, 0);
            else if (kind == 1) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(8, 1025);
            else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(8, 0);
        } catch (const ll::learnlog_excpt&) { threw = true; }
        VF_CHECK(threw && ll::get_thread_pool() == before, "C22-limit-registry", "initialize_thread_pool accepted an invalid worker count");
    }
    // the largest allowed number, where this machine can run as many threads at all
    std::atomic<bool> stop{false};
    std::vector<std::thread> probe;
    bool can = true;
    try { for (int k = 0; k < 1100; k++) probe.emplace_back([&] { while (!stop.load()) sleep_us(1000); }); }
    catch (const std::system_error&) { can = false; }
    stop = true;
    for (auto& t : probe) t.join();
    if (!can) return;
    for (int kind = 0; kind < 2; kind++)
        for (size_t w : std::vector<size_t>{1023, 1024}) {
            label(sf("limits: %s workers=%zu", kind_name(kind), w));
            std::atomic<int> up{0}, down{0};
            bool threw = false;
            try {
                auto tp = make_pool(kind, 64, w, [&] { up++; tick(); }, [&] { down++; tick(); });
                auto s = std::make_shared<rec_sink>();
                auto l = std::make_shared<ll::async_logger>("x", s, tp);
                for (int k = 0; k < 100; k++) l->info("{}", k);
                tp.reset();
                VF_CHECK(s->nlog.load() == 100, "C22-drain", "%zu of 100 messages", s->nlog.load());
            } catch (const std::exception& e) { threw = true; }
            VF_CHECK(!threw && up.load() == static_cast<int>(w) && down.load() == static_cast<int>(w), "C22-limit-max", "%zu workers: threw %d, %d started, %d stopped", w, threw, up.load(), down.load());
            stat("largest_pools");
            casedone(hash_mix(w, 77), true);
        }
}

void vf_main() {
    if (S().mode == "limits") { limits(); return; }
    budget b;
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left() && !S().violations.load(); i++) one_case(static_cast<uint64_t>(i));
}
