// C03: flush() is a barrier; the flush level causes exactly the flushes it should; nothing hangs.
#include "async.h"
using namespace vf;

struct lg {
    std::shared_ptr<ll::logger> l;
    std::vector<size_t> sinks;
    int level, flevel;
    std::atomic<uint64_t> flushing{0};      // messages that must flush + explicit flushes
    std::atomic<uint64_t> shown[6] = {};    // by level
    unsigned bad = 0;                       // times the failing sink is among the sinks
};

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = static_cast<int>(i % 4);
    bool sync = kind == 3;
    size_t q = r.chance(60) ? queue_sizes()[r.below(9)] : r.pick(queue_sizes());
    int workers = r.chance(60) ? 1 : r.range(2, 4);
    bool ordered = sync || kind == K_CONC || workers == 1;   // where the barrier is guaranteed
    int nl = r.range(1, 3), ns = r.range(1, 3);
    int prods = r.range(1, 6), per = r.range(1, static_cast<int>(arg("per", 60)));
    int fpct = r.pick(std::vector<int>{1, 5, 30});
    bool throwing = r.chance(25);
    bool levels = r.chance(50);                                  // sinks with levels of their own
    label(sf("case %llu: %s queue=%zu workers=%d loggers=%d sinks=%d threads=%d messages=%d flush=%d%% throwing=%d sink levels=%d", (unsigned long long)i,
             sync ? "sync" : kind_name(kind), q, workers, nl, ns, prods, per, fpct, throwing, levels));
    stderr_capture cap;
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400})));
    ll::thread_pool_shr_ptr pool;
    if (!sync) pool = make_pool(kind, q, static_cast<size_t>(workers));
    std::vector<std::shared_ptr<rec_sink>> sinks;
    std::vector<int> slev;
    for (int k = 0; k < ns; k++) {
        auto s = std::make_shared<rec_sink>();
        int slow = r.chance(30) ? r.range(1, 80) : 0;
        s->on_log = [slow](const ll::base::log_msg& m) { if (slow && m.msg.size() % 4 == 0) sleep_us(slow); };
        s->on_flush = [slow] { if (slow) sleep_us(slow); };
        // what a sink's own level keeps out is not output there, but its flushes are the logger's
        slev.push_back(levels ? r.range(0, 6) : 0);
        s->set_level(static_cast<lvl>(slev.back()));
        sinks.push_back(s);
    }
    std::shared_ptr<rec_sink> bad;
    std::atomic<uint64_t> bad_flushes{0};
    if (throwing) {
        bad = std::make_shared<rec_sink>();
        bool fl = r.chance(70), lo = !fl || r.chance(50);
        auto fail = [] { throw std::runtime_error("the sink fails"); };
        bad->on_flush = [&bad_flushes, fl, fail] { bad_flushes++; if (fl) fail(); };
        bad->on_log = [lo, fail](const ll::base::log_msg&) { if (lo) fail(); };
        if (levels) bad->set_level(static_cast<lvl>(r.range(0, 6)));
    }
    std::deque<lg> lgs;
    for (int k = 0; k < nl; k++) {
        lgs.emplace_back();
        lg& g = lgs.back();
        std::vector<ll::sink_shr_ptr> v;
        if (throwing && r.chance(50)) { v.push_back(bad); g.bad++; }
        for (int j = 0; j < ns; j++) if (j == k % ns || r.chance(30)) { g.sinks.push_back(static_cast<size_t>(j)); v.push_back(sinks[static_cast<size_t>(j)]); }
        if (throwing && r.chance(50)) { v.push_back(bad); g.bad++; }
        if (sync) g.l = std::make_shared<ll::logger>(sf("l%d", k), v.begin(), v.end());
        else g.l = std::make_shared<ll::async_logger>(sf("l%d", k), v.begin(), v.end(), pool);
        g.level = r.range(0, 3);
        g.flevel = r.range(0, 6);
        g.l->set_log_level(static_cast<lvl>(g.level));
        g.l->set_flush_level(static_cast<lvl>(g.flevel));
    }
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::atomic<uint64_t> barriers{0};
    for (int p = 0; p < prods; p++)
        ts.emplace_back([&, p] {
            rng t(hash_mix(cs, static_cast<uint64_t>(p)));
            // what this thread has logged through each logger and not yet found
            std::vector<std::vector<std::pair<std::string, int>>> mine(static_cast<size_t>(nl));
            ready++;
            while (!go.load()) std::this_thread::yield();
            for (int s = 0; s < per; s++) {
                size_t k = t.below(static_cast<uint64_t>(nl));
                lg& g = lgs[k];
                int lv = t.range(0, 5);
                std::string text = sf("%d:%d:%d:%zu", p, s, lv, k);
                uint64_t called = evno().load();
                g.l->log(static_cast<lvl>(lv), "{}", text);
                tick();
                if (lv >= g.level) {
                    mine[k].emplace_back(text, lv);
                    g.shown[lv]++;
                    if (lv >= g.flevel) {
                        g.flushing++;
                        if (sync)      // output and flushed when the call returns
                            for (size_t j : g.sinks) {
                                auto v = sinks[j]->all();
                                bool takes = lv >= slev[j];
                                uint64_t at = takes ? 0 : called + 1, fl = 0;
                                for (auto& x : v) { if (x.flush) { if (at && x.ev >= called && x.worker == gettid_()) fl = x.ev + 1; } else if (x.text == text) at = x.ev + 1; }
                                if (!takes) stat("flushes_of_sinks_above_the_message");
                                VF_CHECK(takes ? at && fl > at : fl >= at, "C03-sync-flush-level", "message '%s' at the flush level: output %d, flushed after it %d", text.c_str(), at != 0, fl > at);
                            }
                    }
                }
                if (t.chance(fpct) || s == per - 1) {
                    uint64_t before = evno().load();
                    g.l->flush();
                    tick();
                    g.flushing++;
                    barriers++;
                    for (size_t j : g.sinks) {
                        auto v = sinks[j]->all();
                        std::unordered_map<std::string, uint64_t> at;
                        uint64_t lastf = 0;
                        bool any = false;
                        for (auto& x : v) { if (x.flush) { lastf = x.ev; any = true; } else at.emplace(x.text, x.ev); }
                        VF_CHECK(any && lastf >= before, "C03-not-flushed", "flush() returned without a flush of sink %zu", j);
                        if (!ordered) continue;
                        uint64_t need = 0;
                        for (auto& m : mine[k]) {
                            if (m.second < slev[j]) continue;
                            auto it = at.find(m.first);
                            if (it == at.end()) { viol("C03-barrier", sf("flush() returned before message '%s' was output on sink %zu", m.first.c_str(), j)); continue; }
                            need = std::max(need, it->second);
                        }
                        VF_CHECK(need == 0 || lastf > need, "C03-flush-before-output", "sink %zu was flushed before the last message was output", j);
                    }
                    if (mine[k].size() > 200) mine[k].clear();
                }
            }
        });
    while (ready.load() < prods) std::this_thread::yield();
    go = true;
    for (auto& t : ts) t.join();
    noise_off();
    // everything is output and flushed
    std::vector<uint64_t> wl(static_cast<size_t>(ns)), wf(static_cast<size_t>(ns));
    uint64_t wbad = 0;
    for (auto& g : lgs) {
        for (size_t j : g.sinks) { for (int v = slev[j]; v < 6; v++) wl[j] += g.shown[v].load(); wf[j] += g.flushing.load(); }
        wbad += g.bad * g.flushing.load();
    }
    bool ok = settle([&] { for (size_t j = 0; j < sinks.size(); j++) if (sinks[j]->nlog.load() < wl[j] || sinks[j]->nflush.load() < wf[j]) return false; return bad_flushes.load() >= wbad; }, 5);
    (void)ok;
    sleep_us(200);
    uint64_t sig = cs;
    std::vector<int> fl;
    for (auto& g : lgs) fl.push_back(g.flevel);
    pool.reset();
    VF_CHECK(bad_flushes.load() == wbad, "C03-flush-count", "the failing sink was flushed %llu times instead of %llu", (unsigned long long)bad_flushes.load(), (unsigned long long)wbad);
    for (size_t j = 0; j < sinks.size(); j++) {
        VF_CHECK(sinks[j]->nlog.load() == wl[j], "C03-count", "sink %zu: %zu messages instead of %llu", j, sinks[j]->nlog.load(), (unsigned long long)wl[j]);
        VF_CHECK(sinks[j]->nflush.load() == wf[j], "C03-flush-count", "sink %zu was flushed %zu times instead of %llu", j, sinks[j]->nflush.load(), (unsigned long long)wf[j]);
        // after a message at the flush level, the thread that output it flushes before it outputs another
        std::map<long, std::string> open;
        for (auto& x : sinks[j]->all()) {
            sig = hash_mix(sig, x.flush ? 7 : hash_str(x.text));
            auto it = open.find(x.worker);
            if (x.flush) { if (it != open.end()) open.erase(it); continue; }
            if (it != open.end()) { viol("C03-no-flush-after", sf("sink %zu: message '%s' was not followed by a flush", j, it->second.c_str())); open.erase(it); }
            int p, s, lv, k;
            if (sscanf(x.text.c_str(), "%d:%d:%d:%d", &p, &s, &lv, &k) != 4 || k < 0 || k >= nl) { viol("C03-invented", x.text); continue; }
            if (lv >= fl[static_cast<size_t>(k)]) { open[x.worker] = x.text; stat("flush_level_messages"); }
        }
        for (auto& o : open) viol("C03-no-flush-after", sf("sink %zu: the last message '%s' was not followed by a flush", j, o.second.c_str()));
    }
    stat("barriers_checked", ordered ? barriers.load() : 0);
    stat(sf("cases_%s", sync ? "sync" : kind_name(kind)));
    if (throwing) stat("cases_failing_sink");
    if (levels) stat("cases_sink_levels");
    if (i < 4) { std::string l; { std::lock_guard<std::mutex> g(S().m); l = S().label; } sample(l); }
    casedone(sig, prods > 1 || per > 3);
}

// a sink that takes very long: flush() still is a barrier, however long that is
static void stall_case(uint64_t i) {
    uint64_t cs = caseseed(i + 500000);
    rng r(cs);
    int kind = static_cast<int>(i % 3);
    bool full = (i / 3) % 2;            // flush() itself has to wait for room in the queue
    long ms = arg("stall_ms", 3300);
    size_t q = full ? 2 : 64;
    auto tp = make_pool(kind, q, 1);
    auto sink = std::make_shared<rec_sink>();
    std::atomic<int> calls{0};
    std::atomic<bool> stalled{false}, over{false};
    auto stall = [&] {
        stalled = true;
        for (long k = 0; k < ms; k += 50) { sleep_us(50000); tick(); }
        over = true;
    };
    bool at_flush = !full && r.chance(40);
    sink->on_log = [&](const ll::base::log_msg&) { if (calls++ == 0 && !at_flush) stall(); };
    sink->on_flush = [&] { if (at_flush && !over.load()) stall(); };
    auto l = std::make_shared<ll::async_logger>("slow", sink, tp);
    uint64_t n = 0;
    auto log = [&] { l->info("{}", n); n++; };
    if (at_flush) { l->info("first"); n++; }
    else {
        log();
        wait_until([&] { return stalled.load(); });
        if (full) for (size_t k = 0; k < q; k++) log();
        else for (int k = r.range(0, 20); k > 0; k--) log();
    }
    std::atomic<bool> back{false};
    int64_t t0 = now_ns();
    std::thread t([&] { l->flush(); back = true; });
    // other threads flush too
    std::vector<std::thread> more;
    for (int k = 0; k < 2; k++) more.emplace_back([&] { sleep_us(1000 * r.range(1, 50)); l->flush(); });
    bool early = false;
    while (!back.load()) { sleep_us(200); }
    auto v = sink->all();
    if (!over.load()) early = true;
    t.join();
    size_t logs = 0, fl = 0;
    for (auto& x : v) { if (x.flush) fl++; else { logs++; fl = 0; } }
    VF_CHECK(!early && logs == n && fl > 0, "C03-barrier-stalled", "%s: flush() returned after %lld ms with %zu of %llu messages output and %s flush after them, the sink %s stalled",
             kind_name(kind), (long long)((now_ns() - t0) / 1000000), logs, (unsigned long long)n, fl ? "a" : "no", early ? "still" : "no longer");
    for (auto& m : more) m.join();
    l.reset();
    tp.reset();
    stat("stalled_flushes");
    casedone(hash_mix(cs, n), true);
}

void vf_main() {
    budget b;
    if (S().mode == "stall") {
        stderr_capture cap;
        label("stalls");
        std::vector<std::thread> ts;
        for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 12)); i++) ts.emplace_back([i] { stall_case(i); });
        for (auto& t : ts) t.join();
        VF_CHECK(cap.text().empty(), "C03-report", "unexpected report: %s", esc(cap.text(), 200).c_str());
        return;
    }
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left(); i++) {
        one_case(static_cast<uint64_t>(i));
        if (S().violations.load()) break;
    }
}
