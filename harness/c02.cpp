// C02: the messages of one thread are output in the order in which it logged them.
#include "async.h"
using namespace vf;

// order at each sink, and over all sinks of a pool (a thread's messages are handled one after another)
static uint64_t check_order(const std::vector<std::shared_ptr<rec_sink>>& sinks, uint64_t sig) {
    struct key_t { int p; size_t k; bool operator<(const key_t& o) const { return std::tie(p, k) < std::tie(o.p, o.k); } };
    std::map<key_t, std::vector<std::pair<uint64_t, int>>> all;
    for (size_t j = 0; j < sinks.size(); j++) {
        std::map<key_t, int> last;
        for (auto& x : sinks[j]->logs()) {
            int p, s;
            int k = -1;
            if (!parse_id(x.text, p, s) || sscanf(x.text.c_str(), "%*d:%*d:%d", &k) != 1) { viol("C02-invented", x.text); continue; }
            key_t key{p, static_cast<size_t>(k)};
            auto it = last.find(key);
            if (it != last.end() && s <= it->second)
                viol("C02-order", sf("sink %zu output message %d of thread %d after its message %d", j, s, p, it->second));
            last[key] = s;
            all[key].emplace_back(x.ev, s);
            sig = hash_mix(sig, static_cast<uint64_t>(p * 64 + k));
        }
    }
    for (auto& a : all) {
        auto& v = a.second;
        std::sort(v.begin(), v.end());
        for (size_t n = 1; n < v.size(); n++)
            if (v[n].second < v[n - 1].second)
                viol("C02-order-across", sf("message %d of thread %d was output (on another sink) after its message %d", v[n].second, a.first.p, v[n - 1].second));
        stat("sequences");
        stat("records_in_order", v.size());
    }
    return sig;
}

// text "p:s:" + filler; several pools may live at once, order is per thread and pool
static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = static_cast<int>(i % 4);            // 3: synchronous loggers
    bool sync = kind == 3;
    size_t q = r.chance(60) ? queue_sizes()[r.below(11)] : r.pick(queue_sizes());
    int workers = kind == K_CONC ? r.range(1, 5) : 1;
    int npools = sync ? 1 : (r.chance(35) ? 2 : 1);
    int nlog = r.range(1, 3);                      // per pool
    int prods = r.range(1, 10), waves = r.chance(30) ? r.range(2, 4) : 1;
    int per = r.range(2, static_cast<int>(arg("per", 150)));
    int slow = r.chance(30) ? r.range(1, 50) : 0;
    int flushes = r.chance(30) ? 20 : 0;           // every n-th message is followed by a flush
    bool stall = !sync && r.chance(25);
    label(sf("case %llu: %s pools=%d queue=%zu workers=%d loggers=%d producers=%dx%d messages=%d slow=%d flushes=%d stall=%d",
             (unsigned long long)i, sync ? "sync" : kind_name(kind), npools, q, workers, nlog, prods, waves, per, slow, flushes, stall));
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400, 1000})));
    std::vector<ll::thread_pool_shr_ptr> pools;
    std::vector<std::shared_ptr<rec_sink>> sinks;
    std::vector<std::vector<std::shared_ptr<ll::logger>>> lgs(static_cast<size_t>(npools));
    std::vector<std::vector<std::vector<size_t>>> lsinks(static_cast<size_t>(npools));
    std::atomic<bool> gate{!stall};
    for (int k = 0; k < npools; k++) {
        if (!sync) pools.push_back(make_pool(kind, q, static_cast<size_t>(workers)));
        for (int j = 0; j < nlog; j++) {
            std::vector<ll::sink_shr_ptr> v;
            std::vector<size_t> idx;
            int ns = r.range(1, 2);
            for (int n = 0; n < ns; n++) {
                auto s = std::make_shared<rec_sink>();
                uint64_t h = r.next();
                s->on_log = [slow, h, &gate](const ll::base::log_msg& m) {
                    while (!gate.load()) sleep_us(20);
                    if (slow && hash_bytes(m.msg.data(), m.msg.size(), h) % 6 == 0) sleep_us(slow);
                };
                idx.push_back(sinks.size());
                sinks.push_back(s);
                v.push_back(s);
            }
            // sometimes a logger also writes to an earlier logger's sink of the same pool
            if (j > 0 && r.chance(40)) { size_t o = lsinks[static_cast<size_t>(k)][0][0]; idx.push_back(o); v.push_back(sinks[o]); }
            std::shared_ptr<ll::logger> l;
            if (sync) l = std::make_shared<ll::logger>(sf("l%d_%d", k, j), v.begin(), v.end());
            else l = std::make_shared<ll::async_logger>(sf("l%d_%d", k, j), v.begin(), v.end(), pools[static_cast<size_t>(k)]);
            if (r.chance(20)) l->set_flush_level(ll::level::warn);
            lgs[static_cast<size_t>(k)].push_back(l);
            lsinks[static_cast<size_t>(k)].push_back(idx);
        }
    }
    std::atomic<uint64_t> want{0};
    for (int w = 0; w < waves; w++) {
        std::vector<std::thread> ts;
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
        for (int p = w * prods; p < (w + 1) * prods; p++)
            ts.emplace_back([&, p] {
                rng t(hash_mix(cs, static_cast<uint64_t>(p)));
                ready++;
                while (!go.load()) std::this_thread::yield();
                std::vector<int> seq(static_cast<size_t>(npools), 0);
                int style = t.range(0, 2);     // alternate pools, stay for a while, random
                size_t k = t.below(static_cast<uint64_t>(npools));
                for (int s = 0; s < per; s++) {
                    if (npools > 1 && (style == 0 || (style == 1 && t.chance(5)) || (style == 2 && t.chance(50))))
                        k = (k + 1) % static_cast<size_t>(npools);
                    size_t l = t.below(static_cast<uint64_t>(nlog));
                    auto& lg = *lgs[k][l];
                    lg.log(t.chance(80) ? ll::level::info : ll::level::error, "{}:{}:{}:{}", p, seq[k]++, k, std::string(t.below(t.chance(10) ? 400 : 20), 'x'));
                    want += lsinks[k][l].size();
                    if (flushes && gate.load() && t.below(static_cast<uint64_t>(flushes)) == 0) lg.flush();
                    tick();
                }
            });
        while (ready.load() < prods) std::this_thread::yield();
        go = true;
        if (stall && w == 0) { sleep_us(r.range(100, 3000)); gate = true; }
        for (auto& t : ts) t.join();
    }
    auto have = [&] { uint64_t n = 0; for (auto& s : sinks) n += s->nlog.load(); return n; };
    settle([&] { return have() >= want.load(); });
    noise_off();
    VF_CHECK(have() == want.load(), "C02-count", "%llu of %llu messages were output", (unsigned long long)have(), (unsigned long long)want.load());
    if (have() != want.load()) return;
    lgs.clear();
    pools.clear();
    uint64_t sig = check_order(sinks, cs);
    stat(sf("cases_%s", sync ? "sync" : kind_name(kind)));
    if (npools > 1) stat("cases_two_pools");
    if (i < 4) { std::string l; { std::lock_guard<std::mutex> g(S().m); l = S().label; } sample(l); }
    casedone(sig, prods > 1);
}

// long-lived threads go to and fro between two pools while many others come, log once and go
static void churn_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = i % 4 == 3 ? r.range(0, 1) : K_CONC;
    int workers = kind == K_CONC ? r.range(2, 4) : 1, npools = r.range(2, 3);
    int elders = r.range(1, 3), rounds = r.range(2, 6), young = r.pick(std::vector<int>{1, 5, 20, 40, 90});
    label(sf("churn case %llu: %s pools=%d workers=%d threads=%d rounds=%d x %d short-lived threads", (unsigned long long)i, kind_name(kind), npools, workers, elders, rounds, young));
    std::vector<ll::thread_pool_shr_ptr> pools;
    std::vector<std::shared_ptr<rec_sink>> sinks;
    std::vector<std::shared_ptr<ll::async_logger>> lgs;
    for (int k = 0; k < npools; k++) {
        pools.push_back(make_pool(kind, static_cast<size_t>(r.range(1, 64)), static_cast<size_t>(workers)));
        sinks.push_back(std::make_shared<rec_sink>());
        uint64_t h = r.next();
        sinks.back()->on_log = [h, elders](const ll::base::log_msg& m) {
            uint64_t x = hash_bytes(m.msg.data(), m.msg.size(), h);
            if (atoi(m.msg.data()) < elders && x % 10 < 3) sleep_us(static_cast<int>(x >> 8) % 3000);
        };
        lgs.push_back(std::make_shared<ll::async_logger>(sf("c%d", k), sinks.back(), pools.back()));
    }
    std::atomic<uint64_t> want{0};
    std::atomic<int> ids{elders};
    std::vector<std::thread> ts;
    for (int p = 0; p < elders; p++)
        ts.emplace_back([&, p] {
            rng t(hash_mix(cs, static_cast<uint64_t>(p)));
            std::vector<int> seq(static_cast<size_t>(npools), 0);
            for (int n = 0; n < rounds; n++) {
                for (int k = 0; k < npools * 2; k++) {
                    size_t pk = static_cast<size_t>(k % npools);
                    for (int m = t.range(1, 3); m > 0; m--) { lgs[pk]->info("{}:{}:{}", p, seq[pk]++, pk); want++; }
                }
                for (int y = 0; y < young; y++) {
                    int id = ids++;
                    size_t pk = t.below(static_cast<uint64_t>(npools));
                    std::thread([&, id, pk] { lgs[pk]->info("{}:{}:{}", id, 0, pk); want++; }).join();
                }
                stat("short_lived_threads", static_cast<uint64_t>(young));
                tick();
            }
        });
    for (auto& t : ts) t.join();
    auto have = [&] { uint64_t n = 0; for (auto& s : sinks) n += s->nlog.load(); return n; };
    settle([&] { return have() >= want.load(); });
    VF_CHECK(have() == want.load(), "C02-count", "%llu of %llu messages were output", (unsigned long long)have(), (unsigned long long)want.load());
    if (have() != want.load()) return;
    lgs.clear();
    pools.clear();
    uint64_t sig = check_order(sinks, cs);
    stat("cases_churn");
    if (i < 2) { std::string l; { std::lock_guard<std::mutex> g(S().m); l = S().label; } sample(l); }
    casedone(sig, true);
}

void vf_main() {
    budget b;
    if (S().mode == "churn") {
        for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 100)) && b.left() && !S().violations.load(); i++) churn_case(i);
        return;
    }
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left(); i++) {
        one_case(static_cast<uint64_t>(i));
        if (S().violations.load()) break;
    }
}
