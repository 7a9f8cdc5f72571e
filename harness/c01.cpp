// C01: every message of an asynchronous logger reaches each admitting sink exactly once, unchanged.
#include "async.h"
using namespace vf;

struct sink_info { std::shared_ptr<rec_sink> s; int level; };
struct logger_info { std::shared_ptr<ll::async_logger> l; std::string name; int level; std::vector<int> sinks; };

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int only = static_cast<int>(arg("kind", -1));
    int kind = only >= 0 ? only : static_cast<int>(i % 3);
    bool small = r.chance(60);
    size_t q = small ? queue_sizes()[r.below(10)] : r.pick(queue_sizes());
    int workers = r.chance(50) ? r.range(1, 2) : r.range(1, static_cast<int>(arg("workers", 6)));
    if (kind == K_CONC && workers > 4) workers = 4;
    int nlog = r.range(1, 4), nsink = r.range(1, 4);
    int waves = r.chance(30) ? r.range(2, 6) : 1;
    int prods = r.chance(30) ? 1 : r.range(2, static_cast<int>(arg("producers", 12)));
    int per = r.range(1, static_cast<int>(arg("per", 200)));
    // TSan's atomics starve a releasing thread under dozens of spinning ones
#ifndef VF_TSAN
    if (r.chance(10)) { prods = r.range(16, 40); per = r.range(1, 10); }
#endif
    int slow = r.chance(30) ? r.range(1, 60) : 0;       // sink delay in microseconds for some messages
    bool hold = r.chance(25);                           // sinks stalled until the producers have tried
    label(sf("case %llu: %s queue=%zu workers=%d loggers=%d sinks=%d producers=%dx%d messages=%d slow=%d hold=%d",
              (unsigned long long)i, kind_name(kind), q, workers, nlog, nsink, prods, waves, per, slow, hold));
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 400})));

    std::atomic<bool> gate{!hold};
    auto pool = make_pool(kind, q, static_cast<size_t>(workers));
    std::vector<sink_info> sinks;
    for (int k = 0; k < nsink; k++) {
        sink_info si{std::make_shared<rec_sink>(), r.chance(60) ? 0 : r.range(0, 6)};
        si.s->set_level(static_cast<lvl>(si.level));
        uint64_t h = r.next();
        if (slow || hold)
            si.s->on_log = [&gate, slow, h](const ll::base::log_msg& m) {
                while (!gate.load()) sleep_us(20);
                if (slow && hash_bytes(m.msg.data(), m.msg.size(), h) % 8 == 0) sleep_us(slow);
            };
        sinks.push_back(si);
    }
    std::vector<logger_info> lgs;
    for (int k = 0; k < nlog; k++) {
        logger_info li;
        li.name = sf("L%d_%s", k, std::string(r.below(30), 'n').c_str());
        std::vector<ll::sink_shr_ptr> v;
        for (int j = 0; j < nsink; j++)
            if (j == k % nsink || r.chance(40)) { li.sinks.push_back(j); v.push_back(sinks[j].s); }
        li.l = std::make_shared<ll::async_logger>(li.name, v.begin(), v.end(), pool);
        li.level = r.chance(50) ? 0 : r.range(0, 4);
        li.l->set_log_level(static_cast<lvl>(li.level));
        if (r.chance(30)) li.l->set_flush_level(static_cast<lvl>(r.range(0, 6)));
        lgs.push_back(li);
    }
    // expected number per sink
    std::vector<uint64_t> want(static_cast<size_t>(nsink), 0);
    std::vector<std::vector<sent>> log(static_cast<size_t>(prods * waves), std::vector<sent>(static_cast<size_t>(per)));
    for (int p = 0; p < prods * waves; p++)
        for (int s = 0; s < per; s++) {
            gmsg g = gen_msg(cs, p, s, nlog);
            auto& li = lgs[static_cast<size_t>(g.logger)];
            if (g.level < li.level) continue;
            for (int j : li.sinks) if (g.level >= sinks[static_cast<size_t>(j)].level) want[static_cast<size_t>(j)]++;
        }
    int64_t total = 0;
    for (int w = 0; w < waves; w++) {
        std::vector<std::thread> ts;
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
        for (int p = w * prods; p < (w + 1) * prods; p++)
            ts.emplace_back([&, p] {
                ready++;
                while (!go.load()) std::this_thread::yield();
                for (int s = 0; s < per; s++) {
                    gmsg g = gen_msg(cs, p, s, nlog);
                    log[static_cast<size_t>(p)][static_cast<size_t>(s)] = send_msg(*lgs[static_cast<size_t>(g.logger)].l, g);
                    tick();
                }
            });
        while (ready.load() < prods) std::this_thread::yield();
        go = true;
        if (hold && w == 0) { sleep_us(r.range(0, 3000)); gate = true; }
        for (auto& t : ts) t.join();
        total += static_cast<int64_t>(prods) * per;
    }
    gate = true;
    bool ok = settle([&] {
        for (int j = 0; j < nsink; j++) if (sinks[static_cast<size_t>(j)].s->nlog.load() < want[static_cast<size_t>(j)]) return false;
        return true;
    });
    noise_off();
    if (!ok) {
        std::string d;
        for (int j = 0; j < nsink; j++) d += sf(" sink %d: %zu of %llu;", j, sinks[static_cast<size_t>(j)].s->nlog.load(), (unsigned long long)want[static_cast<size_t>(j)]);
        viol("C01-lost", "messages did not arrive although the pool is alive and idle:" + d);
        return;       // the pool may not be able to end either; the process is about to report anyway
    }
    lgs.clear();
    pool.reset();
    uint64_t sig = cs;
    for (int j = 0; j < nsink; j++) {
        auto recs = sinks[static_cast<size_t>(j)].s->logs();
        std::map<std::pair<int, int>, int> got;
        for (auto& x : recs) {
            int p, s;
            if (!parse_id(x.text, p, s) || p < 0 || p >= prods * waves || s < 0 || s >= per) {
                viol("C01-invented", sf("sink %d got a message nobody logged: '%s'", j, esc(x.text, 100).c_str()));
                continue;
            }
            sig = hash_mix(sig, static_cast<uint64_t>(p));
            gmsg g = gen_msg(cs, p, s, nlog);
            std::string lname = sf("L%d_", g.logger);
            // names are checked through the prefix and the filler
            std::string expect = x.lname;
            if (x.lname.compare(0, lname.size(), lname) != 0 || x.lname.find_first_not_of('n', lname.size()) != std::string::npos)
                expect = lname;
            std::string w = compare(g, &log[static_cast<size_t>(p)][static_cast<size_t>(s)], x, expect);
            if (!w.empty()) viol("C01-changed", sf("sink %d: %s", j, w.c_str()));
            if (++got[{p, s}] > 1) viol("C01-duplicate", sf("sink %d got message %d:%d %d times", j, p, s, got[{p, s}]));
        }
        VF_CHECK(recs.size() == want[static_cast<size_t>(j)], "C01-count", "sink %d got %zu messages instead of %llu", j, recs.size(),
                 (unsigned long long)want[static_cast<size_t>(j)]);
        stat("records", recs.size());
    }
    stat("messages", static_cast<uint64_t>(total));
    stat(sf("cases_%s", kind_name(kind)));
    stat_max("producer_threads", static_cast<uint64_t>(prods));
    if (static_cast<size_t>(prods) > q) stat("cases_more_producers_than_slots");
    if (hold) stat("cases_stalled_sinks");
    if (waves > 1) stat("cases_threads_come_and_go");
    if (i < 6) { std::string l; { std::lock_guard<std::mutex> g(S().m); l = S().label; } sample(l); }
    casedone(sig, prods > 1);
}

void vf_main() {
    budget b;
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left() && !too_many(); i++) {
        one_case(static_cast<uint64_t>(i + arg("first", 0)));
        if (S().violations.load()) break;
    }
}
