// C05: stalled sinks: how many messages a pool accepts, when blocked calls resume.
#include "async.h"
using namespace vf;

// the sink takes one ticket per message; tickets are handed out by the monitor
struct turnstile {
    std::atomic<int64_t> tickets{0};
    std::atomic<uint64_t> inside{0};
    std::atomic<bool> open{false};
    void pass() {
        inside++;
        for (;;) {
            if (open.load()) return;
            int64_t t = tickets.load();
            if (t > 0 && tickets.compare_exchange_weak(t, t - 1)) return;
            sleep_us(30);
        }
    }
};

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int kind = static_cast<int>(i % 3);
    size_t q = r.chance(60) ? static_cast<size_t>(r.range(1, 10)) : queue_sizes()[r.below(14)];
    size_t w = static_cast<size_t>(r.range(1, kind == K_CONC ? 3 : 5));
    int P = r.range(1, 6);
    int nl = r.range(1, 2);
    size_t ceil32 = (q + 31) / 32 * 32;
    // lock: exactly q + w. lockfree: the preallocated blocks plus what each producer may hold
    size_t bound = kind == K_LOCK ? q + w : ceil32 + 64 * static_cast<size_t>(P) + w;
    size_t per = kind == K_LOCK ? (q + w) * 2 / static_cast<size_t>(P) + 5 : kind == K_LOCKFREE ? bound * 3 / static_cast<size_t>(P) + 40 : 400;
    int flusher = r.chance(25);
    label(sf("case %llu: %s queue=%zu workers=%zu producers=%d messages=%zu flusher=%d", (unsigned long long)i, kind_name(kind), q, w, P, per, flusher));
    stderr_capture cap;
    noise(cs, static_cast<unsigned>(r.pick(std::vector<int>{0, 20, 100, 300})));
    turnstile gate;
    auto sink = std::make_shared<rec_sink>();
    sink->on_log = [&](const ll::base::log_msg&) { gate.pass(); };
    auto tp = make_pool(kind, q, w);
    std::vector<std::shared_ptr<ll::async_logger>> lg;
    for (int k = 0; k < nl; k++) lg.push_back(std::make_shared<ll::async_logger>(sf("l%d", k), sink, tp));
    std::atomic<uint64_t> accepted{0};
    uint64_t total = static_cast<uint64_t>(P) * per;
    std::vector<std::thread> ts;
    for (int p = 0; p < P; p++)
        ts.emplace_back([&, p] {
            for (size_t s = 0; s < per; s++) {
                lg[s % static_cast<size_t>(nl)]->info("{}:{}:", p, s);
                accepted++;
                tick();
            }
        });
    uint64_t acc = 0;
    if (kind == K_LOCK) {
        // fills up exactly to capacity, then one more per message that gets out
        bool ok = settle([&] { return accepted.load() >= q + w; });
        VF_CHECK(ok, "C05-blocked-early", "only %llu messages were accepted by a queue of %zu with %zu workers", (unsigned long long)accepted.load(), q, w);
        sleep_us(r.range(500, 5000));
        acc = accepted.load();
        VF_CHECK(acc <= q + w, "C05-unbounded", "%llu messages were accepted by a queue of %zu with %zu workers while the sinks stalled", (unsigned long long)acc, q, w);
        uint64_t out = 0;
        int rounds = r.range(1, 5);
        for (int k = 0; k < rounds && ok && acc == q + w; k++) {
            uint64_t n = static_cast<uint64_t>(r.range(1, 3));
            if (out + n + q + w > total) break;
            gate.tickets += static_cast<int64_t>(n);
            out += n;
            bool more = settle([&] { return accepted.load() >= q + w + out; });
            VF_CHECK(more, "C05-not-resumed", "%llu messages were output, but only %llu were accepted (queue %zu, workers %zu)", (unsigned long long)out,
                     (unsigned long long)accepted.load(), q, w);
            if (!more) break;
            sleep_us(r.range(100, 2000));
            VF_CHECK(accepted.load() <= q + w + out, "C05-unbounded", "%llu messages were accepted and %llu output (queue %zu, workers %zu)",
                     (unsigned long long)accepted.load(), (unsigned long long)out, q, w);
            stat("releases");
        }
        stat("exact_fill_checks");
    } else if (kind == K_LOCKFREE) {
        // until it stops accepting
        uint64_t last = 0;
        int64_t since = now_ns();
        while (now_ns() - since < 30000000) {
            uint64_t a = accepted.load();
            if (a != last) { last = a; since = now_ns(); }
            if (a > bound) break;
            sleep_us(200);
        }
        acc = accepted.load();
        VF_CHECK(acc <= bound, "C05-unbounded", "%llu messages were accepted by a lockfree queue of %zu with %zu workers and %d producers while the sinks stalled",
                 (unsigned long long)acc, q, w, P);
        stat("bound_checks");
        stat_max("lockfree_accepted_over_queue_size", acc > q ? acc - q : 0);
    } else {
        bool ok = settle([&] { return accepted.load() >= total; });
        VF_CHECK(ok, "C05-conc-blocked", "the lockfree_concurrent pool accepted only %llu of %llu messages while the sinks stalled", (unsigned long long)accepted.load(), (unsigned long long)total);
        stat("growth_checks");
    }
    std::thread fl;
    std::atomic<bool> flushed{false};
    if (flusher) fl = std::thread([&] { lg[0]->flush(); flushed = true; });
    sleep_us(r.range(0, 300));
    gate.open = true;
    bool ok = settle([&] { return accepted.load() >= total && sink->nlog.load() >= total && (!flusher || flushed.load()); });
    noise_off();
    if (!ok) {
        viol("C05-stuck", sf("after the sinks resumed %llu of %llu messages were accepted and %zu output, flush returned: %d", (unsigned long long)accepted.load(),
                             (unsigned long long)total, sink->nlog.load(), flushed.load()));
        S().done = true;
        flush_results();
        emit("END");
        _exit(0);
    }
    for (auto& t : ts) t.join();
    if (fl.joinable()) fl.join();
    lg.clear();
    tp.reset();
    std::set<std::pair<int, int>> seen;
    for (auto& x : sink->logs()) { int p, s; if (parse_id(x.text, p, s)) seen.insert({p, s}); }
    VF_CHECK(seen.size() == total && sink->nlog.load() == total, "C05-delivery", "%zu different and %zu in all of %llu messages were output", seen.size(), sink->nlog.load(), (unsigned long long)total);
    VF_CHECK(cap.text().empty(), "C05-report", "unexpected report: %s", esc(cap.text(), 200).c_str());
    stat("messages", total);
    stat(sf("cases_%s", kind_name(kind)));
    if (i < 6) sample(sf("%s queue=%zu workers=%zu producers=%d: %llu of %llu calls returned while stalled", kind_name(kind), q, w, P, (unsigned long long)acc, (unsigned long long)total));
    casedone(hash_mix(cs, acc), true);
}

// sinks that stall very long: what holds during a short stall holds however long it lasts
static void long_stall(uint64_t i) {
    uint64_t cs = caseseed(i + 700000);
    rng r(cs);
    int kind = static_cast<int>(i % 3);
    long ms = arg("stall_ms", 4000);
    size_t q = static_cast<size_t>(r.pick(std::vector<int>{1, 2, 3, 7, 32})), w = static_cast<size_t>(r.range(1, 3));
    int P = r.range(1, 4);
    size_t bound = kind == K_LOCK ? q + w : (q + 31) / 32 * 32 + 64 * static_cast<size_t>(P) + w;
    // the queue of the lockfree_concurrent pool grows however long the stall: once to a great many messages
    size_t per = kind == K_CONC ? (i == 2 ? static_cast<size_t>(arg("grow", 300000)) / static_cast<size_t>(P) : 300) : bound / static_cast<size_t>(P) + 40;
    uint64_t total = static_cast<uint64_t>(P) * per;
    turnstile gate;
    auto sink = std::make_shared<rec_sink>();
    sink->on_log = [&](const ll::base::log_msg&) { gate.pass(); };
    auto tp = make_pool(kind, q, w);
    auto lg = std::make_shared<ll::async_logger>("slow", sink, tp);
    std::atomic<uint64_t> accepted{0};
    std::vector<std::thread> ts;
    for (int p = 0; p < P; p++)
        ts.emplace_back([&, p] { for (size_t s = 0; s < per; s++) { lg->info("{}:{}:", p, s); accepted++; tick(); } });
    std::atomic<bool> flushed{false};
    std::thread fl([&] { while (gate.inside.load() < w && !gate.open.load()) sleep_us(100); lg->flush(); flushed = true; });   // once every worker is held
    uint64_t worst = 0;
    bool early = false;
    if (kind == K_CONC) {
        // logging that much takes its time: as long as there is progress
        bool all = settle([&] { return accepted.load() >= total; });
        VF_CHECK(all, "C05-conc-blocked", "the lockfree_concurrent pool accepted only %llu of %llu messages while the sinks stalled", (unsigned long long)accepted.load(), (unsigned long long)total);
        stat_max("lockfree_concurrent_most_buffered", accepted.load());
    }
    for (long k = 0; k < ms; k += 10) {
        sleep_us(10000);
        tick();
        worst = accepted.load();
        if (kind != K_CONC && worst > bound) break;
        if (flushed.load()) early = true;
    }
    const char* n = kind_name(kind);
    if (kind == K_CONC) VF_CHECK(worst == total, "C05-conc-blocked", "the %s pool accepted only %llu of %llu messages in %ld ms", n, (unsigned long long)worst, (unsigned long long)total, ms);
    else VF_CHECK(worst <= bound, "C05-unbounded", "%s queue=%zu workers=%zu producers=%d: %llu messages were accepted while the sinks stalled for %ld ms", n, q, w, P, (unsigned long long)worst, ms);
    VF_CHECK(!early, "C05-flush-early", "%s: flush() returned while the sinks stalled", n);
    gate.open = true;
    bool ok = settle([&] { return accepted.load() >= total && sink->nlog.load() >= total && flushed.load(); });
    if (!ok) {
        viol("C05-stuck", sf("%s queue=%zu: after the sinks resumed from %ld ms %llu of %llu messages were accepted and %zu output, flush returned: %d", n, q, ms,
                             (unsigned long long)accepted.load(), (unsigned long long)total, sink->nlog.load(), flushed.load()));
        S().done = true;
        flush_results();
        emit("END");
        _exit(0);
    }
    for (auto& t : ts) t.join();
    fl.join();
    lg.reset();
    tp.reset();
    std::set<std::pair<int, int>> seen;
    for (auto& x : sink->logs()) { int p, s; if (parse_id(x.text, p, s)) seen.insert({p, s}); }
    VF_CHECK(seen.size() == total && sink->nlog.load() == total, "C05-delivery", "%s queue=%zu, %ld ms stall: %zu different and %zu in all of %llu messages were output", n, q, ms, seen.size(),
             sink->nlog.load(), (unsigned long long)total);
    stat("long_stalls");
    stat("messages", total);
    casedone(hash_mix(cs, worst), true);
}

void vf_main() {
    budget b;
    if (S().mode == "long") {
        stderr_capture cap;
        label("long stalls");
        std::vector<std::thread> ts;
        for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 12)); i++) ts.emplace_back([i] { long_stall(i); });
        for (auto& t : ts) t.join();
        VF_CHECK(cap.text().empty(), "C05-report", "unexpected report: %s", esc(cap.text(), 200).c_str());
        return;
    }
    long cases = arg("cases", 100);
    for (long i = 0; i < cases && b.left() && !S().violations.load(); i++) one_case(static_cast<uint64_t>(i));
}
