// C18: the blocking queue. Recorded concurrent histories are searched for a sequential explanation,
// long runs are checked for conservation, order and counters, and waiting threads are watched.
#include "vf.h"
#include "clock.h"
#include "base/block_queue.h"

using namespace vf;

struct item {
    std::unique_ptr<uint64_t> p;      // move-only; a lost or duplicated element shows up in ASan as well
    item() = default;
    explicit item(uint64_t v) : p(new uint64_t(v)) {}
};
using queue = learnlog::base::block_queue<item>;

enum kind : int { ENQ, ENQ_NOWAIT, ENQ_ROOM, DEQ, DEQ_FOR, SIZE, OVERRIDE, RESET_OVERRIDE, NKINDS };
static const char* kname[] = {"enqueue", "enqueue_nowait", "enqueue_if_have_room", "dequeue", "dequeue_for", "size",
                              "override_count", "reset_override_count"};

struct op {
    int kind = 0;
    uint64_t val = 0;       // element put in, or result
    bool ok = true;         // dequeue_for
    int ms = 0;
    uint64_t t0 = 0, t1 = 0;
    int thread = 0;
};
static std::string ostr(const op& o) {
    std::string r = sf("T%d[%llu,%llu] %s", o.thread, (unsigned long long)o.t0, (unsigned long long)o.t1, kname[o.kind]);
    if (o.kind <= ENQ_ROOM) r += sf("(%llu)", (unsigned long long)o.val);
    else if (o.kind == DEQ_FOR && !o.ok) r += sf("(%d) timed out", o.ms);
    else if (o.kind != RESET_OVERRIDE) r += sf(" -> %llu", (unsigned long long)o.val);
    return r;
}

static std::atomic<uint64_t> g_ticket{0};

static void perform(queue& q, op& o) {
    o.t0 = g_ticket++;
    switch (o.kind) {
        case ENQ: q.enqueue(item(o.val)); break;
        case ENQ_NOWAIT: q.enqueue_nowait(item(o.val)); break;
        case ENQ_ROOM: q.enqueue_if_have_room(item(o.val)); break;
        case DEQ: { item i; q.dequeue(i); o.val = i.p ? *i.p : ~0ull; break; }
        case DEQ_FOR: {
            item i;
            int64_t a = now_ns();
            o.ok = q.dequeue_for(i, std::chrono::milliseconds(o.ms));
            int64_t d = now_ns() - a;
            if (o.ok) o.val = i.p ? *i.p : ~0ull;
            else if (d < o.ms * 1000000ll)
                viol("early-timeout", sf("dequeue_for(%d ms) gave up after %lld us", o.ms, (long long)d / 1000));
            break;
        }
        case SIZE: o.val = q.size(); break;
        case OVERRIDE: o.val = q.get_override_count(); break;
        case RESET_OVERRIDE: q.reset_override_count(); break;
    }
    o.t1 = g_ticket++;
    tick();
}

// is there an order of the operations, respecting their real-time order, that a sequential queue explains?
struct linearizer {
    const std::vector<op>& ops;
    size_t cap;
    std::unordered_set<uint64_t> seen;
    uint64_t steps = 0;
    std::vector<uint64_t> final_content;
    uint64_t final_over, final_disc;
    explicit linearizer(const std::vector<op>& o, size_t c) : ops(o), cap(c) {}
    bool go(uint64_t done, std::deque<uint64_t>& q, uint64_t over, uint64_t disc) {
        if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) {
            return std::vector<uint64_t>(q.begin(), q.end()) == final_content && over == final_over && disc == final_disc;
        }
        uint64_t h = hash_mix(hash_mix(hash_mix(5, done), over), disc);
        for (auto v : q) h = hash_mix(h, v);
        if (!seen.insert(h).second) return false;
        if (++steps > 3000000) return true;          // undecided: counted as explained
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < ops.size(); i++)
            if (!(done >> i & 1)) first_end = std::min(first_end, ops[i].t1);
        for (size_t i = 0; i < ops.size(); i++) {
            if ((done >> i & 1) || ops[i].t0 > first_end) continue;
            const op& o = ops[i];
            uint64_t nd = done | 1ull << i;
            switch (o.kind) {
                case ENQ:
                    if (q.size() >= cap) break;
                    q.push_back(o.val);
                    if (go(nd, q, over, disc)) return true;
                    q.pop_back();
                    break;
                case ENQ_ROOM:
                    if (q.size() >= cap) { if (go(nd, q, over, disc + 1)) return true; break; }
                    q.push_back(o.val);
                    if (go(nd, q, over, disc)) return true;
                    q.pop_back();
                    break;
                case ENQ_NOWAIT: {
                    std::deque<uint64_t> n = q;
                    n.push_back(o.val);
                    bool ov = n.size() > cap;
                    if (ov) n.pop_front();
                    if (go(nd, n, over + ov, disc)) return true;
                    break;
                }
                case DEQ: case DEQ_FOR:
                    if (o.kind == DEQ_FOR && !o.ok) {
                        if (q.empty() && go(nd, q, over, disc)) return true;
                        break;
                    }
                    if (q.empty() || q.front() != o.val) break;
                    q.pop_front();
                    if (go(nd, q, over, disc)) return true;
                    q.push_front(o.val);
                    break;
                case SIZE: if (q.size() == o.val && go(nd, q, over, disc)) return true; break;
                case OVERRIDE: if (over == o.val && go(nd, q, over, disc)) return true; break;
                case RESET_OVERRIDE: if (go(nd, q, 0, disc)) return true; break;
            }
        }
        return false;
    }
};

[[noreturn]] static void stuck(const std::string& d) {
    viol("forgotten-waiter", d);
    flush_results();
    emit("END");
    _exit(0);
}

struct runner {
    queue& q;
    size_t cap;
    std::vector<std::unique_ptr<std::atomic<int>>> in;     // what each thread is doing; -1 between operations, -2 finished
    runner(queue& qq, size_t c, int n) : q(qq), cap(c) {
        for (int i = 0; i < n; i++) in.emplace_back(new std::atomic<int>(-1));
    }
    // lets blocked threads go on by operations of the calling thread, which are legal ones
    template <typename F> void attend(F record, uint64_t& nextval) {
        uint64_t last = S().progress.load();
        int64_t since = now_ns();
        for (;;) {
            int deq = 0, enq = 0, running = 0;
            for (auto& a : in) {
                int k = a->load();
                if (k == -2) continue;
                running++;
                if (k == DEQ) deq++;
                if (k == ENQ) enq++;
            }
            if (!running) return;
            uint64_t p = S().progress.load();
            int64_t idle = now_ns() - since;
            if (p != last) { last = p; since = now_ns(); sleep_us(20); continue; }
            if (idle > 300000 && deq + enq == running) {
                size_t n = q.size();
                if (n == 0 && enq == 0) {
                    op o;
                    o.kind = nextval % 3 == 0 ? ENQ : nextval % 3 == 1 ? ENQ_NOWAIT : ENQ_ROOM;
                    o.val = nextval++;
                    record(o);
                    since = now_ns();
                } else if (n >= cap && deq == 0) {
                    op o;
                    o.kind = nextval % 2 ? DEQ_FOR : DEQ;
                    nextval++;
                    record(o);
                    since = now_ns();
                } else if (idle > 15000000000ll)
                    stuck(sf("%d threads wait in dequeue() and %d in enqueue() for 15 s with %zu of %zu elements in the queue", deq, enq, n, cap));
            }
            sleep_us(20);
        }
    }
};

// ---- short concurrent histories, searched for a sequential explanation
static void small_case(uint64_t cs) {
    rng r(cs);
    int nt = r.range(2, 4);
    size_t cap = r.chance(40) ? 1 : static_cast<size_t>(r.range(1, 4));
    int per = r.range(2, nt == 2 ? 8 : nt == 3 ? 6 : 5);
    queue q(cap);
    std::vector<std::vector<op>> plan(static_cast<size_t>(nt) + 1);
    uint64_t val = 1;
    int bias = r.range(0, 3);
    for (int t = 0; t < nt; t++)
        for (int k = 0; k < per; k++) {
            op o;
            o.thread = t;
            int x = r.range(0, 99);
            bool producer = bias == 0 ? r.chance(50) : bias == 1 ? t == 0 : bias == 2 ? t != 0 : t % 2 == 0;
            if (x < 12) o.kind = r.range(0, 3) ? SIZE : r.range(0, 3) ? OVERRIDE : RESET_OVERRIDE;
            else if (producer) o.kind = r.chance(50) ? ENQ : r.chance(50) ? ENQ_NOWAIT : ENQ_ROOM;
            else o.kind = r.chance(50) ? DEQ : DEQ_FOR;
            o.ms = o.kind == DEQ_FOR ? (r.chance(50) ? 0 : r.range(-2, 2)) : 0;
            if (o.kind <= ENQ_ROOM) o.val = val++;
            plan[static_cast<size_t>(t)].push_back(o);
        }
    for (auto& p : plan) for (auto& o : p) if (o.kind == DEQ_FOR && o.ms < 0) o.ms = o.ms == -1 ? 0 : -1;
    runner run(q, cap, nt);
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    unsigned spin = static_cast<unsigned>(r.below(200));
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            go++;
            while (go.load() <= nt) {}
            for (auto& o : plan[static_cast<size_t>(t)]) {
                run.in[static_cast<size_t>(t)]->store(o.kind);
                perform(q, o);
                run.in[static_cast<size_t>(t)]->store(-1);
                for (unsigned i = 0; i < spin; i++) asm volatile("");
            }
            run.in[static_cast<size_t>(t)]->store(-2);
        });
    go++;
    run.attend([&](op o) { o.thread = nt; perform(q, o); plan[static_cast<size_t>(nt)].push_back(o); }, val);
    for (auto& t : th) t.join();

    std::vector<op> all;
    for (auto& p : plan) for (auto& o : p) all.push_back(o);
    if (all.size() > 60) { stat("histories_too_long"); return; }
    linearizer lin(all, cap);
    size_t n = q.size();
    lin.final_over = q.get_override_count();
    lin.final_disc = q.get_discard_count();
    for (size_t i = 0; i < n; i++) {
        item x;
        if (!q.dequeue_for(x, std::chrono::milliseconds(0))) { viol("size", sf("size() said %zu, but only %zu elements could be taken out", n, i)); return; }
        lin.final_content.push_back(x.p ? *x.p : ~0ull);
    }
    item x;
    if (q.dequeue_for(x, std::chrono::milliseconds(0))) viol("size", sf("size() said %zu, but there is one more element", n));
    if (q.size() != 0) viol("size", "size() is not 0 after everything was taken out");
    std::deque<uint64_t> st;
    bool ok = lin.go(0, st, 0, 0);
    if (lin.steps > 3000000) stat("histories_undecided");
    if (!ok) {
        std::sort(all.begin(), all.end(), [](const op& a, const op& b) { return a.t0 < b.t0; });
        std::string d = sf("capacity %zu, left over %zu, overwritten %llu, discarded %llu: ", cap, n, (unsigned long long)lin.final_over, (unsigned long long)lin.final_disc);
        for (auto& o : all) d += ostr(o) + "; ";
        viol("not-linearizable", d);
    }
    bool overlap = false;
    uint64_t h = hash_mix(cap, static_cast<uint64_t>(nt));
    std::sort(all.begin(), all.end(), [](const op& a, const op& b) { return a.t0 < b.t0; });
    uint64_t base = all.empty() ? 0 : all[0].t0;
    for (size_t i = 0; i < all.size(); i++) {
        if (i && all[i].t0 < all[i - 1].t1) overlap = true;
        h = hash_mix(hash_mix(hash_mix(h, static_cast<uint64_t>(all[i].kind)), all[i].val), all[i].t1 - base);
    }
    casedone(h, overlap);
    stat("histories_linearized");
    if (overlap) stat("overlapping_histories");
    stat("operations", all.size());
    if (overlap && cs % 977 == 0) { std::string d; for (auto& o : all) d += ostr(o) + "; "; sample(d); }
}

// ---- long runs
static void long_case(uint64_t cs) {
    rng r(cs);
    size_t cap = r.chance(30) ? 1 : static_cast<size_t>(r.range(1, 70));
    int np = r.range(1, 6), nc = r.range(1, 6);
    int each = r.range(200, S().thorough ? 6000 : 2500);
    int mode = r.range(0, 3);      // 0 blocking only, 1 with discarding, 2 with overwriting, 3 all
    queue q(cap);
    std::vector<std::vector<uint64_t>> got(static_cast<size_t>(nc));
    std::vector<std::thread> th;
    std::atomic<int> left{np};
    std::atomic<bool> fin{false};
    std::atomic<size_t> inside{0};
    uint64_t seed = r.next();
    std::vector<std::vector<char>> kinds(static_cast<size_t>(np));
    for (int p = 0; p < np; p++)
        th.emplace_back([&, p] {
            rng x(seed + static_cast<uint64_t>(p));
            for (int s = 0; s < each; s++) {
                uint64_t v = (static_cast<uint64_t>(p) << 32) | static_cast<uint64_t>(s);
                int k = mode == 0 ? 0 : mode == 1 ? x.range(0, 1) : mode == 2 ? 2 * x.range(0, 1) : x.range(0, 2);
                kinds[static_cast<size_t>(p)].push_back(static_cast<char>(k));
                if (k == 0) q.enqueue(item(v));
                else if (k == 1) q.enqueue_if_have_room(item(v));
                else q.enqueue_nowait(item(v));
                if (x.below(200) == 0) {
                    size_t n = q.size();
                    if (n > cap) viol("capacity", sf("size() is %zu with capacity %zu", n, cap));
                }
                tick();
            }
            left--;
        });
    for (int c = 0; c < nc; c++)
        th.emplace_back([&, c] {
            rng x(seed ^ (77 + static_cast<uint64_t>(c)));
            bool timed = x.chance(30);
            auto& g = got[static_cast<size_t>(c)];
            for (;;) {
                item i;
                if (timed && x.chance(50)) {
                    if (!q.dequeue_for(i, std::chrono::milliseconds(x.range(0, 1)))) {
                        if (fin.load()) return;
                        continue;
                    }
                } else q.dequeue(i);
                tick();
                uint64_t v = i.p ? *i.p : ~1ull;
                if (v == ~0ull) return;
                g.push_back(v);
                if (x.below(500) == 0) sleep_us(static_cast<long>(x.below(50)));
            }
        });
    if (!settle([&] { return left.load() == 0; }))
        stuck(sf("%d of %d producers stopped making progress, capacity %zu, %zu elements in the queue", left.load(), np, cap, q.size()));
    for (int c = 0; c < nc; c++) q.enqueue(item(~0ull));
    fin = true;
    std::atomic<bool> joined{false};
    std::thread w([&] {
        if (!settle([&] { return joined.load(); })) stuck(sf("consumers did not end although the queue holds %zu elements", q.size()));
    });
    for (auto& t : th) t.join();
    joined = true;
    w.join();
    // conservation, order, counters
    std::set<uint64_t> seen;
    uint64_t h = hash_mix(cap, static_cast<uint64_t>(np * 16 + nc));
    for (int c = 0; c < nc; c++) {
        std::map<uint64_t, int64_t> lastp;
        for (auto v : got[static_cast<size_t>(c)]) {
            uint64_t p = v >> 32;
            int64_t s = static_cast<int64_t>(v & 0xffffffff);
            if (p >= static_cast<uint64_t>(np) || s >= each) { viol("content", sf("took out %llx, which was never put in", (unsigned long long)v)); return; }
            if (!seen.insert(v).second) viol("duplicate", sf("element %llu of producer %llu was taken out twice", (unsigned long long)s, (unsigned long long)p));
            auto it = lastp.find(p);
            if (it != lastp.end() && it->second >= s) viol("order", sf("consumer %d got element %lld of producer %llu after element %lld", c, (long long)s, (unsigned long long)p, (long long)it->second));
            lastp[p] = s;
        }
        h = hash_mix(h, got[static_cast<size_t>(c)].size());
    }
    // timed consumers may have left terminators or elements behind
    for (;;) {
        item i;
        if (!q.dequeue_for(i, std::chrono::milliseconds(0))) break;
        uint64_t v = i.p ? *i.p : ~1ull;
        if (v == ~0ull) continue;
        if (!seen.insert(v).second) viol("duplicate", "an element was taken out twice");
    }
    size_t total = static_cast<size_t>(np) * static_cast<size_t>(each);
    size_t over = q.get_override_count(), disc = q.get_discard_count();
    size_t room = 0;
    for (auto& k : kinds) for (char c : k) room += c == 1;
    if (seen.size() + over + disc != total)
        viol("conservation", sf("%zu put in, %zu taken out, %zu overwritten, %zu discarded (capacity %zu, mode %d)", total, seen.size(), over, disc, cap, mode));
    if (mode < 2 && over) viol("override_count", sf("%zu overwritten without enqueue_nowait()", over));
    if (disc > room) viol("discard_count", sf("%zu discarded of %zu that may be", disc, room));
    if (mode == 0 || mode == 1) {
        // only elements offered with enqueue_if_have_room() may be missing
        for (int p = 0; p < np; p++)
            for (int s = 0; s < each; s++)
                if (kinds[static_cast<size_t>(p)][static_cast<size_t>(s)] == 0 && !seen.count((static_cast<uint64_t>(p) << 32) | static_cast<uint64_t>(s)))
                    viol("lost", sf("element %d of producer %d, put in with enqueue(), was lost", s, p));
    }
    q.reset_override_count();
    q.reset_discard_count();
    if (q.get_override_count() || q.get_discard_count()) viol("reset", "a reset counter is not zero");
    casedone(h, true);
    stat("long_runs");
    stat("elements", total);
    stat("overwritten", over);
    stat("discarded", disc);
}

// ---- sequential histories with exact results
static void seq_case(uint64_t cs) {
    rng r(cs);
    size_t cap = static_cast<size_t>(r.range(1, 9));
    queue q(cap);
    std::deque<uint64_t> m;
    size_t over = 0, disc = 0;
    uint64_t v = 1, h = cap;
    std::string hist = sf("cap %zu:", cap);
    for (int k = 0; k < 60; k++) {
        int x = r.range(0, 9);
        h = hash_mix(h, static_cast<uint64_t>(x));
        if (x <= 1 && m.size() < cap) { q.enqueue(item(v)); m.push_back(v++); hist += " E"; }
        else if (x == 2 || x == 3) {
            q.enqueue_nowait(item(v));
            m.push_back(v++);
            if (m.size() > cap) { m.pop_front(); over++; }
            hist += " N";
        } else if (x == 4 || x == 5) {
            q.enqueue_if_have_room(item(v));
            if (m.size() < cap) m.push_back(v); else disc++;
            v++;
            hist += " R";
        } else if (x == 6 && !m.empty()) {
            item i;
            q.dequeue(i);
            if (!i.p || *i.p != m.front()) viol("sequential", "dequeue gave the wrong element after" + hist);
            m.pop_front();
            hist += " D";
        } else if (x <= 8) {
            item i;
            int ms = m.empty() ? r.range(-1, 1) : r.range(-1, 5000);
            bool ok = q.dequeue_for(i, std::chrono::milliseconds(ms));
            if (ok != !m.empty()) { viol("sequential", sf("dequeue_for(%d) returned %d with %zu elements after", ms, ok, m.size()) + hist); return; }
            if (ok) {
                if (!i.p || *i.p != m.front()) viol("sequential", "dequeue_for gave the wrong element after" + hist);
                m.pop_front();
            }
            hist += " F";
        } else if (r.chance(30)) {
            if (r.chance(50)) { q.reset_override_count(); over = 0; }
            else { q.reset_discard_count(); disc = 0; }
            hist += " reset";
        }
        if (q.size() != m.size() || q.get_override_count() != over || q.get_discard_count() != disc) {
            viol("sequential", sf("size %zu/%zu, overwritten %zu/%zu, discarded %zu/%zu after", q.size(), m.size(), q.get_override_count(), over, q.get_discard_count(), disc) + hist);
            return;
        }
    }
    casedone(hash_mix(h, 99), true);
    stat("sequential_histories");
}

// ---- many waiters: k waiting threads and k elements (or places): all must return
static void waiters_case(uint64_t cs) {
    rng r(cs);
    int k = r.range(1, 12);
    size_t cap = static_cast<size_t>(r.range(1, 6));
    bool consumers = r.chance(50);
    queue q(cap);
    uint64_t v = 1;
    if (!consumers) for (size_t i = 0; i < cap; i++) q.enqueue(item(v++));
    std::atomic<int> back{0};
    std::vector<std::thread> th;
    int timed = consumers ? r.range(0, 2) : 0;
    clock_setter clk(cs, r.chance(50));
    typedef std::chrono::milliseconds ms_t;
    std::vector<ms_t> longs{ms_t(60000), ms_t::max(), ms_t(1000000000000000ll), ms_t(60000), ms_t::max() - ms_t(1), std::chrono::hours(24 * 365 * 292), std::chrono::hours(24 * 365 * 280)};
    for (int i = 0; i < k; i++)
        th.emplace_back([&, i] {
            item x;
            if (!consumers) q.enqueue(item(1000 + static_cast<uint64_t>(i)));
            else if (timed == 0 || (timed == 2 && i % 2)) q.dequeue(x);
            else {
                int64_t a = now_ns();
                if (!q.dequeue_for(x, longs[static_cast<size_t>(i) % longs.size()])) viol("timeout", sf("dequeue_for(60 s or more) failed after %lld ms although as many elements as waiters were put in", (long long)(now_ns() - a) / 1000000));
            }
            back++;
            tick();
        });
    // timed-out waiters in between must not swallow a wake-up
    int qms = r.range(0, 2);
    std::thread quick([&] {
        if (!consumers) return;
        item x;
        for (int i = 0; i < 3; i++)
            if (q.dequeue_for(x, qms < 2 ? std::chrono::milliseconds(qms) : std::chrono::milliseconds::min() + std::chrono::milliseconds(i))) { q.enqueue(std::move(x)); }
    });
    if (r.chance(70)) sleep_us(static_cast<long>(r.below(3000)));
    for (int i = 0; i < k; i++) {
        if (consumers) {
            int e = r.range(0, 2);
            // discarding and overwriting would take an element away from a waiter: only with room for sure
            if (e && cap < static_cast<size_t>(k) + 1) e = 0;
            if (e == 0) q.enqueue(item(v++));
            else if (e == 1) q.enqueue_nowait(item(v++));
            else q.enqueue_if_have_room(item(v++));
        } else {
            item x;
            if (r.chance(50)) q.dequeue(x);
            else if (!q.dequeue_for(x, std::chrono::milliseconds(20000))) viol("timeout", "dequeue_for(20 s) failed with producers waiting");
        }
        tick();
    }
    quick.join();
    if (!settle([&] { return back.load() == k; }))
        stuck(sf("%d of %d waiting %s did not return; %zu of %zu elements in the queue", k - back.load(), k, consumers ? "consumers" : "producers", q.size(), cap));
    for (auto& t : th) t.join();
    size_t want = consumers ? 0 : cap;
    if (q.size() != want) viol("size", sf("%zu elements instead of %zu after %d waiters were served", q.size(), want, k));
    casedone(hash_mix(hash_mix(static_cast<uint64_t>(k), cap), r.next()), k > 1);
    stat("waiter_cases");
}

void vf_main() {
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000000)) && b.left() && !too_many(); i++) {
        uint64_t cs = caseseed(i);
        if (i % 16 == 0) label(sf("case %llu", (unsigned long long)i));
        if (i % 4 == 0) noise(cs, static_cast<unsigned>(i / 4 % 4));
        if (i % 200 == 100) long_case(cs);
        else if (i % 10 == 5) seq_case(cs);
        else if (i % 20 == 6) waiters_case(cs);
        else small_case(cs);
    }
}
