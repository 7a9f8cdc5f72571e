// C20: the bundled lock-free queues and their semaphore. Every element carries its producer and number;
// consumers check order, a global table counts deliveries, live objects and allocations are counted.
#include "vf.h"
#include "base/concurrentqueue/blockingconcurrentqueue.h"
#include "base/concurrentqueue/concurrentqueue.h"
#include "base/concurrentqueue/lightweightsemaphore.h"
#include <deque>
#include <iterator>
#include <condition_variable>

using namespace vf;

static thread_local bool tl_no_alloc = false;
static thread_local unsigned tl_allocs = 0;
static thread_local int tl_fail_in = -1;         // >= 0: that many allocations succeed, then one fails
static std::atomic<uint64_t> g_alloc_failures{0};
static void* counted_malloc(size_t n) {
    if (tl_no_alloc) tl_allocs++;
    if (tl_fail_in >= 0 && tl_fail_in-- == 0) { g_alloc_failures++; return nullptr; }
    return std::malloc(n);
}

struct traits_default : moodycamel::ConcurrentQueueDefaultTraits {
    static void* malloc(size_t n) { return counted_malloc(n); }
    static void free(void* p) { std::free(p); }
};
struct traits_tiny : traits_default {
    static const size_t BLOCK_SIZE = 2;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 32;
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 1;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 3;
    static const int MAX_SEMA_SPINS = 3;
};
struct traits_counter : traits_default {
    static const size_t BLOCK_SIZE = 16;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 8;    // blocks count their empty slots
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 16;
    static const bool RECYCLE_ALLOCATED_BLOCKS = true;
    static const int MAX_SEMA_SPINS = 0;
};

static std::atomic<long> g_live{0};
struct elem {
    int32_t p = -1, s = -1;
    std::unique_ptr<uint64_t> heap;
    elem() { g_live++; }
    elem(int a, int b) : p(a), s(b), heap(new uint64_t(static_cast<uint64_t>(a) * 1000003u + static_cast<uint64_t>(b))) { g_live++; }
    elem(elem&& o) noexcept : p(o.p), s(o.s), heap(std::move(o.heap)) { g_live++; }
    elem& operator=(elem&& o) noexcept { p = o.p; s = o.s; heap = std::move(o.heap); return *this; }
    ~elem() { if (p == -7) viol("destroyed-twice", sf("element %d destroyed twice", s)); g_live--; *const_cast<volatile int32_t*>(&p) = -7; }
    bool whole() const { return heap && *heap == static_cast<uint64_t>(p) * 1000003u + static_cast<uint64_t>(s); }
};

[[noreturn]] static void stuck(const char* key, const std::string& d) {
    viol(key, d);
    flush_results();
    emit("END");
    _exit(0);
}

template <typename TR> struct trname;
template <> struct trname<traits_default> { static const char* get() { return "default"; } };
template <> struct trname<traits_tiny> { static const char* get() { return "tiny"; } };
template <> struct trname<traits_counter> { static const char* get() { return "counter"; } };

struct book {      // deliveries
    int np, each;
    std::vector<std::unique_ptr<std::atomic<int>[]>> n;
    std::vector<std::unique_ptr<std::atomic<int>[]>> in;     // entered
    std::atomic<uint64_t> sent{0}, got{0};
    int limit(int p) const { return p == np - 1 ? wakers : each; }
    enum { wakers = 2000 };              // the last producer is the one that wakes waiting consumers at the end
    book(int p, int e) : np(p + 1), each(e) {
        for (int i = 0; i < np; i++) {
            n.emplace_back(new std::atomic<int>[static_cast<size_t>(limit(i))]());
            in.emplace_back(new std::atomic<int>[static_cast<size_t>(limit(i))]());
        }
    }
    bool take(const elem& e, std::vector<int>& last, int consumer, const char* how) {
        if (e.p < 0 || e.p >= np || e.s < 0 || e.s >= limit(e.p) || !e.whole()) {
            viol("content", sf("consumer %d got a damaged element (%d:%d, payload %s) from %s", consumer, e.p, e.s, e.heap ? "wrong" : "gone", how));
            return false;
        }
        if (n[static_cast<size_t>(e.p)][e.s].fetch_add(1) != 0) viol("duplicate", sf("element %d:%d was dequeued twice (%s)", e.p, e.s, how));
        if (last[static_cast<size_t>(e.p)] >= e.s)
            viol("order", sf("consumer %d got element %d of producer %d after element %d (%s)", consumer, e.s, e.p, last[static_cast<size_t>(e.p)], how));
        last[static_cast<size_t>(e.p)] = e.s;
        got++;
        return true;
    }
};

// puts elements [s, s+k) of producer p in; returns how many of them were put in (0 or k)
template <typename Q, typename Tok>
static int put(Q& q, Tok* tok, book& b, int p, int s, int k, int how, bool first, bool fail) {
    std::vector<elem> v;
    for (int i = 0; i < k; i++) v.emplace_back(p, s + i);
    bool ok = false, tried = how == 1 || how == 3;
    tl_no_alloc = tried && !first;
    tl_allocs = 0;
    if (fail) tl_fail_in = static_cast<int>(hash_mix(static_cast<uint64_t>(s), 3) % 3);
    switch (how) {
        case 0: ok = tok ? q.enqueue(*tok, std::move(v[0])) : q.enqueue(std::move(v[0])); break;
        case 1: ok = tok ? q.try_enqueue(*tok, std::move(v[0])) : q.try_enqueue(std::move(v[0])); break;
        case 2: ok = tok ? q.enqueue_bulk(*tok, std::make_move_iterator(v.begin()), v.size()) : q.enqueue_bulk(std::make_move_iterator(v.begin()), v.size()); break;
        default: ok = tok ? q.try_enqueue_bulk(*tok, std::make_move_iterator(v.begin()), v.size()) : q.try_enqueue_bulk(std::make_move_iterator(v.begin()), v.size()); break;
    }
    tl_no_alloc = false;
    tl_fail_in = -1;
    if (tl_allocs) viol("try-allocates", sf("a try_enqueue%s (%s) allocated memory %u times", how == 3 ? "_bulk" : "", tok ? "token" : "no token", tl_allocs));
    if (!ok) {
        for (auto& e : v) if (!e.whole()) { viol("failed-enqueue-took", sf("a failed %s changed its element", how == 0 ? "enqueue" : how == 1 ? "try_enqueue" : "bulk enqueue")); break; }
        // after a failed allocation a producer may stay unable to store anything: nothing is promised then
        if (!tried && !fail && !g_alloc_failures.load()) viol("enqueue-failed", "enqueue() failed although memory was available");
        return 0;
    }
    for (int i = 0; i < k; i++) b.in[static_cast<size_t>(p)][s + i].store(1);
    b.sent += static_cast<uint64_t>(k);
    tick();
    return k;
}

template <typename Q, typename CT, typename PT>
static size_t take_plain(Q& q, CT* ct, const std::vector<std::unique_ptr<PT>>& pts, rng& x, std::vector<elem>& buf, const char*& how) {
    int k = x.range(0, 9);
    size_t max = 1 + x.below(9);
    buf.clear();
    buf.resize(max);
    if (!pts.empty() && k == 0) {
        how = "try_dequeue_from_producer";
        return q.try_dequeue_from_producer(*pts[x.below(pts.size())], buf[0]) ? 1 : 0;
    }
    if (!pts.empty() && k == 1) {
        how = "try_dequeue_bulk_from_producer";
        return q.try_dequeue_bulk_from_producer(*pts[x.below(pts.size())], buf.begin(), max);
    }
    if (k == 2) { how = "try_dequeue_non_interleaved"; return q.try_dequeue_non_interleaved(buf[0]) ? 1 : 0; }
    if (k < 6) { how = ct ? "try_dequeue(token)" : "try_dequeue"; return (ct ? q.try_dequeue(*ct, buf[0]) : q.try_dequeue(buf[0])) ? 1 : 0; }
    how = ct ? "try_dequeue_bulk(token)" : "try_dequeue_bulk";
    return ct ? q.try_dequeue_bulk(*ct, buf.begin(), max) : q.try_dequeue_bulk(buf.begin(), max);
}
template <typename Q, typename CT>
static size_t take_blocking(Q& q, CT* ct, rng& x, std::vector<elem>& buf, const char*& how, bool may_wait) {
    int k = may_wait ? x.range(0, 5) : x.range(2, 5);
    size_t max = 1 + x.below(9);
    buf.clear();
    buf.resize(max);
    switch (k) {
        case 0: how = "wait_dequeue"; if (ct) q.wait_dequeue(*ct, buf[0]); else q.wait_dequeue(buf[0]); return 1;
        case 1: how = "wait_dequeue_bulk"; return ct ? q.wait_dequeue_bulk(*ct, buf.begin(), max) : q.wait_dequeue_bulk(buf.begin(), max);
        case 2: {
            how = "wait_dequeue_timed";
            std::int64_t us = static_cast<std::int64_t>(x.below(300));
            if (x.chance(50)) return (ct ? q.wait_dequeue_timed(*ct, buf[0], us) : q.wait_dequeue_timed(buf[0], us)) ? 1 : 0;
            return (ct ? q.wait_dequeue_timed(*ct, buf[0], std::chrono::microseconds(us)) : q.wait_dequeue_timed(buf[0], std::chrono::microseconds(us))) ? 1 : 0;
        }
        case 3: {
            how = "wait_dequeue_bulk_timed";
            std::int64_t us = static_cast<std::int64_t>(x.below(300));
            return ct ? q.wait_dequeue_bulk_timed(*ct, buf.begin(), max, us) : q.wait_dequeue_bulk_timed(buf.begin(), max, us);
        }
        case 4: how = "try_dequeue (blocking queue)"; return (ct ? q.try_dequeue(*ct, buf[0]) : q.try_dequeue(buf[0])) ? 1 : 0;
        default: how = "try_dequeue_bulk (blocking queue)"; return ct ? q.try_dequeue_bulk(*ct, buf.begin(), max) : q.try_dequeue_bulk(buf.begin(), max);
    }
}

template <typename TR, bool BLOCKING> struct qtype { using type = moodycamel::ConcurrentQueue<elem, TR>; };
template <typename TR> struct qtype<TR, true> { using type = moodycamel::BlockingConcurrentQueue<elem, TR>; };

template <bool B> struct taker {
    template <typename Q, typename CT, typename PT>
    static size_t go(Q& q, CT* ct, const std::vector<std::unique_ptr<PT>>& p, rng& x, std::vector<elem>& b, const char*& how, bool) { return take_plain(q, ct, p, x, b, how); }
};
template <> struct taker<true> {
    template <typename Q, typename CT, typename PT>
    static size_t go(Q& q, CT* ct, const std::vector<std::unique_ptr<PT>>&, rng& x, std::vector<elem>& b, const char*& how, bool w) { return take_blocking(q, ct, x, b, how, w); }
};

template <typename TR, bool BLOCKING>
static void concurrent_case(uint64_t cs, bool faults) {
    using Q = typename qtype<TR, BLOCKING>::type;
    rng r(cs);
    int np = r.range(1, 6), nc = r.range(1, 5);
    int each = r.range(1, r.chance(20) ? 4000 : 300);
    size_t cap = r.below(r.chance(50) ? 10 : 500);
    bool leave = r.chance(30);            // consumers stop before the queue is empty
    bool threads_come_and_go = r.chance(25) && !leave;
    long live0 = g_live.load();
    uint64_t h = hash_mix(hash_mix(cs, static_cast<uint64_t>(np * 8 + nc)), static_cast<uint64_t>(each));
    bool mixed = false;
    {
        std::unique_ptr<Q> qp(r.chance(25) ? new Q(cap, static_cast<size_t>(np), static_cast<size_t>(np)) : new Q(cap));
        Q& q = *qp;
        book b(np, each);
        std::vector<std::unique_ptr<typename Q::producer_token_t>> toks(static_cast<size_t>(np)), shared;
        std::vector<bool> use_tok;
        for (int p = 0; p < np; p++) {
            use_tok.push_back(arg("tok", -1) >= 0 ? arg("tok", 0) != 0 : r.chance(50));
            if (use_tok.back()) toks[static_cast<size_t>(p)].reset(new typename Q::producer_token_t(q));
        }
        std::vector<std::unique_ptr<typename Q::producer_token_t>> fromtoks;
        // tokens used by try_dequeue_from_producer: the producers' own
        struct borrow { std::vector<std::unique_ptr<typename Q::producer_token_t>>& v; ~borrow() { for (auto& x : v) x.release(); } };
        for (auto& t : toks) if (t) fromtoks.emplace_back(t.get());
        borrow bo{fromtoks};
        std::atomic<int> producing{np}, waiting{0};
        std::atomic<bool> stop{false};
        uint64_t target = leave ? r.below(static_cast<uint64_t>(np * each) + 1) : ~0ull;
        uint64_t seed = r.next();
        std::vector<std::vector<int>> orders(static_cast<size_t>(nc));
        std::vector<std::thread> th;
        for (int c = 0; c < nc; c++)
            th.emplace_back([&, c] {
                rng x(seed ^ (0xc0 + static_cast<uint64_t>(c)));
                std::unique_ptr<typename Q::consumer_token_t> ct;
                if (x.chance(60)) ct.reset(new typename Q::consumer_token_t(q));
                std::vector<int> last(static_cast<size_t>(np) + 1, -1);
                std::vector<elem> buf;
                int misses = 0;
                while (!stop.load()) {
                    if (b.got.load() >= target) return;
                    const char* how = "";
                    // whoever still waits when the producers are done is woken by elements of the main thread
                    bool may_wait = BLOCKING && !leave && !faults;
                    if (may_wait) {
                        waiting++;
                        if (producing.load() == 0) { may_wait = false; waiting--; }
                    }
                    size_t n = taker<BLOCKING>::go(q, ct.get(), fromtoks, x, buf, how, may_wait);
                    if (may_wait) waiting--;
                    for (size_t i = 0; i < n; i++) {
                        if (!b.take(buf[i], last, c, how)) return;
                        orders[static_cast<size_t>(c)].push_back(buf[i].p);
                    }
                    if (n) { tick(); misses = 0; }
                    else if (++misses > 50) { sleep_us(20); }
                    if (x.below(300) == 0 && ct) ct.reset(new typename Q::consumer_token_t(q));
                }
            });
        for (int p = 0; p < np; p++)
            th.emplace_back([&, p] {
                rng x(seed + static_cast<uint64_t>(p));
                int s = 0;
                auto work = [&](int upto) {
                    bool first = true;
                    int fails = 0;
                    while (s < upto && !stop.load()) {
                        int how = x.range(0, 3);
                        if (arg("how", -1) >= 0) how = static_cast<int>(arg("how", 0));
                        if (arg("notry", 0)) how &= 2;
                        if (arg("nobulk", 0)) how &= 1;
                        int k = how < 2 ? 1 : std::min(upto - s, x.range(1, 9));
                        if (fails > 200) { how &= 2; }
                        if (faults && fails > 1000) { stat("gave_up"); break; }
                        int n = put(q, toks[static_cast<size_t>(p)].get(), b, p, s, k, how, first && !toks[static_cast<size_t>(p)], faults && x.chance(30));
                        if (n || !faults) first = false;
                        if (n) { s += n; fails = 0; }
                        else if (++fails % 50 == 0) sleep_us(10);
                        if (x.below(400) == 0) sleep_us(static_cast<long>(x.below(60)));
                    }
                };
                if (threads_come_and_go && !toks[static_cast<size_t>(p)]) {
                    // a producer continued by another thread: its sub-queue may be taken over by any thread;
                    // order is only promised per thread, so the producer waits until its elements are gone
                    for (int part = 0; part < 4 && s < each && !stop.load(); part++) {
                        int upto = std::min(each, s + each / 3 + 1);
                        std::thread t([&] { work(upto); });
                        t.join();
                        if (leave) continue;
                        int end = s;
                        settle([&] { if (stop.load()) return true; for (int i = 0; i < end; i++) if (!b.n[static_cast<size_t>(p)][i].load()) return false; return true; });
                    }
                } else work(each);
                producing--;
            });
        typename Q::producer_token_t wtok(q);
        bool wt = BLOCKING && r.chance(50);
        int woken = 0;
        bool done = settle([&] {
            if (producing.load()) return false;
            if (b.got.load() >= target) return true;
            if (b.got.load() != b.sent.load()) return false;
            if (!waiting.load()) return true;
            // a consumer that waits gets this one; one that does not may get it as well
            if (woken < book::wakers) woken += put(q, wt ? &wtok : nullptr, b, np, woken, 1, 0, true, false);
            return false;
        }, 20);
        if (woken) stat("woken_at_the_end");
        if (!done)
            stuck(producing.load() ? "producer-stuck" : "lost", sf("%s queue (%s): %llu of %llu elements were dequeued, %d producers still busy, nothing happened for 20 s (size_approx %zu)",
                  BLOCKING ? "blocking" : "plain", trname<TR>::get(), (unsigned long long)b.got.load(), (unsigned long long)b.sent.load(), producing.load(), q.size_approx()));
        stop = true;
        for (auto& t : th) t.join();
        size_t expect = static_cast<size_t>(b.sent.load() - b.got.load());
        if (q.size_approx() != expect) viol("size_approx", sf("size_approx() is %zu with %zu elements inside and nobody around (%s, %s)", q.size_approx(), expect, BLOCKING ? "blocking" : "plain", trname<TR>::get()));
        if (expect) stat("left_inside", expect);
        // the rest: taken out after moving the queue, or destroyed with it
        bool drain = r.chance(60);
        if (drain) {
            std::unique_ptr<Q> other;
            Q* cur = &q;
            int mv = r.range(0, 2);
            if (mv == 1) { other.reset(new Q(std::move(q))); cur = other.get(); }
            else if (mv == 2) { other.reset(new Q(3)); if (r.chance(50)) *other = std::move(q); else other->swap(q); cur = other.get(); }
            if (cur->size_approx() != expect) viol("move", sf("size_approx() is %zu instead of %zu after moving the queue", cur->size_approx(), expect));
            std::vector<int> last(static_cast<size_t>(np) + 1, -1);
            elem e;
            size_t n = 0;
            while (cur->try_dequeue(e)) { n++; if (!b.take(e, last, 99, "final try_dequeue")) break; }
            if (n != expect) viol("lost", sf("%zu of %zu remaining elements could be dequeued (moved: %d)", n, expect, mv));
            if (mv) stat("moved_queues");
        }
        // exactly once
        if (!leave || drain)
            for (int p = 0; p <= np; p++)
                for (int s = 0; s < b.limit(p); s++)
                    if (b.in[static_cast<size_t>(p)][s].load() && b.n[static_cast<size_t>(p)][s].load() != 1) {
                        viol("lost", sf("element %d:%d was dequeued %d times", p, s, b.n[static_cast<size_t>(p)][s].load()));
                        p = np + 1;
                        break;
                    }
        for (auto& o : orders) { for (size_t i = 1; i < o.size(); i++) if (o[i] != o[i - 1]) mixed = true; h = hash_mix(h, o.size()); for (int x : o) h = h * 31 + static_cast<uint64_t>(x); }
        stat("elements", b.sent.load());
        stat(BLOCKING ? "blocking_queue_cases" : "plain_queue_cases");
    }
    if (g_live.load() != live0) viol("destroy", sf("%ld elements are still alive after the queue is gone", g_live.load() - live0));
    casedone(h, np + nc > 2 && mixed);
    if (h % 97 == 0) sample(sf("%s queue, traits %s, %d producers, %d consumers, %d elements each, capacity %zu", BLOCKING ? "blocking" : "plain", trname<TR>::get(), np, nc, each, cap));
}

// order is not promised between threads that hand over a producer number while elements are inside: handled above
template <typename TR>
static void capacity_case(uint64_t cs) {
    using Q = moodycamel::ConcurrentQueue<elem, TR>;
    rng r(cs);
    size_t cap = r.below(200);
    int np = r.range(1, 4);
    long live0 = g_live.load();
    {
        Q q(cap);
        size_t blocks = (cap + TR::BLOCK_SIZE - 1) / TR::BLOCK_SIZE;
        size_t limit = blocks * TR::BLOCK_SIZE;
        std::atomic<size_t> in{0};
        std::vector<std::thread> th;
        uint64_t seed = r.next();
        bool tokens = r.chance(50), taking = r.chance(50);
        std::atomic<size_t> out{0};
        for (int p = 0; p < np; p++)
            th.emplace_back([&, p] {
                rng x(seed + static_cast<uint64_t>(p));
                std::unique_ptr<typename Q::producer_token_t> t;
                if (tokens) t.reset(new typename Q::producer_token_t(q));
                for (int k = 0; k < 400; k++) {
                    elem e(p, k);
                    // counted before it can be dequeued: "inside" is never underestimated by the check below
                    bool ok = t ? q.try_enqueue(*t, std::move(e)) : q.try_enqueue(std::move(e));
                    if (ok) in++;
                    else if (!e.whole()) viol("failed-enqueue-took", "a failed try_enqueue changed its element");
                    if (taking && x.chance(30)) { elem o; if (q.try_dequeue(o)) out++; }
                    tick();
                }
            });
        for (auto& t : th) t.join();
        size_t inside = in.load() - out.load();
        if (inside > limit) viol("capacity", sf("try_enqueue() stored %zu elements, %zu blocks of %zu were preallocated (%s)", inside, blocks, (size_t)TR::BLOCK_SIZE, trname<TR>::get()));
        if (q.size_approx() != inside) viol("size_approx", sf("size_approx() is %zu instead of %zu", q.size_approx(), inside));
        if (np == 1 && !taking && limit <= 32 && std::is_same<TR, traits_default>::value && in.load() < limit)
            viol("capacity", sf("a single producer could store only %zu elements in %zu preallocated slots", in.load(), limit));
        stat_max("filled", inside);
    }
    if (g_live.load() != live0) viol("destroy", sf("%ld elements are still alive after the queue is gone", g_live.load() - live0));
    casedone(hash_mix(cs, cap), np > 1);
    stat("capacity_cases");
}

// a waiting consumer per element: all of them must come back
template <typename TR>
static void waiting_case(uint64_t cs) {
    rng r(cs);
    moodycamel::BlockingConcurrentQueue<elem, TR> q(r.below(50));
    int k = r.range(1, 8), rounds = r.range(1, 20);
    std::atomic<int> served{0};
    std::vector<std::thread> th;
    std::vector<std::unique_ptr<std::atomic<int>>> seen;
    for (int i = 0; i < k * rounds; i++) seen.emplace_back(new std::atomic<int>(0));
    for (int c = 0; c < k; c++)
        th.emplace_back([&, c] {
            rng x(cs + static_cast<uint64_t>(c));
            moodycamel::ConsumerToken ct(q);
            for (int i = 0; i < rounds; i++) {
                elem e;
                switch (x.range(0, 3)) {
                    case 0: q.wait_dequeue(e); break;
                    case 1: q.wait_dequeue(ct, e); break;
                    case 2: { if (!q.wait_dequeue_timed(e, std::chrono::seconds(60))) viol("timeout", "wait_dequeue_timed(60 s) gave up although an element per waiter was put in"); break; }
                    default: { elem b[1]; if (q.wait_dequeue_bulk(b, 1) != 1) viol("wait", "wait_dequeue_bulk() returned without an element"); e = std::move(b[0]); }
                }
                if (e.p != 1 || e.s < 0 || e.s >= k * rounds || !e.whole()) { viol("content", "a waiting consumer got a damaged element"); return; }
                if (seen[static_cast<size_t>(e.s)]->fetch_add(1)) viol("duplicate", sf("element %d was delivered twice", e.s));
                served++;
                tick();
            }
        });
    // attempts in between that take nothing away
    for (int i = 0; i < k * rounds;) {
        int n = std::min(k * rounds - i, r.range(1, 4));
        if (n == 1) {
            elem e(1, i);
            if (r.chance(50) || !q.try_enqueue(std::move(e))) q.enqueue(std::move(e));
        } else {
            std::vector<elem> v;
            for (int j = 0; j < n; j++) v.emplace_back(1, i + j);
            q.enqueue_bulk(std::make_move_iterator(v.begin()), v.size());
        }
        i += n;
        if (r.chance(30)) sleep_us(static_cast<long>(r.below(300)));
    }
    if (!settle([&] { return served.load() == k * rounds; }))
        stuck("forgotten-waiter", sf("%d of %d waits returned, size_approx %zu", served.load(), k * rounds, q.size_approx()));
    for (auto& t : th) t.join();
    if (q.size_approx() != 0) viol("size_approx", sf("size_approx() is %zu after everything was taken out", q.size_approx()));
    casedone(hash_mix(cs, static_cast<uint64_t>(k * rounds)), k > 1);
    stat("waiting_cases");
}

static void semaphore_case(uint64_t cs) {
    rng r(cs);
    int spins = r.chance(50) ? 0 : r.range(1, 1000);
    int initial = r.range(0, 3);
    moodycamel::LightweightSemaphore s(initial, spins);
    int k = r.range(1, 6), rounds = r.range(1, 60);
    std::atomic<long> got{0}, given{initial};
    std::atomic<int> back{0};
    std::vector<std::thread> th;
    for (int c = 0; c < k; c++)
        th.emplace_back([&, c] {
            rng x(cs + 5 + static_cast<uint64_t>(c));
            long mine = 0;
            while (mine < rounds) {
                long n = 0;
                int64_t max = std::min<int64_t>(rounds - mine, 1 + static_cast<int64_t>(x.below(4)));
                switch (x.range(0, 6)) {
                    case 0: if (!s.wait()) { viol("sem", "wait() returned false"); return; } n = 1; break;
                    case 1: n = s.tryWait() ? 1 : 0; break;
                    case 2: n = s.wait(static_cast<std::int64_t>(x.below(200))) ? 1 : 0; break;
                    case 3: n = s.waitMany(max); if (n <= 0) viol("sem", sf("waitMany() returned %ld", n)); break;
                    case 4: n = s.tryWaitMany(max); break;
                    case 5: n = s.waitMany(max, static_cast<std::int64_t>(x.below(200))); break;
                    default: if (!s.wait(static_cast<std::int64_t>(60000000))) viol("sem", "wait(60 s) gave up"); else n = 1; break;
                }
                if (n < 0 || n > max) { if (n != 1) viol("sem", sf("%ld obtained, at most %lld asked for", n, (long long)max)); }
                mine += n;
                long g = got.fetch_add(n) + n;
                if (g > given.load()) viol("sem", sf("%ld obtained although only %ld were given", g, given.load()));
                if (n) tick();
            }
            back++;
        });
    long need = static_cast<long>(k) * rounds;
    long extra = r.range(0, 5);
    while (given.load() < need + extra) {
        int n = static_cast<int>(std::min<long>(need + extra - given.load(), r.range(1, 5)));
        given += n;
        s.signal(n);
        if (r.chance(20)) sleep_us(static_cast<long>(r.below(100)));
    }
    if (!settle([&] { return back.load() == k; }))
        stuck("forgotten-waiter", sf("%d of %d waiters of a semaphore came back, %ld of %ld obtained", back.load(), k, got.load(), given.load()));
    for (auto& t : th) t.join();
    long rest = given.load() - got.load();
    if (static_cast<long>(s.availableApprox()) != rest) viol("sem", sf("%zu available instead of %ld", s.availableApprox(), rest));
    long n = 0;
    while (s.tryWait()) n++;
    if (n != rest) viol("sem", sf("%ld could be obtained in the end instead of %ld", n, rest));
    casedone(hash_mix(cs, 3), k > 1);
    stat("semaphore_cases");
}

// ---- histories: one operation at a time, by several threads, on queues that are swapped, moved and destroyed;
// a model knows what every queue contains, so the result of every operation is determined
struct executor {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, end = false;
    std::thread t;
    executor() : t([this] {
        std::unique_lock<std::mutex> g(m);
        for (;;) {
            cv.wait(g, [this] { return busy || end; });
            if (end) return;
            job();
            busy = false;
            cv.notify_all();
        }
    }) {}
    void run(const std::function<void()>& f) {
        std::unique_lock<std::mutex> g(m);
        job = f;
        busy = true;
        cv.notify_all();
        cv.wait(g, [this] { return !busy; });
    }
    ~executor() { { std::lock_guard<std::mutex> g(m); end = true; cv.notify_all(); } t.join(); }
};

template <bool B> struct from_producer {
    template <typename Q, typename T> static size_t go(Q& q, T& t, std::vector<elem>& b, size_t max, bool bulk) {
        return bulk ? q.try_dequeue_bulk_from_producer(t, b.begin(), max) : q.try_dequeue_from_producer(t, b[0]) ? 1 : 0;
    }
};
template <> struct from_producer<true> {
    template <typename Q, typename T> static size_t go(Q&, T&, std::vector<elem>&, size_t, bool) { return 0; }
};
template <bool B> struct take_some {
    template <typename Q, typename CT> static size_t go(Q& q, CT* ct, std::vector<elem>& b, size_t max, int how, size_t) {
        if (how == 0) return q.try_dequeue_non_interleaved(b[0]) ? 1 : 0;
        if (how < 4) return (ct ? q.try_dequeue(*ct, b[0]) : q.try_dequeue(b[0])) ? 1 : 0;
        return ct ? q.try_dequeue_bulk(*ct, b.begin(), max) : q.try_dequeue_bulk(b.begin(), max);
    }
};
template <> struct take_some<true> {
    template <typename Q, typename CT> static size_t go(Q& q, CT* ct, std::vector<elem>& b, size_t max, int how, size_t inside) {
        if (how == 0 && inside) { if (ct) q.wait_dequeue(*ct, b[0]); else q.wait_dequeue(b[0]); return 1; }
        if (how == 1) return (ct ? q.wait_dequeue_timed(*ct, b[0], 5) : q.wait_dequeue_timed(b[0], 5)) ? 1 : 0;
        if (how < 4) return (ct ? q.try_dequeue(*ct, b[0]) : q.try_dequeue(b[0])) ? 1 : 0;
        if (how == 4 && inside) return ct ? q.wait_dequeue_bulk(*ct, b.begin(), max) : q.wait_dequeue_bulk(b.begin(), max);
        if (how == 5) return ct ? q.wait_dequeue_bulk_timed(*ct, b.begin(), max, 5) : q.wait_dequeue_bulk_timed(b.begin(), max, 5);
        return ct ? q.try_dequeue_bulk(*ct, b.begin(), max) : q.try_dequeue_bulk(b.begin(), max);
    }
};

template <typename TR, bool BLOCKING>
static void history_case(uint64_t cs) {
    using Q = typename qtype<TR, BLOCKING>::type;
    using PT = typename Q::producer_token_t;
    using CT = typename Q::consumer_token_t;
    struct contents {
        std::map<int, std::deque<int>> fifo;     // by owner
        std::map<int, int> implicit;             // owner of what a thread puts in without a token
        size_t total = 0;
    };
    struct ptok { std::unique_ptr<PT> t; int owner; std::shared_ptr<contents> c; };
    struct ctok { std::unique_ptr<CT> t; std::shared_ptr<contents> c; };
    struct slot { std::unique_ptr<Q> q; std::shared_ptr<contents> c; };
    rng r(cs);
    long live0 = g_live.load();
    std::string trace;
    uint64_t h = cs;
    size_t swaps = 0, moved = 0;
    bool bad = false;
    {
        executor ex[2];
        std::vector<slot> qs;
        std::vector<ptok> pts;
        std::vector<ctok> cts;
        int owners = 0;
        std::map<int, int> seq;
        const char* kind = BLOCKING ? "blocking" : "plain";
        auto fail = [&](const char* key, const std::string& d) {
            viol(key, sf("%s queue (%s): %s; before: %s", kind, trname<TR>::get(), d.c_str(), trace.substr(trace.size() > 400 ? trace.size() - 400 : 0).c_str()));
            bad = true;
        };
        auto fresh = [&] {
            size_t cap = r.below(60);
            slot s;
            s.q.reset(r.chance(20) ? new Q(cap + 1, static_cast<size_t>(r.range(1, 3)), static_cast<size_t>(r.range(1, 3))) : new Q(cap));
            s.c = std::make_shared<contents>();
            return s;
        };
        auto note = [&](const std::string& x) { trace += x + "; "; };
        // tokens of contents that are gone: not usable any more, only destroyed, now or later
        auto forget = [&](const std::shared_ptr<contents>& c, bool destroyed) {
            for (size_t i = 0; i < pts.size();) {
                if (pts[i].c != c) { i++; continue; }
                if (destroyed && pts[i].t->valid()) fail("token", "the queue is destroyed, but its producer token is still valid");
                pts.erase(pts.begin() + static_cast<long>(i));
            }
            for (size_t i = 0; i < cts.size();) if (cts[i].c == c) cts.erase(cts.begin() + static_cast<long>(i)); else i++;
        };
        // in one of four threads: this one, one of two that stay, one that ends
        auto in_thread = [&](const std::function<void()>& f, int& id) {
            int w = r.range(0, 9);
            if (w < 5) { id = 0; f(); }
            else if (w < 9) { id = 1 + w % 2; ex[w % 2].run(f); }
            else { id = 1000 + owners; std::thread t(f); t.join(); }
        };
        auto taken = [&](slot& s, std::vector<elem>& buf, size_t n, const char* how) {
            for (size_t i = 0; i < n && !bad; i++) {
                elem& e = buf[i];
                auto f = s.c->fifo.find(e.p);
                if (!e.whole()) fail("content", sf("%s gave a damaged element (%d:%d)", how, e.p, e.s));
                else if (f == s.c->fifo.end() || f->second.empty()) fail("duplicate", sf("%s gave element %d:%d, which is not in this queue", how, e.p, e.s));
                else if (f->second.front() != e.s) fail(e.s < f->second.front() ? "duplicate" : "order", sf("%s gave element %d:%d, but %d is the oldest of this producer", how, e.p, e.s, f->second.front()));
                else { f->second.pop_front(); s.c->total--; }
            }
        };
        qs.push_back(fresh());
        qs.push_back(fresh());
        if (r.chance(50)) qs.push_back(fresh());
        int steps = r.range(20, r.chance(20) ? 600 : 150);
        int heavy = r.range(0, 2);                 // more in, the same, more out
        for (int i = 0; i < steps && !bad; i++) {
            size_t qi = r.below(qs.size());
            slot& s = qs[qi];
            int op = r.range(0, 99);
            std::vector<elem> buf;
            if (op < (heavy == 0 ? 50 : heavy == 1 ? 38 : 28)) {
                // put in, with a token of these contents or without
                std::vector<ptok*> mine;
                for (auto& t : pts) if (t.c == s.c) mine.push_back(&t);
                ptok* tok = !mine.empty() && r.chance(60) ? r.pick(mine) : nullptr;
                int how = r.range(0, 3), k = how < 2 ? 1 : r.range(1, 40);
                int id = 0, owner = -1;
                bool ok = false;
                std::vector<elem> v;
                // who this will be from is known once the thread is chosen
                in_thread([&] {
                    if (tok) owner = tok->owner;
                    else {
                        auto f = s.c->implicit.find(id);
                        owner = f == s.c->implicit.end() ? (s.c->implicit[id] = owners++) : f->second;
                    }
                    for (int j = 0; j < k; j++) v.emplace_back(owner, seq[owner] + j);
                    auto b = std::make_move_iterator(v.begin());
                    Q& q = *s.q;
                    switch (how) {
                        case 0: ok = tok ? q.enqueue(*tok->t, std::move(v[0])) : q.enqueue(std::move(v[0])); break;
                        case 1: ok = tok ? q.try_enqueue(*tok->t, std::move(v[0])) : q.try_enqueue(std::move(v[0])); break;
                        case 2: ok = tok ? q.enqueue_bulk(*tok->t, b, v.size()) : q.enqueue_bulk(b, v.size()); break;
                        default: ok = tok ? q.try_enqueue_bulk(*tok->t, b, v.size()) : q.try_enqueue_bulk(b, v.size()); break;
                    }
                }, id);
                note(sf("%sput%s %d x%d into q%zu by thread %d%s", how % 2 ? "try " : "", how > 1 ? " bulk" : "", owner, k, qi, id, ok ? "" : " refused"));
                if (ok) {
                    auto& f = s.c->fifo[owner];
                    for (int j = 0; j < k; j++) f.push_back(seq[owner]++);
                    s.c->total += static_cast<size_t>(k);
                } else {
                    if (!(how % 2)) fail("enqueue-failed", "enqueue() failed although memory was available");
                    for (auto& e : v) if (!e.whole()) { fail("failed-enqueue-took", "a refused enqueue changed its element"); break; }
                }
            } else if (op < 78) {
                size_t max = 1 + r.below(30);
                buf.resize(max);
                std::vector<ptok*> mine;
                std::vector<ctok*> cm;
                for (auto& t : pts) if (t.c == s.c) mine.push_back(&t);
                for (auto& t : cts) if (t.c == s.c) cm.push_back(&t);
                int id = 0;
                size_t n = 0;
                if (!BLOCKING && !mine.empty() && r.chance(25)) {
                    ptok* t = r.pick(mine);
                    bool bulk = r.chance(50);
                    in_thread([&] { n = from_producer<BLOCKING>::go(*s.q, *t->t, buf, max, bulk); }, id);
                    note(sf("take %zu of producer %d from q%zu: %zu", bulk ? max : 1, t->owner, qi, n));
                    if (n < std::min(bulk ? max : 1, s.c->fifo[t->owner].size()))
                        fail("lost", sf("%zu of %zu elements of the producer were handed out by %stry_dequeue_from_producer", n, s.c->fifo[t->owner].size(), bulk ? "bulk " : ""));
                    taken(s, buf, n, "try_dequeue_from_producer");
                } else {
                    CT* ct = !cm.empty() && r.chance(60) ? r.pick(cm)->t.get() : nullptr;
                    int how = r.range(0, 7);
                    size_t inside = s.c->total;
                    // which forms take several: the last ones
                    in_thread([&] { n = take_some<BLOCKING>::go(*s.q, ct, buf, max, how, inside); }, id);
                    size_t want = how < 4 ? std::min<size_t>(1, inside) : std::min(max, inside);
                    note(sf("take (%d, %zu%s) from q%zu: %zu", how, max, ct ? ", token" : "", qi, n));
                    if (n > max) { fail("content", sf("%zu elements obtained, at most %zu asked for", n, max)); break; }
                    taken(s, buf, n, "a dequeue");
                    if (!bad && n != want) fail("lost", sf("%zu elements obtained (at most %zu asked for) while %zu were inside", n, how < 4 ? 1 : max, inside));
                }
            } else if (op < 84) {
                if (r.chance(60)) {
                    int id = 0;
                    ptok t;
                    in_thread([&] { t.t.reset(new PT(*s.q)); }, id);
                    t.owner = owners++;
                    t.c = s.c;
                    note(sf("token %d of q%zu", t.owner, qi));
                    if (!t.t->valid()) fail("token", "a new producer token is not valid");
                    pts.push_back(std::move(t));
                } else { cts.push_back({std::unique_ptr<CT>(new CT(*s.q)), s.c}); note(sf("consumer token of q%zu", qi)); }
            } else if (op < 90) {
                // tokens end, move or change places
                if (!pts.empty() && r.chance(60)) {
                    size_t a = r.below(pts.size()), b = r.below(pts.size());
                    switch (r.range(0, 3)) {
                        case 0: note(sf("token %d ends", pts[a].owner)); pts.erase(pts.begin() + static_cast<long>(a)); break;
                        case 1: {
                            note(sf("token %d moves", pts[a].owner));
                            std::unique_ptr<PT> n(new PT(std::move(*pts[a].t)));
                            if (pts[a].t->valid() || !n->valid()) fail("token", "after moving a producer token the wrong one is valid");
                            pts[a].t = std::move(n);
                            break;
                        }
                        case 2: if (a != b) { note(sf("tokens %d and %d swap", pts[a].owner, pts[b].owner)); pts[a].t->swap(*pts[b].t); std::swap(pts[a].owner, pts[b].owner); std::swap(pts[a].c, pts[b].c); } break;
                        default: if (a != b) {
                            note(sf("token %d assigned to %d", pts[b].owner, pts[a].owner));
                            *pts[a].t = std::move(*pts[b].t);
                            pts[a].owner = pts[b].owner;
                            pts[a].c = pts[b].c;
                            pts.erase(pts.begin() + static_cast<long>(b));
                        }
                    }
                } else if (!cts.empty()) {
                    size_t a = r.below(cts.size()), b = r.below(cts.size());
                    switch (r.range(0, 2)) {
                        case 0: cts.erase(cts.begin() + static_cast<long>(a)); break;
                        case 1: cts[a].t.reset(new CT(std::move(*cts[a].t))); break;
                        default: if (a != b) { cts[a].t->swap(*cts[b].t); std::swap(cts[a].c, cts[b].c); }
                    }
                    note("consumer tokens");
                }
            } else if (op < 97) {
                size_t o = r.below(qs.size());
                int how = r.range(0, 4);
                if (how < 2 && o != qi) {
                    if (how == 0) qs[qi].q->swap(*qs[o].q);
                    else { using moodycamel::swap; swap(*qs[qi].q, *qs[o].q); }
                    std::swap(qs[qi].c, qs[o].c);
                    note(sf("q%zu and q%zu swap", qi, o));
                    swaps++;
                } else if (how == 2) {
                    // constructed from the other, which is an empty queue then (unusable, if blocking)
                    std::unique_ptr<Q> n(new Q(std::move(*s.q)));
                    n.swap(s.q);
                    note(sf("q%zu constructed from its former self", qi));
                    moved++;
                    if (!BLOCKING && r.chance(60) && qs.size() < 5) {
                        note(sf("the former self is q%zu", qs.size()));
                        slot e;
                        e.c = std::make_shared<contents>();
                        e.q = std::move(n);
                        qs.push_back(std::move(e));
                    }
                } else if (how == 3 && o != qi && qs.size() > 2) {
                    // assigned: the old contents go with the source, whatever becomes of it
                    *qs[qi].q = std::move(*qs[o].q);
                    note(sf("q%zu assigned to q%zu", o, qi));
                    auto gone = qs[qi].c;
                    bool first = r.chance(50);
                    if (first) forget(gone, false);
                    qs[qi].c = qs[o].c;
                    qs.erase(qs.begin() + static_cast<long>(o));
                    if (!first) forget(gone, false);
                    moved++;
                } else if (how == 4) {
                    // the end of a queue, elements inside, and a new one
                    note(sf("q%zu destroyed with %zu elements and made again", qi, s.c->total));
                    auto gone = s.c;
                    bool first = r.chance(30);
                    if (first) forget(gone, false);
                    s.q.reset();
                    if (!first) forget(gone, true);
                    s = fresh();
                } else if (how == 3 && o == qi) {
                    s.q->swap(*s.q);
                    note(sf("q%zu swapped with itself", qi));
                }
            } else if (qs.size() < 5) { qs.push_back(fresh()); note("another queue"); }
            for (size_t j = 0; j < qs.size() && !bad; j++)
                if (qs[j].q->size_approx() != qs[j].c->total) fail("size_approx", sf("size_approx() of q%zu is %zu instead of %zu", j, qs[j].q->size_approx(), qs[j].c->total));
            long inside = 0;
            buf.clear();
            for (auto& q : qs) inside += static_cast<long>(q.c->total);
            if (!bad && g_live.load() - live0 != inside) fail("destroy", sf("%ld elements are alive, %ld are inside the queues", g_live.load() - live0, inside));
            h = hash_mix(h, static_cast<uint64_t>(op) * 1000 + static_cast<uint64_t>(inside));
            tick();
        }
        // what is left comes out, from half of the queues
        for (auto& s : qs) {
            if (bad || r.chance(50)) continue;
            std::vector<elem> buf(1);
            while (!bad && s.q->try_dequeue(buf[0])) taken(s, buf, 1, "the last try_dequeue");
            if (!bad && s.c->total) fail("lost", sf("%zu elements did not come out", s.c->total));
        }
        stat("history_steps", static_cast<uint64_t>(steps));
        stat("history_swaps", swaps);
        stat("history_moves", moved);
        if (r.chance(50)) { pts.clear(); cts.clear(); }
        else qs.clear();
    }
    if (g_live.load() != live0 && !bad) viol("destroy", sf("%s queue (%s): %ld elements are still alive after the queues are gone; before: %s", BLOCKING ? "blocking" : "plain", trname<TR>::get(), g_live.load() - live0, trace.substr(trace.size() > 400 ? trace.size() - 400 : 0).c_str()));
    casedone(h, swaps + moved > 0);
    stat("history_cases");
}

// queues made and destroyed while the threads that used them live on, use others, or end: what a thread leaves with a
// queue and what a queue leaves with a thread
template <typename TR, bool BLOCKING>
static void lifetimes_case(uint64_t cs) {
    using Q = typename qtype<TR, BLOCKING>::type;
    struct slot {
        std::atomic<int> users{0};          // -1: being replaced
        std::unique_ptr<Q> q;
        std::atomic<long> in{0}, out{0};
    };
    rng r(cs);
    int ns = r.range(2, 4), nt = r.range(2, 6), lives = r.range(1, 12), ops = r.chance(30) ? r.range(1, 6) : r.range(20, 200);
    long live0 = g_live.load();
    std::vector<std::unique_ptr<slot>> sl;
    for (int i = 0; i < ns; i++) { sl.emplace_back(new slot); sl.back()->q.reset(new Q(r.below(40))); }
    std::atomic<uint64_t> made{0}, gone{0}, elems{0}, ended{0}, mixed{0};
    std::atomic<int> ids{0};
    auto worker = [&](uint64_t seed) {
        int me = ids++;
        rng x(seed);
        int s = 0, mine = x.range(1, ops);
        std::vector<std::map<int, int>> last(static_cast<size_t>(ns));
        std::vector<const Q*> seen(static_cast<size_t>(ns), nullptr);
        std::vector<uint64_t> gen(static_cast<size_t>(ns), 0);
        elem e;
        for (int o = 0; o < mine && !too_many(); o++) {
            size_t i = x.below(static_cast<uint64_t>(ns));
            slot& k = *sl[i];
            int u = k.users.load();
            if (u < 0) continue;
            if (x.below(8) == 0) {
                int zero = 0;
                if (!k.users.compare_exchange_strong(zero, -1)) continue;
                long left = k.in.load() - k.out.load();
                if (static_cast<long>(k.q->size_approx()) != left)
                    viol("size_approx", sf("size_approx() is %zu with %ld elements inside and nobody around; threads come and go (%s, %s)", k.q->size_approx(), left, BLOCKING ? "blocking" : "plain", trname<TR>::get()));
                if (x.chance(40)) {
                    long n = 0;
                    while (k.q->try_dequeue(e)) { n++; if (!e.whole()) { viol("damaged", sf("element %d:%d came out damaged", e.p, e.s)); break; } }
                    if (n != left) viol("lost", sf("%ld of %ld elements came out; threads come and go (%s, %s)", n, left, BLOCKING ? "blocking" : "plain", trname<TR>::get()));
                }
                k.q.reset();
                k.q.reset(new Q(x.below(40)));
                k.in = 0; k.out = 0;
                made++;
                k.users.store(0);
                continue;
            }
            if (!k.users.compare_exchange_strong(u, u + 1)) continue;
            int n = x.range(1, 7);
            if (x.chance(55)) {
                for (int j = 0; j < n; j++) {
                    k.in++;
                    if (!k.q->enqueue(elem(me, s))) { k.in--; viol("enqueue", "enqueue() failed"); break; }
                    s++; elems++;
                }
            } else {
                // the elements one thread has put in keep their order, whoever they were before
                for (int j = 0; j < n && k.q->try_dequeue(e); j++) {
                    k.out++;
                    gone++;
                    if (!e.whole()) { viol("damaged", sf("element %d:%d came out damaged", e.p, e.s)); break; }
                    auto it = last[i].find(e.p);
                    if (it != last[i].end() && it->second >= e.s) { viol("order", sf("element %d:%d after %d:%d; threads come and go (%s, %s)", e.p, e.s, e.p, it->second, BLOCKING ? "blocking" : "plain", trname<TR>::get())); break; }
                    last[i][e.p] = e.s;
                    if (e.p != me) mixed++;
                }
            }
            k.users--;
            if (n == 3) tick();
        }
        ended++;
    };
    uint64_t seed = r.next();
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            rng x(seed ^ (static_cast<uint64_t>(t) << 20));
            for (int l = 0; l < lives; l++) {
                uint64_t z = x.next();
                if (x.chance(70)) { std::thread w([&, z] { worker(z); }); w.join(); }
                else worker(z);
            }
        });
    for (auto& t : th) t.join();
    for (auto& k : sl) {
        long n = 0, left = k->in.load() - k->out.load();
        if (static_cast<long>(k->q->size_approx()) != left) viol("size_approx", sf("size_approx() is %zu with %ld elements inside after all threads have ended", k->q->size_approx(), left));
        if (r.chance(50)) {
            elem e;
            while (k->q->try_dequeue(e)) { n++; if (!e.whole()) { viol("damaged", sf("element %d:%d came out damaged", e.p, e.s)); break; } }
            if (n != left) viol("lost", sf("%ld of %ld elements came out after all threads have ended", n, left));
        }
    }
    sl.clear();
    if (g_live.load() != live0) viol("destroy", sf("%ld elements are still alive after the queues are gone", g_live.load() - live0));
    stat("lifetime_cases");
    stat("lifetime_queues", made.load());
    stat("lifetime_threads", ended.load());
    uint64_t h = hash_mix(hash_mix(cs, made.load()), hash_mix(gone.load(), mixed.load()));
    casedone(h, mixed.load() > 0 && made.load() > 0);
}

static bool r_pick(uint64_t cs) { return hash_mix(cs, 9) & 1; }

void vf_main() {
    budget b;
    bool faults = S().mode == "oom";
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000000)) && b.left() && !too_many(); i++) {
        uint64_t cs = caseseed(i);
        label(sf("case %llu", (unsigned long long)i));
        noise(cs, static_cast<unsigned>(i % 4));
        switch (i % 10) {
            case 9: {
                switch (i / 10 % 6) {
                    case 0: history_case<traits_default, false>(cs); break;
                    case 1: history_case<traits_tiny, false>(cs); break;
                    case 2: history_case<traits_counter, false>(cs); break;
                    case 3: history_case<traits_default, true>(cs); break;
                    case 4: history_case<traits_tiny, true>(cs); break;
                    default: history_case<traits_counter, true>(cs); break;
                }
                break;
            }
            case 0: concurrent_case<traits_default, false>(cs, faults); break;
            case 1: concurrent_case<traits_tiny, false>(cs, faults); break;
            case 2: concurrent_case<traits_counter, false>(cs, faults); break;
            case 3: concurrent_case<traits_default, true>(cs, faults); break;
            case 4: concurrent_case<traits_tiny, true>(cs, faults); break;
            case 5: concurrent_case<traits_counter, true>(cs, faults); break;
            case 6: if (r_pick(cs)) capacity_case<traits_default>(cs); else capacity_case<traits_tiny>(cs); break;
            case 7: if (i / 10 % 2) waiting_case<traits_tiny>(cs); else waiting_case<traits_default>(cs); break;
            default: semaphore_case(cs); break;
        }
        if (!faults && i % 3 == 0)
            switch (i / 3 % 4) {
                case 0: lifetimes_case<traits_default, false>(hash_mix(cs, 77)); break;
                case 1: lifetimes_case<traits_tiny, false>(hash_mix(cs, 77)); break;
                case 2: lifetimes_case<traits_counter, false>(hash_mix(cs, 77)); break;
                default: lifetimes_case<traits_tiny, true>(hash_mix(cs, 77)); break;
            }
    }
    stat("allocation_failures", g_alloc_failures.load());
}
