// C19: the circular queue against a list model, for random and exhaustively enumerated histories.
#include "vf.h"
#include "base/circular_queue.h"
#include "base/log_msg_buf.h"

using namespace vf;
using learnlog::base::circular_queue;

// an element that knows whether it is alive
struct tracked {
    static std::set<const void*>& live() { static std::set<const void*> s; return s; }
    static long& made() { static long n; return n; }
    std::string v;        // owns memory: ASan sees double destruction and leaks
    tracked() { born(); }
    explicit tracked(const std::string& s) : v(s) { born(); }
    tracked(const tracked& o) : v(o.v) { o.check("copied"); born(); }
    tracked(tracked&& o) noexcept : v(std::move(o.v)) { o.check("moved"); o.v = "moved-from"; born(); }
    tracked& operator=(const tracked& o) { check("assigned"); o.check("copied"); v = o.v; return *this; }
    tracked& operator=(tracked&& o) noexcept {
        check("assigned"); o.check("moved");
        if (this != &o) { v = std::move(o.v); o.v = "moved-from"; }
        return *this;
    }
    ~tracked() {
        if (!live().erase(this)) viol("lifetime", "an element was destroyed that is not alive");
    }
    void born() { made()++; if (!live().insert(this).second) viol("lifetime", "an element was constructed over a live one"); }
    void check(const char* what) const { if (!live().count(this)) viol("lifetime", sf("a dead element was %s", what)); }
};

template <typename T> struct ops;
template <> struct ops<int> {
    static int make(const std::string& s) { return atoi(s.c_str()); }
    static bool eq(const int& a, const std::string& s) { return a == atoi(s.c_str()); }
    static std::string str(const int& a) { return std::to_string(a); }
};
template <> struct ops<std::string> {
    static std::string make(const std::string& s) { return s; }
    static bool eq(const std::string& a, const std::string& s) { return a == s; }
    static std::string str(const std::string& a) { return a; }
};
template <> struct ops<std::unique_ptr<std::string>> {
    static std::unique_ptr<std::string> make(const std::string& s) { return std::unique_ptr<std::string>(new std::string(s)); }
    static bool eq(const std::unique_ptr<std::string>& a, const std::string& s) { return a && *a == s; }
    static std::string str(const std::unique_ptr<std::string>& a) { return a ? *a : "(null)"; }
};
template <> struct ops<tracked> {
    static tracked make(const std::string& s) { return tracked(s); }
    static bool eq(const tracked& a, const std::string& s) { a.check("read"); return a.v == s; }
    static std::string str(const tracked& a) { return a.v; }
};
template <> struct ops<learnlog::base::log_msg_buf> {
    using B = learnlog::base::log_msg_buf;
    static B make(const std::string& s) {
        std::string name = "n" + s;
        return B(learnlog::base::log_msg(learnlog::level::warn, learnlog::fmt_string_view(s.data(), s.size()),
                                         learnlog::fmt_string_view(name.data(), name.size())));
    }
    static bool eq(const B& a, const std::string& s) {
        return std::string(a.msg.data(), a.msg.size()) == s
            && std::string(a.logger_name.data(), a.logger_name.size()) == "n" + s;
    }
    static std::string str(const B& a) { return std::string(a.msg.data(), a.msg.size()); }
};

struct model {
    bool valid = false;      // false: default constructed, cleared or moved from
    size_t cap = 0;
    std::deque<std::string> d;
    size_t over = 0;
    void push(const std::string& s) {
        if (!valid) return;
        d.push_back(s);
        if (d.size() > cap) { d.pop_front(); over++; }
    }
    void clear() { valid = false; d.clear(); over = 0; }
};

static uint64_t g_compares = 0;

template <typename T>
bool same(circular_queue<T>& q, const model& m, const std::string& hist) {
    const circular_queue<T>& c = q;
    g_compares++;
    auto bad = [&](const char* key, const std::string& d) { viol(key, d + " after " + hist); return false; };
    if (c.size() != m.d.size()) return bad("size", sf("size %zu instead of %zu", c.size(), m.d.size()));
    if (c.empty() != m.d.empty()) return bad("empty", sf("empty() is %d with %zu elements", c.empty(), m.d.size()));
    if (m.valid && c.full() != (m.d.size() == m.cap)) return bad("full", sf("full() is %d with %zu of %zu elements", c.full(), m.d.size(), m.cap));
    if (!m.valid && c.full() && !c.empty()) return bad("full", "an invalid queue is full and not empty");
    if (c.override_count() != m.over) return bad("override_count", sf("override count %zu instead of %zu", c.override_count(), m.over));
    for (size_t i = 0; i < m.d.size(); i++)
        if (!ops<T>::eq(c.at(i), m.d[i])) return bad("at", sf("element %zu is '%s' instead of '%s'", i, esc(ops<T>::str(c.at(i)), 60).c_str(), esc(m.d[i], 60).c_str()));
    if (!m.d.empty()) {
        if (!ops<T>::eq(q.front(), m.d.front())) return bad("front", sf("front is '%s' instead of '%s'", ops<T>::str(q.front()).c_str(), m.d.front().c_str()));
        if (!ops<T>::eq(c.front(), m.d.front())) return bad("front", "front() const differs");
    }
    return true;
}

template <typename T> struct copyable : std::is_copy_constructible<T> {};

template <typename T, bool C> struct copier {
    static void construct(std::unique_ptr<circular_queue<T>>& to, const circular_queue<T>& from) { to.reset(new circular_queue<T>(from)); }
    static void assign(circular_queue<T>& to, const circular_queue<T>& from) { to = from; }
};
template <typename T> struct copier<T, false> {
    static void construct(std::unique_ptr<circular_queue<T>>&, const circular_queue<T>&) {}
    static void assign(circular_queue<T>&, const circular_queue<T>&) {}
};

// up to four queues that are copied and moved among each other
template <typename T>
void random_case(rng& r, const char* tname, size_t nops) {
    using Q = circular_queue<T>;
    constexpr bool C = copyable<T>::value && !std::is_same<T, std::unique_ptr<std::string>>::value;
    std::unique_ptr<Q> q[4];
    model m[4];
    std::string hist = tname;
    size_t seq = 0;
    bool wrapped = false;
    uint64_t h = hash_str(tname);
    static const size_t caps[] = {0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 1000};
    for (int i = 0; i < 4; i++) {
        if (r.chance(70)) {
            m[i].valid = true;
            m[i].cap = caps[r.below(16)];
            if (m[i].cap > 64 && !r.chance(30)) m[i].cap = r.below(20);
            q[i].reset(new Q(m[i].cap));
        } else q[i].reset(new Q());
        hist += sf(" new%d(%zu)", i, m[i].valid ? m[i].cap : 0);
    }
    for (size_t k = 0; k < nops; k++) {
        int i = r.range(0, 3), j = r.range(0, 3);
        if (r.chance(60)) i = 0;
        int op = r.range(0, 99);
        std::string step;
        if (op < 55) {
            size_t burst = r.chance(10) ? r.below(2 * m[i].cap + 3) : 1;
            for (size_t b = 0; b < burst; b++) {
                std::string v = std::to_string(seq++);
                if (std::is_same<T, int>::value == false && r.chance(15)) v += std::string(r.below(600), 'x');
                T item = ops<T>::make(v);
                q[i]->push_back(std::move(item));
                if (m[i].valid && m[i].d.size() == m[i].cap) wrapped = true;
                m[i].push(v);
            }
            step = sf(" push%d*%zu", i, burst);
        } else if (op < 78) {
            if (m[i].valid && m[i].d.empty()) continue;      // like any container: not allowed
            q[i]->pop_front();
            if (m[i].valid) m[i].d.pop_front();
            step = sf(" pop%d", i);
        } else if (op < 82) {
            q[i]->reset_override_count();
            m[i].over = 0;
            step = sf(" reset%d", i);
        } else if (op < 84) {
            q[i]->clear();
            m[i].clear();
            step = sf(" clear%d", i);
        } else if (op < 87) {
            q[i].reset(new Q(std::move(*q[j])));
            model t = m[j];
            if (i == j) { m[i] = t; }
            else { m[j].clear(); m[i] = t; }
            step = sf(" movector%d<-%d", i, j);
        } else if (op < 90) {
            if (i == j) continue;
            *q[i] = std::move(*q[j]);
            m[i] = m[j];
            m[j].clear();
            step = sf(" move%d<-%d", i, j);
        } else if (op < 93) {
            if (!C) continue;
            std::unique_ptr<Q> n;
            copier<T, C>::construct(n, *q[j]);
            q[i] = std::move(n);
            m[i] = model(m[j]);
            step = sf(" copyctor%d<-%d", i, j);
        } else if (op < 97) {
            if (!C) continue;
            copier<T, C>::assign(*q[i], *q[j]);
            m[i] = model(m[j]);
            step = sf(" copy%d<-%d", i, j);
        } else {
            m[i] = model();
            m[i].valid = true;
            m[i].cap = r.below(6);
            *q[i] = Q(m[i].cap);
            step = sf(" renew%d(%zu)", i, m[i].cap);
        }
        hist += step;
        h = hash_mix(h, hash_str(step));
        if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 500);
        for (int a = 0; a < 4; a++)
            if (!same<T>(*q[a], m[a], hist)) return;
        if (r.chance(3) && m[i].valid) {
            // taking elements out by moving them, as the users of the queue do
            std::string what = hist + " drain";
            while (!m[i].d.empty()) {
                T x = std::move(q[i]->front());
                q[i]->pop_front();
                if (!ops<T>::eq(x, m[i].d.front())) { viol("drain", "taken out '" + ops<T>::str(x) + "' instead of '" + m[i].d.front() + "' after " + what); return; }
                m[i].d.pop_front();
            }
            if (!same<T>(*q[i], m[i], what)) return;
        }
    }
    casedone(h, wrapped);
    stat("operations", nops);
    if (wrapped) stat("cases_overwriting");
    if (sf("%llx", (unsigned long long)h).back() == '0') sample(hist.substr(0, 300));
}

// every history of the given length over a small alphabet
static void exhaustive(size_t cap, int len) {
    label(sf("all histories of length %d, capacity %zu", len, cap));
    uint64_t total = 1;
    for (int i = 0; i < len; i++) total *= 5;
    for (uint64_t code = 0; code < total; code++) {
        circular_queue<std::string> q(cap), side;
        model m, ms;
        m.valid = true;
        m.cap = cap;
        std::string hist = sf("cap %zu:", cap);
        uint64_t c = code;
        int seq = 0;
        bool ok = true, used = true;
        for (int i = 0; i < len && ok; i++, c /= 5) {
            switch (c % 5) {
                case 0: { std::string v = std::to_string(seq++); m.push(v); q.push_back(std::move(v)); hist += " push"; break; }
                case 1:
                    if (m.valid && m.d.empty()) { used = false; ok = false; break; }
                    q.pop_front();
                    if (m.valid) m.d.pop_front();
                    hist += " pop";
                    break;
                case 2: side = q; ms = m; hist += " side=copy"; break;
                case 3: { std::swap(q, side); std::swap(m, ms); hist += " swap"; break; }
                default: side = std::move(q); ms = m; m.clear(); hist += " side=move"; break;
            }
            if (!ok) break;
            if (!same(q, m, hist) || !same(side, ms, hist + " (side)")) ok = false;
        }
        if (used) {
            casedone(hash_mix(hash_mix(77, cap * 100 + static_cast<uint64_t>(len)), code), true);
            stat("exhaustive_histories");
        }
        if (too_many()) return;
    }
}

void vf_main() {
    budget b;
    for (int len = 1; len <= (S().thorough ? 9 : 6); len++)
        for (size_t cap = 0; cap <= 3; cap++) exhaustive(cap, len);
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++) {
        rng r(caseseed(i));
        label(sf("case %llu", (unsigned long long)i));
        size_t n = 20 + r.below(r.chance(5) ? 5000 : 200);
        switch (i % 5) {
            case 0: random_case<int>(r, "int", n); break;
            case 1: random_case<std::string>(r, "string", n); break;
            case 2: random_case<std::unique_ptr<std::string>>(r, "unique_ptr", n); break;
            case 3: {
                size_t before = tracked::live().size();
                random_case<tracked>(r, "tracked", n);
                if (tracked::live().size() != before) viol("leak", sf("%zu elements alive after all queues are gone", tracked::live().size() - before));
                break;
            }
            default: random_case<learnlog::base::log_msg_buf>(r, "log_msg_buf", n); break;
        }
    }
    stat("elements_tracked", static_cast<uint64_t>(tracked::made()));
    stat("comparisons", g_compares);
}
