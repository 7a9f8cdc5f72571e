// C16: concurrent registry operations. Short recorded histories are searched for a sequential explanation;
// long runs check uniqueness, visibility, conservation and agreement of settings.
#include "async.h"
#include "sinks/null_sink.h"
#include "base/registry.h"

using namespace vf;
using reg_t = ll::base::registry;
static reg_t& R() { return reg_t::instance(); }

// remembers what its records would look like
struct tag_sink : ll::sinks::sink {
    std::mutex m;
    std::string tag = "-";
    std::atomic<uint64_t> records{0}, flushes{0};
    void log(const ll::base::log_msg&) override { records++; }
    void flush() override { flushes++; }
    void set_pattern(const std::string& p) override { std::lock_guard<std::mutex> g(m); tag = p; }
    void set_formatter(ll::formatter_uni_ptr f) override {
        ll::fmt_memory_buf b;
        ll::base::log_msg msg(ll::level::info, "t", "n");
        f->format(msg, b);
        std::lock_guard<std::mutex> g(m);
        tag.assign(b.data(), b.size());
        while (!tag.empty() && tag.back() == '\n') tag.pop_back();
    }
    std::string get() { std::lock_guard<std::mutex> g(m); return tag; }
};
struct tag_formatter : ll::sinks::formatter {
    std::string tag;
    explicit tag_formatter(std::string t) : tag(std::move(t)) {}
    void format(const ll::base::log_msg&, ll::fmt_memory_buf& b) override { b.append(tag.data(), tag.data() + tag.size()); }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<tag_formatter>(tag); }
};

enum kind : int { REG, INIT, GET, REMOVE, SETDEF, GETDEF, REMALL, EXEC, GLEVEL, GFLUSH, GPATTERN, GFORMAT, SLEVEL, SFLUSH, SPATTERN, AUTO, RTP, GTP, NKINDS };
static const char* kname[] = {"register", "initialize", "get", "remove", "set_default", "get_default", "remove_all", "exec_all", "global_level", "global_flush_level",
                              "global_pattern", "global_formatter", "set_level", "set_flush_level", "set_pattern", "auto_register", "register_pool", "get_pool"};
struct op {
    int kind = 0, id = -1, val = 0;      // logger or name or pool; value
    int res = 0;
    std::string sres;
    uint64_t t0 = 0, t1 = 0;
    int thread = 0;
};
static std::string ostr(const op& o) {
    return sf("T%d[%llu,%llu] %s(%d,%d)->%d %s", o.thread, (unsigned long long)o.t0, (unsigned long long)o.t1, kname[o.kind], o.id, o.val, o.res, o.sres.c_str());
}
static std::atomic<uint64_t> g_ticket{0};
static const char* NAMES[] = {"a", "b", "c"};

struct world {
    std::vector<ll::logger_shr_ptr> lg;
    std::vector<std::shared_ptr<tag_sink>> sk;
    std::vector<int> name;              // of each logger
    std::vector<bool> async;
    std::vector<ll::thread_pool_shr_ptr> pool;
    int id(const ll::logger_shr_ptr& p) {
        if (!p) return -1;
        for (size_t i = 0; i < lg.size(); i++) if (lg[i] == p) return static_cast<int>(i);
        return -2;
    }
    std::string describe(int i) {
        size_t k = static_cast<size_t>(i);
        return sf("%d:%d:%d:%s:%s;", i, (int)lg[k]->get_log_level(), (int)lg[k]->get_flush_level(), lg[k]->get_pattern().c_str(), sk[k]->get().c_str());
    }
};
static void perform(world& w, op& o) {
    auto L = [&]() -> ll::logger_shr_ptr& { return w.lg[static_cast<size_t>(o.id)]; };
    auto lv = static_cast<lvl>(o.val);
    o.t0 = g_ticket++;
    try {
        o.res = 1;
        switch (o.kind) {
            case REG: R().register_logger(L()); break;
            case INIT: R().initialize_logger(L()); break;
            case GET: o.res = w.id(R().get_logger(NAMES[o.id])); break;
            case REMOVE: R().remove_logger(NAMES[o.id]); break;
            case SETDEF: R().set_default_logger(o.id < 0 ? nullptr : L()); break;
            case GETDEF: o.res = w.id(R().get_default_logger()); break;
            case REMALL: R().remove_all(); break;
            case EXEC: {
                std::vector<int> v;
                std::map<int, std::string> d;
                R().exec_all([&](ll::logger_shr_ptr p) { int i = w.id(p); v.push_back(i); if (i >= 0) d[i] = w.describe(i); });
                std::sort(v.begin(), v.end());
                for (int i : v) o.sres += i >= 0 ? d[i] : "?;";
                break;
            }
            case GLEVEL: R().set_global_log_level(lv); break;
            case GFLUSH: R().set_global_flush_level(lv); break;
            case GPATTERN: R().set_global_pattern(sf("p%d", o.val)); break;
            case GFORMAT: R().set_global_formatter(ll::make_unique<tag_formatter>(sf("f%d", o.val))); break;
            case SLEVEL: R().set_log_level(NAMES[o.id], lv); break;
            case SFLUSH: R().set_flush_level(NAMES[o.id], lv); break;
            case SPATTERN: R().set_pattern(NAMES[o.id], sf("p%d", o.val)); break;
            case AUTO: R().set_auto_register_logger(o.val != 0); break;
            case RTP: R().register_thread_pool(o.id < 0 ? nullptr : w.pool[static_cast<size_t>(o.id)]); break;
            case GTP: {
                auto p = R().get_thread_pool();
                o.res = -1;
                for (size_t i = 0; i < w.pool.size(); i++) if (p == w.pool[i]) o.res = static_cast<int>(i);
                if (p && o.res < 0) o.res = -2;
                break;
            }
        }
    } catch (const ll::learnlog_excpt&) { o.res = 0; }
    o.t1 = g_ticket++;
    tick();
}

struct mstate {
    int map[3] = {-1, -1, -1};
    int def = -1, level = 2, flush = 6, pool = -1;
    bool automatic = true;
    std::string gpat = "p0", gtag = "p0";
    struct ls { int level = 2, flush = 6; std::string pat = "%+", tag = "-"; };
    std::vector<ls> l;
    std::string key() const {
        std::string k = sf("%d,%d,%d|%d,%d,%d,%d,%d|%s|%s|", map[0], map[1], map[2], def, level, flush, pool, automatic, gpat.c_str(), gtag.c_str());
        for (auto& x : l) k += sf("%d,%d,%s,%s;", x.level, x.flush, x.pat.c_str(), x.tag.c_str());
        return k;
    }
};
struct linearizer {
    const std::vector<op>& ops;
    world& w;
    std::unordered_set<uint64_t> seen;
    uint64_t steps = 0;
    size_t best = 0;
    linearizer(const std::vector<op>& o, world& ww) : ops(o), w(ww) {}
    // applies o; false when its result is not the one recorded
    bool apply(const op& o, mstate& s) {
        auto i = static_cast<size_t>(o.id < 0 ? 0 : o.id);
        auto try_reg = [&] {
            int& e = s.map[w.name[i]];
            if (e >= 0) return o.res == 0;
            e = o.id;
            return o.res == 1;
        };
        auto each = [&](std::function<void(mstate::ls&)> f) { for (int x : s.map) if (x >= 0) f(s.l[static_cast<size_t>(x)]); };
        auto target = [&](std::function<void(mstate::ls&)> f) {
            if (s.map[i] < 0) return o.res == 0;
            f(s.l[static_cast<size_t>(s.map[i])]);
            return o.res == 1;
        };
        switch (o.kind) {
            case REG: return try_reg();
            case INIT:
                s.l[i] = {s.level, s.flush, s.gpat, s.gtag};
                return s.automatic ? try_reg() : o.res == 1;
            case GET: return o.res == s.map[i];
            case REMOVE: s.map[i] = -1; if (s.def >= 0 && w.name[static_cast<size_t>(s.def)] == o.id) s.def = -1; return true;
            case SETDEF: if (o.id >= 0) s.map[w.name[i]] = o.id; s.def = o.id; return true;
            case GETDEF: return o.res == s.def;
            case REMALL: for (int& x : s.map) x = -1; s.def = -1; return true;
            case EXEC: {
                std::vector<int> v;
                for (int x : s.map) if (x >= 0) v.push_back(x);
                std::sort(v.begin(), v.end());
                std::string e;
                for (int x : v) { auto& q = s.l[static_cast<size_t>(x)]; e += sf("%d:%d:%d:%s:%s;", x, q.level, q.flush, q.pat.c_str(), q.tag.c_str()); }
                return e == o.sres;
            }
            case GLEVEL: s.level = o.val; each([&](mstate::ls& q) { q.level = o.val; }); return true;
            case GFLUSH: s.flush = o.val; each([&](mstate::ls& q) { q.flush = o.val; }); return true;
            case GPATTERN: s.gpat = s.gtag = sf("p%d", o.val); each([&](mstate::ls& q) { q.pat = q.tag = s.gpat; }); return true;
            case GFORMAT: s.gtag = sf("f%d", o.val); each([&](mstate::ls& q) { q.tag = s.gtag; }); return true;
            case SLEVEL: return target([&](mstate::ls& q) { q.level = o.val; });
            case SFLUSH: return target([&](mstate::ls& q) { q.flush = o.val; });
            case SPATTERN: return target([&](mstate::ls& q) { q.pat = q.tag = sf("p%d", o.val); });
            case AUTO: s.automatic = o.val != 0; return true;
            case RTP:
                for (int& x : s.map) if (x >= 0 && w.async[static_cast<size_t>(x)]) x = -1;
                if (s.def >= 0 && w.async[static_cast<size_t>(s.def)]) s.def = -1;
                s.pool = o.id;
                return true;
            case GTP: return o.res == s.pool;
        }
        return false;
    }
    bool go(uint64_t done, const mstate& s) {
        if (done == (1ull << ops.size()) - 1) return true;
        if (!seen.insert(hash_mix(hash_str(s.key()), done)).second) return false;
        if (++steps > 400000) return true;
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) first_end = std::min(first_end, ops[i].t1);
        for (size_t i = 0; i < ops.size(); i++) {
            if ((done >> i & 1) || ops[i].t0 > first_end) continue;
            mstate n = s;
            if (apply(ops[i], n) && go(done | 1ull << i, n)) return true;
        }
        return false;
    }
};

static void history(uint64_t cs) {
    rng r(cs);
    int nt = r.range(2, 4), per = r.range(2, nt == 2 ? 8 : nt == 3 ? 6 : 5), nn = r.range(1, 3), nl = r.range(1, 5);
    bool pools = r.chance(35);
    ll::close();
    world w;
    mstate s;
    s.l.resize(static_cast<size_t>(nl));
    if (pools) for (int i = 0; i < 2; i++) w.pool.push_back(make_pool(r.range(0, 2), 4, 1));
    for (int i = 0; i < nl; i++) {
        w.name.push_back(r.range(0, nn - 1));
        w.async.push_back(pools && r.chance(50));
        w.sk.push_back(std::make_shared<tag_sink>());
        ll::sink_shr_ptr sp = w.sk.back();
        if (w.async.back()) w.lg.push_back(std::make_shared<ll::async_logger>(NAMES[w.name.back()], sp, w.pool[r.below(2)]));
        else w.lg.push_back(std::make_shared<ll::logger>(NAMES[w.name.back()], sp));
    }
    R().set_auto_register_logger(true);
    R().set_global_pattern("p0");
    R().set_global_log_level(ll::level::info);
    R().set_global_flush_level(ll::level::off);
    if (pools) { R().register_thread_pool(w.pool[0]); s.pool = 0; }
    std::vector<std::vector<op>> plan(static_cast<size_t>(nt));
    int val = 1, focus = r.range(0, 5);
    std::vector<int> kinds;
    switch (focus) {
        case 0: kinds = {REG, REG, INIT, GET, GET, REMOVE, EXEC}; break;
        case 1: kinds = {SETDEF, GETDEF, GETDEF, REMOVE, GET, REG, REMALL}; break;
        case 2: kinds = {INIT, REG, GLEVEL, GFLUSH, GPATTERN, GFORMAT, EXEC, EXEC}; break;
        case 3: kinds = {REG, SLEVEL, SFLUSH, SPATTERN, REMOVE, EXEC, GPATTERN, GLEVEL}; break;
        case 4: kinds = {REG, INIT, RTP, GTP, GET, SETDEF, GETDEF, EXEC}; break;
        default: for (int k = 0; k < NKINDS; k++) kinds.push_back(k);
    }
    for (int t = 0; t < nt; t++)
        for (int k = 0; k < per; k++) {
            op o;
            o.thread = t;
            o.kind = r.pick(kinds);
            if (!pools && (o.kind == RTP || o.kind == GTP)) o.kind = GET;
            o.id = r.range(0, nn - 1);
            switch (o.kind) {
                case REG: case INIT: o.id = r.range(0, nl - 1); break;
                case SETDEF: o.id = r.range(-1, nl - 1); break;
                case RTP: o.id = r.range(-1, 1); break;
                case GPATTERN: case GFORMAT: case SPATTERN: o.val = val++; break;
                case GLEVEL: case GFLUSH: case SLEVEL: case SFLUSH: o.val = r.range(0, 6); break;
                case AUTO: o.val = r.range(0, 1); break;
            }
            plan[static_cast<size_t>(t)].push_back(o);
        }
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    unsigned spin = static_cast<unsigned>(r.below(300));
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            go++;
            while (go.load() <= nt) {}
            for (auto& o : plan[static_cast<size_t>(t)]) { perform(w, o); for (unsigned i = 0; i < spin; i++) asm volatile(""); }
        });
    go++;
    for (auto& t : th) t.join();
    std::vector<op> all;
    for (auto& p : plan) for (auto& o : p) all.push_back(o);
    bool overlap = false;
    {
        std::vector<op> by = all;
        std::sort(by.begin(), by.end(), [](const op& a, const op& b) { return a.t0 < b.t0; });
        for (size_t i = 1; i < by.size(); i++) overlap |= by[i].t0 < by[i - 1].t1;
    }
    // what is left over
    auto fin = [&](int k, int id) { op o; o.kind = k; o.id = id; o.thread = nt; perform(w, o); all.push_back(o); };
    for (int n = 0; n < nn; n++) fin(GET, n);
    fin(GETDEF, 0);
    fin(EXEC, 0);
    if (pools) fin(GTP, 0);
    {
        // and what a logger initialised now gets: reveals the global settings
        op o; o.kind = AUTO; o.val = 0; o.thread = nt; perform(w, o); all.push_back(o);
        fin(INIT, 0);
        fin(REMALL, 0);
        fin(REG, 0);
        fin(EXEC, 0);
    }
    linearizer lin(all, w);
    bool ok = lin.go(0, s);
    if (lin.steps > 400000) stat("histories_undecided");
    if (!ok) {
        std::sort(all.begin(), all.end(), [](const op& a, const op& b) { return a.t0 < b.t0; });
        std::string d = sf("%d loggers (", nl);
        for (int i = 0; i < nl; i++) d += sf("%s%s ", NAMES[w.name[static_cast<size_t>(i)]], w.async[static_cast<size_t>(i)] ? " async" : "");
        d += "): ";
        for (auto& o : all) d += ostr(o) + "; ";
        viol("not_linearizable", d);
    }
    R().set_auto_register_logger(true);
    ll::close();
    uint64_t h = cs;
    for (auto& o : all) h = hash_mix(hash_mix(h, static_cast<uint64_t>(o.res + 3)), o.t1 - all[0].t0);
    casedone(h, overlap);
    stat("histories_linearized");
    stat("operations", all.size());
    if (overlap) stat("overlapping_histories");
    if (overlap && cs % 977 == 0) { std::string d; for (auto& o : all) d += ostr(o) + "; "; sample(d); }
}

// ---- long runs
static ll::logger_shr_ptr quiet(const std::string& n) {
    ll::sink_shr_ptr s = std::make_shared<tag_sink>();
    return std::make_shared<ll::logger>(n, s);
}
static std::string tag_of(const ll::logger_shr_ptr& p) { return static_cast<tag_sink*>(p->sinks()[0].get())->get(); }

static void same_name(uint64_t cs, stderr_capture& cap) {
    rng r(cs);
    ll::close();
    int nt = r.range(2, 12), rounds = r.range(5, 30);
    label(sf("case %llx: %d threads register the same names", (unsigned long long)cs, nt));
    size_t rep0 = reports(cap.text()).size();
    std::vector<std::atomic<int>> gate(static_cast<size_t>(rounds));
    for (auto& g : gate) g = 0;
    std::vector<std::vector<ll::logger_shr_ptr>> lg(static_cast<size_t>(nt));
    for (auto& v : lg) for (int i = 0; i < rounds; i++) v.push_back(quiet(sf("s%d", i)));
    bool init = r.chance(50);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            for (int i = 0; i < rounds; i++) {
                gate[static_cast<size_t>(i)]++;
                while (gate[static_cast<size_t>(i)] < nt) {}
                auto& l = lg[static_cast<size_t>(t)][static_cast<size_t>(i)];
                if (init) ll::initialize_logger(l); else ll::register_logger(l);
                auto g = ll::get_logger(sf("s%d", i));
                VF_CHECK(g != nullptr, "lost", "a name just registered by this or another thread is not found");
            }
        });
    for (auto& t : th) t.join();
    auto rp = reports(cap.text());
    VF_CHECK(rp.size() - rep0 == static_cast<size_t>((nt - 1) * rounds), "refusals", "%zu reports for %d refused registrations", rp.size() - rep0, (nt - 1) * rounds);
    std::map<std::string, int> per;
    for (size_t i = rep0; i < rp.size(); i++)
        for (int k = 0; k < rounds; k++) if (rp[i].second.find(sf("'s%d'", k)) != std::string::npos) per[sf("s%d", k)]++;
    for (int k = 0; k < rounds; k++) VF_CHECK(per[sf("s%d", k)] == nt - 1, "refusals", "%d of %d registrations of one name were refused", per[sf("s%d", k)], nt);
    for (int i = 0; i < rounds; i++) {
        auto g = ll::get_logger(sf("s%d", i));
        int owners = 0;
        for (auto& v : lg) owners += v[static_cast<size_t>(i)] == g;
        VF_CHECK(owners == 1, "owner", "the name belongs to %d of the loggers registered under it", owners);
    }
    ll::remove_all();
    stat("contested_names", static_cast<uint64_t>(rounds));
    casedone(hash_mix(cs, static_cast<uint64_t>(nt * 100 + rounds)));
}

static void stress(uint64_t cs, stderr_capture& cap) {
    rng r(cs);
    ll::close();
    int nt = r.range(2, 8), nset = r.range(1, 3), per = r.range(50, 400);
    label(sf("case %llx: %d threads register and remove, %d threads change settings", (unsigned long long)cs, nt, nset));
    size_t rep0 = reports(cap.text()).size();
    ll::set_global_pattern("p0");
    ll::set_global_log_level(ll::level::info);
    ll::set_global_flush_level(ll::level::off);
    int nfix = r.range(0, 5);
    std::vector<ll::logger_shr_ptr> fixed;
    for (int i = 0; i < nfix; i++) { fixed.push_back(quiet(sf("fixed%d", i))); ll::initialize_logger(fixed.back()); }
    auto own_default = quiet("the default");
    ll::set_default_logger(own_default);
    std::atomic<bool> stop{false};
    std::vector<std::vector<ll::logger_shr_ptr>> kept(static_cast<size_t>(nt));
    std::vector<std::thread> th;
    std::atomic<uint64_t> visits{0};
    bool flusher = r.chance(40);
    if (flusher) ll::flush_every(std::chrono::milliseconds(1));
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            rng q(hash_mix(cs, static_cast<uint64_t>(t) + 100));
            std::map<std::string, ll::logger_shr_ptr> mine;
            for (int i = 0; i < per; i++) {
                std::string n = sf("t%d_%d", t, (int)q.below(20));
                auto f = mine.find(n);
                auto g = ll::get_logger(n);
                VF_CHECK(g == (f == mine.end() ? nullptr : f->second), f == mine.end() ? "resurrected" : "lost", "looking up '%s', which only this thread %s", n.c_str(), f == mine.end() ? "removed" : "registered");
                int k = q.range(0, 9);
                if (f == mine.end()) {
                    auto l = quiet(n);
                    if (k < 6) ll::initialize_logger(l); else ll::register_logger(l);
                    mine[n] = l;
                } else if (k < 5) { ll::remove_logger(n); mine.erase(f); }
                else if (k < 7) ll::set_log_level(n, ll::level::warn);
                else if (k < 8) ll::set_pattern(n, "own");
                VF_CHECK((ll::get_logger(n) != nullptr) == (mine.count(n) != 0), "visibility", "an own operation on '%s' that returned is not visible", n.c_str());
                if (q.chance(5)) VF_CHECK(ll::get_default_logger() == own_default, "default_logger", "the default logger is gone");
                if (q.chance(5)) {
                    std::multiset<ll::logger*> seen;
                    ll::exec_all([&](ll::logger_shr_ptr p) { seen.insert(p.get()); });
                    visits += seen.size();
                    std::set<ll::logger*> uniq(seen.begin(), seen.end());
                    VF_CHECK(uniq.size() == seen.size(), "exec_all_twice", "exec_all() visited a logger twice");
                    for (auto& m : mine) VF_CHECK(uniq.count(m.second.get()), "exec_all_missing", "exec_all() left out a logger registered all the time");
                    for (auto& m : fixed) VF_CHECK(uniq.count(m.get()), "exec_all_missing", "exec_all() left out a logger registered all the time");
                }
                tick();
            }
            for (auto& m : mine) kept[static_cast<size_t>(t)].push_back(m.second);
        });
    std::vector<std::thread> st;
    std::atomic<uint64_t> settings{0};
    for (int t = 0; t < nset; t++)
        st.emplace_back([&, t] {
            rng q(hash_mix(cs, static_cast<uint64_t>(t) + 500));
            int i = 0;
            while (!stop) {
                switch (q.range(0, 4)) {
                    case 0: ll::set_global_log_level(static_cast<lvl>(q.range(0, 6))); break;
                    case 1: ll::set_global_flush_level(static_cast<lvl>(q.range(0, 6))); break;
                    case 2: ll::set_global_pattern(sf("P%d_%d", t, i++)); break;
                    case 3: ll::set_global_formatter(ll::make_unique<tag_formatter>(sf("F%d_%d", t, i++))); break;
                    default: ll::flush_all(); break;
                }
                settings++;
                sleep_us(static_cast<long>(q.below(50)));
            }
        });
    for (auto& t : th) t.join();
    // the owners are done: from now on only the settings change, for all registered loggers alike
    int extra = r.range(1, 10);
    std::vector<ll::logger_shr_ptr> late;
    for (int i = 0; i < extra; i++) { late.push_back(quiet(sf("late%d", i))); ll::initialize_logger(late.back()); }
    uint64_t s0 = settings;
    settle([&] { return settings > s0 + 20; }, 10);
    stop = true;
    for (auto& t : st) t.join();
    // each setting once more from two threads at a time, then compare
    {
        std::thread a([] { for (int i = 0; i < 3; i++) { ll::set_global_pattern(sf("A%d", i)); ll::set_global_log_level(ll::level::debug); ll::set_global_flush_level(ll::level::warn); } });
        std::thread b([] { for (int i = 0; i < 3; i++) { ll::set_global_flush_level(ll::level::error); ll::set_global_log_level(ll::level::error); ll::set_global_pattern(sf("B%d", i)); } });
        a.join(); b.join();
    }
    std::set<std::string> tags, pats;
    std::set<int> levels, flushes;
    size_t count = 0;
    auto look = [&](const ll::logger_shr_ptr& p) {
        tags.insert(tag_of(p));
        pats.insert(p->get_pattern());
        levels.insert(p->get_log_level());
        flushes.insert(p->get_flush_level());
    };
    ll::exec_all([&](ll::logger_shr_ptr p) { look(p); count++; });
    auto fresh = quiet("fresh");
    ll::initialize_logger(fresh);
    look(fresh);
    VF_CHECK(tags.size() == 1 && pats.size() == 1 && tags == pats, "disagree", "%zu loggers have %zu formatters (e.g. '%s') and %zu patterns (e.g. '%s')", count, tags.size(), tags.begin()->c_str(), pats.size(), pats.begin()->c_str());
    VF_CHECK(levels.size() == 1 && flushes.size() == 1, "disagree", "loggers have %zu log levels and %zu flush levels after global changes", levels.size(), flushes.size());
    VF_CHECK(*pats.begin() == "A2" || *pats.begin() == "B2", "wrong_value", "the pattern '%s' is none of those set last", pats.begin()->c_str());
    VF_CHECK(*levels.begin() == 1 || *levels.begin() == 4, "wrong_value", "the level %d is none of those set last", *levels.begin());
    VF_CHECK(*flushes.begin() == 3 || *flushes.begin() == 4, "wrong_value", "the flush level %d is none of those set last", *flushes.begin());
    size_t want = fixed.size() + late.size() + 1;
    for (auto& v : kept) {
        want += v.size();
        for (auto& l : v) VF_CHECK(ll::get_logger(l->name()) == l, "lost", "'%s' is lost", l->name().c_str());
    }
    VF_CHECK(count == want, "count", "%zu loggers registered instead of %zu", count, want);
    VF_CHECK(reports(cap.text()).size() == rep0, "reports", "unexpected error report: %s", reports(cap.text()).empty() ? "" : esc(reports(cap.text()).back().second).c_str());
    if (flusher) ll::flush_every(std::chrono::milliseconds(0));
    ll::close();
    stat("stress_runs");
    stat("operations", static_cast<uint64_t>(nt * per));
    stat("settings_changed", settings);
    stat("exec_all_visits", visits);
    casedone(hash_mix(hash_mix(cs, count), settings));
}

void vf_main() {
    budget b;
    bool alone = S().mode == "stress";
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many();) {
        stderr_capture cap;
        label(sf("case %llu", (unsigned long long)i));
        noise(caseseed(i), static_cast<unsigned>(i % 4));
        for (int k = 0; k < (alone ? 0 : 60) && b.left(); k++) history(caseseed(i++));
        noise(caseseed(i), static_cast<unsigned>(i % 3));
        for (int k = 0; k < 2 && b.left(); k++) same_name(caseseed(i++), cap);
        for (int k = 0; k < 2 && b.left(); k++) stress(caseseed(i++), cap);
        noise_off();
    }
}
