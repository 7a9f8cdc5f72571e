// C12: a call produces output on a sink exactly when the logger and the sink admit its level.
#include "async.h"

using namespace vf;

static std::atomic<uint64_t> formatted{0};
struct probe { int id; };
template <> struct fmt::formatter<probe> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <typename C> auto format(const probe& p, C& c) const -> decltype(c.out()) {
        formatted++;
        return fmt::format_to(c.out(), "probe{}", p.id);
    }
};

static const int N_API = 12, N_FREE = 10;
// true when the overload formats its argument
static bool formats(int api) { return api < 100 ? api <= 3 || api == 7 || api == 8 : api <= 105; }
static std::string text_of(int api, int id) {
    return formats(api) ? sf("probe%d", id) : sf("text{}%d", id);
}
#define NAMED(OBJ, ...) switch (lv) { case 0: OBJ trace(__VA_ARGS__); break; case 1: OBJ debug(__VA_ARGS__); break; \
    case 2: OBJ info(__VA_ARGS__); break; case 3: OBJ warn(__VA_ARGS__); break; case 4: OBJ error(__VA_ARGS__); break; \
    default: OBJ critical(__VA_ARGS__); }
static void call(ll::logger* l, int api, int lv, int id) {
    auto L = static_cast<lvl>(lv);
    ll::source_loc loc("f.cpp", 7, "fn");
    probe p{id};
    std::string t = sf("text{}%d", id);
    switch (api) {
        case 0: l->log(L, "{}", p); break;
        case 1: l->log(loc, L, "{}", p); break;
        case 2: l->log(L, p); break;
        case 3: l->log(loc, L, p); break;
        case 4: l->log(ll::sys_clock::now(), loc, L, ll::fmt_string_view(t)); break;
        case 5: l->log(loc, L, ll::fmt_string_view(t)); break;
        case 6: l->log(L, ll::fmt_string_view(t)); break;
        case 7: NAMED(l->, "{}", p); break;
        case 8: NAMED(l->, p); break;
        case 9: NAMED(l->, t); break;
        case 10: l->log(L, t); break;
        case 11: l->log(loc, L, t.c_str()); break;
        case 100: ll::log(loc, L, "{}", p); break;
        case 101: ll::log(L, "{}", p); break;
        case 102: ll::log(loc, L, p); break;
        case 103: ll::log(L, p); break;
        case 104: NAMED(ll::, "{}", p); break;
        case 105: NAMED(ll::, p); break;
        case 106: NAMED(ll::, t); break;
        case 107: ll::log(loc, L, t); break;
        case 108: ll::log(L, t); break;
        case 109: ll::log(L, t.c_str()); break;
    }
}
static std::vector<lvl> all_levels() { return {ll::level::trace, ll::level::debug, ll::level::info, ll::level::warn, ll::level::error, ll::level::critical, ll::level::off}; }

// one thread changes levels and logs; every call is judged
static void sequential_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int nl = r.range(1, 4), ns = r.range(1, 4);
    bool use_async = r.chance(50);
    int kind = r.range(0, 2);
    size_t workers = static_cast<size_t>(r.range(1, 3));
    label(sf("sequential case %llu: %d loggers, %d sinks, %s", (unsigned long long)i, nl, ns, use_async ? kind_name(kind) : "sync"));
    ll::thread_pool_shr_ptr tp;
    if (use_async) tp = make_pool(kind, r.pick(queue_sizes()), workers);
    std::vector<std::shared_ptr<rec_sink>> sinks;
    std::vector<int> slevel;
    for (int s = 0; s < ns; s++) {
        sinks.push_back(std::make_shared<rec_sink>());
        int lv = r.chance(40) ? 0 : r.range(0, 6);
        if (lv || r.chance(50)) sinks.back()->set_level(static_cast<lvl>(lv));
        slevel.push_back(lv);
    }
    ll::close();
    struct L { ll::logger_shr_ptr l; std::vector<int> sinks; int level, flush = 6; bool reg, async; size_t trace = 0; };
    std::vector<L> ls;
    for (int k = 0; k < nl; k++) {
        L x;
        std::vector<ll::sink_shr_ptr> v;
        for (int s = 0; s < ns; s++) if (r.chance(60) || (s == ns - 1 && v.empty())) { v.push_back(sinks[static_cast<size_t>(s)]); x.sinks.push_back(s); }
        std::string name = sf("c12_%d", k);
        x.async = use_async && r.chance(70);
        if (x.async) x.l = std::make_shared<ll::async_logger>(name, v.begin(), v.end(), tp);
        else x.l = std::make_shared<ll::logger>(name, v.begin(), v.end());
        x.level = x.l->get_log_level();
        VF_CHECK(x.level == ll::level::info, "initial_level", "a new logger has level %d", x.level);
        x.reg = r.chance(70);
        if (x.reg) ll::register_logger(x.l);
        ls.push_back(x);
    }
    int def = r.range(0, nl - 1);
    ll::set_default_logger(ls[static_cast<size_t>(def)].l);
    ls[static_cast<size_t>(def)].reg = true;
    uint64_t h = cs, out_n = 0, off_n = 0;
    int nops = r.range(10, 80);
    for (int op = 0; op < nops && !too_many(); op++) {
        int k = r.range(0, 99);
        size_t li = r.below(ls.size());
        L& x = ls[li];
        int lv = r.range(0, 6);
        if (k < 12) { x.l->set_log_level(static_cast<lvl>(lv)); x.level = lv; }
        else if (k < 16) {
            ll::set_log_level(x.l->name(), static_cast<lvl>(lv));
            if (x.reg) x.level = lv;
        } else if (k < 19) {
            ll::set_global_log_level(static_cast<lvl>(lv));
            for (auto& y : ls) if (y.reg) y.level = lv;
        } else if (k < 27) {
            if (use_async && workers > 1) continue;     // another worker may still be looking at the old level
            size_t s = r.below(sinks.size());
            sinks[s]->set_level(static_cast<lvl>(lv));
            slevel[s] = lv;
        } else if (k < 30) { int f = r.range(3, 6); x.l->set_flush_level(static_cast<lvl>(f)); x.flush = f; }
        else if (k < 32) { x.trace = static_cast<size_t>(r.range(1, 20)); x.l->enable_backtrace_n(x.trace); }
        else if (k < 34) { x.l->disable_backtrace(); x.trace = 0; }
        else {
            lv = r.range(0, 5);
            bool free_fn = r.chance(35);
            L& y = free_fn ? ls[static_cast<size_t>(def)] : x;
            int api = free_fn ? 100 + r.range(0, N_FREE - 1) : r.range(0, N_API - 1);
            std::vector<size_t> before, fl_before;
            for (auto& s : sinks) { before.push_back(s->nlog.load()); fl_before.push_back(s->nflush.load()); }
            uint64_t f0 = formatted;
            call(y.l.get(), api, lv, op);
            uint64_t f1 = formatted;
            bool enabled = lv >= y.level;
            uint64_t want_f = formats(api) && (enabled || y.trace) ? 1 : 0;
            VF_CHECK(f1 - f0 == want_f, "formatting", "overload %d, level %d, logger level %d, backtrace %zu: arguments formatted %llu times", api, lv, y.level,
                     y.trace, (unsigned long long)(f1 - f0));
            bool flushes = false;
            if (y.async) {
                // the message is handled later: wait until it has been, before a level changes
                uint64_t want = 0;
                for (int s : y.sinks) if (enabled && lv >= slevel[static_cast<size_t>(s)]) want++;
                if (enabled && r.chance(60)) { y.l->flush(); flushes = true; }
                settle([&] {
                    for (int s : y.sinks) if (enabled && lv >= slevel[static_cast<size_t>(s)] && sinks[static_cast<size_t>(s)]->nlog.load() == before[static_cast<size_t>(s)]) return false;
                    return true;
                }, 10);
                if (!flushes) { y.l->flush(); flushes = true; }
            }
            for (size_t s = 0; s < sinks.size(); s++) {
                bool mine = std::count(y.sinks.begin(), y.sinks.end(), static_cast<int>(s)) != 0;
                size_t want = mine && enabled && lv >= slevel[s] ? 1 : 0;
                size_t got = sinks[s]->nlog.load() - before[s];
                if (got != want)
                    viol(got > want ? "output_not_admitted" : "admitted_not_output",
                         sf("overload %d, level %d, logger level %d, sink level %d, %s: %zu records instead of %zu", api, lv, y.level, slevel[s],
                            y.async ? "async" : "sync", got, want));
                else if (want) {
                    rec rc = sinks[s]->logs().back();
                    VF_CHECK(rc.text == text_of(api, op) && rc.level == lv, "wrong_record", "overload %d: '%s' level %d instead of '%s' level %d", api,
                             esc(rc.text).c_str(), rc.level, text_of(api, op).c_str(), lv);
                }
                bool fl = mine && enabled && lv >= y.flush;
                if (!flushes && (!use_async || workers == 1) && sinks[s]->nflush.load() != fl_before[s] && !fl)
                    viol("sink_touched", sf("a call of level %d (logger level %d, flush level %d) flushed a sink", lv, y.level, y.flush));
                want ? out_n++ : off_n++;
            }
            if (enabled) stat("enabled_calls"); else stat("disabled_calls");
            if (!enabled && y.trace) stat("disabled_with_backtrace");
        }
        for (auto& y : ls) {
            VF_CHECK(y.l->get_log_level() == y.level, "level_getter", "get_log_level() of %s: %d instead of %d", y.l->name().c_str(), (int)y.l->get_log_level(), y.level);
            VF_CHECK(y.l->get_flush_level() == y.flush, "level_getter", "get_flush_level(): %d instead of %d", (int)y.l->get_flush_level(), y.flush);
        }
        for (size_t s = 0; s < sinks.size(); s++) {
            VF_CHECK(sinks[s]->get_level() == slevel[s], "level_getter", "sink get_level(): %d instead of %d", (int)sinks[s]->get_level(), slevel[s]);
            for (int q = 0; q <= 5; q++)
                VF_CHECK(sinks[s]->should_log(static_cast<lvl>(q)) == (q >= slevel[s]), "should_log", "should_log(%d) at sink level %d", q, slevel[s]);
        }
        h = hash_mix(h, static_cast<uint64_t>(k * 8 + lv));
    }
    ll::close();
    stat("sink_decisions", out_n + off_n);
    casedone(h, out_n && off_n);
    if (i < 3) sample(S().label);
}

// several threads log while others change levels: every record is explained by a level that was installed during its call
static void concurrent_case(uint64_t i) {
    uint64_t cs = caseseed(500000 + i);
    rng r(cs);
    int nt = r.range(1, 4), per = r.range(20, 300);
    bool as = r.chance(50);
    int kind = r.range(0, 2);
    bool by_sink = r.chance(30), by_global = !by_sink && r.chance(30);
    label(sf("concurrent case %llu: %d threads x %d, %s, changing %s", (unsigned long long)i, nt, per, as ? kind_name(kind) : "sync",
             by_sink ? "sink level" : by_global ? "global level" : "logger level"));
    auto sk = std::make_shared<rec_sink>();
    ll::thread_pool_shr_ptr tp;
    ll::logger_shr_ptr l;
    ll::close();
    if (as) {
        tp = make_pool(kind, r.pick(queue_sizes()), static_cast<size_t>(r.range(1, 3)));
        l = std::make_shared<ll::async_logger>("c12", sk, tp);
    } else l = std::make_shared<ll::logger>("c12", sk);
    ll::register_logger(l);
    l->set_log_level(ll::level::trace);
    std::vector<int> hist(100000, 0);
    std::atomic<long> installing{0}, installed{0};
    std::atomic<int> running{nt}, go{0};
    struct c { int lv; long lo, hi; };
    std::vector<std::vector<c>> calls(static_cast<size_t>(nt));
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    std::vector<std::thread> ts;
    for (int p = 0; p < nt; p++)
        ts.emplace_back([&, p] {
            rng rr(hash_mix(cs, static_cast<uint64_t>(p)));
            go++;
            while (go < nt) {}
            for (int s = 0; s < per; s++) {
                c x;
                x.lv = rr.range(0, 5);
                std::string t = sf("%d:%d:", p, s);
                x.lo = installed.load();
                if (rr.chance(50)) l->log(static_cast<lvl>(x.lv), "{}", t); else l->log(static_cast<lvl>(x.lv), t);
                x.hi = installing.load();
                calls[static_cast<size_t>(p)].push_back(x);
                tick();
            }
            running--;
        });
    long k = 0;
    while (running.load() > 0 && k + 1 < static_cast<long>(hist.size())) {
        k++;
        hist[static_cast<size_t>(k)] = r.range(0, 6);
        installing = k;
        auto v = static_cast<lvl>(hist[static_cast<size_t>(k)]);
        if (by_sink) sk->set_level(v);
        else if (by_global) ll::set_global_log_level(v);
        else if (r.chance(50)) l->set_log_level(v);
        else ll::set_log_level("c12", v);
        installed = k;
        if (r.chance(60)) sleep_us(r.range(0, 100));
    }
    for (auto& t : ts) t.join();
    noise_off();
    l->flush();
    tp.reset();
    long last = installed;
    std::map<std::pair<int, int>, int> seen;
    for (auto& x : sk->logs()) {
        int p, s;
        if (parse_id(x.text, p, s)) seen[{p, s}]++;
    }
    uint64_t h = cs, sure = 0;
    for (int p = 0; p < nt; p++)
        for (int s = 0; s < per; s++) {
            c& x = calls[static_cast<size_t>(p)][static_cast<size_t>(s)];
            bool some = false, every = true;
            // the level of a sink may be looked at until the message has been handled
            long hi = as && by_sink ? last : x.hi;
            for (long q = x.lo; q <= hi; q++) { bool ok = x.lv >= hist[static_cast<size_t>(q)]; some |= ok; every &= ok; }
            auto f = seen.find({p, s});
            int n = f == seen.end() ? 0 : f->second;
            if (n && !some) viol("output_not_admitted", sf("message %d:%d of level %d was output although every level during the call forbids it (versions %ld to %ld)", p, s, x.lv, x.lo, hi));
            if (!n && every) viol("admitted_not_output", sf("message %d:%d of level %d was not output although every level during the call admits it (versions %ld to %ld)", p, s, x.lv, x.lo, hi));
            if (n > 1) viol("output_twice", sf("message %d:%d was output %d times", p, s, n));
            if (some == every) sure++;
            h = hash_mix(h, static_cast<uint64_t>(n));
        }
    ll::close();
    stat("concurrent_calls_decided", sure);
    stat("level_changes", static_cast<uint64_t>(k));
    casedone(h, true);
}

void vf_main() {
    stderr_capture cap;
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++) {
        sequential_case(i);
        if (i % 3 == 0) concurrent_case(i);
    }
}
