// C17: backtraces. Sequential histories against a model, and threads that log and dump at the same time.
#include "async.h"

using namespace vf;

static const char* START = "*********************** Backtrace Start ***********************";
static const char* END = "************************ Backtrace End ************************";

struct bad_arg {};
namespace fmt {
template <> struct formatter<bad_arg> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    auto format(const bad_arg&, format_context& c) const -> decltype(c.out()) { throw std::runtime_error("bad argument"); return c.out(); }
};
}

struct expct {
    bool marker = false;
    const char* text = nullptr;
    gmsg g;
    sent s;
};
static std::string cmp(const expct& e, const rec& r, const std::string& name) {
    if (e.marker) {
        if (r.text != e.text) return sf("'%s' instead of the marker '%s'", esc(r.text, 80).c_str(), e.text);
        if (r.lname != name) return "logger name of a marker";
        return "";
    }
    if (r.text == START || r.text == END) return sf("a marker instead of message %d", e.g.s);
    return compare(e.g, &e.s, r, name);
}

static void sequential(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    bool async = r.chance(50);
    int kind = r.range(0, 2), nops = r.range(3, 120);
    size_t w = kind == K_CONC ? static_cast<size_t>(r.range(1, 3)) : 1, q = r.pick(queue_sizes());
    label(sf("case %llu: %s logger, %d operations", (unsigned long long)i, async ? kind_name(kind) : "synchronous", nops));
    auto tp = async ? make_pool(kind, q, w) : nullptr;
    auto sink = std::make_shared<rec_sink>(), second = std::make_shared<rec_sink>();
    bool two = r.chance(30), throwing = two && r.chance(50);
    if (throwing) second->on_log = [](const ll::base::log_msg&) { throw std::runtime_error("second sink"); };
    std::vector<ll::sink_shr_ptr> v;
    if (two) v.push_back(second);
    v.push_back(sink);
    std::string name = r.chance(20) ? std::string(r.below(400), 'n') : sf("logger%llu", (unsigned long long)i);
    ll::logger_shr_ptr l;
    if (async) l = std::make_shared<ll::async_logger>(name, v.begin(), v.end(), tp); else l = std::make_shared<ll::logger>(name, v.begin(), v.end());
    int level = 2, slevel = 0;
    bool enabled = false, ever = false, filtered = false;
    size_t n = 0;
    std::deque<expct> kept;
    std::vector<expct> want;
    uint64_t dumps = 0, dumped = 0, overwritten = 0, below_level = 0, h = cs;
    int seq = 0;
    auto check = [&](const char* when) {
        if (async) l->flush();
        auto got = sink->logs();
        for (size_t k = 0; k < std::max(got.size(), want.size()); k++) {
            if (k >= got.size()) { viol("missing", sf("%s: %zu records instead of %zu; missing: %s", when, got.size(), want.size(), want[k].marker ? want[k].text : esc(want[k].g.text, 80).c_str())); return false; }
            if (k >= want.size()) { viol("extra", sf("%s: %zu records instead of %zu; extra: '%s'", when, got.size(), want.size(), esc(got[k].text, 80).c_str())); return false; }
            std::string d = cmp(want[k], got[k], name);
            if (!d.empty()) { viol("record", sf("%s, record %zu: %s", when, k, d.c_str())); return false; }
        }
        return true;
    };
    auto put = [&](const expct& e) {
        int lv = e.marker ? static_cast<int>(ll::level::info) : e.g.level;
        if (lv >= slevel) want.push_back(e); else filtered = true;
    };
    for (int op = 0; op < nops && !too_many(); op++) {
        int k = r.range(0, 99);
        if (k < 70) {
            expct e;
            e.g = gen_msg(cs, 0, seq++, 1);
            e.s = send_msg(*l, e.g);
            if (e.g.level >= level) put(e); else below_level++;
            if (enabled) { kept.push_back(e); if (kept.size() > n) { kept.pop_front(); overwritten++; } }
        } else if (k < 72) {
            // what cannot be formatted is not a message
            stderr_capture c;
            l->log(ll::level::critical, "never {}", bad_arg{});
        } else if (k < 78 || (k < 84 && !ever)) {
            n = r.chance(10) ? 0 : r.chance(70) ? static_cast<size_t>(r.range(1, 12)) : static_cast<size_t>(r.range(13, 300));
            l->enable_backtrace_n(n);
            enabled = ever = true;
            kept.clear();
        } else if (k < 81) { l->disable_backtrace(); enabled = false; kept.clear(); }
        else if (k < 91) {
            l->dump_backtrace();
            if (enabled) {
                expct m;
                m.marker = true;
                m.text = START;
                put(m);
                for (auto& e : kept) put(e);
                dumped += kept.size();
                m.text = END;
                put(m);
                kept.clear();
                dumps++;
            }
            if (r.chance(40) && !check("after a dump")) break;
        } else if (k < 96) { level = r.range(0, 6); l->set_log_level(static_cast<lvl>(level)); }
        else if (k < 98) {
            // for an asynchronous logger the level of the sink counts when the message is handled
            if (async) l->flush();
            slevel = r.range(0, 6);
            sink->set_level(static_cast<lvl>(slevel));
        } else if (!check("in between")) break;
        h = hash_mix(h, static_cast<uint64_t>(k));
    }
    check("at the end");
    l.reset();
    tp.reset();
    stat("dumps", dumps);
    stat("messages_dumped", dumped);
    stat("overwritten", overwritten);
    stat("below_log_level", below_level);
    if (filtered) stat("cases_with_sink_filter");
    casedone(h, dumps > 0);
    if (i < 3) sample(S().label + sf(": %llu dumps of %llu messages", (unsigned long long)dumps, (unsigned long long)dumped));
}

static void concurrent(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    bool async = r.chance(50);
    int kind = r.range(0, 2), nt = r.range(1, 6), nd = r.range(0, 3), per = r.range(1, 200);
    size_t w = kind == K_CONC ? static_cast<size_t>(r.range(1, 3)) : 1, q = r.pick(queue_sizes());
    size_t total = static_cast<size_t>(nt * per);
    size_t n = r.chance(35) ? total + r.below(10) : r.chance(50) ? 1 + r.below(10) : 1 + r.below(total);
    bool toggler = r.chance(15);
    int level = r.pick(std::vector<int>{0, 2, 6, 6});
    label(sf("case %llu: %s logger, %d threads of %d messages, %d dumping, backtrace of %zu%s", (unsigned long long)i, async ? kind_name(kind) : "synchronous", nt, per, nd, n, toggler ? ", toggled" : ""));
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    auto tp = async ? make_pool(kind, q, w) : nullptr;
    auto sink = std::make_shared<rec_sink>();
    ll::sink_shr_ptr sp = sink;
    std::string name = "bt";
    ll::logger_shr_ptr l;
    if (async) l = std::make_shared<ll::async_logger>(name, sp, tp); else l = std::make_shared<ll::logger>(name, sp);
    l->set_log_level(static_cast<lvl>(level));
    l->enable_backtrace_n(n);
    std::vector<std::vector<gmsg>> msgs(static_cast<size_t>(nt));
    std::vector<std::vector<sent>> snt(static_cast<size_t>(nt));
    std::atomic<bool> done{false};
    std::atomic<uint64_t> dumps{0};
    std::vector<std::thread> th, dt;
    for (int t = 0; t < nt; t++) {
        msgs[static_cast<size_t>(t)].resize(static_cast<size_t>(per));
        snt[static_cast<size_t>(t)].resize(static_cast<size_t>(per));
        th.emplace_back([&, t] {
            for (int s = 0; s < per; s++) {
                auto& g = msgs[static_cast<size_t>(t)][static_cast<size_t>(s)];
                g = gen_msg(cs, t, s, 1);
                snt[static_cast<size_t>(t)][static_cast<size_t>(s)] = send_msg(*l, g);
                if (s % 16 == 0) tick();
            }
        });
    }
    for (int t = 0; t < nd; t++)
        dt.emplace_back([&, t] {
            rng p(hash_mix(cs, static_cast<uint64_t>(t) + 50));
            while (!done) { l->dump_backtrace(); dumps++; sleep_us(static_cast<long>(p.below(300))); }
        });
    if (toggler) dt.emplace_back([&] {
        rng p(hash_mix(cs, 60));
        while (!done) {
            if (p.chance(50)) l->disable_backtrace(); else l->enable_backtrace_n(n);
            sleep_us(static_cast<long>(p.below(500)));
        }
    });
    for (auto& t : th) t.join();
    done = true;
    for (auto& t : dt) t.join();
    tp.reset();      // drains the pool
    size_t before = sink->logs().size();
    if (async) {
        l->dump_backtrace();      // the pool is gone: nothing is output, and the backtrace is emptied
        VF_CHECK(sink->logs().size() == before, "output_without_pool", "a dump without a pool was output");
    } else { l->dump_backtrace(); dumps++; }
    noise_off();
    auto got = sink->logs();
    // each message: once directly when its level admits it, and at most once from the backtrace
    std::map<std::pair<int, int>, int> seen, last_dumped;
    uint64_t starts = 0, ends = 0, dumped = 0, h = cs;
    std::vector<int> next(static_cast<size_t>(nt), -1);
    std::vector<std::pair<int, int>> final_dump;
    bool in_order = !async || kind == K_LOCK;
    for (size_t k = 0; k < got.size() && !too_many(); k++) {
        auto& x = got[k];
        if (x.text == START) { starts++; continue; }
        if (x.text == END) { ends++; continue; }
        int p = -1, s = -1;
        if (!parse_id(x.text, p, s) || p < 0 || p >= nt || s < 0 || s >= per) { viol("unknown", sf("'%s' was never logged", esc(x.text, 80).c_str())); continue; }
        auto& g = msgs[static_cast<size_t>(p)][static_cast<size_t>(s)];
        std::string d = compare(g, &snt[static_cast<size_t>(p)][static_cast<size_t>(s)], x, name);
        if (!d.empty()) viol("record", d);
        seen[{p, s}]++;
        if (level == 6) {
            // everything comes from dumps
            dumped++;
            if (in_order) {
                VF_CHECK(s > next[static_cast<size_t>(p)], "order", "message %d of thread %d dumped after message %d", s, p, next[static_cast<size_t>(p)]);
                next[static_cast<size_t>(p)] = s;
            }
            if (k >= before) final_dump.push_back({p, s});
        }
        h = hash_mix(h, static_cast<uint64_t>(p * 1000 + s));
    }
    uint64_t twice = 0;
    for (int t = 0; t < nt; t++)
        for (int s = 0; s < per; s++) {
            int direct = msgs[static_cast<size_t>(t)][static_cast<size_t>(s)].level >= level, c = seen[{t, s}];
            VF_CHECK(c >= direct, "lost", "message %d:%d of level %d was not output", t, s, msgs[static_cast<size_t>(t)][static_cast<size_t>(s)].level);
            VF_CHECK(c <= direct + 1, "dumped_twice", "message %d:%d was dumped %d times", t, s, c - direct);
            twice += c > direct;
        }
    VF_CHECK(starts == ends, "markers", "%llu start and %llu end markers", (unsigned long long)starts, (unsigned long long)ends);
    if (!toggler && !async) VF_CHECK(starts == dumps, "markers", "%llu markers for %llu dumps", (unsigned long long)starts, (unsigned long long)dumps);
    if (!toggler && !async && n >= total)
        VF_CHECK(twice == total, "dump_lost", "%llu of %zu messages were dumped from a backtrace of size %zu", (unsigned long long)twice, total, n);
    if (!toggler && !async && level == 6) {
        // what was left is the end of what each thread logged
        std::vector<int> low(static_cast<size_t>(nt), per), cnt(static_cast<size_t>(nt), 0);
        for (auto& e : final_dump) { auto t = static_cast<size_t>(e.first); low[t] = std::min(low[t], e.second); cnt[t]++; }
        for (int t = 0; t < nt; t++) VF_CHECK(cnt[static_cast<size_t>(t)] == per - low[static_cast<size_t>(t)], "not_the_last", "the last dump holds %d messages of thread %d, from number %d of %d", cnt[static_cast<size_t>(t)], t, low[static_cast<size_t>(t)], per);
        VF_CHECK(final_dump.size() <= n, "too_many", "%zu messages in a backtrace of size %zu", final_dump.size(), n);
        if (nd == 0) VF_CHECK(final_dump.size() == std::min(n, total), "dump_lost", "the dump holds %zu messages instead of %zu", final_dump.size(), std::min(n, total));
    }
    stat("concurrent_dumps", dumps);
    stat("messages_dumped", twice);
    stat("concurrent_messages", total);
    casedone(h, nt > 1 || nd > 0);
}

// backtracers themselves: each copy keeps what the original held, and goes its own way
static void objects(uint64_t i) {
    uint64_t cs = caseseed(5000000 + i);
    rng r(cs);
    label(sf("backtracer objects, case %llu", (unsigned long long)i));
    using bt = ll::base::backtracer;
    struct m_t { bool on = false; size_t n = 0; bool sized = false; std::deque<std::string> q; };
    std::vector<std::unique_ptr<bt>> v(3);
    std::vector<m_t> m(3);
    for (auto& x : v) x.reset(new bt());
    int nops = r.range(5, 60), id = 0;
    uint64_t h = cs;
    std::string trail;
    for (int op = 0; op < nops; op++) {
        size_t a = r.below(3), b = r.below(3);
        int k = r.range(0, 9);
        trail += sf(" %d(%zu,%zu)", k, a, b);
        h = hash_mix(h, static_cast<uint64_t>(k) * 16 + a * 4 + b);
        switch (k) {
            case 0: { size_t n = r.below(8); v[a]->enable_with_size(n); m[a].on = m[a].sized = true; m[a].n = n; m[a].q.clear(); break; }
            case 1: if (r.chance(30)) { v[a]->disable(); m[a] = m_t(); } break;
            case 2: if (a != b) { v[a].reset(new bt(*v[b])); m[a] = m[b]; stat("backtracer_copies"); } break;
            case 3: if (a != b) { *v[a] = *v[b]; m[a] = m[b]; stat("backtracer_copies"); } break;
            case 4: if (a != b && r.chance(30)) { v[a].reset(new bt(std::move(*v[b]))); m[a] = m[b]; v[b].reset(new bt()); m[b] = m_t(); } break;
            case 5: {
                std::vector<std::string> got;
                v[a]->foreach_do([&](const ll::base::log_msg& x) { got.push_back(std::string(x.logger_name.data(), x.logger_name.size()) + "|" + std::string(x.msg.data(), x.msg.size())); });
                if (got != std::vector<std::string>(m[a].q.begin(), m[a].q.end()))
                    viol("object_content", sf("after%s backtracer %zu handed out %zu messages%s instead of %zu%s", trail.c_str(), a, got.size(), got.empty() ? "" : (" from '" + esc(got[0], 40) + "'").c_str(), m[a].q.size(),
                                              m[a].q.empty() ? "" : (" from '" + esc(m[a].q[0], 40) + "'").c_str()));
                m[a].q.clear();
                stat("backtracers_read");
                break;
            }
            default: {
                std::string name = "n" + std::string(r.below(20), static_cast<char>('a' + id % 26)), text = sf("%d:", id) + std::string(r.below(r.chance(20) ? 900 : 40), static_cast<char>('A' + id % 26));
                id++;
                v[a]->push_back(ll::base::log_msg(ll::level::info, text, name));
                if (m[a].sized) { m[a].q.push_back(name + "|" + text); while (m[a].q.size() > m[a].n) m[a].q.pop_front(); }
            }
        }
        if (v[a]->is_enabled() != m[a].on) { viol("object_enabled", sf("after%s backtracer %zu is %s", trail.c_str(), a, m[a].on ? "disabled" : "enabled")); return; }
        if (too_many()) return;
    }
    casedone(h, true);
}

void vf_main() {
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many();) {
        stderr_capture cap;
        for (int k = 0; k < 20 && b.left(); k++, i++) if (i % 2) concurrent(i); else sequential(i);
        for (uint64_t k = 0; k < 5; k++) objects(i + k);
    }
}
