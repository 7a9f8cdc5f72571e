// C24: cloned and swapped loggers, over random histories against a model.
#include "async.h"

using namespace vf;

// records, and remembers what its records would look like
struct tag_sink : rec_sink {
    std::string tag = "-";
    void set_pattern(const std::string& p) override { tag = p; }
    void set_formatter(ll::formatter_uni_ptr f) override {
        ll::fmt_memory_buf b;
        ll::base::log_msg msg(ll::level::info, "t", "n");
        f->format(msg, b);
        tag.assign(b.data(), b.size());
        while (!tag.empty() && tag.back() == '\n') tag.pop_back();
    }
};
struct M {                                   // one logger as it should be
    ll::logger_shr_ptr l;
    std::string name, pattern = "%+";
    std::vector<int> sinks;
    int level = 2, flush = 6, pool = -1;     // pool -1: synchronous
    bool bt = false, bt_ever = false;
    size_t bt_n = 0;
    std::deque<std::string> kept;            // "name|level|text"
};
struct P { ll::thread_pool_shr_ptr tp; std::shared_ptr<std::set<long>> tids = std::make_shared<std::set<long>>(); std::shared_ptr<std::mutex> m = std::make_shared<std::mutex>(); };
static const char* START = "*********************** Backtrace Start ***********************";
static const char* END = "************************ Backtrace End ************************";

static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    int np = r.range(0, 2), nl = r.range(2, 4), nsk = r.range(1, 5), nops = r.range(3, 60), text_no = 0, tag_no = 0;
    label(sf("case %llu: %d loggers, %d pools, %d sinks, %d operations", (unsigned long long)i, nl, np, nsk, nops));
    stderr_capture cap;
    size_t reported = 0;
    std::vector<P> ps(static_cast<size_t>(np));
    for (auto& p : ps) {
        int kind = r.range(0, 2);
        auto t = p.tids; auto m = p.m;
        p.tp = make_pool(kind, r.pick(queue_sizes()), kind == K_CONC ? static_cast<size_t>(r.range(1, 3)) : 1, [t, m] { std::lock_guard<std::mutex> g(*m); t->insert(gettid_()); });
    }
    std::vector<std::shared_ptr<tag_sink>> sk;
    std::vector<std::vector<std::string>> want(static_cast<size_t>(nsk));    // expected records "name|level|text"
    std::vector<std::vector<int>> via(static_cast<size_t>(nsk));             // pool that handles them
    std::vector<size_t> wflush(static_cast<size_t>(nsk), 0);
    std::vector<std::string> wtag(static_cast<size_t>(nsk), "-");
    for (int k = 0; k < nsk; k++) sk.push_back(std::make_shared<tag_sink>());
    std::vector<M> ls;
    auto add = [&] {
        M m;
        m.name = sf("logger%zu", ls.size()) + (r.chance(20) ? std::string(100, 'q') : "");
        for (int k = 0; k < nsk; k++) if (r.chance(45)) m.sinks.push_back(k);
        std::vector<ll::sink_shr_ptr> v;
        for (int k : m.sinks) v.push_back(sk[static_cast<size_t>(k)]);
        m.pool = np && r.chance(60) ? r.range(0, np - 1) : -1;
        if (m.pool >= 0) m.l = std::make_shared<ll::async_logger>(m.name, v.begin(), v.end(), ps[static_cast<size_t>(m.pool)].tp);
        else m.l = std::make_shared<ll::logger>(m.name, v.begin(), v.end());
        ls.push_back(m);
    };
    for (int k = 0; k < nl; k++) add();
    uint64_t clones = 0, swaps = 0, h = cs, async_clones = 0, bt_swaps = 0, gone = 0;
    // expected effect of one record that a logger hands to its sinks
    auto out = [&](M& m, const std::string& rec, int lv) {
        if (m.pool >= 0 && !ps[static_cast<size_t>(m.pool)].tp) { gone++; return; }
        for (int k : m.sinks) { want[static_cast<size_t>(k)].push_back(rec); via[static_cast<size_t>(k)].push_back(m.pool); }
        if (lv >= m.flush) for (int k : m.sinks) wflush[static_cast<size_t>(k)]++;
    };
    auto quiet = [&] {
        // nothing may be on its way when loggers are swapped or compared: one flush through each pool
        for (auto& m : ls) if (m.pool >= 0 && ps[static_cast<size_t>(m.pool)].tp) { m.l->flush(); for (int k : m.sinks) wflush[static_cast<size_t>(k)]++; }
    };
    auto log = [&](M& m) {
        auto lv = static_cast<lvl>(r.range(0, 5));
        std::string t = sf("t%d", text_no++);
        std::string rec = m.name + "|" + std::to_string((int)lv) + "|" + t;
        switch (r.range(0, 2)) {
            case 0: m.l->log(lv, ll::fmt_string_view(t)); break;
            case 1: m.l->log(lv, "{}", t); break;
            default: m.l->log(ll::source_loc{"f", 3, "g"}, lv, ll::fmt_string_view(t)); break;
        }
        if (lv >= m.level) out(m, rec, lv);
        if (m.bt) { m.kept.push_back(rec); if (m.kept.size() > m.bt_n) m.kept.pop_front(); }
    };
    auto check = [&](const std::string& what) {
        quiet();
        auto rp = reports(cap.text());
        VF_CHECK(rp.size() - reported == gone, "reports", "after %s: %zu reports instead of %llu", what.c_str(), rp.size() - reported, (unsigned long long)gone);
        reported = rp.size();
        gone = 0;
        for (size_t k = 0; k < ls.size(); k++) {
            M& m = ls[k];
            VF_CHECK(m.l->name() == m.name, "name", "after %s: name of logger %zu is '%s' instead of '%s'", what.c_str(), k, esc(m.l->name(), 60).c_str(), esc(m.name, 60).c_str());
            VF_CHECK(m.l->get_log_level() == m.level, "log_level", "after %s: log level of logger %zu is %d instead of %d", what.c_str(), k, (int)m.l->get_log_level(), m.level);
            VF_CHECK(m.l->get_flush_level() == m.flush, "flush_level", "after %s: flush level of logger %zu is %d instead of %d", what.c_str(), k, (int)m.l->get_flush_level(), m.flush);
            VF_CHECK(m.l->get_pattern() == m.pattern, "pattern", "after %s: pattern of logger %zu is '%s' instead of '%s'", what.c_str(), k, esc(m.l->get_pattern()).c_str(), esc(m.pattern).c_str());
            VF_CHECK(m.l->is_async() == (m.pool >= 0) && (dynamic_cast<ll::async_logger*>(m.l.get()) != nullptr) == (m.pool >= 0), "kind", "after %s: logger %zu is %s", what.c_str(), k, m.l->is_async() ? "asynchronous" : "synchronous");
            std::vector<ll::sink_shr_ptr> v;
            for (int x : m.sinks) v.push_back(sk[static_cast<size_t>(x)]);
            VF_CHECK(m.l->sinks() == v, "sinks", "after %s: logger %zu has %zu sinks instead of %zu, or other ones", what.c_str(), k, m.l->sinks().size(), v.size());
        }
        for (int k = 0; k < nsk; k++) {
            auto& s = *sk[static_cast<size_t>(k)];
            auto got = s.logs();
            auto& w = want[static_cast<size_t>(k)];
            // records of one pool come in order; of several pools in any order between flushes
            std::multiset<std::string> a, b(w.begin(), w.end());
            for (auto& x : got) a.insert(x.lname + "|" + std::to_string(x.level) + "|" + x.text);
            if (a != b) {
                std::string e = "?", g = "?";
                for (auto& x : b) if (a.count(x) != b.count(x)) { e = x; break; }
                for (auto& x : a) if (a.count(x) != b.count(x)) { g = x; break; }
                viol("records", sf("after %s: sink %d has %zu records instead of %zu, e.g. '%s' against '%s'", what.c_str(), k, a.size(), b.size(), esc(g, 150).c_str(), esc(e, 150).c_str()));
            } else {
                for (auto& x : got) {
                    std::string key = x.lname + "|" + std::to_string(x.level) + "|" + x.text;
                    std::set<int> pools;
                    for (size_t q = 0; q < w.size(); q++) if (w[q] == key) pools.insert(via[static_cast<size_t>(k)][q]);
                    bool ok = false;
                    for (int p : pools) {
                        if (p < 0) ok |= x.worker == gettid_();
                        else { std::lock_guard<std::mutex> g(*ps[static_cast<size_t>(p)].m); ok |= ps[static_cast<size_t>(p)].tids->count(x.worker) != 0; }
                    }
                    VF_CHECK(ok, "pool", "after %s: '%s' was handled by another pool or thread", what.c_str(), esc(key, 100).c_str());
                }
            }
            VF_CHECK(s.nflush == wflush[static_cast<size_t>(k)], "flushes", "after %s: sink %d was flushed %zu times instead of %zu", what.c_str(), k, s.nflush.load(), wflush[static_cast<size_t>(k)]);
            VF_CHECK(s.tag == wtag[static_cast<size_t>(k)], "sink_pattern", "after %s: sink %d has the pattern '%s' instead of '%s'", what.c_str(), k, s.tag.c_str(), wtag[static_cast<size_t>(k)].c_str());
            s.clear();
            w.clear();
            via[static_cast<size_t>(k)].clear();
            wflush[static_cast<size_t>(k)] = 0;
        }
    };
    for (int op = 0; op < nops && !too_many(); op++) {
        size_t a = r.below(ls.size()), b = r.below(ls.size());
        M& m = ls[a];
        int k = r.range(0, 99);
        h = hash_mix(h, static_cast<uint64_t>(k * 100) + a * 10 + b);
        if (k < 40) log(m);
        else if (k < 46) { m.level = r.range(0, 6); m.l->set_log_level(static_cast<lvl>(m.level)); }
        else if (k < 51) { quiet(); m.flush = r.range(0, 6); m.l->set_flush_level(static_cast<lvl>(m.flush)); }
        else if (k < 57) {
            quiet();
            m.pattern = sf("P%d", tag_no++);
            m.l->set_pattern(m.pattern);
            for (int x : m.sinks) wtag[static_cast<size_t>(x)] = m.pattern;
        } else if (k < 62) {
            m.bt_n = static_cast<size_t>(r.range(1, 6));
            m.bt = m.bt_ever = true;
            m.kept.clear();
            m.l->enable_backtrace_n(m.bt_n);
        } else if (k < 68) {
            m.l->dump_backtrace();
            if (m.bt) {
                out(m, m.name + "|2|" + START, 2);
                for (auto& x : m.kept) { size_t p = x.find('|'); out(m, x, x[p + 1] - '0'); }
                out(m, m.name + "|2|" + END, 2);
                m.kept.clear();
            }
        } else if (k < 80) {
            if (m.bt_ever || ls.size() > 8) continue;      // clones share a backtrace: not specified
            M c = m;
            c.name = r.chance(10) ? m.name : r.chance(10) ? "" : sf("clone%zu", ls.size());
            c.l = m.l->clone(c.name);
            VF_CHECK(c.l && c.l != m.l, "clone", "clone() returned the same logger or none");
            if (!c.l) break;
            ls.push_back(c);
            clones++;
            async_clones += c.pool >= 0;
            if (r.chance(60)) check("cloning");
            // the two are independent
            M& x = ls[r.chance(50) ? a : ls.size() - 1];
            x.level = r.range(0, 6);
            x.l->set_log_level(static_cast<lvl>(x.level));
            quiet();
            x.flush = r.range(0, 6);
            x.l->set_flush_level(static_cast<lvl>(x.flush));
            log(ls[a]);
            log(ls.back());
            if (r.chance(15) && ls.size() > 2) {
                // the clone outlives the original
                quiet();
                check("before dropping an original");
                ls.erase(ls.begin() + static_cast<long>(a));
                log(ls.back());
            }
        } else if (k < 95) {
            quiet();
            if (r.chance(50)) m.l->swap(*ls[b].l); else ll::swap(*m.l, *ls[b].l);
            if (a != b) {
                M& o = ls[b];
                std::swap(m.name, o.name);
                std::swap(m.sinks, o.sinks);
                std::swap(m.level, o.level);
                std::swap(m.flush, o.flush);
                std::swap(m.pattern, o.pattern);
                bt_swaps += m.bt || o.bt;
                std::swap(m.bt, o.bt);
                std::swap(m.bt_ever, o.bt_ever);
                std::swap(m.bt_n, o.bt_n);
                std::swap(m.kept, o.kept);
            }
            swaps++;
            if (r.chance(50)) check(a == b ? "swapping with itself" : "swapping");
        } else if (k < 97 && np) {
            // the pool ends: clones lose it as well
            quiet();
            check("before a pool ends");
            auto& p = ps[r.below(static_cast<uint64_t>(np))];
            p.tp.reset();
            for (auto& x : ls) if (r.chance(50)) log(x);
        } else check("several operations");
    }
    check("all operations");
    stat("clones", clones);
    stat("async_clones", async_clones);
    stat("swaps", swaps);
    stat("swaps_with_backtrace", bt_swaps);
    casedone(h, clones + swaps > 0);
    if (i < 3) sample(S().label + sf(": %llu clones, %llu swaps", (unsigned long long)clones, (unsigned long long)swaps));
}
// clones are made while other threads log and change levels
static void threads_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    bool async = r.chance(60);
    int kind = r.range(0, 2), nt = r.range(1, 4), per = r.range(10, 80);
    label(sf("case %llu: %s logger cloned in use", (unsigned long long)i, async ? kind_name(kind) : "synchronous"));
    noise(cs, static_cast<unsigned>(r.range(0, 3)));
    auto tp = async ? make_pool(kind, r.pick(queue_sizes()), 1) : nullptr;
    auto s = std::make_shared<rec_sink>();
    ll::sink_shr_ptr sp = s;
    ll::logger_shr_ptr o;
    if (async) o = std::make_shared<ll::async_logger>("original", sp, tp); else o = std::make_shared<ll::logger>("original", sp);
    std::vector<std::thread> th;
    std::atomic<bool> stop{false};
    std::thread lev([&] { rng p(cs + 1); while (!stop) { o->set_log_level(static_cast<lvl>(p.range(0, 2))); o->set_flush_level(static_cast<lvl>(p.range(5, 6))); } });
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            for (int k = 0; k < per; k++) {
                if (k % 4 == 0) {
                    auto c = o->clone(sf("c%d_%d", t, k));
                    VF_CHECK(c->name() == sf("c%d_%d", t, k) && c->sinks() == o->sinks() && c->is_async() == async && c->get_log_level() <= 2 && c->get_flush_level() >= 5, "clone", "a clone made in use differs");
                    c->set_log_level(ll::level::critical);
                    c->critical("x");
                    c->error("never");
                } else o->critical("y");
                tick();
            }
        });
    for (auto& t : th) t.join();
    stop = true;
    lev.join();
    noise_off();
    o->flush();
    tp.reset();
    auto got = s->logs();
    size_t want = static_cast<size_t>(nt * per);
    VF_CHECK(got.size() == want, "records", "%zu records instead of %zu", got.size(), want);
    std::map<std::string, int> per_clone;
    for (auto& x : got) {
        VF_CHECK((x.text == "x") == (x.lname != "original") && x.text != "never", "records", "'%s' with the name '%s'", x.text.c_str(), x.lname.c_str());
        if (x.text == "x") VF_CHECK(++per_clone[x.lname] == 1, "records", "two records of the clone '%s'", x.lname.c_str());
    }
    stat("clones_in_use", per_clone.size());
    casedone(cs, nt > 1);
}
void vf_main() {
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many(); i++)
        if (i % 10 == 9) threads_case(i); else one_case(i);
}
