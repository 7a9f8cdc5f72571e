// C15: the registry against a model, over random histories of all its operations.
#include "async.h"
#include "sinks/ostream_sink.h"
#include "sinks/null_sink.h"
#include "base/registry.h"

using namespace vf;

// a formatter that is not a pattern
struct tag_formatter : ll::sinks::formatter {
    std::string tag;
    static std::atomic<int>& alive() { static std::atomic<int> n{0}; return n; }
    explicit tag_formatter(std::string t) : tag(std::move(t)) { alive()++; }
    ~tag_formatter() override { alive()--; }
    void format(const ll::base::log_msg& m, ll::fmt_memory_buf& b) override {
        std::string s = tag + "|" + std::string(m.msg.data(), m.msg.size()) + "\n";
        b.append(s.data(), s.data() + s.size());
    }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<tag_formatter>(tag); }
};
struct counting_stream : std::stringbuf {
    std::atomic<int> flushes{0};
    int sync() override { flushes++; return std::stringbuf::sync(); }
};
struct L {
    std::string name, pattern = "%+", tag;     // tag: what its records look like; "" for the default pattern
    int id = 0, level = 2, flush = 6, nsinks = 1;
    bool async = false;
    ll::logger_shr_ptr ref;                    // may be dropped
    std::weak_ptr<ll::logger> weak;
    std::shared_ptr<counting_stream> buf;
    std::shared_ptr<std::ostream> os;
    std::weak_ptr<ll::base::thread_pool> pool;
    size_t seen = 0;
};
struct model {
    std::map<std::string, int> map;
    int def = -1;
    bool automatic = true;
    int level = 2, flush = 6;
    std::string pattern = "%+", tag;
    ll::thread_pool_shr_ptr pool;
};

static void one_case(uint64_t i, stderr_capture& cap) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    model m;
    // a defined start: the settings of the previous case are overwritten
    ll::set_auto_register_logger(true);
    ll::set_global_pattern("%+");
    ll::set_global_log_level(ll::level::info);
    ll::set_global_flush_level(ll::level::off);
    std::vector<L> ls;
    ls.reserve(200);
    int nnames = r.range(1, 6), nops = r.range(5, 80), next_tag = 0;
    bool with_async = r.chance(50);
    label(sf("case %llu: %d names, %d operations%s", (unsigned long long)i, nnames, nops, with_async ? ", asynchronous loggers" : ""));
    std::vector<std::string> names;
    for (int k = 0; k < nnames; k++) names.push_back(k == 0 && r.chance(20) ? "" : k == 1 && r.chance(20) ? "default_logger" : k == 2 && r.chance(30) ? std::string("a\x01q {} %") + std::to_string(k) : sf("n%d", k));
    // names that differ from others only behind a NUL, in case, in blanks or after many characters
    if (r.chance(30)) {
        int v = r.range(0, 4);
        std::string base = v == 4 ? std::string(300, 'n') : std::string("n0");
        const std::vector<std::string> more{base + std::string("\0x", 2), base + std::string(1, '\0'), v == 2 ? base + " " : std::string("N0"), base + "\xc3\xa9", base};
        for (int k = r.range(1, 3); k > 0; k--) {
            std::string n = r.pick(more);
            if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
        }
        stat("cases_with_close_names");
    }
    size_t reported = reports(cap.text()).size();
    uint64_t h = cs, refused = 0, changed = 0;
    std::string what;
    auto expect_reports = [&](size_t n, const std::string& part) {
        auto rp = reports(cap.text());
        size_t got = rp.size() - reported;
        if (got != n) viol("reports", sf("%s: %zu error reports instead of %zu", what.c_str(), got, n));
        else if (n && rp.back().second.find(part) == std::string::npos) viol("report_text", sf("%s: reported '%s', without '%s'", what.c_str(), esc(rp.back().second).c_str(), part.c_str()));
        reported = rp.size();
    };
    auto fresh = [&](const std::string& name) -> L& {
        ls.emplace_back();
        L& l = ls.back();
        l.id = static_cast<int>(ls.size()) - 1;
        l.name = name;
        l.buf = std::make_shared<counting_stream>();
        l.os = std::make_shared<std::ostream>(l.buf.get());
        l.nsinks = r.chance(80) ? 1 : r.range(0, 3);
        std::vector<ll::sink_shr_ptr> v;
        for (int k = 0; k < l.nsinks; k++) v.push_back(std::make_shared<ll::sinks::ostream_sink_mt>(*l.os));
        l.async = with_async && r.chance(40) && m.pool;
        if (l.async) {
            l.ref = std::make_shared<ll::async_logger>(name, v.begin(), v.end(), m.pool);
            l.pool = m.pool;
        } else l.ref = std::make_shared<ll::logger>(name, v.begin(), v.end());
        l.weak = l.ref;
        return l;
    };
    auto id_of = [&](const ll::logger_shr_ptr& p) {
        if (!p) return -1;
        for (auto& l : ls) if (l.weak.lock() == p) return l.id;
        return -2;
    };
    auto show = [&](int id) { return id < 0 ? sf("%s", id == -1 ? "none" : "unknown") : sf("#%d '%s'", id, esc(ls[static_cast<size_t>(id)].name).c_str()); };
    auto on_registered = [&](std::function<void(L&)> f) { for (auto& e : m.map) f(ls[static_cast<size_t>(e.second)]); };
    // does the logger write as the model says
    auto probe = [&](L& l) {
        auto p = l.weak.lock();
        if (!p) return;
        VF_CHECK(p->get_log_level() == l.level, "log_level", "%s: log level of %s is %d instead of %d", what.c_str(), show(l.id).c_str(), (int)p->get_log_level(), l.level);
        VF_CHECK(p->get_flush_level() == l.flush, "flush_level", "%s: flush level of %s is %d instead of %d", what.c_str(), show(l.id).c_str(), (int)p->get_flush_level(), l.flush);
        VF_CHECK(p->get_pattern() == l.pattern, "pattern", "%s: get_pattern() of %s is '%s' instead of '%s'", what.c_str(), show(l.id).c_str(), esc(p->get_pattern()).c_str(), esc(l.pattern).c_str());
        if (l.async && l.pool.expired()) return;
        std::string t = sf("m%llu", (unsigned long long)r.below(1000000));
        p->log(ll::level::critical, t);
        if (l.async) p->flush();
        std::string all = l.buf->str(), got = all.substr(std::min(l.seen, all.size()));
        l.seen = all.size();
        if (l.level > 5 || !l.nsinks) { VF_CHECK(got.empty(), "level_not_applied", "%s: %s wrote '%s'", what.c_str(), show(l.id).c_str(), esc(got).c_str()); return; }
        if (l.tag.empty()) {
            // "[time] [name] [critical] text"
            std::string tail = (l.name.empty() ? std::string() : "[" + l.name + "] ") + "[critical] " + t + "\n";
            size_t cnt = 0;
            for (size_t q = got.find(tail); q != std::string::npos; q = got.find(tail, q + 1)) cnt++;
            VF_CHECK(cnt == static_cast<size_t>(l.nsinks) && got[0] == '[', "formatter", "%s: %s with the default pattern wrote '%s'", what.c_str(), show(l.id).c_str(), esc(got).c_str());
        } else {
            std::string e;
            for (int k = 0; k < l.nsinks; k++) e += l.tag + "|" + t + "\n";
            VF_CHECK(got == e, "formatter", "%s: %s wrote '%s' instead of '%s'", what.c_str(), show(l.id).c_str(), esc(got).c_str(), esc(e).c_str());
        }
        stat("records_compared");
    };
    auto some_logger = [&]() -> L* {
        std::vector<int> c;
        for (auto& l : ls) if (l.ref) c.push_back(l.id);
        return c.empty() ? nullptr : &ls[static_cast<size_t>(c[r.below(c.size())])];
    };
    auto do_register = [&](L& l, bool init, bool direct) {
        if (init) { l.level = m.level; l.flush = m.flush; l.pattern = m.pattern; l.tag = m.tag; }
        bool reg = !init || m.automatic;
        bool taken = reg && m.map.count(l.name);
        bool threw = false;
        if (direct) {
            try {
                if (init) ll::base::registry::instance().initialize_logger(l.ref); else ll::base::registry::instance().register_logger(l.ref);
            } catch (const ll::learnlog_excpt&) { threw = true; }
            VF_CHECK(threw == taken, "refusal", "%s: %s although the name is %s", what.c_str(), threw ? "refused" : "accepted", taken ? "taken" : "free");
            expect_reports(0, "");
        } else {
            if (init) ll::initialize_logger(l.ref); else ll::register_logger(l.ref);
            expect_reports(taken ? 1 : 0, l.name.find(char(0)) == std::string::npos ? "exists" : "logger with name");
        }
        if (reg && !taken) m.map[l.name] = l.id;
        if (taken) refused++;
    };
    for (int op = 0; op < nops && !too_many(); op++) {
        int k = r.range(0, 99);
        const std::string& name = r.pick(names);
        bool known = m.map.count(name) != 0;
        auto lv = static_cast<lvl>(r.range(0, 6));
        std::string tag = sf("T%d", next_tag++);
        auto before = m.map;
        if (k < 14) { what = "register_logger('" + esc(name) + "')"; do_register(fresh(name), false, r.chance(30)); }
        else if (k < 26) { what = "initialize_logger('" + esc(name) + "')"; do_register(fresh(name), true, r.chance(30)); }
        else if (k < 30) {
            if (L* l = some_logger()) { what = "registering " + show(l->id) + " again"; do_register(*l, r.chance(30), false); }
        } else if (k < 34) {
            what = "set_auto_register_logger()";
            m.automatic = r.chance(60);
            ll::set_auto_register_logger(m.automatic);
        } else if (k < 42) {
            what = "remove_logger('" + esc(name) + "')";
            ll::remove_logger(name);
            m.map.erase(name);
            if (m.def >= 0 && ls[static_cast<size_t>(m.def)].name == name) m.def = -1;
        } else if (k < 50) {
            int q = r.range(0, 9);
            if (q == 0) { what = "set_default_logger(nullptr)"; ll::set_default_logger(nullptr); m.def = -1; }
            else {
                L* l = q < 5 ? some_logger() : nullptr;
                if (!l) l = &fresh(name);
                what = "set_default_logger(" + show(l->id) + ")";
                ll::set_default_logger(l->ref);
                m.map[l->name] = l->id;
                m.def = l->id;
            }
        } else if (k < 56) {
            what = "set_global_pattern(" + tag + ")";
            m.pattern = tag + "|%v";
            m.tag = tag;
            ll::set_global_pattern(m.pattern);
            on_registered([&](L& l) { l.pattern = m.pattern; l.tag = tag; });
        } else if (k < 61) {
            what = "set_global_formatter(" + tag + ")";
            m.tag = tag;
            ll::set_global_formatter(ll::make_unique<tag_formatter>(tag));
            on_registered([&](L& l) { l.tag = tag; });
        } else if (k < 65) {
            what = sf("set_global_log_level(%d)", lv);
            m.level = lv;
            ll::set_global_log_level(lv);
            on_registered([&](L& l) { l.level = lv; });
        } else if (k < 69) {
            what = sf("set_global_flush_level(%d)", lv);
            m.flush = lv;
            ll::set_global_flush_level(lv);
            on_registered([&](L& l) { l.flush = lv; });
        } else if (k < 78) {
            int q = r.range(0, 2);
            bool direct = r.chance(25), threw = false;
            what = std::string(q == 0 ? "set_pattern('" : q == 1 ? "set_log_level('" : "set_flush_level('") + esc(name) + "')";
            auto& reg = ll::base::registry::instance();
            try {
                if (q == 0) direct ? reg.set_pattern(name, tag + "|%v") : ll::set_pattern(name, tag + "|%v");
                else if (q == 1) direct ? reg.set_log_level(name, lv) : ll::set_log_level(name, lv);
                else direct ? reg.set_flush_level(name, lv) : ll::set_flush_level(name, lv);
            } catch (const ll::learnlog_excpt&) { threw = true; }
            VF_CHECK(threw == (direct && !known), "unknown_name", "%s: threw %d, known %d", what.c_str(), threw, known);
            expect_reports(!direct && !known ? 1 : 0, name.find(char(0)) == std::string::npos ? "not exist" : "logger with name");
            if (known) {
                L& l = ls[static_cast<size_t>(m.map[name])];
                if (q == 0) { l.pattern = tag + "|%v"; l.tag = tag; } else if (q == 1) l.level = lv; else l.flush = lv;
            } else refused++;
        } else if (k < 83) {
            what = "exec_all()";
            std::multiset<int> got, want;
            ll::exec_all([&](ll::logger_shr_ptr p) { got.insert(id_of(p)); });
            for (auto& e : m.map) want.insert(e.second);
            VF_CHECK(got == want, "exec_all", "exec_all() called for %zu loggers instead of %zu", got.size(), want.size());
            stat("exec_all_calls");
        } else if (k < 88) {
            what = "flush_all()";
            std::map<int, int> f0;
            for (auto& l : ls) f0[l.id] = l.buf->flushes;
            ll::flush_all();
            size_t dead = 0;
            for (auto& l : ls) {
                bool reg = false;
                for (auto& e : m.map) reg |= e.second == l.id;
                int want = reg ? l.nsinks : 0;
                if (reg && l.async && l.pool.expired()) { want = 0; dead++; }
                VF_CHECK(l.buf->flushes - f0[l.id] == want, "flush_all", "flush_all() flushed %s %d times instead of %d", show(l.id).c_str(), l.buf->flushes - f0[l.id], want);
            }
            expect_reports(dead, "thread pool");
            stat("flush_all_calls");
        } else if (k < 90) { what = "remove_all()"; ll::remove_all(); m.map.clear(); m.def = -1; }
        else if (k < 96 && with_async) {
            int kind = r.range(0, 2);
            what = "a new thread pool";
            size_t q = static_cast<size_t>(r.range(1, 100)), w = kind == K_CONC ? static_cast<size_t>(r.range(1, 3)) : 1;   // flush() is a barrier
            if (r.chance(50)) {
                auto tp = make_pool(kind, q, w);
                m.pool = tp;
                ll::register_thread_pool(tp);
            } else {
                m.pool.reset();
                if (kind == 0) ll::initialize_thread_pool<ll::base::lock_thread_pool>(q, w);
                else if (kind == 1) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(q, w);
                else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(q, w);
                m.pool = ll::get_thread_pool();
            }
            auto tp = ll::get_thread_pool();
            VF_CHECK(tp && tp == m.pool && tp->message_queue_size() == q && tp->threads_size() == w && static_cast<int>(tp->message_queue_type()) == kind, "thread_pool",
                     "get_thread_pool() does not give the pool registered last");
            for (auto it = m.map.begin(); it != m.map.end();) it = ls[static_cast<size_t>(it->second)].async ? m.map.erase(it) : std::next(it);
            if (m.def >= 0 && ls[static_cast<size_t>(m.def)].async) m.def = -1;
        } else if (k == 97) {
            what = "close()";
            ll::close();
            m.map.clear();
            m.def = -1;
            m.pool.reset();
            VF_CHECK(ll::get_thread_pool() == nullptr, "thread_pool", "a thread pool after close()");
        } else if (!ls.empty()) {
            what = "dropping a reference";
            L& l = ls[r.below(ls.size())];
            l.ref.reset();
        }
        if (before != m.map) changed++;
        h = hash_mix(h, static_cast<uint64_t>(k));
        // observations
        for (auto& n : names) {
            auto f = m.map.find(n);
            int want = f == m.map.end() ? -1 : f->second, got = id_of(ll::get_logger(n));
            VF_CHECK(got == want, "lookup", "after %s: get_logger('%s') gives %s instead of %s", what.c_str(), esc(n).c_str(), show(got).c_str(), show(want).c_str());
        }
        int gd = id_of(ll::get_default_logger());
        VF_CHECK(gd == m.def, "default_logger", "after %s: get_default_logger() gives %s instead of %s", what.c_str(), show(gd).c_str(), show(m.def).c_str());
        VF_CHECK(ll::get_logger("no such name") == nullptr, "lookup", "an unknown name is found");
        for (auto& l : ls) {
            bool reg = l.id == m.def;
            for (auto& e : m.map) reg |= e.second == l.id;
            // the worker of a pool may hold a logger for a moment
            bool alive = !l.weak.expired();
            if (!l.ref && !reg && alive && l.async) alive = !settle([&] { return l.weak.expired(); }, 10);
            VF_CHECK(alive == (l.ref || reg), reg ? "logger_gone" : "logger_kept", "after %s: %s is %s", what.c_str(), show(l.id).c_str(), alive ? "still alive" : "gone although registered");
            if (l.ref || reg) { if (r.chance(30) || op + 1 == nops) probe(l); else {
                auto p = l.weak.lock();
                if (p) VF_CHECK(p->get_log_level() == l.level && p->get_flush_level() == l.flush, "levels", "after %s: levels of %s are %d, %d instead of %d, %d", what.c_str(),
                                show(l.id).c_str(), (int)p->get_log_level(), (int)p->get_flush_level(), l.level, l.flush);
            } }
        }
        expect_reports(0, "");
        stat("operations");
    }
    ll::close();
    ls.clear();
    m.pool.reset();
    stat("refused", refused);
    casedone(h, changed > 1);
    if (i < 3) sample(S().label);
}

void vf_main() {
    {
        auto d = ll::get_default_logger();
        VF_CHECK(d != nullptr && ll::get_logger(d->name()) == d && d->get_log_level() == ll::level::info && d->get_flush_level() == ll::level::off && d->sinks().size() == 1,
                 "start", "the default logger at the start");
        VF_CHECK(ll::get_thread_pool() == nullptr, "start", "a thread pool at the start");
        int n = 0;
        ll::exec_all([&](ll::logger_shr_ptr) { n++; });
        VF_CHECK(n == 1, "start", "%d loggers at the start", n);
    }
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 1000)) && b.left() && !too_many();) {
        stderr_capture cap;
        for (int k = 0; k < 20 && b.left(); k++) one_case(i++, cap);
    }
}
