// C25: every factory builds the logger asked for; asynchronous ones share the pool or replace it.
#include "async.h"
#include "base/registry.h"
#include "sinks/basic_file_sink.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
#include <typeinfo>

using namespace vf;
namespace sk = learnlog::sinks;

static thread_local int my_pool = 0;     // workers of a pool the test made: its number
static int pools_made = 0, pool_number = 0;   // pool_number: the registered pool's, 0 if a factory made it

// a user's sink that remembers how it was built
struct probe_sink : rec_sink {
    std::atomic<int> by_pool{-1};        // the pool whose worker wrote last
    void log(const ll::base::log_msg& m) override { by_pool = my_pool; rec_sink::log(m); }
    int a;
    std::string b;
    std::unique_ptr<int> c;
    const void* ref;
    bool moved;
    std::string pattern;
    std::string shown;
    std::mutex pm;
    ll::formatter_uni_ptr fmt;
    probe_sink(int a_, const std::string& b_, std::unique_ptr<int> c_, std::vector<int>& r) : a(a_), b(b_), c(std::move(c_)), ref(&r), moved(false) {}
    probe_sink(int a_, std::string&& b_, std::unique_ptr<int> c_, std::vector<int>& r) : a(a_), b(std::move(b_)), c(std::move(c_)), ref(&r), moved(true) {}
    void set_formatter(ll::formatter_uni_ptr f) override { std::lock_guard<std::mutex> g(pm); fmt = std::move(f); nset++; }
    std::string rendered(const ll::base::log_msg& m) {
        std::lock_guard<std::mutex> g(pm);
        if (!fmt) return "(no formatter)";
        ll::fmt_memory_buf buf;
        fmt->format(m, buf);
        return std::string(buf.data(), buf.size());
    }
};
struct throwing_sink : rec_sink {
    explicit throwing_sink(int what) {
        if (what == 0) throw std::runtime_error("no such sink");
        if (what == 1) throw ll::learnlog_excpt("no such sink either");
        throw 17;
    }
};

enum how { SYNC, A_LOCK, A_FREE, A_CONC };
enum what_t { BASIC_MT, BASIC_ST, ROLL_MT, ROLL_ST, NULL_MT, NULL_ST, OUT_MT, OUT_ST, ERR_MT, ERR_ST, COUT_MT, COUT_ST, CERR_MT, CERR_ST, PROBE, N_WHAT };
static const char* how_names[] = {"sync", "async_lock", "async_lockfree", "async_lockfree_concurrent"};
static const char* what_names[] = {"basic_file_mt", "basic_file_st", "rolling_file_mt", "rolling_file_st", "null_mt", "null_st", "stdout_mt", "stdout_st",
                                   "stderr_mt", "stderr_st", "stdout_color_mt", "stdout_color_st", "stderr_color_mt", "stderr_color_st", "probe"};
static const std::type_info& type_of(int w) {
    switch (w) {
        case BASIC_MT: return typeid(sk::basic_file_sink_mt);
        case BASIC_ST: return typeid(sk::basic_file_sink_st);
        case ROLL_MT: return typeid(sk::rolling_file_sink_mt);
        case ROLL_ST: return typeid(sk::rolling_file_sink_st);
        case NULL_MT: return typeid(sk::null_sink_mt);
        case NULL_ST: return typeid(sk::null_sink_st);
        case OUT_MT: return typeid(sk::stdout_sink_mt);
        case OUT_ST: return typeid(sk::stdout_sink_st);
        case ERR_MT: return typeid(sk::stderr_sink_mt);
        case ERR_ST: return typeid(sk::stderr_sink_st);
        case COUT_MT: return typeid(sk::stdout_color_sink_mt);
        case COUT_ST: return typeid(sk::stdout_color_sink_st);
        case CERR_MT: return typeid(sk::stderr_color_sink_mt);
        case CERR_ST: return typeid(sk::stderr_color_sink_st);
        default: return typeid(probe_sink);
    }
}
struct spec {
    int how = 0, what = 0, api = 0;      // api: 0 factory function, 1 learnlog::create*, 2 the factory itself
    std::string name, file;
    bool trunc = false, trunc_default = false;
    size_t size = 0, num = 0;
    int a = 0;
    std::string b;
    bool rv = false;
    std::string desc() const { return sf("%s/%s/%d '%s'", how_names[how], what_names[what], api, esc(name).c_str()); }
};
static std::vector<int> probe_ref;

template <typename F> static ll::logger_shr_ptr by_function(const spec& s) {
    switch (s.what) {
        case BASIC_MT: return s.trunc_default ? ll::basic_file_logger_mt<F>(s.name, s.file) : ll::basic_file_logger_mt<F>(s.name, s.file, s.trunc);
        case BASIC_ST: return s.trunc_default ? ll::basic_file_logger_st<F>(s.name, s.file) : ll::basic_file_logger_st<F>(s.name, s.file, s.trunc);
        case ROLL_MT: return ll::rolling_file_logger_mt<F>(s.name, s.file, s.size, s.num);
        case ROLL_ST: return ll::rolling_file_logger_st<F>(s.name, s.file, s.size, s.num);
        case NULL_MT: return ll::null_logger_mt<F>(s.name);
        case NULL_ST: return ll::null_logger_st<F>(s.name);
        case OUT_MT: return ll::stdout_logger_mt<F>(s.name);
        case OUT_ST: return ll::stdout_logger_st<F>(s.name);
        case ERR_MT: return ll::stderr_logger_mt<F>(s.name);
        case ERR_ST: return ll::stderr_logger_st<F>(s.name);
        case COUT_MT: return ll::stdout_color_logger_mt<F>(s.name);
        case COUT_ST: return ll::stdout_color_logger_st<F>(s.name);
        case CERR_MT: return ll::stderr_color_logger_mt<F>(s.name);
        case CERR_ST: return ll::stderr_color_logger_st<F>(s.name);
        default:
            if (s.rv) return F::template create<probe_sink>(s.name, s.a, std::string(s.b), std::unique_ptr<int>(new int(s.a)), probe_ref);
            return F::template create<probe_sink>(s.name, s.a, s.b, std::unique_ptr<int>(new int(s.a)), probe_ref);
    }
}
// the four creators as function objects over the sink type
struct c_sync { template <typename K, typename... A> static ll::logger_shr_ptr mk(const std::string& n, A&&... a) { return ll::create<K>(n, std::forward<A>(a)...); } };
struct c_lock { template <typename K, typename... A> static ll::logger_shr_ptr mk(const std::string& n, A&&... a) { return ll::create_async_lock<K>(n, std::forward<A>(a)...); } };
struct c_free { template <typename K, typename... A> static ll::logger_shr_ptr mk(const std::string& n, A&&... a) { return ll::create_async_lockfree<K>(n, std::forward<A>(a)...); } };
struct c_conc { template <typename K, typename... A> static ll::logger_shr_ptr mk(const std::string& n, A&&... a) { return ll::create_async_lockfree_concurrent<K>(n, std::forward<A>(a)...); } };
template <typename C> static ll::logger_shr_ptr by_create(const spec& s) {
    switch (s.what) {
        case BASIC_MT: return s.trunc_default ? C::template mk<sk::basic_file_sink_mt>(s.name, s.file) : C::template mk<sk::basic_file_sink_mt>(s.name, s.file, s.trunc);
        case BASIC_ST: return s.trunc_default ? C::template mk<sk::basic_file_sink_st>(s.name, s.file) : C::template mk<sk::basic_file_sink_st>(s.name, s.file, s.trunc);
        case ROLL_MT: return C::template mk<sk::rolling_file_sink_mt>(s.name, s.file, s.size, s.num);
        case ROLL_ST: return C::template mk<sk::rolling_file_sink_st>(s.name, s.file, s.size, s.num);
        case NULL_MT: return C::template mk<sk::null_sink_mt>(s.name);
        case NULL_ST: return C::template mk<sk::null_sink_st>(s.name);
        case OUT_MT: return C::template mk<sk::stdout_sink_mt>(s.name);
        case OUT_ST: return C::template mk<sk::stdout_sink_st>(s.name);
        case ERR_MT: return C::template mk<sk::stderr_sink_mt>(s.name);
        case ERR_ST: return C::template mk<sk::stderr_sink_st>(s.name);
        case COUT_MT: return C::template mk<sk::stdout_color_sink_mt>(s.name);
        case COUT_ST: return C::template mk<sk::stdout_color_sink_st>(s.name);
        case CERR_MT: return C::template mk<sk::stderr_color_sink_mt>(s.name);
        case CERR_ST: return C::template mk<sk::stderr_color_sink_st>(s.name);
        default:
            if (s.rv) return C::template mk<probe_sink>(s.name, s.a, std::string(s.b), std::unique_ptr<int>(new int(s.a)), probe_ref);
            return C::template mk<probe_sink>(s.name, s.a, s.b, std::unique_ptr<int>(new int(s.a)), probe_ref);
    }
}
static ll::logger_shr_ptr make(const spec& s) {
    if (s.api == 1) switch (s.how) {
        case SYNC: return by_create<c_sync>(s);
        case A_LOCK: return by_create<c_lock>(s);
        case A_FREE: return by_create<c_free>(s);
        default: return by_create<c_conc>(s);
    }
    switch (s.how) {
        case SYNC: return by_function<ll::sync_factory>(s);
        case A_LOCK: return by_function<ll::async_factory_lock>(s);
        case A_FREE: return by_function<ll::async_factory_lockfree>(s);
        default: return by_function<ll::async_factory_lockfree_concurrent>(s);
    }
}
static int pool_kind(const ll::thread_pool_shr_ptr& p) {
    auto& t = *p;
    if (typeid(t) == typeid(ll::base::lock_thread_pool)) return K_LOCK;
    if (typeid(t) == typeid(ll::base::lockfree_thread_pool)) return K_LOCKFREE;
    if (typeid(t) == typeid(ll::base::lockfree_concurrent_thread_pool)) return K_CONC;
    return -1;
}

// stdout and stderr of this process go to files; what a console logger writes is looked up there
struct std_files {
    std::string out, err;
    std_files() {
        out = S().tmp + "/stdout";
        err = S().tmp + "/stderr";
        fflush(stdout);
        fflush(stderr);
        int fd = ::open(out.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
        dup2(fd, 1);
        ::close(fd);
        fd = ::open(err.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
        dup2(fd, 2);
        ::close(fd);
    }
    void reset() {
        fflush(stdout);
        fflush(stderr);
        if (ftruncate(1, 0) || ftruncate(2, 0)) _exit(3);
    }
};
static std_files* files;

struct made {
    spec s;
    ll::logger_shr_ptr l;
    std::weak_ptr<ll::base::thread_pool> pool;
    int pool_number = 0;
    std::string pattern;       // what records look like: pattern prefix
    int pre = 0;
    std::string file_so_far;   // expected content of a basic file
    int probes = 0;
};

static std::string pattern_of(int k) { return sf("P%d %%n/%%l: %%v", k); }
static std::string render(int k, const std::string& name, const char* lev, const std::string& t) { return sf("P%d ", k) + name + "/" + lev + ": " + t + "\n"; }

static std::atomic<uint64_t> tokens{0};

// the logger works: its record arrives where its sink puts it
static void probe(made& m, const std::string& at) {
    std::string t = sf("token%llu", (unsigned long long)tokens++);
    std::string line = render(m.pre, m.s.name, "critical", t);
    bool async = m.s.how != SYNC;
    auto where = sf("%s, logger %s", at.c_str(), m.s.desc().c_str());
    size_t rep = reports(read_file(files->err)).size();
    bool rolling = m.s.what == ROLL_MT || m.s.what == ROLL_ST, filled = false;
    if (rolling) {
        size_t workers = 1;
        if (async) if (auto p = m.pool.lock()) workers = p->threads_size();
        if (workers == 1) {
            for (int k = 0; k < 20; k++) m.l->log(lvl::critical, "a record that fills the files");
            filled = true;
        }
    }
    m.l->log(lvl::critical, t);
    m.l->flush();
    auto arrive = [&](std::function<bool()> f) { return async ? settle(f, 15) : f(); };
    bool ok = true;
    std::string got;
    switch (m.s.what) {
        case BASIC_MT: case BASIC_ST:
            m.file_so_far += line;
            ok = arrive([&] { m.l->flush(); return (got = read_file(m.s.file)) == m.file_so_far; });
            if (!ok) viol("record_missing", sf("%s: the file has '%s' instead of '%s'", where.c_str(), esc(got, 300).c_str(), esc(m.file_so_far, 300).c_str()));
            break;
        case ROLL_MT: case ROLL_ST: {
            m.probes++;
            std::string stem = m.s.file.substr(0, m.s.file.size() - 4);
            int digits = m.s.num >= 1000 ? 4 : m.s.num >= 100 ? 3 : m.s.num >= 10 ? 2 : 1;
            ok = arrive([&] {
                m.l->flush();
                for (size_t i = 1; i <= m.s.num; i++) {
                    std::string c = read_file(stem + sf("_%0*zu.txt", digits, i));
                    if (c.find(line) != std::string::npos) return true;
                }
                return false;
            });
            if (!ok) viol("record_missing", sf("%s: no file '%s_*.txt' has the record", where.c_str(), stem.c_str()));
            for (size_t i = 1; i <= m.s.num + 1; i++) {
                std::string f = stem + sf("_%0*zu.txt", digits, i);
                if (!exists(f)) {
                    VF_CHECK(!filled || i > 2 || i > m.s.num, "file_size", "%s: nothing rolled although %zu bytes were exceeded", where.c_str(), m.s.size);
                    break;
                }
                VF_CHECK(i <= m.s.num, "file_number", "%s: there is a file %s beyond the number %zu given", where.c_str(), f.c_str(), m.s.num);
                VF_CHECK(read_file(f).size() <= m.s.size, "file_size", "%s: %s is larger than the %zu given", where.c_str(), f.c_str(), m.s.size);
            }
            break;
        }
        case NULL_MT: case NULL_ST: break;
        case OUT_MT: case OUT_ST: case COUT_MT: case COUT_ST: case ERR_MT: case ERR_ST: case CERR_MT: case CERR_ST: {
            bool err = m.s.what == ERR_MT || m.s.what == ERR_ST || m.s.what == CERR_MT || m.s.what == CERR_ST;
            const std::string& f = err ? files->err : files->out;
            ok = arrive([&] { m.l->flush(); return (got = read_file(f)).find(line) != std::string::npos; });
            VF_CHECK(ok, "record_missing", "%s: '%s' did not reach its stream", where.c_str(), esc(line).c_str());
            VF_CHECK(read_file(err ? files->out : files->err).find(line) == std::string::npos, "wrong_stream", "%s: the record is in the other stream", where.c_str());
            break;
        }
        default: {
            auto ps = std::dynamic_pointer_cast<probe_sink>(m.l->sinks().at(0));
            if (!ps) break;
            ok = arrive([&] {
                for (auto& x : ps->logs()) if (x.text == t) return true;
                return false;
            });
            VF_CHECK(ok, "record_missing", "%s: the sink has not received the record", where.c_str());
            if (async && ok) VF_CHECK(ps->by_pool == m.pool_number, "wrong_pool", "%s: the record was written by a worker of pool %d instead of %d (0: made by a factory)", where.c_str(), ps->by_pool.load(), m.pool_number);
            if (async && m.pool_number) stat("worker_pools_checked");
            ll::base::log_msg x(lvl::critical, ll::fmt_string_view(t.data(), t.size()), ll::fmt_string_view(m.s.name.data(), m.s.name.size()));
            std::string g = ps->rendered(x);
            VF_CHECK(g == line, "formatter", "%s: its formatter renders '%s' instead of '%s'", where.c_str(), esc(g).c_str(), esc(line).c_str());
        }
    }
    auto rp = reports(read_file(files->err));
    if (rp.size() != rep) viol("reports", sf("%s: using the logger was reported as '%s'", where.c_str(), esc(rp.back().second).c_str()));
    stat("records_followed");
}

static int serial = 0;
static spec gen(rng& r, const std::string& dir, const std::string& name) {
    spec s;
    s.how = static_cast<int>(r.below(4));
    s.what = r.chance(25) ? static_cast<int>(PROBE) : static_cast<int>(r.below(N_WHAT));
    s.api = static_cast<int>(r.below(2));
    s.name = name;
    s.file = dir + sf("/%s%d.txt", r.chance(20) ? "sub/x" : "f", serial++);
    s.trunc = r.chance(50);
    s.trunc_default = r.chance(30);
    if (s.trunc_default) s.trunc = false;
    s.size = static_cast<size_t>(r.range(200, 400));
    static const size_t nums[] = {1, 2, 3, 9, 10, 12, 100};
    s.num = nums[r.below(7)];
    s.a = r.range(-5, 1000000);
    s.b = std::string(r.below(60), 'b') + std::to_string(r.below(100));
    s.rv = r.chance(50);
    return s;
}
static void check_build(const spec& s, const ll::logger_shr_ptr& l, int level, int flush, const std::string& pattern, const std::string& at) {
    if (!l) { viol("no_logger", sf("%s: %s returned nothing", at.c_str(), s.desc().c_str())); return; }
    auto d = s.desc();
    VF_CHECK(l->name() == s.name, "name", "%s: %s is called '%s'", at.c_str(), d.c_str(), esc(l->name()).c_str());
    VF_CHECK(l->is_async() == (s.how != SYNC), "mode", "%s: %s is_async() is %d", at.c_str(), d.c_str(), (int)l->is_async());
    VF_CHECK((std::dynamic_pointer_cast<ll::async_logger>(l) != nullptr) == (s.how != SYNC), "mode", "%s: %s has the wrong class", at.c_str(), d.c_str());
    VF_CHECK((int)l->get_log_level() == level, "log_level", "%s: %s has log level %d instead of %d", at.c_str(), d.c_str(), (int)l->get_log_level(), level);
    VF_CHECK((int)l->get_flush_level() == flush, "flush_level", "%s: %s has flush level %d instead of %d", at.c_str(), d.c_str(), (int)l->get_flush_level(), flush);
    VF_CHECK(l->get_pattern() == pattern, "pattern", "%s: %s has pattern '%s' instead of '%s'", at.c_str(), d.c_str(), esc(l->get_pattern()).c_str(), esc(pattern).c_str());
    if (l->sinks().size() != 1) { viol("sinks", sf("%s: %s has %zu sinks", at.c_str(), d.c_str(), l->sinks().size())); return; }
    auto& k = *l->sinks()[0];
    VF_CHECK(typeid(k) == type_of(s.what), "sink_type", "%s: %s has a sink of type %s", at.c_str(), d.c_str(), typeid(k).name());
    VF_CHECK(l->sinks()[0]->get_level() == lvl::trace, "sink_level", "%s: the sink of %s has level %d", at.c_str(), d.c_str(), (int)l->sinks()[0]->get_level());
    if (s.what == BASIC_MT) VF_CHECK(static_cast<sk::basic_file_sink_mt&>(k).filename() == s.file, "arguments", "%s: file name", d.c_str());
    if (s.what == BASIC_ST) VF_CHECK(static_cast<sk::basic_file_sink_st&>(k).filename() == s.file, "arguments", "%s: file name", d.c_str());
    if (s.what == ROLL_MT) VF_CHECK(static_cast<sk::rolling_file_sink_mt&>(k).base_filename() == s.file, "arguments", "%s: file name", d.c_str());
    if (s.what == ROLL_ST) VF_CHECK(static_cast<sk::rolling_file_sink_st&>(k).base_filename() == s.file, "arguments", "%s: file name", d.c_str());
    if (s.what == PROBE) {
        auto& p = static_cast<probe_sink&>(k);
        VF_CHECK(p.a == s.a && p.b == s.b && p.c && *p.c == s.a && p.ref == &probe_ref && p.moved == s.rv, "arguments",
                 "%s: %s: its sink was built from %d, '%s', %s%s", at.c_str(), d.c_str(), p.a, p.b.c_str(), p.ref == &probe_ref ? "the reference" : "another reference",
                 p.moved != s.rv ? ", with the wrong value category" : "");
    }
}

static void one_case(uint64_t i, bool small_pools) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    files->reset();
    std::string dir = S().tmp + sf("/d%llu", (unsigned long long)i);
    ::mkdir(dir.c_str(), 0755);
    label(sf("case %llu", (unsigned long long)i));
    int level = 0, flush = 6, pre = 0;
    std::string pattern;
    ll::set_auto_register_logger(true);
    auto settings = [&] {
        level = r.range(0, 5);
        flush = r.chance(50) ? 6 : r.range(0, 5);
        pre = static_cast<int>(r.below(1000));
        pattern = pattern_of(pre);
        ll::set_global_log_level(static_cast<lvl>(level));
        ll::set_global_flush_level(static_cast<lvl>(flush));
        ll::set_global_pattern(pattern);
    };
    settings();
    bool automatic = true;
    std::map<std::string, ll::logger_shr_ptr> map;      // the model
    ll::thread_pool_shr_ptr pool;
    int kind = -1;
    size_t qs = 0, ws = 0;
    std::vector<made> all;
    std::vector<std::string> names;
    for (int k = 0; k < 8; k++) names.push_back(k == 0 && r.chance(20) ? "" : sf("n%d", k));
    int ops = r.range(3, 25);
    uint64_t h = cs, replaced = 0, shared = 0;
    std::string hist;
    std::vector<ll::thread_pool_shr_ptr> held;      // pools the user keeps although they have been replaced
    pool_number = 0;
    auto pool_now = [&](const std::string& at) {
        auto p = ll::get_thread_pool();
        if (kind < 0) { VF_CHECK(!p, "pool", "%s: there is a pool", at.c_str()); return; }
        if (!p) { viol("pool", at + ": there is no pool"); return; }
        VF_CHECK(pool_kind(p) == kind && static_cast<int>(p->message_queue_type()) == kind, "pool_kind", "%s: the registered pool is of kind %d instead of %s", at.c_str(), pool_kind(p), kind_name(kind));
        VF_CHECK(p->message_queue_size() == qs && p->threads_size() == ws, "pool_size", "%s: the registered pool has queue size %zu and %zu workers instead of %zu and %zu",
                 at.c_str(), p->message_queue_size(), p->threads_size(), qs, ws);
    };
    ll::logger_shr_ptr dflt;
    auto drop_async = [&] {
        if (dflt && dflt->is_async()) { dflt.reset(); stat("async_defaults_dropped"); }
        for (auto it = map.begin(); it != map.end();) it = it->second->is_async() ? map.erase(it) : std::next(it);
    };
    auto registered = [&](const std::string& at) {
        std::map<std::string, ll::logger_shr_ptr> got;
        ll::exec_all([&](ll::logger_shr_ptr l) { got[l->name()] = l; });
        auto d = ll::get_default_logger();
        VF_CHECK(d == dflt, "default_logger", "%s: the default logger is %s instead of %s", at.c_str(), d ? esc(d->name()).c_str() : "none", dflt ? esc(dflt->name()).c_str() : "none");
        if (got == map) return;
        std::string a, b;
        for (auto& e : got) a += e.first + (map.count(e.first) && map[e.first] != e.second ? "(another) " : " ");
        for (auto& e : map) b += e.first + " ";
        viol("registered_loggers", sf("%s: registered are %s instead of %s", at.c_str(), esc(a).c_str(), esc(b).c_str()));
    };
    for (int o = 0; o < ops && !too_many(); o++) {
        int w = static_cast<int>(r.below(100));
        std::string at = sf("operation %d", o);
        if (w < 60) {
            spec s = gen(r, dir, r.pick(names));
            at += " " + s.desc();
            std::string before;
            if ((s.what == BASIC_MT || s.what == BASIC_ST) && r.chance(50) && s.file.find("/sub/") == std::string::npos) {
                before = "left over\n";
                write_file(s.file, before);
            }
            size_t rep = reports(read_file(files->err)).size();
            auto old = ll::get_thread_pool();
            std::weak_ptr<ll::base::thread_pool> oldw = old;
            old.reset();
            size_t old_id = reinterpret_cast<size_t>(oldw.lock().get());
            ll::logger_shr_ptr l = make(s);
            check_build(s, l, level, flush, pattern, at);
            if (!l || l->sinks().size() != 1) return;
            if (s.how != SYNC) {
                int k = s.how - 1;
                if (k == kind) {
                    shared++;
                    VF_CHECK(reinterpret_cast<size_t>(ll::get_thread_pool().get()) == old_id && !oldw.expired(), "pool_not_shared", "%s: the pool of the same kind was replaced", at.c_str());
                } else {
                    if (kind < 0) { qs = 8192; ws = 1; } else replaced++;
                    kind = k;
                    drop_async();
                    pool_number = 0;
                    // the old pool ends unless the test holds it
                    bool holding = false;
                    for (auto& p : held) holding |= p.get() == reinterpret_cast<ll::base::thread_pool*>(old_id);
                    if (!holding) VF_CHECK(oldw.expired(), "old_pool_alive", "%s: the replaced pool still exists", at.c_str());
                }
            }
            pool_now(at);
            bool taken = automatic && map.count(s.name);
            auto rp = reports(read_file(files->err));
            if (rp.size() - rep != (taken ? 1u : 0u)) viol("reports", sf("%s: %zu reports although the name was %s", at.c_str(), rp.size() - rep, taken ? "taken" : "free"));
            else if (taken && rp.back().second.find(s.name) == std::string::npos) viol("report_text", sf("%s: '%s'", at.c_str(), esc(rp.back().second).c_str()));
            if (automatic && !taken) map[s.name] = l;
            registered(at);
            made m;
            m.s = s;
            m.l = l;
            m.pre = pre;
            if (s.how != SYNC) { m.pool = ll::get_thread_pool(); m.pool_number = pool_number; if (!held.empty()) stat("created_while_other_pools_live"); }
            m.file_so_far = s.trunc ? "" : before;
            if (s.what == BASIC_MT || s.what == BASIC_ST) {
                std::string c = read_file(s.file);
                VF_CHECK(c == m.file_so_far, "truncation", "%s: the file holds '%s' after opening it %s truncation", at.c_str(), esc(c).c_str(), s.trunc ? "with" : "without");
            }
            all.push_back(m);
            if (level <= 5) probe(all.back(), at);
            stat("loggers_created");
            if (s.how != SYNC) stat("async_loggers_created");
            if (taken) stat("names_taken");
            h = hash_mix(h, hash_str(s.desc()));
        } else if (w < 66) {
            int k = static_cast<int>(r.below(3));
            qs = small_pools ? r.pick(queue_sizes()) : 100 + r.below(1000);
            ws = 1 + r.below(4);
            kind = k;
            pool_number = 0;
            if (r.chance(30)) {
                switch (k) {
                    case 0: ll::initialize_thread_pool<ll::base::lock_thread_pool>(qs, ws); break;
                    case 1: ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(qs, ws); break;
                    default: ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(qs, ws); break;
                }
            } else {
                int number = ++pools_made;
                auto p = make_pool(k, qs, ws, [number] { my_pool = number; });
                if (r.chance(60)) held.push_back(p);
                if (held.size() > 3) held.erase(held.begin());
                ll::register_thread_pool(std::move(p));
                pool_number = number;
            }
            drop_async();
            at += " new pool";
            pool_now(at);
            registered(at);
        } else if (w < 70) {
            ll::register_thread_pool(nullptr);
            pool_number = 0;
            kind = -1;
            drop_async();
            at += " pool removed";
            pool_now(at);
            registered(at);
        } else if (w < 76) {
            automatic = r.chance(60);
            ll::set_auto_register_logger(automatic);
        } else if (w < 82) {
            settings();
            for (auto& e : map) for (auto& m : all) if (m.l == e.second) m.pre = pre;
        } else if (w < 88) {
            std::string n = r.pick(names);
            ll::remove_logger(n);
            map.erase(n);
            if (dflt && dflt->name() == n) dflt.reset();
            registered(at + " removal");
        } else if (w < 92 && !all.empty()) {
            // the sink cannot be built: the exception reaches the caller and nothing is registered
            std::string n = r.pick(names);
            int how = static_cast<int>(r.below(4)), x = static_cast<int>(r.below(3));
            bool threw = false;
            at += sf(" failing sink, %s", how_names[how]);
            try {
                switch (how) {
                    case SYNC: ll::create<throwing_sink>(n, x); break;
                    case A_LOCK: ll::create_async_lock<throwing_sink>(n, x); break;
                    case A_FREE: ll::create_async_lockfree<throwing_sink>(n, x); break;
                    default: ll::create_async_lockfree_concurrent<throwing_sink>(n, x);
                }
            } catch (...) { threw = true; }
            VF_CHECK(threw, "sink_failure", "%s: the exception of the sink's constructor did not reach the caller", at.c_str());
            // whether the pool has been replaced by then is not specified: read it from the registry
            auto p = ll::get_thread_pool();
            if (p) { if (how != SYNC && pool_kind(p) != kind) { kind = pool_kind(p); pool_number = 0; drop_async(); } qs = p->message_queue_size(); ws = p->threads_size(); }
            else if (kind >= 0) viol("pool", at + ": the pool is gone");
            registered(at);
            stat("failing_sinks");
        } else if (w < 94 && !all.empty()) {
            auto& m = all[r.below(all.size())];
            if (m.s.how == SYNC || !m.pool.expired()) {
                // an asynchronous logger of a pool that is gone would leave with the next replacement as well
                ll::set_default_logger(m.l);
                dflt = m.l;
                map[m.s.name] = m.l;
                registered(at + " new default " + m.s.desc());
            }
        } else if (w < 97 && !all.empty()) {
            // drop our references to some loggers
            auto& m = all[r.below(all.size())];
            if (!map.count(m.s.name) || map[m.s.name] != m.l) { m = all.back(); all.pop_back(); }
        } else if (!all.empty()) {
            // loggers made before still work as long as their pool lives
            for (size_t t = 0; t < 3; t++) {
                auto& m = all[r.below(all.size())];
                if (m.l->get_log_level() > lvl::critical) continue;
                if (m.s.how != SYNC && m.pool.expired()) {
                    size_t rep = reports(read_file(files->err)).size();
                    m.l->log(lvl::critical, "x");
                    VF_CHECK(reports(read_file(files->err)).size() > rep, "dead_pool_not_reported", "%s: logging with %s, whose pool is gone, was not reported", at.c_str(), m.s.desc().c_str());
                } else probe(m, at + " later use");
            }
        }
        if (o < 6) hist += at + "; ";
    }
    // every registered logger works, whatever happened since it was made
    for (auto& m : all) if (map.count(m.s.name) && map[m.s.name] == m.l && m.l->get_log_level() <= lvl::critical) probe(m, "at the end");
    stat("pools_replaced", replaced);
    stat("pools_shared", shared);
    casedone(h, all.size() > 1);
    if (i < 3) sample(hist);
    all.clear();
    map.clear();
    dflt.reset();
    ll::close();
    held.clear();
    rm_rf(dir);
}

static size_t base_threads;     // without any pool

// several threads create loggers at the same moment
static void concurrent_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    ll::close();
    files->reset();
    ll::set_auto_register_logger(true);
    ll::set_global_log_level(lvl::trace);
    ll::set_global_flush_level(lvl::off);
    int pre = static_cast<int>(r.below(1000));
    ll::set_global_pattern(pattern_of(pre));
    int nt = r.range(2, 6), per = r.range(1, 5);
    bool one_kind = r.chance(50), logging = r.chance(70);
    int fixed = static_cast<int>(r.below(3));
    int start = r.chance(50) ? -1 : static_cast<int>(r.below(3));
    size_t sq = 8192, sw = 1;
    if (start >= 0) {
        sq = 50 + r.below(500);
        sw = 1 + r.below(3);
        ll::register_thread_pool(make_pool(start, sq, sw));
    }
    int shared_names = r.chance(50) ? r.range(1, 3) : 0;
    unsigned lv = static_cast<unsigned>(r.below(4));
    label(sf("concurrent case %llu: %d threads, %d each, %s, start %d, noise %u", (unsigned long long)i, nt, per, one_kind ? kind_name(fixed) : "mixed kinds", start, lv));
    struct mk { spec s; ll::logger_shr_ptr l; bool gone = false; };
    std::vector<std::vector<mk>> made_by(static_cast<size_t>(nt));
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    noise(cs, lv);
    for (int t = 0; t < nt; t++) ts.emplace_back([&, t] {
        rng q(hash_mix(cs, static_cast<uint64_t>(t) + 100));
        ready++;
        while (ready < nt) {}
        for (int k = 0; k < per; k++) {
            spec s;
            s.what = q.chance(70) ? PROBE : NULL_MT;
            s.how = one_kind ? (q.chance(85) ? fixed + 1 : SYNC) : static_cast<int>(q.below(4));
            s.api = static_cast<int>(q.below(2));
            s.name = shared_names && q.chance(40) ? sf("s%llu", (unsigned long long)q.below(static_cast<uint64_t>(shared_names))) : sf("t%d_%d", t, k);
            s.a = t * 1000 + k;
            s.b = sf("b%d.%d", t, k);
            s.rv = q.chance(50);
            mk m;
            m.s = s;
            m.l = make(s);
            if (m.l && logging) m.l->log(lvl::info, sf("early %d %d", t, k));
            made_by[static_cast<size_t>(t)].push_back(m);
            tick();
        }
    });
    for (auto& t : ts) t.join();
    noise_off();
    std::map<std::string, ll::logger_shr_ptr> got;
    ll::exec_all([&](ll::logger_shr_ptr l) { got[l->name()] = l; });
    auto pool = ll::get_thread_pool();
    bool any_async = false;
    size_t n = 0, working = 0;
    std::map<std::string, int> owners;
    for (auto& v : made_by) for (auto& m : v) { any_async |= m.s.how != SYNC; n++; }
    if (any_async && !pool) { viol("pool", "asynchronous loggers were created and there is no pool"); return; }
    if (pool && start < 0 && any_async) VF_CHECK(pool->message_queue_size() == 8192 && pool->threads_size() == 1, "pool_size", "default pool: %zu, %zu", pool->message_queue_size(), pool->threads_size());
    if (pool && start >= 0) VF_CHECK(pool->message_queue_size() == sq && pool->threads_size() == sw, "pool_size", "the pool has %zu and %zu instead of %zu and %zu", pool->message_queue_size(), pool->threads_size(), sq, sw);
    if (one_kind && any_async) VF_CHECK(pool_kind(pool) == fixed, "pool_kind", "the pool is of kind %d, all loggers asked for %d", pool_kind(pool), fixed);
    // exactly one pool is alive: its workers, the main thread, the watchdog (and a sanitizer's own thread).
    // joined threads leave /proc/self/task at their own pace
    size_t workers = pool ? pool->threads_size() : 0;
    bool one_pool = wait_for([&] { return thread_count() == base_threads + workers; }, 10000000);
    VF_CHECK(one_pool, "pools_alive", "%zu threads with the pool of %zu workers, %zu without any", thread_count(), workers, base_threads);
    std::map<std::string, size_t> claims;
    uint64_t h = cs;
    for (auto& v : made_by) for (auto& m : v) {
        check_build(m.s, m.l, 0, 6, pattern_of(pre), "concurrent creation");
        if (!m.l || m.l->sinks().size() != 1) return;
        bool reg = got.count(m.s.name) && got[m.s.name] == m.l;
        if (reg) claims[m.s.name]++;
        h = hash_mix(h, reg);
        if (m.s.how == SYNC) {
            // a synchronous logger stays; its name can only have been taken by another creation
            if (!reg && m.s.name[0] == 't') viol("sync_logger_left", sf("synchronous logger %s is not registered", m.s.desc().c_str()));
        } else if (one_kind && m.s.name[0] == 't' && !reg) viol("async_logger_left", sf("asynchronous logger %s is not registered although its pool was never replaced", m.s.desc().c_str()));
        // registered: works on the present pool. of one kind: every returned one works
        bool must = m.s.how == SYNC || reg || one_kind;
        if (reg && m.s.how != SYNC) VF_CHECK(m.s.how - 1 == pool_kind(pool), "registered_on_old_pool", "%s is registered, the pool is of kind %d", m.s.desc().c_str(), pool_kind(pool));
        if (must) {
            made x;
            x.s = m.s;
            x.l = m.l;
            x.pre = pre;
            probe(x, "after concurrent creation");
            working++;
        }
        auto ps = std::dynamic_pointer_cast<probe_sink>(m.l->sinks()[0]);
        if (ps && must && logging && (one_kind || m.s.how == SYNC)) {
            std::string e = "early ";
            bool ok = settle([&] { for (auto& x : ps->logs()) if (x.text.compare(0, 6, e) == 0) return true; return false; }, 15);
            VF_CHECK(ok, "record_missing", "%s: what was logged right after the creation is missing", m.s.desc().c_str());
        }
    }
    for (auto& e : got) VF_CHECK(claims[e.first] == 1, "registered_loggers", "registered '%s' was returned by %zu creations", esc(e.first).c_str(), claims[e.first]);
    pool.reset();
    made_by.clear();
    got.clear();
    ll::close();
    bool none = wait_for([&] { return thread_count() == base_threads; }, 10000000);
    VF_CHECK(none, "threads_left", "%zu threads after close() instead of %zu", thread_count(), base_threads);
    stat("concurrent_creations", n);
    stat("concurrent_followed", working);
    stat(one_kind ? "concurrent_one_kind" : "concurrent_mixed");
    casedone(h, nt > 1);
}

void vf_main() {
    files = new std_files;
    setenv("TZ", "UTC", 1);
    base_threads = thread_count();
    long n = arg("cases", 1000);
    budget b;
    for (long i = 0; i < n && b.left() && !too_many(); i++) {
        if (i % 3 == 2) concurrent_case(static_cast<uint64_t>(i));
        else one_case(static_cast<uint64_t>(i), i % 2 == 0);
    }
    ll::close();
}
