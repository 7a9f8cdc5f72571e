// C09: a file sink leaves exactly its records in the file.
#include "async.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/formatters/pattern_formatter.h"

#include <dlfcn.h>
#include <spawn.h>
extern char** environ;

using namespace vf;

// a thread that starts a program at the moment a file was opened
static std::atomic<bool> g_race{false};
static std::atomic<uint64_t> g_raced{0};
static std::string g_seen;
static std::mutex g_seen_m;
static void start_program() {
    int p[2];
    if (pipe2(p, O_CLOEXEC) != 0) abort();
    posix_spawn_file_actions_t a;
    posix_spawn_file_actions_init(&a);
    posix_spawn_file_actions_adddup2(&a, p[1], 1);
    char* argv[] = {const_cast<char*>("ls"), const_cast<char*>("-l"), const_cast<char*>("/proc/self/fd"), nullptr};
    pid_t pid;
    if (posix_spawn(&pid, "/bin/ls", &a, nullptr, argv, environ) != 0) abort();
    posix_spawn_file_actions_destroy(&a);
    ::close(p[1]);
    std::string out;
    char b[4096];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) out.append(b, static_cast<size_t>(k));
    ::close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    g_raced++;
    std::lock_guard<std::mutex> g(g_seen_m);
    if (out.find("/f.log") != std::string::npos || out.find("/f_") != std::string::npos) g_seen = out;
}
static thread_local bool t_in = false;
static void opened_now(const char* path) {
    if (t_in || !g_race.load() || !path || strncmp(path, S().tmp.c_str(), S().tmp.size()) != 0) return;
    t_in = true;
    int e = errno;
    start_program();
    errno = e;
    t_in = false;
}
template <typename T> static T next(const char* n) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, n)); }
extern "C" {
int open(const char* path, int flags, ...) {
    static auto r = next<int (*)(const char*, int, ...)>("open");
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    int fd = r(path, flags, m);
    opened_now(path);
    return fd;
}
int open64(const char* path, int flags, ...) {
    static auto r = next<int (*)(const char*, int, ...)>("open64");
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    int fd = r(path, flags, m);
    opened_now(path);
    return fd;
}
int openat(int d, const char* path, int flags, ...) {
    static auto r = next<int (*)(int, const char*, int, ...)>("openat");
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    int fd = r(d, path, flags, m);
    opened_now(path);
    return fd;
}
FILE* fopen(const char* path, const char* mode) {
    static auto r = next<FILE* (*)(const char*, const char*)>("fopen");
    FILE* f = r(path, mode);
    opened_now(path);
    return f;
}
FILE* fdopen(int fd, const char* mode) {
    static auto r = next<FILE* (*)(int, const char*)>("fdopen");
    FILE* f = r(fd, mode);
    opened_now(S().tmp.c_str());
    return f;
}
}

static void tree(const std::string& d, std::set<std::string>& out) {
    for (auto& n : ls(d)) {
        struct stat st;
        std::string p = d + "/" + n;
        bool dir = lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
        out.insert(p + (dir ? "/" : ""));
        if (dir) tree(p, out);
    }
}
static std::set<std::string> tree(const std::string& d) { std::set<std::string> s; tree(d, s); return s; }
static std::set<int> fds() {
    std::set<int> r;
    for (auto& n : ls("/proc/self/fd")) {
        int fd = atoi(n.c_str());
        if (fcntl(fd, F_GETFD) != -1) r.insert(fd);
    }
    return r;
}
static std::string diff_at(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return sf("%zu bytes instead of %zu, first difference at byte %zu: '%s' instead of '%s'", a.size(), b.size(), i,
              esc(a.substr(i, 40)).c_str(), esc(b.substr(i, 40)).c_str());
}

struct handle {
    std::shared_ptr<ll::sinks::sink> sk;
    std::shared_ptr<ll::logger> lg;
    ll::thread_pool_shr_ptr tp;
    int file = 0;
};

// several files, several sinks on each, every operation followed by a comparison
static void one_case(uint64_t i) {
    uint64_t cs = caseseed(i);
    rng r(cs);
    std::string root = S().tmp + "/c09";
    rm_rf(root);
    ::mkdir(root.c_str(), 0755);
    std::string cwd = root;
    if (r.chance(50)) { cwd = root + "/cwd"; ::mkdir(cwd.c_str(), 0755); }
    if (chdir(cwd.c_str()) != 0) abort();
    static const char* forms[] = {"plain.log", "noext", "a/b/c.log", "deep/er/and/deeper/still/f.txt", "sp ace/na me.log", ".dot/.file",
                                  "./x/y.log", "x//y///z.log", "\xe6\x97\xa5\xe5\xbf\x97/\xe6\x96\x87.log", "p.d/q.e.f", "up/../up2/f.log", "../beside.log", "../o/p.log"};
    int nfiles = r.range(1, 3);
    std::vector<std::string> given, real;
    std::vector<std::string> model;
    std::vector<bool> present;
    std::set<std::string> expect_tree = tree(root);
    std::string what;
    for (int f = 0; f < nfiles; f++) {
        std::string form = forms[r.below(sizeof forms / sizeof forms[0])];
        if (cwd == root && form.compare(0, 3, "../") == 0) form = "k/" + form.substr(3);
        bool absolute = r.chance(50);
        std::string g = absolute ? cwd + "/" + form : form;
        if (form.find("up/..") == 0) ::mkdir((cwd + "/up").c_str(), 0755);
        what += (f ? ", " : "") + std::string(absolute ? "/.../" : "") + form;
        given.push_back(g);
        // canonical place
        std::vector<std::string> parts;
        std::istringstream is(cwd + "/" + form);
        for (std::string p; std::getline(is, p, '/');) {
            if (p.empty() || p == ".") continue;
            if (p == "..") parts.pop_back(); else parts.push_back(p);
        }
        std::string path;
        for (auto& p : parts) path += "/" + p;
        real.push_back(path);
        model.push_back("");
        present.push_back(false);
    }
    expect_tree = tree(root);
    // the same file twice is fine: map to the first
    std::vector<int> canon;
    for (int f = 0; f < nfiles; f++) { int c = f; for (int g = 0; g < f; g++) if (real[static_cast<size_t>(g)] == real[static_cast<size_t>(f)]) { c = g; break; } canon.push_back(c); }
    auto add_parents = [&](const std::string& p) {
        for (size_t at = p.find('/', root.size() + 1); at != std::string::npos; at = p.find('/', at + 1)) expect_tree.insert(p.substr(0, at) + "/");
    };
    for (int f = 0; f < nfiles; f++) {
        if (canon[static_cast<size_t>(f)] != f || !r.chance(50)) continue;
        std::string d = real[static_cast<size_t>(f)].substr(0, real[static_cast<size_t>(f)].rfind('/'));
        for (size_t at = d.find('/', root.size() + 1);; at = d.find('/', at + 1)) { ::mkdir(d.substr(0, at).c_str(), 0755); if (at == std::string::npos) break; }
        std::string c;
        size_t n = r.below(3) == 0 ? 0 : r.below(6000);
        for (size_t k = 0; k < n; k++) c += static_cast<char>(r.below(256));
        write_file(real[static_cast<size_t>(f)], c);
        model[static_cast<size_t>(f)] = c;
        present[static_cast<size_t>(f)] = true;
        add_parents(real[static_cast<size_t>(f)]);
        expect_tree.insert(real[static_cast<size_t>(f)]);
    }
    int nops = r.range(3, 40);
    label(sf("case %llu: files %s, %d operations", (unsigned long long)i, esc(what).c_str(), nops));
    auto fd0 = fds();
    std::vector<handle> hs;
    uint64_t sig = 1;
    size_t opened = 0;
    bool bad = false;
    auto settle_all = [&] { for (auto& h : hs) h.lg->flush(); };
    auto compare_all = [&](const char* when) {
        for (int f = 0; f < nfiles; f++) {
            size_t u = static_cast<size_t>(f);
            if (canon[u] != f) continue;
            if (!present[u]) continue;
            std::string have = read_file(real[u]);
            if (have != model[u]) { viol("content", sf("%s, file '%s': %s", when, esc(given[u]).c_str(), diff_at(have, model[u]).c_str())); bad = true; }
        }
        auto t = tree(root);
        if (t != expect_tree) {
            std::string d;
            for (auto& x : t) if (!expect_tree.count(x)) d += " unexpected " + x.substr(root.size());
            for (auto& x : expect_tree) if (!t.count(x)) d += " missing " + x.substr(root.size());
            viol("tree", sf("%s, opening '%s':%s", when, esc(what).c_str(), esc(d).c_str()));
            bad = true;
        }
        stat("comparisons");
    };
    for (int op = 0; op < nops && !bad; op++) {
        int k = r.range(0, 99);
        if (hs.empty() || (k < 20 && hs.size() < 6)) {
            settle_all();
            handle h;
            h.file = r.range(0, nfiles - 1);
            size_t u = static_cast<size_t>(canon[static_cast<size_t>(h.file)]);
            bool trunc = r.chance(35);
            auto before = fds();
            auto old_tree = expect_tree;
            bool mt = r.chance(50);
            static const mode_t masks[] = {022, 022, 0, 077, 027, 002};
            mode_t mask = masks[r.below(6)], old_mask = umask(mask);
            try {
                if (mt) h.sk = std::make_shared<ll::sinks::basic_file_sink_mt>(given[static_cast<size_t>(h.file)], trunc);
                else h.sk = std::make_shared<ll::sinks::basic_file_sink_st>(given[static_cast<size_t>(h.file)], trunc);
            } catch (const std::exception& e) {
                viol("open", sf("opening '%s' failed: %s", esc(given[static_cast<size_t>(h.file)]).c_str(), e.what()));
                umask(old_mask);
                return;
            }
            if (trunc || !present[u]) model[u].clear();
            present[u] = true;
            add_parents(real[u]);
            expect_tree.insert(real[u]);
            umask(old_mask);
            for (auto& x : expect_tree) {
                struct stat st;
                if (old_tree.count(x) || lstat(x.c_str(), &st) != 0) continue;
                mode_t want = (S_ISDIR(st.st_mode) ? 0755 : 0644) & ~mask;
                if ((st.st_mode & 07777) != want) viol("mode", sf("opening '%s' with umask %03o made '%s' with mode %04o instead of %04o", esc(what).c_str(), mask, esc(x.substr(root.size())).c_str(), st.st_mode & 07777, want));
                stat("modes_checked");
            }
            auto after = fds();
            int fresh = 0;
            for (int fd : after) if (!before.count(fd)) {
                fresh++;
                VF_CHECK(fcntl(fd, F_GETFD) & FD_CLOEXEC, "cloexec", "descriptor %d of '%s' is inherited across exec", fd, esc(what).c_str());
            }
            VF_CHECK(fresh == 1, "descriptors", "opening '%s' left %d new descriptors", esc(what).c_str(), fresh);
            opened++;
            if (r.chance(25)) {
                h.tp = make_pool(r.range(0, 2), r.pick(queue_sizes()), 1);
                h.lg = std::make_shared<ll::async_logger>("c09", h.sk, h.tp);
            } else h.lg = std::make_shared<ll::logger>("c09", h.sk);
            h.sk->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%v", r.chance(60) ? "\n" : r.chance(50) ? "\r\n" : ""));
            hs.push_back(std::move(h));
            sig = hash_mix(sig, 1 + trunc);
            compare_all(trunc ? "after opening with truncation" : "after opening");
        } else if (k < 75) {
            handle& h = hs[r.below(hs.size())];
            size_t u = static_cast<size_t>(canon[static_cast<size_t>(h.file)]);
            std::string eol = r.chance(60) ? "\n" : r.chance(50) ? "\r\n" : "";
            h.sk->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%v", eol));
            int n = r.range(1, 5);
            bool alone = true;
            for (auto& o : hs) if (&o != &h && canon[static_cast<size_t>(o.file)] == static_cast<int>(u)) alone = false;
            for (int x = 0; x < n; x++) {
                size_t len = r.chance(70) ? r.below(200) : r.chance(80) ? r.below(10000) : 4000 + r.below(200);
                if (r.chance(1)) len = 300000;
                std::string t;
                for (size_t c = 0; c < len; c++) t += static_cast<char>(r.below(256));
                h.lg->log(ll::level::info, ll::fmt_string_view(t.data(), t.size()));
                model[u] += t + eol;
                sig = hash_mix(sig, len);
            }
            stat("records", static_cast<uint64_t>(n));
            if (h.tp) h.lg->flush();           // the formatter is replaced with the next operation
            if (!alone || r.chance(40)) { h.lg->flush(); settle_all(); compare_all("after a flush"); }
        } else if (k < 90) {
            size_t x = r.below(hs.size());
            bool flush_first = r.chance(30);
            settle_all();
            if (flush_first) hs[x].lg->flush();
            else {
                handle& h = hs[x];
                size_t u = static_cast<size_t>(canon[static_cast<size_t>(h.file)]);
                std::string t(r.below(3000), 'L');
                h.sk->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%v", "\n"));
                h.lg->log(ll::level::info, ll::fmt_string_view(t.data(), t.size()));
                model[u] += t + "\n";
            }
            hs[x].tp.reset();
            hs.erase(hs.begin() + static_cast<long>(x));
            compare_all("after a sink ended");
            sig = hash_mix(sig, 99);
        } else {
            // somebody else appends to, or cuts, the file (as log rotation with copytruncate does)
            int f = canon[r.below(static_cast<size_t>(nfiles))];
            size_t u = static_cast<size_t>(f);
            if (!present[u]) continue;
            settle_all();
            if (r.chance(50)) {
                int fd = ::open(real[u].c_str(), O_WRONLY | O_APPEND);
                std::string t = "external " + std::to_string(op) + "\n";
                if (::write(fd, t.data(), t.size()) < 0) abort();
                ::close(fd);
                model[u] += t;
            } else {
                if (truncate(real[u].c_str(), 0) != 0) abort();
                model[u].clear();
            }
            stat("external_changes");
            compare_all("after a change from outside");
        }
        tick();
    }
    while (!hs.empty()) {
        size_t x = r.below(hs.size());
        settle_all();
        hs[x].tp.reset();
        hs.erase(hs.begin() + static_cast<long>(x));
    }
    if (!bad) compare_all("at the end");
    auto fd1 = fds();
    if (fd0 != fd1) viol("descriptors", sf("%zu descriptors instead of %zu after all sinks ended", fd1.size(), fd0.size()));
    stat("sinks_opened", opened);
    casedone(hash_mix(sig, hash_str(what)), opened > 0);
    if (i < 3) sample(S().label);
}

// sinks of concurrent threads append to one file; each uses bytes of its own
static void alphabet_case(uint64_t i) {
    uint64_t cs = caseseed(i + 7000000);
    rng r(cs);
    std::string root = S().tmp + "/c09a";
    rm_rf(root);
    std::string path = root + "/shared.log";
    int n = r.range(2, 6);
    label(sf("alphabet case %llu: %d sinks in threads of their own on one file", (unsigned long long)i, n));
    std::string initial(r.below(500), '~');
    ::mkdir(root.c_str(), 0755);
    if (r.chance(70)) write_file(path, initial); else initial.clear();
    std::vector<std::string> want(static_cast<size_t>(n));
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    noise(cs, static_cast<unsigned>(r.range(0, 2)));
    for (int p = 0; p < n; p++) ts.emplace_back([&, p] {
        rng rr(hash_mix(cs, static_cast<uint64_t>(p)));
        go++;
        while (go < n) {}
        int rounds = rr.range(1, 3);
        for (int q = 0; q < rounds; q++) {
            auto sk = std::make_shared<ll::sinks::basic_file_sink_mt>(path, false);
            sk->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%v", ""));
            ll::logger lg("a", sk);
            int m = rr.range(1, 40);
            for (int x = 0; x < m; x++) {
                std::string t;
                size_t len = rr.chance(70) ? rr.below(100) : rr.below(9000);
                for (size_t c = 0; c < len; c++) t += static_cast<char>(1 + p * 16 + static_cast<int>(rr.below(16)));
                lg.log(ll::level::info, ll::fmt_string_view(t.data(), t.size()));
                want[static_cast<size_t>(p)] += t;
                if (rr.chance(20)) lg.flush();
            }
            tick();
        }
    });
    for (auto& t : ts) t.join();
    noise_off();
    std::string have = read_file(path);
    VF_CHECK(have.compare(0, initial.size(), initial) == 0, "previous_content", "the previous content is not at the beginning any more");
    std::vector<std::string> got(static_cast<size_t>(n));
    for (size_t k = initial.size(); k < have.size(); k++) {
        int p = (static_cast<unsigned char>(have[k]) - 1) / 16;
        if (have[k] == 0 || p >= n) { viol("foreign_bytes", sf("byte %zu of the shared file is of no sink: %d", k, have[k])); return; }
        got[static_cast<size_t>(p)] += have[k];
    }
    for (int p = 0; p < n; p++)
        if (got[static_cast<size_t>(p)] != want[static_cast<size_t>(p)])
            viol("shared_file", sf("the bytes of sink %d in the shared file: %s", p, diff_at(got[static_cast<size_t>(p)], want[static_cast<size_t>(p)]).c_str()));
    stat("shared_files");
    casedone(hash_str(have), true);
}

// what a program started with exec still has open
static void exec_case(uint64_t i) {
    rng r(caseseed(i + 9000000));
    std::string root = S().tmp + "/c09e";
    rm_rf(root);
    label(sf("exec case %llu", (unsigned long long)i));
    std::vector<std::shared_ptr<ll::sinks::sink>> v;
    int n = r.range(1, 3);
    g_race = r.chance(60);
    for (int k = 0; k < n; k++) {
        if (r.chance(60)) v.push_back(std::make_shared<ll::sinks::basic_file_sink_mt>(root + sf("/d%d/f.log", k), r.chance(50)));
        else {
            auto s = std::make_shared<ll::sinks::rolling_file_sink_mt>(root + sf("/d%d/f.log", k), 20, 5);
            ll::logger lg("e", s);
            for (int x = r.range(0, 4); x > 0; x--) lg.info("0123456789012345");
            v.push_back(s);
        }
    }
    if (g_race) {
        g_race = false;
        std::lock_guard<std::mutex> g(g_seen_m);
        VF_CHECK(g_seen.empty(), "cloexec", "a program executed while a file is being opened has it open: %s", esc(g_seen).c_str());
        stat("programs_executed_during_open", g_raced.exchange(0));
    }
    int p[2];
    if (pipe(p) != 0) abort();
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 1);
        execl("/bin/ls", "ls", "-l", "/proc/self/fd", static_cast<char*>(nullptr));
        _exit(9);
    }
    ::close(p[1]);
    std::string out;
    char b[4096];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) out.append(b, static_cast<size_t>(k));
    ::close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    VF_CHECK(out.find("/f.log") == std::string::npos && out.find("/f_") == std::string::npos, "cloexec", "an executed program has a log file open: %s", esc(out).c_str());
    stat("executed_programs");
    casedone(hash_mix(i, out.size()), true);
    tick();
}

void vf_main() {
    budget b;
    for (uint64_t i = 0; i < static_cast<uint64_t>(arg("cases", 100)) && b.left() && !too_many(); i++) {
        one_case(i);
        if (i % 6 == 5) alphabet_case(i / 6);
        if (i % 20 == 3) exec_case(i / 20);
    }
    if (chdir("/") != 0) abort();
}
