// Common parts of the monitors: random numbers, verdict protocol, watchdog, recording sinks.
// Everything here uses only the public interface of learnlog.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" void vf_noise_begin(uint64_t seed, unsigned level) __attribute__((weak));
extern "C" void vf_noise_end() __attribute__((weak));
extern "C" uint64_t vf_noise_edges() __attribute__((weak));
extern "C" uint64_t vf_noise_events() __attribute__((weak));

namespace vf {

// ---- random numbers: every choice of a workload derives from VERIF_SEED and the case number
struct rng {
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int pct) { return static_cast<int>(below(100)) < pct; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
inline uint64_t hash_mix(uint64_t a, uint64_t b) { return hash_bytes(&b, 8, a ^ 0x51ed270b); }

// ---- protocol towards the driver: one line per fact, written with write(2) to VF_OUT
struct state {
    int fd = -1;
    std::mutex m;
    std::map<std::string, uint64_t> stats;
    std::map<std::string, uint64_t> maxs;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::atomic<uint64_t> violations{0};
    std::map<std::string, int> per_key;
    std::map<std::string, std::string> args;
    std::string mode, label = "start";
    uint64_t seed = 1;
    bool thorough = false;
    std::atomic<uint64_t> progress{0};
    std::atomic<bool> done{false};
    std::string tmp;
    int stderr_save = -1;
};
inline state& S() { static state* s = new state; return *s; }

inline std::string sf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sf(const char* f, ...) {
    va_list a, b;
    va_start(a, f);
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, f, a);
    va_end(a);
    std::string r(static_cast<size_t>(n) + 1, '\0');
    vsnprintf(&r[0], r.size(), f, b);
    va_end(b);
    r.resize(static_cast<size_t>(n));
    return r;
}
inline std::string esc(const std::string& s, size_t max = 400) {
    std::string r;
    for (size_t i = 0; i < s.size() && r.size() < max; i++) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\\') r += "\\\\";
        else if (c >= 0x20 && c < 0x7f) r += static_cast<char>(c);
        else r += sf("\\x%02x", c);
    }
    if (r.size() >= max) r += "...";
    return r;
}
inline void emit(const std::string& line) {
    std::string l = line + "\n";
    ssize_t r = ::write(S().fd < 0 ? 1 : S().fd, l.data(), l.size());
    (void)r;
}
inline void label(const std::string& l) {
    std::lock_guard<std::mutex> g(S().m);
    S().label = l;
    S().progress++;
}
// report a violation: key names what is wrong (stable), detail is the witness
inline void viol(const std::string& key, const std::string& detail) {
    std::string lab;
    {
        std::lock_guard<std::mutex> g(S().m);
        S().violations++;
        if (++S().per_key[key] > 3) return;
        lab = S().label;
    }
    emit("VIOL\t" + key + "\t" + esc(lab) + "\t" + esc(detail, 1500));
}
#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::viol(key, vf::sf(__VA_ARGS__)); } while (0)
inline void stat(const std::string& k, uint64_t n = 1) {
    std::lock_guard<std::mutex> g(S().m);
    S().stats[k] += n;
}
inline void stat_max(const std::string& k, uint64_t n) {
    std::lock_guard<std::mutex> g(S().m);
    auto& v = S().maxs[k];
    if (n > v) v = n;
}
// one evaluated case; h identifies it; nontrivial by the rule the driver states
inline void casedone(uint64_t h, bool nontrivial = true) {
    std::lock_guard<std::mutex> g(S().m);
    S().stats["evaluations"]++;
    if (nontrivial) S().distinct.insert(h);
    S().progress++;
}
inline void sample(const std::string& s) {
    std::lock_guard<std::mutex> g(S().m);
    if (S().samples.size() < 6) S().samples.push_back(s);
}
inline void tick() { S().progress++; }
inline bool too_many() { return S().violations.load() > 40; }

inline long arg(const std::string& k, long d) {
    auto it = S().args.find(k);
    return it == S().args.end() ? d : strtol(it->second.c_str(), nullptr, 10);
}
inline std::string sarg(const std::string& k, const std::string& d) {
    auto it = S().args.find(k);
    return it == S().args.end() ? d : it->second;
}

inline void flush_results() {
    for (auto& p : S().stats) emit("STAT\t" + p.first + "\t" + std::to_string(p.second));
    for (auto& p : S().maxs) emit("MAX\t" + p.first + "\t" + std::to_string(p.second));
    if (vf_noise_edges) emit("MAX\tcovered_basic_blocks\t" + std::to_string(vf_noise_edges()));
    if (vf_noise_events) emit("STAT\tinjected_delays\t" + std::to_string(vf_noise_events()));
    for (auto& s : S().samples) emit("SAMPLE\t" + esc(s, 600));
    std::string ds;
    for (uint64_t h : S().distinct) {
        ds += sf("%llx ", static_cast<unsigned long long>(h));
        if (ds.size() > 60000) { emit("DIST\t" + ds); ds.clear(); }
    }
    if (!ds.empty()) emit("DIST\t" + ds);
}

// ---- watchdog: no progress for a generous while ends the run as a hang (the driver runs it again)
inline void start_watchdog(unsigned limit_s) {
    std::thread([limit_s] {
        uint64_t last = S().progress.load();
        unsigned idle = 0;
        for (;;) {
            struct timespec ts { 0, 250000000 };
            syscall(SYS_nanosleep, &ts, nullptr);
            if (S().done.load()) return;
            uint64_t p = S().progress.load();
            if (p != last) { last = p; idle = 0; continue; }
            if (++idle >= limit_s * 4) {
                std::string lab = S().label;   // racy read is fine: everything else is stuck
                emit("HANG\t" + esc(lab));
                _exit(97);
            }
        }
    }).detach();
}

inline int64_t now_ns() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<int64_t>(ts.tv_sec) * 1000000000ll + ts.tv_nsec;
}
inline void sleep_us(long us) {
    struct timespec ts { us / 1000000, (us % 1000000) * 1000 };
    while (nanosleep(&ts, &ts) == -1 && errno == EINTR) {}
}

// ---- files
inline std::string read_file(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
inline bool exists(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
inline void write_file(const std::string& p, const std::string& c) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << c;
}
inline std::vector<std::string> ls(const std::string& dir) {
    std::vector<std::string> r;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..") r.push_back(n);
        }
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}
inline void rm_rf(const std::string& p) {
    // only below this run's scratch directory
    if (S().tmp.empty() || p.compare(0, S().tmp.size(), S().tmp) != 0 || p.find("/../") != std::string::npos) abort();
    struct stat st;
    if (::lstat(p.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        for (auto& n : ls(p)) rm_rf(p + "/" + n);
        ::rmdir(p.c_str());
    } else ::unlink(p.c_str());
}
inline size_t fd_count() { return ls("/proc/self/fd").size(); }
inline size_t thread_count() { return ls("/proc/self/task").size(); }

// ---- capture of fd 2 into a file, for the library's error reports
struct stderr_capture {
    int saved = -1;
    std::string path;
    stderr_capture() {
        fflush(stderr);
        static std::atomic<int> n{0};
        path = S().tmp + "/stderr." + std::to_string(n++);
        saved = fcntl(2, F_DUPFD_CLOEXEC, 100);
        int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0600);
        dup2(fd, 2);
        ::close(fd);
    }
    std::string text() { fflush(stderr); return read_file(path); }
    ~stderr_capture() {
        fflush(stderr);
        dup2(saved, 2);
        ::close(saved);
        ::unlink(path.c_str());
    }
};
// "[*** EXCEPTION #0001 ***] [time] msg" lines
inline std::vector<std::pair<unsigned long, std::string>> reports(const std::string& text) {
    std::vector<std::pair<unsigned long, std::string>> r;
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        const char* pre = "[*** EXCEPTION #";
        if (line.compare(0, strlen(pre), pre) == 0) {
            unsigned long n = strtoul(line.c_str() + strlen(pre), nullptr, 10);
            size_t p = line.find("] ", strlen(pre));
            p = p == std::string::npos ? p : line.find("] ", p + 2);
            r.emplace_back(n, p == std::string::npos ? line : line.substr(p + 2));
        } else if (!r.empty()) r.back().second += "\n" + line;
    }
    return r;
}

inline uint64_t caseseed(uint64_t i) { return hash_mix(S().seed * 1000003 + 17, i); }

// level: grades 0 to 3, or directly the number of perturbed basic blocks in 65536
inline void noise(uint64_t seed, unsigned level) {
    static const unsigned grade[4] = {0, 30, 200, 1000};
    if (vf_noise_begin) vf_noise_begin(seed, level < 4 ? grade[level] : level);
}
inline void noise_off() { if (vf_noise_end) vf_noise_end(); }

// spin until f() or the watchdog; returns at once when f holds
template <typename F> void wait_until(F f) { while (!f()) sleep_us(50); }
// true when f() held within us microseconds (used only where the answer is not a verdict by itself,
// or where the wait is a bound on something that must not happen)
template <typename F> bool wait_for(F f, long us) {
    int64_t end = now_ns() + us * 1000ll;
    while (!f()) { if (now_ns() > end) return f(); sleep_us(50); }
    return true;
}

// until f() holds, or nothing at all has happened for a long while (then the caller's verdict follows)
template <typename F> bool settle(F f, int idle_s = 15) {
    uint64_t last = S().progress.load();
    int64_t since = now_ns();
    for (;;) {
        if (f()) return true;
        uint64_t p = S().progress.load();
        if (p != last) { last = p; since = now_ns(); }
        else if (now_ns() - since > idle_s * 1000000000ll) return f();
        sleep_us(100);
    }
}

struct budget {
    int64_t end;
    explicit budget(const char* name = "budget", long dflt = 20) : end(now_ns() + arg(name, dflt) * 1000000000ll) {}
    bool left() const { return now_ns() < end; }
};

}  // namespace vf

void vf_main();   // each harness defines this

#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
    auto& s = vf::S();
    const char* out = getenv("VF_OUT");
    if (out) s.fd = ::open(out, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    const char* seed = getenv("VERIF_SEED");
    s.seed = seed ? strtoull(seed, nullptr, 10) : 1;
    const char* tier = getenv("VERIF_TIER");
    s.thorough = tier && !strcmp(tier, "thorough");
    const char* tmp = getenv("VF_TMP");
    s.tmp = tmp ? tmp : "/tmp/vf_scratch";
    ::mkdir(s.tmp.c_str(), 0755);
    s.mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        size_t p = a.find('=');
        if (p != std::string::npos) s.args[a.substr(0, p)] = a.substr(p + 1);
    }
    vf::start_watchdog(static_cast<unsigned>(vf::arg("watchdog", 40)));
    vf_main();
    vf::noise_off();
    s.done = true;
    vf::flush_results();
    vf::emit("END");
    return 0;
}
#endif
