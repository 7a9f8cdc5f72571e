// libc calls replaced in this executable, so that the k-th call on files below a directory can be made to fail.
#pragma once
#include "vf.h"
#include <dlfcn.h>

namespace fault {
enum fn { F_OPEN, F_FDOPEN, F_WRITE, F_FLUSH, F_CLOSE, F_SIZE, F_MKDIR, F_N };
inline const char* fn_name(int f) {
    static const char* n[] = {"open", "fdopen", "write", "flush", "close", "size", "mkdir"};
    return n[f];
}
struct plan {
    std::mutex m;
    std::string root;                 // only files below this directory
    bool armed = false;
    int f = -1;                       // function to fail, -1 none
    long from = 0, count = 0;         // which of its calls
    int err = 5;
    int f2 = -1;                      // a second fault
    long from2 = 0, count2 = 0;
    long retried = 0;                 // faults in calls that are tried again
    int variant = 0;                  // write: 0 nothing written, 1 half; flush: 0 not flushed, 1 flushed and failed
    long calls[F_N] = {};
    long hits = 0, hidden = 0;        // faults injected; of these, on the handle that only truncates
    std::map<FILE*, int> files;       // stream -> 1 truncating handle, 2 appending
    std::map<int, bool> fds;
};
inline plan& P() { static plan* p = new plan; return *p; }
// whether this call fails
inline bool hit(int f, bool hidden = false) {
    plan& p = P();
    long n = p.calls[f]++;
    if ((p.f == f && n >= p.from && n < p.from + p.count) || (p.f2 == f && n >= p.from2 && n < p.from2 + p.count2)) {
        p.hits++;
        if (hidden) p.hidden++;
        if (f == F_OPEN || f == F_FDOPEN || f == F_MKDIR) p.retried++;
        return true;
    }
    return false;
}
inline void reset() {
    plan& p = P();
    std::lock_guard<std::mutex> g(p.m);
    p.armed = false;
    p.f = p.f2 = -1;
    p.hits = p.hidden = p.retried = 0;
    memset(p.calls, 0, sizeof p.calls);
    p.files.clear();
    p.fds.clear();
}
template <typename T> T real(const char* n) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, n)); }
inline bool below(const char* path) {
    plan& p = P();
    return p.armed && path && strncmp(path, p.root.c_str(), p.root.size()) == 0;
}
inline int do_open(const char* name, const char* path, int flags, mode_t mode) {
    static auto r1 = real<int (*)(const char*, int, ...)>("open");
    static auto r2 = real<int (*)(const char*, int, ...)>("open64");
    auto r = name[4] ? r2 : r1;
    if (!below(path)) return r(path, flags, mode);
    std::lock_guard<std::mutex> g(P().m);
    if (hit(F_OPEN)) { errno = P().err; return -1; }
    int fd = r(path, flags, mode);
    int e = errno;
    if (fd >= 0) P().fds[fd] = (flags & O_TRUNC) != 0;
    errno = e;
    return fd;
}
inline FILE* do_fopen(const char* name, const char* path, const char* mode) {
    static auto r1 = real<FILE* (*)(const char*, const char*)>("fopen");
    static auto r2 = real<FILE* (*)(const char*, const char*)>("fopen64");
    auto r = name[5] ? r2 : r1;
    if (!below(path)) return r(path, mode);
    std::lock_guard<std::mutex> g(P().m);
    if (hit(F_OPEN)) { errno = P().err; return nullptr; }
    if (hit(F_FDOPEN)) { errno = P().err; return nullptr; }
    FILE* f = r(path, mode);
    if (f) { int t = strchr(mode, 'w') != nullptr; P().fds[fileno(f)] = t; P().files[f] = t ? 1 : 2; }
    return f;
}
inline int size_fails(int fd) {
    plan& p = P();
    if (!p.armed) return 0;
    std::lock_guard<std::mutex> g(p.m);
    if (!p.fds.count(fd)) return 0;
    if (hit(F_SIZE)) { errno = p.err; return 1; }
    return 0;
}
}  // namespace fault

extern "C" {
int open(const char* path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return fault::do_open("open", path, flags, m);
}
int open64(const char* path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return fault::do_open("open64", path, flags, m);
}
FILE* fopen(const char* path, const char* mode) { return fault::do_fopen("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return fault::do_fopen("fopen64", path, mode); }
FILE* fdopen(int fd, const char* mode) {
    static auto r = fault::real<FILE* (*)(int, const char*)>("fdopen");
    auto& p = fault::P();
    if (!p.armed) return r(fd, mode);
    std::lock_guard<std::mutex> g(p.m);
    if (!p.fds.count(fd)) return r(fd, mode);
    if (fault::hit(fault::F_FDOPEN)) { errno = p.err; return nullptr; }
    FILE* f = r(fd, mode);
    if (f) p.files[f] = p.fds[fd] ? 1 : 2;
    return f;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    static auto r = fault::real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    auto& p = fault::P();
    if (!p.armed) return r(b, s, n, f);
    std::lock_guard<std::mutex> g(p.m);
    if (!p.files.count(f)) return r(b, s, n, f);
    if (fault::hit(fault::F_WRITE)) {
        size_t k = p.variant ? n / 2 : 0;
        if (k) k = r(b, s, k, f);
        errno = p.err;
        return k;
    }
    return r(b, s, n, f);
}
int fflush(FILE* f) {
    static auto r = fault::real<int (*)(FILE*)>("fflush");
    auto& p = fault::P();
    if (!p.armed || !f) return r(f);
    std::lock_guard<std::mutex> g(p.m);
    if (!p.files.count(f)) return r(f);
    if (fault::hit(fault::F_FLUSH)) {
        if (p.variant) r(f);
        errno = p.err;
        return EOF;
    }
    return r(f);
}
int fclose(FILE* f) {
    static auto r = fault::real<int (*)(FILE*)>("fclose");
    auto& p = fault::P();
    if (!p.armed) return r(f);
    std::lock_guard<std::mutex> g(p.m);
    auto it = p.files.find(f);
    if (it == p.files.end()) return r(f);
    bool trunc = it->second == 1;
    bool fail = fault::hit(fault::F_CLOSE, trunc);
    p.fds.erase(fileno(f));
    p.files.erase(it);
    int x = r(f);               // a stream is gone after fclose() whatever it returns
    if (fail) { errno = p.err; return EOF; }
    return x;
}
int fstat64(int fd, struct stat64* st) noexcept {
    static auto r = fault::real<int (*)(int, struct stat64*)>("fstat64");
    if (fault::size_fails(fd)) return -1;
    return r(fd, st);
}
int fstat(int fd, struct stat* st) noexcept {
    static auto r = fault::real<int (*)(int, struct stat*)>("fstat");
    if (fault::size_fails(fd)) return -1;
    return r(fd, st);
}
int mkdir(const char* path, mode_t mode) noexcept {
    static auto r = fault::real<int (*)(const char*, mode_t)>("mkdir");
    if (!fault::below(path)) return r(path, mode);
    std::lock_guard<std::mutex> g(fault::P().m);
    if (fault::hit(fault::F_MKDIR)) { errno = fault::P().err; return -1; }
    return r(path, mode);
}
}
