// Schedule perturbation: the code under test is compiled with -fsanitize-coverage=trace-pc-guard and
// calls this at every basic block; with a seeded probability the calling thread yields or sleeps there.
// This file itself is compiled without instrumentation.
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static std::atomic<uint64_t> g_seed{0}, g_events{0}, g_edges{0}, g_epoch{0};
static std::atomic<unsigned> g_level{0}, g_tids{0};

struct tls_t { uint64_t s, epoch; unsigned id; bool busy; };
static thread_local tls_t tls = {0, 0, 0, false};

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    static uint32_t n = 0;
    if (a == b || *a) return;
    for (uint32_t* p = a; p < b; p++) *p = ++n;
}
static void nap(long ns) {
    struct timespec ts = {0, ns};
    syscall(SYS_nanosleep, &ts, nullptr);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    if (*guard && !(*guard & 0x80000000u)) {      // first visit (racy double count is harmless: see below)
        uint32_t old = __atomic_fetch_or(guard, 0x80000000u, __ATOMIC_RELAXED);
        if (!(old & 0x80000000u)) g_edges.fetch_add(1, std::memory_order_relaxed);
    }
    unsigned level = g_level.load(std::memory_order_relaxed);
    if (!level || tls.busy) return;
    uint64_t ep = g_epoch.load(std::memory_order_relaxed);
    if (tls.epoch != ep) {
        tls.epoch = ep;
        tls.id = g_tids.fetch_add(1, std::memory_order_relaxed);
        tls.s = g_seed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull + tls.id * 0xD1B54A32D192ED03ull + 1;
    }
    uint64_t x = tls.s;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    tls.s = x;
    // level: how many of 65536 basic blocks are perturbed
    if ((x >> 20 & 0xffff) >= level) return;
    tls.busy = true;
    int saved_errno_dummy = 0; (void)saved_errno_dummy;
    g_events.fetch_add(1, std::memory_order_relaxed);
    unsigned k = (x >> 40) & 31;
    if (k < 14) sched_yield();
    else if (k < 24) nap(1000 + (x >> 48) % 20000);
    else if (k < 30) nap(20000 + (x >> 48) % 100000);
    else nap(200000 + (x >> 48) * 10);
    tls.busy = false;
}
extern "C" void vf_noise_begin(uint64_t seed, unsigned level) {
    g_seed = seed; g_tids = 0; g_epoch.fetch_add(1); g_level = level;
}
extern "C" void vf_noise_end() { g_level = 0; }
extern "C" uint64_t vf_noise_edges() { return g_edges; }
extern "C" uint64_t vf_noise_events() { return g_events; }
