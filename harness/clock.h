// A system clock that is set back and forth by up to an hour while the code runs; the steady clock is left alone.
#pragma once
#include "vf.h"
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>

static std::atomic<long> g_clock_shift{0};
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#define VF_CLOCK 1
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    int r = static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    if (id == CLOCK_REALTIME) ts->tv_sec += g_clock_shift.load(std::memory_order_relaxed);
    return r;
}
#endif

namespace vf {
// sets the system clock again and again in its lifetime (where it can be done)
class clock_setter {
public:
    explicit clock_setter(uint64_t seed, bool on = true) {
#ifdef VF_CLOCK
        if (!on) return;
        t = std::thread([this, seed] {
            rng r(seed);
            while (!stop) {
                g_clock_shift = r.pick(std::vector<long>{-3600, -3600, 0, 3600, 5, -1});
                steps++;
                sleep_us(static_cast<long>(r.below(3000)));
            }
        });
#else
        (void)seed; (void)on;
#endif
    }
    ~clock_setter() { end(); }
    void end() {
        if (!t.joinable()) return;
        stop = true;
        t.join();
        g_clock_shift = 0;
        stat("clock_steps", steps);
    }
private:
    std::thread t;
    std::atomic<bool> stop{false};
    uint64_t steps = 0;
};
}
