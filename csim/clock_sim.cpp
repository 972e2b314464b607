// C11: the benchmark clock under a simulated operating system clock: the wall clock is stepped
// and slewed by the plan, the monotonic clock is not.
#define SIM_MAIN
#include "sim.hpp"
#include <ctime>
#include <cmath>
using namespace sim;
extern "C" int64_t bench_micros(void);
extern "C" int bench_fill(float *, int);
extern "C" int bench_platform(void); // 0: Unix, 1: Zephyr, 2: Windows, 3: Arduino
// every call finds different values below the stack pointer
#define bench_micros(...) (dirty_stack(), bench_micros(__VA_ARGS__))
#define bench_fill(...) (dirty_stack(), bench_fill(__VA_ARGS__))
static int64_t g_mono_ns, g_wall_off_ns, g_read_cost_ns, g_cpu_ns, g_boot_off_ns, g_hz;
static void tick() { g_mono_ns += g_read_cost_ns; g_cpu_ns += g_read_cost_ns; }
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
static void put(struct timespec *t, int64_t ns) { int64_t s = ns / 1000000000, r = ns % 1000000000; if (r < 0) { r += 1000000000; s--; } t->tv_sec = s; t->tv_nsec = r; }
int clock_gettime(clockid_t id, struct timespec *t) {
    tick(); count(("clock_read_" + std::to_string(id)).c_str());
    switch (id) {
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: put(t, g_mono_ns); return 0;
    case CLOCK_MONOTONIC_COARSE: put(t, g_mono_ns / 4000000 * 4000000); return 0;
    case CLOCK_BOOTTIME: put(t, g_mono_ns + g_boot_off_ns); return 0;
    case CLOCK_REALTIME: put(t, g_mono_ns + g_wall_off_ns); return 0;
    case CLOCK_REALTIME_COARSE: put(t, (g_mono_ns + g_wall_off_ns) / 4000000 * 4000000); return 0;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: put(t, g_cpu_ns); return 0;
    default: put(t, g_mono_ns + g_wall_off_ns); return 0;
    }
}
int gettimeofday(struct timeval *tv, void *) noexcept { tick(); count("gettimeofday_read"); struct timespec t; put(&t, g_mono_ns + g_wall_off_ns); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *o) noexcept { tick(); struct timespec t; put(&t, g_mono_ns + g_wall_off_ns); if (o) *o = t.tv_sec; return t.tv_sec; }
clock_t clock(void) noexcept { tick(); return g_cpu_ns / 1000; }
// counters of the other platforms (platform/)
int64_t sim_mono_ns(void) { tick(); return g_mono_ns; }
int64_t sim_wall_ns(void) { tick(); return g_mono_ns + g_wall_off_ns; }
int64_t sim_tick_hz(void) { return g_hz; }
int timespec_get(struct timespec *t, int b) noexcept { tick(); put(t, g_mono_ns + g_wall_off_ns); return b; }
}
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p;
    // uptime from seconds to years (also past 32-bit limits of seconds, milliseconds and microseconds)
    p.add("cfg uptime_ms %lld", (long long)r.pick(std::vector<long>{0, 900, 1000, 2146999, 2147483, 4294967, 86400000, 2147483647, 4294967295l, 31536000000l, 315360000000l}) + (long long)r.below(5000));
    p.add("cfg sub_ns %d", (int)r.below(1000000000)); p.add("cfg cost_ns %d", (int)r.range(0, 400));
    static const std::vector<long> hz[] = {{1}, {100, 1000, 10000, 32768, 1000000}, {10000000, 3579545, 2400000000l, 1193182}, {250000}};
    p.add("cfg hz %ld", r.pick(hz[bench_platform() & 3]));
    p.add("cfg epoch_s %ld", r.pick(std::vector<long>{0, 1700000000l, 2147483640l, 4294967290l}));
    int n = r.range(3, 40);
    for (int i = 0; i < n; i++) {
        double u = r.unit();
        if (u < 0.35) p.add("read");
        else if (u < 0.65) p.add("work %lld", (long long)exp(r.unit() * 28)); // ns: up to half an hour
        else if (u < 0.70) p.add("sleep %lld", (long long)exp(r.unit() * 32)); // cpu time stands still
        else if (u < 0.80) p.add("step %lld", (long long)((r.chance(0.5) ? 1 : -1) * exp(r.unit() * 38)));
        else if (u < 0.86) p.add("step %lld", (long long)r.pick(std::vector<long>{1000000000, -1000000000, 3600000000000l, -3600000000000l, 999999999, -999999999, -1}));
        else if (u < 0.92) p.add("setepoch %ld", (long)r.pick(std::vector<long>{0, 1, 1000000000, 2147483647, 4294967295l}));
        else if (u < 0.96) p.add("slew %d", (int)r.range(-500, 500));
        else p.add("fill %d", (int)r.range(1, 20));
    }
    p.add("read");
    return p;
}
void execute(const Plan &p) {
    g_mono_ns = p.cfg("uptime_ms", 1000) * 1000000ll + p.cfg("sub_ns", 0); g_read_cost_ns = p.cfg("cost_ns", 20); g_cpu_ns = 0;
    g_wall_off_ns = p.cfg("epoch_s", 0) * 1000000000ll; g_boot_off_ns = 0; g_hz = std::max(1l, p.cfg("hz", 1000000));
    // resolution of the platform's counter; Arduino's run for 2^32 ms from its start, then they start over
    double res = bench_platform() ? 1e6 / g_hz : 0; const int64_t range_ns = bench_platform() == 3 ? 4294967296ll * 1000000 : INT64_MAX;
    long slew = 0; int64_t start = g_mono_ns;
    std::vector<std::pair<int64_t, int64_t>> reads; // true time before the call, value
    auto pass = [&](int64_t ns, bool cpu) { g_mono_ns += ns; g_wall_off_ns += ns / 1000000 * slew; if (cpu) g_cpu_ns += ns; };
    for (auto &l : p.lines) {
        if (l.op() == "work") pass(std::max(0ll, (long long)l.i(1)), true);
        else if (l.op() == "sleep") { pass(std::max(0ll, (long long)l.i(1)), false); count("fault_process_suspended"); }
        else if (l.op() == "step") { g_wall_off_ns += l.i(1); count(l.i(1) < 0 ? "fault_wall_step_back" : "fault_wall_step_forward"); }
        else if (l.op() == "setepoch") { g_wall_off_ns = l.i(1) * 1000000000ll - g_mono_ns; count("fault_wall_set"); }
        else if (l.op() == "slew") { slew = l.i(1); count("fault_wall_slew"); }
        else if (l.op() == "fill") { std::vector<float> f(l.i(1)); bench_fill(f.data(), f.size()); }
        else if (l.op() == "read") {
            if (g_mono_ns / range_ns != start / range_ns) { count("readings_past_the_counter"); break; }
            int64_t before = g_mono_ns; int64_t v = bench_micros(); int64_t after = g_mono_ns;
            note("read %lld", (long long)v);
            // against every earlier reading
            for (auto &q : reads) {
                // true elapsed lies between (before - q.after) and (after - q.before); q stores before, cost is bounded
                double lo = (before - q.first) / 1000.0 - g_read_cost_ns * 4 / 1000.0, hi = (after - q.first) / 1000.0 + g_read_cost_ns * 4 / 1000.0;
                int64_t d = v - q.second;
                if (d < 0) violate("negative", "a later reading is %lld us smaller", (long long)-d);
                if (d < lo - 2 - res || d > hi + 2 + res) violate("wrong-duration", "readings differ by %lld us, %.3f ms passed between them", (long long)d, lo / 1000);
            }
            reads.push_back({before, v}); count("reads");
            reach("wall%+d up%d", g_wall_off_ns < 0, g_mono_ns > 0 ? (int)log2((double)g_mono_ns) : 0);
        }
    }
    run().simtime_us = (g_mono_ns - start) / 1000;
    reach("steps");
}
