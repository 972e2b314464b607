/* The benchmark clock of the library. PLATFORM 0: Unix, 1: Zephyr, 2: Windows, 3: Arduino (their APIs stubbed in platform/) */
#if PLATFORM == 3
#include <Arduino.h>
#endif
#include <eml_benchmark.h>
int64_t bench_micros(void) { return eml_benchmark_micros(); }
int bench_fill(float *v, int n) { return eml_benchmark_fill(v, n); }
int bench_platform(void) { return PLATFORM; }
