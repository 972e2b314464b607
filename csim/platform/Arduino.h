/* Arduino's counters, 32 bits wide, over the simulated clock */
#pragma once
#include <stdint.h>
int64_t sim_mono_ns(void); int64_t sim_tick_hz(void);
static inline uint32_t micros(void) { return (uint32_t)(sim_mono_ns() / 4000 * 4); }
static inline uint32_t millis(void) { return (uint32_t)(sim_mono_ns() / 1000000); }
