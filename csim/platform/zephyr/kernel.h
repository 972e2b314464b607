/* Zephyr's uptime API over the simulated clock */
#pragma once
#include <stdint.h>
int64_t sim_mono_ns(void); int64_t sim_tick_hz(void);
static inline int64_t k_uptime_ticks(void) { return (int64_t)((__int128)sim_mono_ns() * sim_tick_hz() / 1000000000); }
static inline uint64_t k_ticks_to_us_ceil64(uint64_t t) { uint64_t f = sim_tick_hz(); return (uint64_t)(((__uint128_t)t * 1000000 + f - 1) / f); }
static inline uint64_t k_ticks_to_us_floor64(uint64_t t) { return (uint64_t)((__uint128_t)t * 1000000 / sim_tick_hz()); }
static inline uint64_t k_ticks_to_us_near64(uint64_t t) { uint64_t f = sim_tick_hz(); return (uint64_t)(((__uint128_t)t * 1000000 + f / 2) / f); }
static inline int64_t k_uptime_get(void) { return sim_mono_ns() / 1000000; }
static inline uint32_t k_uptime_get_32(void) { return (uint32_t)k_uptime_get(); }
