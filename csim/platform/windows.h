/* Windows' performance counter and wall clock over the simulated clocks */
#pragma once
#include <stdint.h>
typedef union { struct { uint32_t LowPart; int32_t HighPart; }; int64_t QuadPart; } LARGE_INTEGER; typedef int BOOL; typedef uint32_t DWORD; typedef uint64_t ULONGLONG;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
int64_t sim_mono_ns(void); int64_t sim_wall_ns(void); int64_t sim_tick_hz(void);
static inline BOOL QueryPerformanceCounter(LARGE_INTEGER *t) { t->QuadPart = (int64_t)((__int128)sim_mono_ns() * sim_tick_hz() / 1000000000); return 1; }
static inline BOOL QueryPerformanceFrequency(LARGE_INTEGER *f) { f->QuadPart = sim_tick_hz(); return 1; }
static inline DWORD GetTickCount(void) { return (DWORD)(sim_mono_ns() / 1000000); }
static inline ULONGLONG GetTickCount64(void) { return (ULONGLONG)(sim_mono_ns() / 1000000); }
static inline void GetSystemTimeAsFileTime(FILETIME *f) { uint64_t v = (uint64_t)(sim_wall_ns() / 100) + 116444736000000000ull; f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = v >> 32; }
