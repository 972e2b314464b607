/* Heap of the simulated process: the n-th request fails, fresh memory holds a chosen pattern, and while
 * armed each block ends at an inaccessible page. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static int armed, guard; static long nth, many, seen, failed; static uint64_t pattern;
static char *arena, *next; static const size_t ARENA = (size_t)1 << 32;
void mf_arm(long n, long m, int g, uint64_t p) {
    if (g && !arena) { arena = mmap(0, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) arena = 0; next = arena; }
    nth = n; many = m; seen = failed = 0; guard = g && arena; pattern = p; armed = 1;
}
long mf_disarm(void) { armed = 0; return seen * 100000 + failed; }
static int refuse(void) { if (!armed) return 0; seen++; if (nth && seen >= nth && seen < nth + many) { failed++; errno = ENOMEM; return 1; } return 0; }
static void fill(void *p, size_t n) { uint64_t x = pattern | 1; unsigned char *b = p; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = pattern % 3 == 0 ? 0xFF : pattern % 3 == 1 ? (i % 4 == 3 ? 0x41 : 0x37) : (unsigned char)x; } }
static int ours(void *p) { return arena && (char *)p >= arena && (char *)p < arena + ARENA; }
static void *give(size_t n, int zero) {
    if (armed && guard && n < ((size_t)1 << 24)) {
        size_t pages = (n + 16 + 4095) / 4096 + 1; /* 16: size in front */
        if (next + pages * 4096 < arena + ARENA) {
            char *base = next; next += pages * 4096; if (mprotect(base, (pages - 1) * 4096, PROT_READ | PROT_WRITE)) return 0;
            char *end = base + (pages - 1) * 4096, *p = (char *)((uintptr_t)(end - n) & ~(uintptr_t)15);
            fill(base, end - base); memcpy(p - 8, &n, 8); if (zero) memset(p, 0, n); return p;
        }
    }
    void *p = zero ? __libc_calloc(1, n) : __libc_malloc(n);
    if (p && armed && !zero) fill(p, n);
    return p;
}
void *malloc(size_t n) { return refuse() ? 0 : give(n, 0); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return refuse() ? 0 : give(n, 1); }
void free(void *p) { if (p && !ours(p)) __libc_free(p); else if (p) { size_t n; memcpy(&n, (char *)p - 8, 8); char *a = (char *)(((uintptr_t)p + 4095) & ~(uintptr_t)4095), *e = (char *)(((uintptr_t)p + n) & ~(uintptr_t)4095); if (e > a) mprotect(a, e - a, PROT_NONE); } }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (ours(p)) { size_t o; memcpy(&o, (char *)p - 8, 8); void *q = malloc(n); if (q) { memcpy(q, p, o < n ? o : n); free(p); } return q; }
    if (refuse()) return 0;
    return __libc_realloc(p, n);
}
void *aligned_alloc(size_t a, size_t n) { return refuse() ? 0 : __libc_memalign(a, n); }
void *memalign(size_t a, size_t n) { return refuse() ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { if (refuse()) return ENOMEM; *o = __libc_memalign(a, n); return *o ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { size_t n; if (!p) return 0; if (ours(p)) { memcpy(&n, (char *)p - 8, 8); return n; } return ((size_t *)p)[-1] & ~(size_t)7; }
/* numpy's data memory without its cache of small blocks */
void *mf_np_malloc(void *c, size_t n) { return malloc(n ? n : 1); }
void *mf_np_calloc(void *c, size_t a, size_t b) { return calloc(a ? a : 1, b ? b : 1); }
void *mf_np_realloc(void *c, void *p, size_t n) { return realloc(p, n ? n : 1); }
void mf_np_free(void *c, void *p, size_t n) { free(p); }
struct { char name[127]; unsigned char version; void *ctx, *m, *c, *r, *f; } mf_np_handler = {"memfault", 1, 0, mf_np_malloc, mf_np_calloc, mf_np_realloc, mf_np_free};
