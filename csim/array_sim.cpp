// C09: sliding windows kept with EmlArray. Chunk schedules and rejected operations on the
// real eml_array.h against a list of the latest rows.
#define SIM_MAIN
#include "sim.hpp"
#include <climits>
using namespace sim;
extern "C" {
size_t arr_size(); int arr_init(void *, int, int32_t *, int, uint8_t *, size_t);
int arr_shift(void *, int); int arr_copy(void *, int, const void *); int arr_fill(void *, float); int arr_sum(void *, float *);
void *arr_at(void *, int, int); size_t arr_storage(void *);
}
// every call finds different values below the stack pointer
#define arr_init(...) (dirty_stack(), arr_init(__VA_ARGS__))
#define arr_shift(...) (dirty_stack(), arr_shift(__VA_ARGS__))
#define arr_copy(...) (dirty_stack(), arr_copy(__VA_ARGS__))
#define arr_fill(...) (dirty_stack(), arr_fill(__VA_ARGS__))
#define arr_sum(...) (dirty_stack(), arr_sum(__VA_ARGS__))
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p;
    int nw = r.range(1, 3);
    for (int w = 0; w < nw; w++) {
        bool huge = r.chance(0.006); int vs = r.pick(std::vector<int>{1, 2, 2, 2, 4, 4, 8});
        if (r.chance(0.01)) { int a = r.chance(0.7) ? r.range(100, 300) : r.range(32700, 70000), b = r.range(1, 4); bool wide = r.chance(0.5); p.add("window %d %d %d %d", w, wide ? a : b, wide ? b : a, vs); continue; } // beyond 8 and 16 bits in one direction
        p.add("window %d %d %d %d", w, huge ? (int)r.range(40, 90) : (int)r.range(1, r.chance(0.1) ? 70 : 9), huge ? (int)r.range(400, 1000) : (int)r.range(1, r.chance(0.1) ? 150 : 12), vs);
    }
    int n = r.range(4, 40);
    for (int i = 0; i < n; i++) {
        int w = r.below(nw); double u = r.unit();
        if (u < 0.62) p.add("chunk %d %d %d", w, (int)r.range(0, 1000), (int)r.below(100000));          // rows arriving (taken modulo rows+1)
        else if (u < 0.66) p.add("shift %d %d", w, (int)r.range(0, 1000));                                 // rows dropped without new ones
        else if (u < 0.70) p.add("place %d %d %d %d", w, (int)r.range(0, 1000), (int)r.range(0, 1000), (int)r.below(100000)); // rows written in the middle
        else if (u < 0.74) p.add("fill %d %d", w, (int)r.range(-300, 300));
        else if (u < 0.77) p.add("sum %d", w);
        else if (u < 0.97) p.add("bad %d %d %d %d", w, (int)r.below(16), (int)r.range(0, 1000), (int)r.below(100000));
        else p.add("restart %d %d", w, (int)r.below(2));
    }
    return p;
}
struct Win { int cols, rows, vs; uint8_t *buf; void *a; std::vector<uint8_t> ref; };
static void *mk() { void *a = malloc(arr_size()); memset(a, 0x5A, arr_size()); return a; }
static uint8_t *rowsbuf(int n, uint64_t s) { auto b = (uint8_t *)malloc(n); Rng r(s); for (int i = 0; i < n; i++) b[i] = r.next(); return b; }
static void open_win(Win &w) {
    int32_t *d = (int32_t *)malloc(2 * sizeof(int32_t)); d[0] = w.cols; d[1] = w.rows;
    // the buffer may be larger than needed
    int rc = arr_init(w.a, 2, d, w.vs, w.buf, (size_t)w.cols * w.rows * w.vs + (w.rows % 3 ? 0 : w.cols)); free(d);
    if (rc) violate("init-failed", "valid initialisation of %dx%d (%d bytes) returned %d", w.cols, w.rows, w.vs, rc);
    if (arr_storage(w.a) != (size_t)w.cols * w.rows * w.vs) violate("storage-size", "storage size %zu", arr_storage(w.a));
}
static void check(Win &w, const char *when) {
    if (memcmp(w.buf, w.ref.data(), w.ref.size())) {
        size_t rs = w.cols * w.vs, i = 0; while (w.buf[i] == w.ref[i]) i++;
        violate("window-content", "%s: row %zu of %d differs from the latest samples", when, i / rs, w.rows);
    }
    for (int r = 0; r < w.rows; r += std::max(1, w.rows / 5)) for (int c = 0; c < w.cols; c += std::max(1, w.cols / 3)) {
        auto q = (uint8_t *)arr_at(w.a, c, r);
        if (!q || memcmp(q, w.ref.data() + (size_t)(r * w.cols + c) * w.vs, w.vs)) violate("element-access", "%s: element (%d,%d) is not the stored one", when, c, r);
    }
    static const int oob[][2] = {{-1, 0}, {0, -1}, {1, 0}, {0, 1}};
    for (auto &o : oob) { int c = o[0] == 1 ? w.cols : o[0], r = o[1] == 1 ? w.rows : o[1]; if (arr_at(w.a, c, r)) violate("element-access", "element (%d,%d) outside the array was given out", c, r); }
}
void execute(const Plan &p) {
    std::map<int, Win> ws;
    int t = 0;
    for (auto &l : p.lines) {
        t++;
        if (l.op() == "window") {
            Win w; w.cols = std::max(1l, l.i(2)); w.rows = std::max(1l, l.i(3)); w.vs = std::max(1l, l.i(4));
            size_t n = (size_t)w.cols * w.rows * w.vs; w.buf = rowsbuf(n, t); w.a = mk(); w.ref.assign(w.buf, w.buf + n);
            if (ws.count(l.i(1))) continue;
            open_win(w); ws[l.i(1)] = w; check(ws[l.i(1)], "init");
            continue;
        }
        auto it = ws.find(l.i(1)); if (it == ws.end()) continue;
        Win &w = it->second; size_t rs = (size_t)w.cols * w.vs;
        std::vector<uint8_t> arr_before((uint8_t *)w.a, (uint8_t *)w.a + arr_size());
        if (l.op() == "chunk") {
            int n = l.i(2) % (w.rows + 1); auto b = rowsbuf(n * rs, l.u(3) + 17); // at times no new row
            int32_t d[2] = {w.cols, n}; void *c = mk();
            if (arr_init(c, 2, d, w.vs, b, n * rs)) violate("init-failed", "chunk of %d rows could not be described", n);
            int r1 = arr_shift(w.a, -n), r2 = r1 ? 1 : arr_copy(w.a, w.rows - n, c);
            note("chunk %d/%d -> %d %d", n, w.rows, r1, r2);
            if (r1 || r2) violate("valid-refused", "pushing %d rows into a window of %d was refused (%d, %d)", n, w.rows, r1, r2);
            memmove(w.ref.data(), w.ref.data() + n * rs, (w.rows - n) * rs); memcpy(w.ref.data() + (w.rows - n) * rs, b, n * rs);
            free(b); free(c); count("chunks"); reach("chunk %d %d", n == w.rows, n);
        } else if (l.op() == "shift") {
            int n = l.i(2) % (w.rows + 1); int rc = arr_shift(w.a, -n); note("shift %d -> %d", n, rc);
            if (rc) violate("valid-refused", "shift by %d of %d rows refused with %d", n, w.rows, rc);
            // rows that were kept move up; the freed rows are the caller's to fill
            memmove(w.ref.data(), w.ref.data() + n * rs, (w.rows - n) * rs);
            if (memcmp(w.buf, w.ref.data(), (w.rows - n) * rs)) violate("window-content", "shift by %d: kept rows are wrong", n);
            auto b = rowsbuf(n * rs, t + 5); memcpy(w.buf + (w.rows - n) * rs, b, n * rs); memcpy(w.ref.data() + (w.rows - n) * rs, b, n * rs); free(b);
        } else if (l.op() == "place") {
            int n = 1 + l.i(2) % w.rows, at = l.i(3) % (w.rows - n + 1); auto b = rowsbuf(n * rs, l.u(4) + 3);
            int32_t d[2] = {w.cols, n}; void *c = mk(); arr_init(c, 2, d, w.vs, b, n * rs);
            int rc = arr_copy(w.a, at, c); note("place %d@%d -> %d", n, at, rc);
            if (rc) violate("valid-refused", "copy of %d rows to row %d refused with %d", n, at, rc);
            memcpy(w.ref.data() + at * rs, b, n * rs); free(b); free(c); reach("place %d %d", at == 0, at + n == w.rows);
        } else if (l.op() == "fill") {
            int rc = arr_fill(w.a, l.i(2)); note("fill -> %d", rc);
            if (w.vs == 2) { if (rc) violate("valid-refused", "fill refused"); for (size_t i = 0; i < w.ref.size(); i += 2) { int16_t v = l.i(2); memcpy(&w.ref[i], &v, 2); } }
            else { count("fault_unsupported_type"); if (!rc) violate("bad-accepted", "fill of a %d-byte type reported success", w.vs); }
        } else if (l.op() == "sum") {
            float s = -7; int rc = arr_sum(w.a, &s); note("sum -> %d", rc);
            if (w.vs == 2) {
                double e = 0, m = 0; for (size_t i = 0; i < w.ref.size(); i += 2) { int16_t v; memcpy(&v, &w.ref[i], 2); e += v; m += std::abs(v); }
                if (rc || std::abs(s - e) > m * (4e-6 + 6e-8 * w.ref.size()) + 1e-3) violate("sum", "sum %g, expected %g", s, e);
            } else { count("fault_unsupported_type"); if (!rc) violate("bad-accepted", "sum of a %d-byte type reported success", w.vs); if (s != -7) violate("rejected-changed-output", "refused sum wrote its output"); }
        } else if (l.op() == "restart") {
            // brown-out: the handle is lost; the data is kept in retained memory (1) or restored elsewhere (0)
            count("fault_restart"); memset(w.a, 0xEE, arr_size()); free(w.a); w.a = mk();
            if (!l.i(2)) { auto nb = (uint8_t *)malloc(w.ref.size()); memcpy(nb, w.buf, w.ref.size()); free(w.buf); w.buf = nb; }
            open_win(w); arr_before.assign((uint8_t *)w.a, (uint8_t *)w.a + arr_size()); note("restart");
        } else if (l.op() == "bad") {
            int kind = l.i(2), v = l.i(3), rc = 1; const char *what = "?";
            auto other = [&](int cols, int rows, int vs, int at) {
                size_t n = (size_t)cols * rows * vs; auto b = rowsbuf(n, l.u(4)); int32_t d[2] = {cols, rows}; void *c = mk();
                int r0 = arr_init(c, 2, d, vs, b, n); if (r0) harness_error("init of bad chunk"); int r1 = arr_copy(w.a, at, c); free(b); free(c); return r1; };
            int n = 1 + v % w.rows;
            switch (kind) {
            case 0: what = "copy with a wrong number of columns"; rc = other(w.cols + 1 + v % 3, n, w.vs, 0); break;
            case 1: if (w.cols < 2) continue; what = "copy with too few columns"; rc = other(w.cols - 1, n, w.vs, w.rows - n); break;
            case 2: what = "copy with a smaller element size"; if (w.vs == 1) continue; rc = other(w.cols, n, w.vs / 2, 0); break;
            case 3: what = "copy with a larger element size"; rc = other(w.cols, n, w.vs * 2, 0); break;
            case 4: what = "copy of too many rows"; rc = other(w.cols, n, w.vs, w.rows - n + 1 + v % 3); break;
            case 5: what = "copy of more rows than the window has"; rc = other(w.cols, w.rows + 1 + v % 4, w.vs, 0); break;
            case 6: what = "copy to a negative row"; rc = other(w.cols, n, w.vs, -1 - v % 5); break;
            case 7: what = "shift by too many rows"; rc = arr_shift(w.a, -(w.rows + 1 + v % 50)); break;
            case 8: what = "forward shift"; rc = arr_shift(w.a, 1 + v % w.rows); break;
            case 9: what = "shift by an extreme amount"; rc = arr_shift(w.a, v % 2 ? INT_MIN : INT_MIN + 1 + v); break;
            case 10: {
                what = "initialisation with a short buffer"; int32_t d[2] = {w.cols, w.rows}; void *c = mk(); rc = arr_init(c, 2, d, w.vs, w.buf, (size_t)w.cols * w.rows * w.vs - 1 - v % w.vs); free(c); break; }
            case 11: { what = "initialisation with a bad number of dimensions"; int32_t d[6] = {1, 1, 1, 1, 1, 1}; void *c = mk(); rc = arr_init(c, v % 2 ? 4 + v % 3 : -(v % 2), d, w.vs, w.buf, w.ref.size()); free(c); break; }
            case 12: { // start beyond anything: near the limits of int
                what = "copy to a row far outside"; rc = other(w.cols, n, w.vs, v % 3 == 0 ? INT_MAX - v % 7 : v % 3 == 1 ? INT_MAX / 2 + v : w.rows + v % 4); break; }
            case 13: {
                what = "initialisation with negative dimensions"; int32_t d[3] = {w.cols, w.rows, 1}; int nd = 2 + (v & 1), neg = 0;
                for (int i = 0; i < nd; i++) if ((v >> (1 + i)) & 1) { d[i] = -d[i]; neg++; }
                if (!neg) d[v % nd] = -1; void *c = mk(); rc = arr_init(c, nd, d, w.vs, w.buf, w.ref.size()); free(c); break; }
            case 14: { // more than the buffer by far: products beyond 32 and 64 bits
                what = "initialisation with huge dimensions"; static const int sh[][3] = {{22, 22, 20}, {30, 30, 4}, {21, 21, 21}, {30, 2, 0}, {16, 16, 0}, {31, 1, 0}, {24, 8, 0}, {30, 30, 30}, {16, 16, 31}};
                auto &q = sh[v % 9]; int32_t d[3]; for (int i = 0; i < 3; i++) d[i] = q[i] == 31 ? INT_MAX : 1 << q[i]; if (v & 16) d[0] -= v & 1;
                void *c = mk(); rc = arr_init(c, 3, d, v & 32 ? 1 : w.vs, w.buf, w.ref.size()); free(c); break; }
            default: {
                what = "operation on an array that is not two-dimensional"; int32_t d[3] = {w.cols, w.rows, 1}; void *c = mk(); int nd = v % 2 ? 3 : 1; int32_t d1[1] = {w.cols * w.rows};
                if (arr_init(c, nd, nd == 3 ? d : d1, w.vs, w.buf, w.ref.size())) violate("init-failed", "%d-dimensional array refused", nd);
                int which = (v / 2) % 4; rc = which == 0 ? arr_shift(c, -1) : which == 1 ? arr_copy(c, 0, w.a) : which == 2 ? arr_copy(w.a, 0, c) : arr_fill(c, 1); free(c); break; }
            }
            count(("fault_bad_" + std::to_string(kind)).c_str()); note("bad %d -> %d", kind, rc); reach("bad %d %d", kind, rc);
            if (rc == 0) violate("bad-accepted", "%s reported success", what);
        }
        check(w, l.op().c_str());
        if (memcmp(arr_before.data(), w.a, arr_size())) violate("handle-changed", "%s changed the array handle", l.op().c_str());
        for (auto &o : ws) if (memcmp(o.second.buf, o.second.ref.data(), o.second.ref.size())) violate("other-window", "%s on window %ld changed another window", l.op().c_str(), l.i(1));
    }
    run().steps += step_count();
}
