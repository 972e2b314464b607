// C05 preemption, C06 history independence and rejected calls, C07 failing allocator:
// simulations over the computational units of the library and of generated code (units.c).
#define SIM_MAIN
#include "rtos.hpp"
#include "units.h"
#include <cmath>
#include <limits>
using namespace sim;

// ---- process-wide allocator under the simulator's control (C07; not in AddressSanitizer builds) ----
static int g_alloc_mode; // 0: works, 1: every request of code under test fails, 2: every k-th works
static unsigned long g_alloc_calls, g_alloc_failed;
#ifndef SIM_ASAN
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static bool refuse() { if (!in_sut || !g_alloc_mode) return false; g_alloc_calls++; if (g_alloc_mode == 2 && g_alloc_calls % 3 == 0) return false; g_alloc_failed++; errno = ENOMEM; return true; }
void *malloc(size_t n) { return refuse() ? nullptr : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse() ? nullptr : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse() ? nullptr : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return refuse() ? nullptr : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : __libc_memalign(a, n); }
void *valloc(size_t n) { return refuse() ? nullptr : __libc_memalign(4096, n); }
void *reallocarray(void *p, size_t a, size_t b) { return refuse() ? nullptr : __libc_realloc(p, a * b); }
int posix_memalign(void **o, size_t a, size_t n) { if (refuse()) return ENOMEM; *o = __libc_memalign(a, n); return *o ? 0 : ENOMEM; }
}
#endif

// ---- working memory ----
static uint64_t g_dirty = 0; // 0: zero-filled; else a pattern
extern "C" void unit_dirty(void *p, size_t n) {
    auto b = (uint8_t *)p; uint64_t k = g_dirty;
    if (!k) { memset(b, 0, n); return; }
    if (k % 4 == 1) { memset(b, 0xFF, n); return; }                                            // NaN everywhere
    if (k % 4 == 2) { float f = std::numeric_limits<float>::infinity(); for (size_t i = 0; i + 4 <= n; i += 4) memcpy(b + i, &f, 4); return; }
    Rng r(k); for (size_t i = 0; i < n; i++) b[i] = r.next();
}

// ---- inputs ----
static std::vector<uint8_t> input(const UnitOp &o, int n, int dist, uint64_t vs) {
    Rng r(vs * 131 + dist); std::vector<uint8_t> out;
    if (n <= 0) return out;
    const float specials[] = {NAN, INFINITY, -INFINITY, 3.4e38f, -3.4e38f, 1e-40f, -0.0f, 0.0f, 1e9f, -1e9f};
    for (int i = 0; i < n; i++) {
        if (o.type == 'h') {
            int16_t v = dist == 0 ? r.range(-900, 900) : dist == 1 ? r.range(-32768, 32767) : dist == 2 ? r.pick(std::vector<int>{-32768, 32767, 0, 1, -1}) : r.range(-3, 3);
            out.insert(out.end(), (uint8_t *)&v, (uint8_t *)&v + 2);
        } else {
            float v = (r.unit() * 2 - 1) * 5;
            if (dist == 1) v = (r.unit() * 2 - 1) * 1e4f;
            if (dist == 2) v = specials[r.below(10)];
            if (dist == 3) v = r.chance(0.3) ? specials[r.below(3)] : v;
            out.insert(out.end(), (uint8_t *)&v, (uint8_t *)&v + 4);
        }
    }
    return out;
}
struct Result {
    int err = 0; std::vector<uint8_t> out;
    bool operator==(const Result &o) const { return err == o.err && out == o.out; }
};
// exact-size buffers on the heap, so that AddressSanitizer sees any stray access
struct Buf { uint8_t *p; size_t n; Buf(size_t n_) : p((uint8_t *)malloc(n_ ? n_ : 1)), n(n_) { if (!n_) { free(p); p = (uint8_t *)malloc(0); } } ~Buf() { free(p); } };
enum Bad { GOOD = -1, B_IN_SHORT, B_IN_LONG, B_IN_ZERO, B_IN_NEG, B_OUT_SHORT, B_OUT_LONG, B_SCR, B_NULLIN, B_NULLOUT, B_CONFIG, B_CONFIG2, B_KINDS };
static bool applies(const UnitOp &o, int bad) {
    switch (bad) {
    case B_IN_SHORT: case B_IN_ZERO: case B_IN_NEG: return o.checks & IN_SHORT;
    case B_IN_LONG: return o.checks & IN_LONG;
    case B_OUT_SHORT: return o.checks & OUT_SHORT; case B_OUT_LONG: return o.checks & OUT_LONG;
    case B_SCR: return o.checks & SCR; case B_NULLIN: return o.checks & NULLIN; case B_NULLOUT: return o.checks & NULLOUT; case B_CONFIG: case B_CONFIG2: return o.checks & CFG;
    }
    return false;
}
static const char *bad_name[] = {"input_short", "input_long", "input_empty", "input_negative_length", "output_short", "output_long", "scratch_short", "input_missing", "output_missing", "unusable_configuration", "unusable_configuration"};
static Result call(const UnitOp &o, void *self, int dist, uint64_t vs, int bad = GOOD, bool *touched = nullptr) {
    int nin = o.n_in, nout = o.n_out, nscr = o.n_scr;
    if (bad == B_IN_SHORT) nin -= vs % 4 == 3 ? (nin + 1) / 2 : 1 + (vs % 2 && nin > 2); if (bad == B_IN_LONG) nin += vs % 4 == 3 ? nin : 1 + vs % 3; if (bad == B_IN_ZERO) nin = 0; if (bad == B_IN_NEG) nin = -1 - (int)(vs % 3);
    if (bad == B_OUT_SHORT) nout -= 1; if (bad == B_OUT_LONG) nout += 1 + vs % 2; if (bad == B_SCR) nscr = vs % 2 ? nscr - 1 : nscr / 2;
    size_t isz = o.type == 'h' ? 2 : 4;
    auto v = input(o, nin, dist, vs);
    Buf in(v.size()), out((o.flags & INPLACE) && bad != B_OUT_SHORT && bad != B_OUT_LONG ? std::max<size_t>(v.size(), 0) : nout * 4), scr((size_t)nscr * o.scr_unit);
    memcpy(in.p, v.data(), v.size());
    unit_dirty(out.p, out.n); unit_dirty(scr.p, scr.n);
    if (o.flags & INPLACE) memcpy(out.p, v.data(), std::min(out.n, v.size()));
    std::vector<uint8_t> before(out.p, out.p + out.n);
    Result r;
    dirty_stack(); in_sut = true;
    r.err = o.call(self, bad == B_NULLIN ? nullptr : in.p, nin, bad == B_NULLOUT ? nullptr : (float *)out.p, nout, scr.p, bad == B_CONFIG || bad == B_CONFIG2 ? -1 - (int)(vs % 64) : nscr);
    in_sut = false;
    r.out.assign(out.p, out.p + out.n);
    if (touched) *touched = r.out != before || memcmp(in.p, v.data(), v.size());
    else if (memcmp(in.p, v.data(), v.size())) violate("input-modified", "%s %s changed its input", o.unit, o.name);
    if (r.err && !touched) r.out.clear(); // only the error counts
    // results are compared as numbers: all NaN are the same
    if (!r.err) for (size_t i = 0; i + 4 <= r.out.size(); i += 4) { float f; memcpy(&f, &r.out[i], 4); if (std::isnan(f)) { f = NAN; memcpy(&r.out[i], &f, 4); } }
    return r;
}
static const UnitOp &op_of(const Line &l, int k) { return unit_ops[(uint64_t)std::labs(l.i(k)) % unit_ops_n]; }
static std::string key(const UnitOp &o) { return o.create ? std::string(o.unit) + (o.flags & STATE ? "!" : "") : o.unit; }
static void pack(std::vector<uint8_t> &o, const Result &r) { uint32_t h[2] = {(uint32_t)r.err, (uint32_t)r.out.size()}; o.insert(o.end(), (uint8_t *)h, (uint8_t *)h + 8); o.insert(o.end(), r.out.begin(), r.out.end()); }
static std::vector<Result> unpack(const std::vector<uint8_t> &b) {
    std::vector<Result> v; size_t p = 0;
    while (p + 8 <= b.size()) { uint32_t h[2]; memcpy(h, &b[p], 8); p += 8; Result r; r.err = (int)h[0]; r.out.assign(b.begin() + p, b.begin() + p + h[1]); p += h[1]; v.push_back(r); }
    return v;
}
static std::vector<int> ops_of_unit(const std::string &u) { std::vector<int> v; for (int i = 0; i < unit_ops_n; i++) if (u == unit_ops[i].unit) v.push_back(i); return v; }
static std::vector<std::string> unit_names() { std::vector<std::string> v; for (int i = 0; i < unit_ops_n; i++) if (v.empty() || v.back() != unit_ops[i].unit) v.push_back(unit_ops[i].unit); return v; }

// ---- C05 ----
static Plan plan_preempt(Rng &r) {
    Plan p; auto names = unit_names(); int n = r.range(2, 4);
    // few units in use by several tasks: the more they share, the more they can disturb one another
    std::vector<std::string> use; int nu = r.range(1, 4); for (int i = 0; i < nu; i++) use.push_back(r.pick(names));
    if (r.chance(0.25)) use = {"nb2", "nml", "nrm", "nb2g", "nmlg", "nrmg", "nmi", "nmig", "nbig"};
    // long histories of instances with state, where only later results tell
    bool stateful = r.chance(0.12); if (stateful) use = {r.pick(std::vector<std::string>{"knl", "knl", "iir", "win", "wiir", "wwin"})};
    int total = 0;
    for (int t = 0; t < n; t++) {
        int c = stateful ? r.range(4, 14) : r.range(1, 6); total += c;
        for (int k = 0; k < c; k++) { auto o = ops_of_unit(r.pick(use)); p.add("call %d %d %d %d %d", t, r.pick(o), r.chance(0.7) ? 0 : (int)r.below(4), (int)r.below(100000), r.chance(0.2) ? (int)r.below(B_KINDS) : -1); }
    }
    rtos::plan_slices(p, r, n, r.range(4, 30 + total * 4), r.chance(0.4) ? 4.5 : 7.5);
    return p;
}
struct TaskProg { std::vector<Line> calls; std::map<std::string, void *> inst; std::vector<Result> got; };
static void make_inst(TaskProg &t) { for (auto &l : t.calls) { auto &o = op_of(l, 2); if (o.create && !t.inst.count(key(o))) t.inst[key(o)] = o.create(); } }
static Result task_call(TaskProg &t, const Line &l) {
    auto &o = op_of(l, 2); int bad = l.i(5, -1); if (bad < 0 || !applies(o, bad % B_KINDS)) bad = GOOD; else bad %= B_KINDS;
    bool touched = false; return call(o, o.create ? t.inst[key(o)] : nullptr, l.i(3), l.u(4), bad, bad == GOOD ? nullptr : &touched);
}
static void run_preempt(const Plan &p) {
    std::map<int, TaskProg> tp; std::map<std::string, int> owner;
    for (auto &l : p.lines) if (l.op() == "call") {
        int t = l.i(1); auto &o = op_of(l, 2);
        if (o.flags & EXCL) { auto it = owner.find(o.unit); if (it == owner.end()) owner[o.unit] = t; else if (it->second != t) continue; }
        tp[t].calls.push_back(l);
    }
    std::vector<TaskProg *> v; for (auto &k : tp) v.push_back(&k.second);
    std::vector<std::vector<Result>> base;
    for (auto *t : v) base.push_back(unpack(rtos::alone([&] { make_inst(*t); std::vector<uint8_t> b; for (auto &l : t->calls) pack(b, task_call(*t, l)); return b; })));
    for (auto *t : v) make_inst(*t);
    for (size_t i = 0; i < v.size(); i++) {
        TaskProg *t = v[i];
        rtos::add([t] { for (auto &l : t->calls) t->got.push_back(task_call(*t, l)); });
    }
    rtos::run(rtos::slices(p));
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i]->got.size() != base[i].size()) harness_error("calls missing");
        for (size_t k = 0; k < base[i].size(); k++) {
            auto &o = op_of(v[i]->calls[k], 2); count("calls"); if (v[i]->calls[k].i(5, -1) >= 0 && applies(o, v[i]->calls[k].i(5) % B_KINDS)) count("fault_rejected_calls"); reach("%s %s err%d n%zu", o.unit, o.name, base[i][k].err != 0, v.size());
            hash_bytes(v[i]->got[k].out.data(), v[i]->got[k].out.size());
            if (!(v[i]->got[k] == base[i][k])) violate("interference", "task %zu call %zu (%s %s) differs from the task running alone: error %d, alone %d", i, k, o.unit, o.name, v[i]->got[k].err, base[i][k].err);
        }
    }
    note("preemptions %lu", (unsigned long)rtos::cpu().preemptions);
}

// ---- C06 ----
static Plan plan_history(Rng &r) {
    Plan p; auto names = unit_names(); std::vector<std::string> use; int nu = r.range(1, 3);
    for (int i = 0; i < nu; i++) use.push_back(r.pick(names));
    int n = r.range(2, 24); uint64_t vs = r.below(100000);
    for (int i = 0; i < n; i++) {
        auto o = ops_of_unit(r.pick(use)); int k = r.pick(o); int dirty = r.chance(0.3) ? 0 : (int)r.range(1, 5000);
        if (r.chance(0.4)) vs = r.below(100000);
        if (r.chance(0.35)) p.add("bad %d %d %d %d %d", k, (int)r.below(4), (int)vs, dirty, (int)r.below(B_KINDS));
        else p.add("call %d %d %d %d", k, r.chance(0.55) ? 0 : (int)r.below(4), (int)vs, dirty);
    }
    for (int i = r.range(1, 4); i-- > 0;) { auto o = ops_of_unit(r.pick(use)); p.add("probe %d %d %d %d", r.pick(o), r.chance(0.6) ? 0 : (int)r.below(4), (int)(r.chance(0.5) ? vs : r.below(100000)), (int)r.range(1, 5000)); }
    return p;
}
static void run_history(const Plan &p) {
    std::map<std::string, void *> inst; std::map<std::string, Result> first;
    // what each probe gives as the only call of a fresh process, with clean working memory
    std::vector<Result> fresh; size_t nfresh = 0;
    for (auto &l : p.lines) if (l.op() == "probe" && !(op_of(l, 1).flags & STATE)) {
        auto &o = op_of(l, 1);
        auto b = unpack(rtos::alone([&] { g_dirty = 0; void *s2 = o.create ? o.create() : nullptr; std::vector<uint8_t> v; pack(v, call(o, s2, l.i(2) & 3, l.u(3))); return v; }));
        if (b.size() != 1) harness_error("probe"); fresh.push_back(b[0]);
    }
    auto self = [&](const UnitOp &o) -> void * { if (!o.create) return nullptr; auto &s = inst[key(o)]; if (!s) s = o.create(); return s; };
    int i = 0;
    for (auto &l : p.lines) {
        i++;
        if (l.op() != "call" && l.op() != "probe" && l.op() != "bad") continue;
        auto &o = op_of(l, 1); if (o.flags & STATE) continue;
        g_dirty = l.u(4); void *s = self(o); unit_redirty(&o, s); if (g_dirty) count("fault_dirty_memory");
        if (l.op() == "bad") {
            int bad = (uint64_t)std::labs(l.i(5)) % B_KINDS; if (!applies(o, bad)) continue;
            bool touched = false; Result r = call(o, s, l.i(2), l.u(3), bad, &touched);
            count((std::string("fault_") + bad_name[bad]).c_str()); note("bad %s %s %d -> %d", o.unit, o.name, bad, r.err); reach("bad %s %s %d", o.unit, o.name, bad);
            if (!r.err) violate("bad-accepted", "%s %s: %s was not rejected", o.unit, o.name, bad_name[bad]);
            if (touched) violate("rejected-modified", "%s %s: rejected call (%s) changed its input or output", o.unit, o.name, bad_name[bad]);
            continue;
        }
        int dist = l.i(2) & 3; Result r = call(o, s, dist, l.u(3));
        if (dist >= 2) count("fault_special_values"); count("calls");
        note("call %s %s %d -> %d", o.unit, o.name, dist, r.err); hash_bytes(r.out.data(), r.out.size()); reach("call %s %s d%d e%d", o.unit, o.name, dist, r.err != 0);
        if (dist == 0 && r.err && !(o.flags & MAYFAIL)) violate("valid-refused", "%s %s: ordinary input returned error %d", o.unit, o.name, r.err);
        std::string id = std::string(o.unit) + "/" + o.name + "/" + std::to_string(dist) + "/" + std::to_string(l.u(3));
        auto it = first.find(id);
        if (it == first.end()) first[id] = r;
        else if (!(it->second == r)) violate("history-dependent", "%s %s: the same input gave different results within one history", o.unit, o.name);
        if (l.op() == "probe") {
            count("probes");
            if (!(fresh.at(nfresh++) == r)) violate("history-dependent", "%s %s: result after %d operations differs from the only call of a fresh process", o.unit, o.name, i);
        }
    }
}

// ---- C07 ----
static Plan plan_alloc(Rng &r) {
    Plan p; p.add("cfg alloc %d", r.chance(0.8) ? 1 : 2);
    auto names = unit_names(); int n = r.range(2, 30); std::vector<std::string> use; for (int i = r.range(1, 6); i-- > 0;) use.push_back(r.pick(names));
    for (int i = 0; i < n; i++) p.add("call 0 %d %d %d", r.pick(ops_of_unit(r.pick(use))), r.chance(0.7) ? 0 : (int)r.below(4), (int)r.below(100000));
    return p;
}
static void run_alloc(const Plan &p) {
    TaskProg t; for (auto &l : p.lines) if (l.op() == "call") t.calls.push_back(l);
    auto base = unpack(rtos::alone([&] { g_alloc_mode = 0; make_inst(t); std::vector<uint8_t> b; for (auto &l : t.calls) pack(b, task_call(t, l)); return b; }));
    make_inst(t);
    g_alloc_mode = p.cfg("alloc", 1);
    if (t.calls.size() != base.size()) harness_error("calls missing");
    for (size_t k = 0; k < base.size(); k++) {
        auto &o = op_of(t.calls[k], 2); unsigned long f0 = g_alloc_failed;
        Result r = task_call(t, t.calls[k]);
        count("calls_without_heap"); if (g_alloc_failed != f0) count("fault_alloc_failed", g_alloc_failed - f0);
        note("%s %s -> %d", o.unit, o.name, r.err); hash_bytes(r.out.data(), r.out.size()); reach("%s %s e%d", o.unit, o.name, r.err != 0);
        if (!(r == base[k])) violate("needs-heap", "%s %s: error %d when allocations fail (%lu refused), %d when they work", o.unit, o.name, r.err, g_alloc_failed - f0, base[k].err);
        if (base[k].err && t.calls[k].i(3) == 0 && !(o.flags & MAYFAIL)) violate("valid-refused", "%s %s: ordinary input returned error %d", o.unit, o.name, base[k].err);
    }
    count("fault_allocator_refusing_runs");
}

Plan make_plan(uint64_t seed) {
    Rng r(seed);
    return property() == "C05" ? plan_preempt(r) : property() == "C06" ? plan_history(r) : plan_alloc(r);
}
void execute(const Plan &p) {
    budget(40000000); // a call that never returns is a violation, not a stuck check
    if (property() == "C05") run_preempt(p); else if (property() == "C06") run_history(p); else run_alloc(p);
    run().steps = step_count();
}
