// C10: streaming IIR filters. Several instances in preemptively scheduled tasks, with saved and
// restored state, power cuts in the middle of a call, and rejected initialisations.
#define SIM_MAIN
#include "rtos.hpp"
#include <cmath>
using namespace sim;
extern "C" { int iir_check(int, float *, int, const float *, int); float iir_filter(int, float *, int, const float *, int, float); }
// every call finds different values below the stack pointer
#define iir_check(...) (dirty_stack(), iir_check(__VA_ARGS__))
#define iir_filter(...) (dirty_stack(), iir_filter(__VA_ARGS__))

static const int MAXN = 150; // more stages than 8 bits can index in the state
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p;
    int n = r.range(1, 4), total = 0;
    for (int i = 0; i < n; i++) {
        p.add("inst %d %d %d", i, (int)(r.chance(0.03) ? r.range(6, r.chance(0.15) ? MAXN : 70) : r.range(1, 5)), (int)r.below(1000000));
        int ops = r.range(2, 8);
        for (int k = 0; k < ops; k++) {
            double u = r.unit();
            if (u < 0.55 || k == 0) { int m = r.range(1, 40); total += m; p.add("feed %d %d %d %d", i, m, (int)r.below(5), (int)r.below(1000000)); }
            else if (u < 0.72) p.add("save %d", i);
            else if (u < 0.84) p.add("restart %d %d", i, (int)r.below(2));
            else if (u < 0.94) p.add("powercut %d %d", i, (int)(1 + exp(r.unit() * 6)));
            else p.add("badinit %d %d", i, (int)r.below(8));
        }
    }
    if (n > 1) rtos::plan_slices(p, r, n, r.range(5, 120), r.chance(0.5) ? 4.0 : 7.0);
    return p;
}
struct Inst {
    int ns = 1; std::vector<float> co; std::vector<float> sig; std::vector<uint32_t> base;
    std::vector<Line> prog; double rmax = 0;
    // device side: everything here is lost on power cut except what was saved (durable)
    float *st = nullptr; float *dco = nullptr;
    std::vector<float> saved; size_t saved_pos = 0; size_t pos = 0; size_t pc = 0; long outputs = 0;
};
static void gen_signal(std::vector<float> &s, int n, int kind, uint64_t seed) {
    Rng r(seed);
    for (int i = 0; i < n; i++) {
        float v = 0;
        switch (kind) { case 0: v = r.unit() * 2 - 1; break; case 1: v = i == 0 ? 1 : 0; break; case 2: v = (r.unit() * 2 - 1) * 1000; break; case 3: v = 1; break; default: v = r.chance(0.05) ? 30000.0f : (float)(r.unit() * 0.01); }
        s.push_back(v);
    }
}
static void bad_init(int kind, int ns) {
    std::vector<float> st(4 * MAXN, 0.5f), co(6 * MAXN, 0.25f); auto s0 = st, c0 = co; int rc = 0; const char *w = "";
    switch (kind) {
    case 0: rc = iir_check(0, st.data(), 0, co.data(), 0); w = "no stages"; break;
    case 1: rc = iir_check(-1, st.data(), -4, co.data(), -6); w = "negative stages"; break;
    case 2: rc = iir_check(ns, nullptr, 4 * ns, co.data(), 6 * ns); w = "no state buffer"; break;
    case 3: rc = iir_check(ns, st.data(), 4 * ns, nullptr, 6 * ns); w = "no coefficients"; break;
    case 4: rc = iir_check(ns, st.data(), 4 * ns - 1, co.data(), 6 * ns); w = "short state buffer"; break;
    case 5: rc = iir_check(ns, st.data(), 4 * ns, co.data(), 6 * ns - 1); w = "short coefficients"; break;
    case 6: rc = iir_check(ns, st.data(), 2 * ns, co.data(), 6 * ns); w = "state for half the stages"; break;
    default: rc = iir_check(ns, st.data(), 4 * ns, co.data(), 5 * ns); w = "coefficients without one of six"; break;
    }
    count("fault_bad_init");
    if (rc == 0) violate("bad-init-accepted", "initialisation with %s was not rejected", w);
    if (st != s0 || co != c0) violate("bad-init-wrote", "rejected initialisation changed the buffers");
}
static void place(Inst &x, bool fill_zero) {
    free(x.st); free(x.dco);
    x.st = (float *)malloc(4 * x.ns * sizeof(float)); x.dco = (float *)malloc(6 * x.ns * sizeof(float));
    memcpy(x.dco, x.co.data(), 6 * x.ns * sizeof(float));
    if (fill_zero) memset(x.st, 0, 4 * x.ns * sizeof(float)); else memset(x.st, 0xEE, 4 * x.ns * sizeof(float));
    int rc = iir_check(x.ns, x.st, 4 * x.ns, x.dco, 6 * x.ns);
    if (rc) violate("valid-init-refused", "valid initialisation with %d stages returned %d", x.ns, rc);
}
void execute(const Plan &p) {
    std::map<int, Inst> in;
    for (auto &l : p.lines) if (l.op() == "inst") {
        Inst x; x.ns = std::min<long>(MAXN, std::max(1l, l.i(2))); Rng r(l.u(3));
        for (int s = 0; s < x.ns; s++) {
            bool deep = x.ns > 5; // many stages: each close to 1, so that the cascade neither explodes nor vanishes
            double rad = r.unit() * (deep ? 0.3 : 0.95), th = r.unit() * M_PI, zr = r.unit() * (deep ? 0.3 : 1.2), zt = r.unit() * M_PI, g = deep ? 0.8 + 0.3 * r.unit() : 0.2 + r.unit();
            if (rad > x.rmax) x.rmax = rad;
            float c[6] = {(float)g, (float)(-2 * g * zr * cos(zt)), (float)(g * zr * zr), 1.0f, (float)(-2 * rad * cos(th)), (float)(rad * rad)};
            x.co.insert(x.co.end(), c, c + 6);
        }
        in[l.i(1)] = x;
    }
    for (auto &l : p.lines) if (l.op() == "feed" || l.op() == "save" || l.op() == "restart" || l.op() == "powercut" || l.op() == "badinit") {
        auto it = in.find(l.i(1)); if (it == in.end()) continue;
        it->second.prog.push_back(l);
        if (l.op() == "feed") gen_signal(it->second.sig, std::min(200l, l.i(2)), l.i(3), l.u(4));
    }
    std::vector<Inst *> v; for (auto &k : in) v.push_back(&k.second);
    if (v.empty()) return;
    // each instance alone, undisturbed, in a fresh process; and against the cascade in double precision
    for (auto *x : v) {
        auto b = rtos::alone([&] {
            place(*x, true); std::vector<uint8_t> o;
            for (float s : x->sig) { float y = iir_filter(x->ns, x->st, 4 * x->ns, x->dco, 6 * x->ns, s); o.insert(o.end(), (uint8_t *)&y, (uint8_t *)&y + 4); }
            return o;
        });
        x->base.resize(x->sig.size()); memcpy(x->base.data(), b.data(), b.size());
        std::vector<double> z(2 * x->ns, 0.0); double scale = 1e-6;
        for (size_t i = 0; i < x->sig.size(); i++) {
            double y = x->sig[i];
            for (int s = 0; s < x->ns; s++) {
                const float *c = &x->co[6 * s]; double in = y; y = c[0] * in + z[2 * s];
                z[2 * s] = c[1] * in - c[4] * y + z[2 * s + 1]; z[2 * s + 1] = c[2] * in - c[5] * y;
                scale = std::max({scale, std::fabs(in), std::fabs(y), std::fabs(z[2 * s]), std::fabs(z[2 * s + 1])});
            }
            float got; memcpy(&got, &x->base[i], 4);
            double tol = 2e-6 * scale * x->ns / ((1 - x->rmax) * (1 - x->rmax)) * 0.2 + 1e-5 * scale;
            if (!(std::fabs(got - y) <= tol)) violate("wrong-response", "sample %zu: output %.9g, cascade gives %.9g (%d stages)", i, got, y, x->ns);
        }
    }
    for (auto *x : v) {
        place(*x, true); x->saved.assign(4 * x->ns, 0.0f);
        int id = rtos::cpu().tasks.size();
        rtos::add([x, id] {
            // entry point: also reached after a power cut, with RAM lost
            if (x->pos || x->pc || x->outputs) { place(*x, false); memcpy(x->st, x->saved.data(), 4 * x->ns * sizeof(float)); x->pos = x->saved_pos; }
            auto play = [&](size_t to) {
                while (x->pos < to) {
                    in_sut = true; float y = iir_filter(x->ns, x->st, 4 * x->ns, x->dco, 6 * x->ns, x->sig[x->pos]); in_sut = false;
                    uint32_t u; memcpy(&u, &y, 4);
                    if (u != x->base[x->pos]) violate("interference", "instance %d sample %zu: %.9g, alone %.9g", id, x->pos, y, *(float *)&x->base[x->pos]);
                    x->pos++; x->outputs++;
                }
            };
            size_t target = 0; for (size_t k = 0; k < x->pc; k++) if (x->prog[k].op() == "feed") target += std::min(200l, x->prog[k].i(2));
            play(target); // catch up to where the signal was
            for (; x->pc < x->prog.size();) {
                const Line &l = x->prog[x->pc++];
                if (l.op() == "feed") { target += std::min(200l, l.i(2)); play(target); }
                else if (l.op() == "save") { play(target); x->saved.assign(x->st, x->st + 4 * x->ns); x->saved_pos = x->pos; count("saves"); }
                else if (l.op() == "restart") {
                    play(target); count("fault_restart");
                    // into a new instance elsewhere: from the current state (1) or the last saved one (0)
                    std::vector<float> s = l.i(2) ? std::vector<float>(x->st, x->st + 4 * x->ns) : x->saved;
                    if (!l.i(2)) x->pos = x->saved_pos;
                    memset(x->st, 0xEE, 4 * x->ns * sizeof(float)); place(*x, false); memcpy(x->st, s.data(), s.size() * sizeof(float));
                    play(target);
                } else if (l.op() == "powercut") { count("fault_powercut"); rtos::cpu().tasks[id].kill_after = std::max(1l, l.i(2)); }
                else if (l.op() == "badinit") bad_init(l.i(2), x->ns);
            }
            play(target);
        });
    }
    rtos::run(rtos::slices(p));
    for (auto *x : v) if (x->pos != x->sig.size()) harness_error("task did not finish its signal");
    for (auto *x : v) { hash_bytes(x->base.data(), x->base.size() * 4); reach("st=%d n=%zu", x->ns, v.size()); count("samples", x->outputs); run().simtime_us += x->outputs * 1000; }
    note("done %lu", (unsigned long)rtos::cpu().preemptions);
    run().steps = step_count();
}
