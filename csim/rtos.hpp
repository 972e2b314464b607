// A simulated single-core RTOS: tasks on their own stacks, preempted at any instrumented
// instruction of the code under test, scheduled by the slices of the plan.
#pragma once
#include "sim.hpp"
#include <ucontext.h>
#include <sys/mman.h>

namespace rtos {
struct Task { ucontext_t ctx; char *stack = nullptr; std::function<void()> body; bool done = false, killed = false; uint64_t kill_after = 0; };
struct Cpu {
    std::vector<Task> tasks; ucontext_t main; int cur = -1; uint64_t left = 0; uint64_t preemptions = 0;
    uint64_t shared_left = 0, shared_preemptions = 0; std::set<void *> written; // static memory the tasks wrote to
};
inline Cpu &cpu() { static Cpu c; return c; }
static const size_t STACK = 256 * 1024;
inline void tramp(int i) { Cpu &c = cpu(); c.tasks[i].body(); c.tasks[i].done = true; swapcontext(&c.tasks[i].ctx, &c.main); }
inline void make(int i) {
    Task &t = cpu().tasks[i];
    if (!t.stack) t.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = nullptr;
    makecontext(&t.ctx, (void (*)())tramp, 1, i); t.done = t.killed = false;
}
inline void hook() {
    Cpu &c = cpu(); if (c.cur < 0) return;
    Task &t = c.tasks[c.cur];
    if (t.kill_after && --t.kill_after == 0) { t.killed = true; swapcontext(&t.ctx, &c.main); }
    if (c.left && --c.left == 0) { if (c.shared_left == ~0ull) c.shared_preemptions++; c.preemptions++; swapcontext(&t.ctx, &c.main); }
}
// A slice may end right after the k-th access to static memory that some task writes to:
// the windows in which tasks can disturb one another there are often a single instruction wide.
inline void shared_access(void *p, bool store) {
    Cpu &c = cpu(); if (c.cur < 0) return;
    if (store) c.written.insert(p); else if (!c.written.count(p)) return;
    if (c.shared_left && c.shared_left != ~0ull && --c.shared_left == 0) { c.shared_left = ~0ull; c.left = 1; }
}
inline void add(std::function<void()> b) { cpu().tasks.emplace_back(); cpu().tasks.back().body = b; }
// a voluntary scheduling point of a task (its turn ends)
inline void yield() { Cpu &c = cpu(); if (c.cur < 0) return; swapcontext(&c.tasks[c.cur].ctx, &c.main); }
inline void resume(int i, uint64_t steps, uint64_t shared = 0) {
    Cpu &c = cpu(); c.cur = i; c.left = steps; c.shared_left = shared; uint64_t at = sim::step_count();
    swapcontext(&c.main, &c.tasks[i].ctx); c.cur = -1; c.left = 0;
    uint64_t h[2] = {(uint64_t)i, sim::step_count() - at}; sim::hash_bytes(h, sizeof h);
    if (c.tasks[i].killed) make(i); // power cut or task kill: it starts over from its entry point
}
struct Slice { int first; uint64_t second, shared; };
// runs the slices (task, steps) in order, then every task to its end
inline void run(const std::vector<Slice> &slices) {
    Cpu &c = cpu(); int n = c.tasks.size(); if (!n) return;
    for (int i = 0; i < n; i++) make(i);
    sim::step_hook() = hook; sim::static_hook() = shared_access;
    uint64_t switches = 0; int last = -1;
    auto live = [&](int i) { for (int k = 0; k < n; k++) { int j = (i + k) % n; if (!c.tasks[j].done) return j; } return -1; };
    for (auto &s : slices) { int i = live(((s.first % n) + n) % n); if (i < 0) break; if (i != last) switches++; last = i; resume(i, s.second ? s.second : 1, s.shared); }
    for (int i; (i = live(0)) >= 0;) resume(i, 0);
    sim::step_hook() = nullptr; sim::static_hook() = nullptr;
    sim::count("switches", switches); sim::count("fault_preemption", c.preemptions); sim::count("fault_preemption_at_shared_access", c.shared_preemptions);
}
inline std::vector<Slice> slices(const sim::Plan &p) {
    std::vector<Slice> v;
    for (auto &l : p.lines) if (l.op() == "slice") v.push_back({(int)l.i(1), std::max<uint64_t>(1, l.u(2)), l.u(3)});
    return v;
}
// slices with log-uniform lengths, from single steps to whole calls; some end early at an access to shared static memory
inline void plan_slices(sim::Plan &p, sim::Rng &r, int tasks, int n, double maxlog) {
    double ps = r.chance(0.5) ? 0.7 : 0.1;
    for (int i = 0; i < n; i++) {
        int t = (int)r.below(tasks); unsigned long len = 1 + __builtin_exp(r.unit() * maxlog);
        if (r.chance(ps)) p.add("slice %d %lu %d", t, len * 20, (int)r.range(1, r.chance(0.5) ? 2 : 12)); else p.add("slice %d %lu", t, len);
    }
}
// runs f in a fresh child process and returns the bytes it produced
inline std::vector<uint8_t> alone(const std::function<std::vector<uint8_t>()> &f) {
    int p[2]; if (pipe(p)) sim::harness_error("pipe");
    pid_t pid = fork(); if (pid < 0) sim::harness_error("fork");
    if (pid == 0) {
        close(p[0]); auto v = f(); size_t o = 0; uint32_t n = v.size();
        if (write(p[1], &n, 4) != 4) _exit(3);
        while (o < v.size()) { ssize_t w = write(p[1], v.data() + o, v.size() - o); if (w <= 0) _exit(3); o += w; }
        _exit(0);
    }
    close(p[1]); std::vector<uint8_t> out; uint8_t b[65536]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.insert(out.end(), b, b + n);
    close(p[0]); int st; waitpid(pid, &st, 0);
    uint32_t len = 0; if (out.size() >= 4) memcpy(&len, out.data(), 4);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || out.size() != len + 4ull) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) _exit(1); // the child reported a violation itself
        if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
        signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(99);
    }
    out.erase(out.begin(), out.begin() + 4); return out;
}
} // namespace rtos
