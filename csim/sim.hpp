// Deterministic simulation kernel shared by all C-side simulators.
//
//   sim run  SEED0 COUNT STATS.json   seeded runs, one forked child per run
//   sim plan SEED                     print the plan (workload + schedule + faults) of a seed
//   sim exec PLANFILE [trace]         execute a plan; exit 0 held, 1 violated, 3 harness error
//
// A plan is a list of text lines; executing it is a pure function of the plan
// and the code under test. Any subset of the lines of a plan is a valid plan,
// which is what minimisation relies on.
#pragma once
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Line {
    std::vector<std::string> f;
    const std::string &op() const { return f[0]; }
    long i(size_t k, long def = 0) const { return k < f.size() ? strtol(f[k].c_str(), nullptr, 0) : def; }
    uint64_t u(size_t k, uint64_t def = 0) const { return k < f.size() ? strtoull(f[k].c_str(), nullptr, 0) : def; }
    double d(size_t k, double def = 0) const { return k < f.size() ? strtod(f[k].c_str(), nullptr) : def; }
    std::string s(size_t k, const char *def = "") const { return k < f.size() ? f[k] : std::string(def); }
};

struct Plan {
    std::vector<Line> lines;
    void add(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        addline(buf);
    }
    void addline(const std::string &t) {
        Line l; std::istringstream is(t); std::string w;
        while (is >> w) l.f.push_back(w);
        if (!l.f.empty() && l.f[0][0] != '#') lines.push_back(l);
    }
    std::string text() const {
        std::string o;
        for (auto &l : lines) { for (size_t k = 0; k < l.f.size(); k++) { if (k) o += ' '; o += l.f[k]; } o += '\n'; }
        return o;
    }
    // last "cfg key value" line, or default
    long cfg(const char *key, long def) const {
        long v = def;
        for (auto &l : lines) if (l.op() == "cfg" && l.s(1) == key) v = l.i(2);
        return v;
    }
};

// ---- per-run state (one run per process) ----
struct Run {
    std::map<std::string, long> count;      // fault kinds fired, probes hit
    uint64_t hash = 1469598103934665603ull; // trace hash: distinct executions
    uint64_t state = 0;                     // order-insensitive set of reached states (xor of hashes)
    std::set<uint32_t> states;              // reached abstract states, as hashes
    uint64_t simtime_us = 0;
    uint64_t steps = 0;
    bool trace = false;
    bool done = false;
};
inline Run &run() { static Run r; return r; }
inline int &report_fd() { static int fd = 2; return fd; }

inline void hash_bytes(const void *p, size_t n) {
    auto &h = run().hash; auto b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
}
inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    hash_bytes(buf, std::min((size_t)n, sizeof buf - 1));
    hash_bytes("\n", 1);
    if (run().trace) { dprintf(report_fd(), "T %s\n", buf); }
}
inline void count(const char *k, long n = 1) { run().count[k] += n; }
inline void reach(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void reach(const char *fmt, ...) {
    char buf[256];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    uint32_t h = 2166136261u; for (char *c = buf; *c; c++) { h ^= (unsigned char)*c; h *= 16777619u; }
    run().states.insert(h);
}

inline void emit(bool ok, const char *cls, const std::string &msg) {
    auto &r = run();
    std::ostringstream o;
    o << (ok ? "OK" : "FAIL") << " " << (ok ? "-" : cls) << " " << r.hash << " " << r.steps << " " << r.simtime_us;
    o << " c=" << r.count.size();
    for (auto &kv : r.count) o << " " << kv.first << "=" << kv.second;
    o << " s=" << r.states.size();
    for (auto s : r.states) o << " " << s;
    o << "\n";
    if (!ok) { std::string m = msg; for (auto &c : m) if (c == '\n') c = ' '; o << "MSG " << m << "\n"; }
    std::string t = o.str(); size_t off = 0;
    while (off < t.size()) { ssize_t w = write(report_fd(), t.data() + off, t.size() - off); if (w <= 0) break; off += w; }
}
// A property violation. The class names what was violated; minimisation keeps it.
[[noreturn]] inline void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void violate(const char *cls, const char *fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    emit(false, cls, buf);
    _exit(1);
}
[[noreturn]] inline void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void harness_error(const char *fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    dprintf(report_fd(), "HARNESS %s\n", buf);
    _exit(3);
}

// ---- step accounting from compiler instrumentation of the code under test ----
// (trace-pc-guard: one event per basic block edge; trace-loads/stores: one per access)
inline uint64_t &step_budget() { static uint64_t b = 0; return b; } // 0: unlimited
inline uint64_t &step_count() { static uint64_t c = 0; return c; }
inline void budget(uint64_t n) { step_count() = 0; step_budget() = n; }
inline void (*&step_hook())() { static void (*h)() = nullptr; return h; } // preemption decision of a simulator
inline void (*&static_hook())(void *, bool) { static void (*h)(void *, bool) = nullptr; return h; } // access to static memory
extern bool in_sut;             // set while code under test runs on the simulated CPU
// What lies below the stack pointer when code under test is called: variables it forgets to set have these values.
inline uint64_t &stack_salt() { static uint64_t s = 1; return s; }
__attribute__((noinline, no_sanitize("address", "undefined"))) inline void dirty_stack() {
    uint8_t b[6000]; uint64_t k = stack_salt() = stack_salt() * 6364136223846793005ull + 1442695040888963407ull;
    switch ((k >> 40) % 5) {
    case 0: memset(b, 0, sizeof b); break;
    case 1: memset(b, 0xFF, sizeof b); break;
    case 2: for (size_t i = 0; i + 4 <= sizeof b; i += 4) { int32_t v = 1 + (k >> 50) % 7; memcpy(b + i, &v, 4); } break;
    case 3: for (size_t i = 0; i + 4 <= sizeof b; i += 4) { float v = 1e3f; memcpy(b + i, &v, 4); } break;
    default: for (size_t i = 0; i + 8 <= sizeof b; i += 8) { k = k * 6364136223846793005ull + 1442695040888963407ull; memcpy(b + i, &k, 8); }
    }
    asm volatile("" :: "r"(b) : "memory");
}
inline std::string property() { const char *p = getenv("SIM_PROPERTY"); return p ? p : ""; }

} // namespace sim

// To be provided by each simulator
sim::Plan make_plan(uint64_t seed);
void execute(const sim::Plan &plan);

#ifdef SIM_MAIN
namespace sim {
bool in_sut = false;
static inline void step_event() {
    uint64_t c = ++step_count();
    if (step_budget() && c > step_budget()) { step_budget() = 0; violate("hang", "no result within the step budget"); }
    if (step_hook()) step_hook()();
}
}
extern "C" char __data_start, _end;
namespace sim { static inline void access_event(void *p, bool store) { if ((char *)p >= &__data_start && (char *)p < &_end && static_hook()) static_hook()(p, store); } }
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { sim::step_event(); }
// accesses to the static memory of the program are told to the scheduler: they are what tasks can disturb
#define SIM_ACC(n) void __sanitizer_cov_load##n(void *p) { sim::step_event(); sim::access_event(p, false); } void __sanitizer_cov_store##n(void *p) { sim::step_event(); sim::access_event(p, true); }
SIM_ACC(1) SIM_ACC(2) SIM_ACC(4) SIM_ACC(8) SIM_ACC(16)
}
namespace sim {

struct Totals {
    long runs = 0; uint64_t steps = 0, simtime = 0;
    std::map<std::string, long> count; std::set<uint64_t> hashes; std::set<uint32_t> states;
};

inline void child_setup() {
    // the library prints diagnostics: keep them out of the report
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    rlim_t cpu = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 20;
    struct rlimit rl = {cpu, cpu + 1};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
}

// runs one plan in a forked child; returns 0 ok, 1 violation, 3 harness
inline int one(const std::function<Plan()> &mk, Totals *t, std::string &cls, std::string &msg, bool trace, std::string *tracelog) {
    int p[2]; if (pipe(p)) { perror("pipe"); exit(3); }
    int errp[2]; if (pipe(errp)) { perror("pipe"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(p[0]); close(errp[0]); report_fd() = p[1];
        dup2(errp[1], 2); close(errp[1]);
        child_setup();
        run().trace = trace;
        Plan plan = mk();
        execute(plan);
        emit(true, "-", "");
        _exit(0);
    }
    close(p[1]); close(errp[1]);
    std::string out, err; char buf[65536]; ssize_t n;
    fd_set fs; bool o1 = true, o2 = true;
    while (o1 || o2) {
        FD_ZERO(&fs); if (o1) FD_SET(p[0], &fs); if (o2) FD_SET(errp[0], &fs);
        if (select(std::max(p[0], errp[0]) + 1, &fs, 0, 0, 0) < 0) { if (errno == EINTR) continue; break; }
        if (o1 && FD_ISSET(p[0], &fs)) { n = read(p[0], buf, sizeof buf); if (n > 0) out.append(buf, n); else o1 = false; }
        if (o2 && FD_ISSET(errp[0], &fs)) { n = read(errp[0], buf, sizeof buf); if (n > 0) { if (err.size() < 20000) err.append(buf, n); } else o2 = false; }
    }
    close(p[0]); close(errp[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (tracelog) { std::istringstream is(out); std::string l; while (std::getline(is, l)) if (l.rfind("T ", 0) == 0) *tracelog += l.substr(2) + "\n"; }
    std::istringstream is(out); std::string l; bool seen = false; int rc = 3;
    while (std::getline(is, l)) {
        if (l.rfind("HARNESS ", 0) == 0) { msg = l; return 3; }
        if (l.rfind("MSG ", 0) == 0) { msg = l.substr(4); continue; }
        if (l.rfind("OK ", 0) == 0 || l.rfind("FAIL ", 0) == 0) {
            std::istringstream ls(l); std::string a; uint64_t h, s, tm; ls >> a >> cls >> h >> s >> tm;
            std::string c; ls >> c; int nc = atoi(c.c_str() + 2);
            if (t) {
                t->hashes.insert(h); t->steps += s; t->simtime += tm; t->runs++;
                for (int k = 0; k < nc; k++) { ls >> c; auto e = c.find('='); t->count[c.substr(0, e)] += atol(c.c_str() + e + 1); }
                ls >> c; int ns = atoi(c.c_str() + 2);
                for (int k = 0; k < ns; k++) { uint32_t v; ls >> v; t->states.insert(v); }
            }
            seen = true; rc = (a == "OK") ? 0 : 1;
        }
    }
    if (seen && !(rc == 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))) return rc;
    // died without a verdict: memory error or crash of the code under test
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { cls = "hang"; msg = "no result within the CPU limit"; return 1; } // a loop without instrumented steps
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { cls = "killed"; msg = "run was killed from outside"; return 3; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { cls = "harness"; msg = "harness error " + err.substr(0, 300); return 3; }
    cls = "crash";
    auto k = err.find("ERROR: AddressSanitizer:");
    if (k != std::string::npos) {
        cls = "memory-error"; auto e = err.find('\n', k); msg = err.substr(k, e - k);
        // keep only the kind and the first frame in the code under test, which are stable over runs
        auto at = err.find(" #0 "); (void)at;
        std::istringstream es(msg); std::string w1, w2, w3; es >> w1 >> w2 >> w3; msg = w1 + " " + w2 + " " + w3;
    } else if ((k = err.find("runtime error:")) != std::string::npos) {
        cls = "undefined-behaviour"; auto b = err.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; auto e = err.find('\n', k); msg = err.substr(b, e - b);
    } else {
        msg = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
    }
    return 1;
}

inline std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

} // namespace sim

int main(int argc, char **argv) {
    using namespace sim;
    signal(SIGPIPE, SIG_IGN);
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "plan" && argc > 2) { printf("%s", make_plan(strtoull(argv[2], 0, 10)).text().c_str()); return 0; }
    if (mode == "exec" && argc > 2) {
        Plan p; std::ifstream f(argv[2]); std::string l;
        if (!f) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        while (std::getline(f, l)) p.addline(l);
        std::string cls, msg, tl; bool tr = argc > 3; Totals t;
        int rc = one([&] { return p; }, &t, cls, msg, tr, &tl);
        if (tr) printf("%s", tl.c_str());
        printf("RESULT %d CLASS %s HASH %llu\n", rc, rc ? cls.c_str() : "-", t.hashes.empty() ? 0ull : (unsigned long long)*t.hashes.begin());
        if (rc) printf("MSG %s\n", msg.c_str());
        return rc;
    }
    if (mode == "run" && argc > 4) {
        uint64_t s0 = strtoull(argv[2], 0, 10); long n = atol(argv[3]);
        Totals t; int rc = 0; uint64_t bad = 0; std::string cls, msg;
        FILE *hl = argc > 5 ? fopen(argv[5], "w") : nullptr; // per-seed verdict log, for determinism checks
        for (long k = 0; k < n; k++) {
            uint64_t seed = s0 + k;
            Totals one_t;
            rc = one([&] { return make_plan(seed); }, &one_t, cls, msg, false, nullptr);
            t.runs++; t.steps += one_t.steps; t.simtime += one_t.simtime;
            for (auto &kv : one_t.count) t.count[kv.first] += kv.second;
            t.hashes.insert(one_t.hashes.begin(), one_t.hashes.end());
            t.states.insert(one_t.states.begin(), one_t.states.end());
            if (hl) fprintf(hl, "%llu %d %llu\n", (unsigned long long)seed, rc, one_t.hashes.empty() ? 0ull : (unsigned long long)*one_t.hashes.begin());
            if (rc) { bad = seed; break; }
        }
        if (hl) fclose(hl);
        FILE *o = fopen(argv[4], "w"); if (!o) { perror(argv[4]); return 3; }
        fprintf(o, "{\"rc\":%d,\"seed\":%llu,\"class\":\"%s\",\"msg\":\"%s\",\"runs\":%ld,\"steps\":%llu,\"simtime_us\":%llu,\"counts\":{",
            rc, (unsigned long long)bad, esc(cls).c_str(), esc(msg).c_str(), t.runs, (unsigned long long)t.steps, (unsigned long long)t.simtime);
        bool first = true; for (auto &kv : t.count) { fprintf(o, "%s\"%s\":%ld", first ? "" : ",", esc(kv.first).c_str(), kv.second); first = false; }
        fprintf(o, "},\"hashes\":["); first = true; for (auto h : t.hashes) { fprintf(o, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(o, "],\"states\":["); first = true; for (auto h : t.states) { fprintf(o, "%s%u", first ? "" : ",", h); first = false; }
        fprintf(o, "]}\n"); fclose(o);
        return rc;
    }
    fprintf(stderr, "usage: run SEED0 COUNT STATS | plan SEED | exec PLANFILE [trace]\n");
    return 3;
}
#endif
