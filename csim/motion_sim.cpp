// C29: motion feature extraction. Histories of valid and rejected calls on interleaved instances of the
// preprocessing, against fresh processes that make only the accepted calls of one instance and against the
// definition in double precision; and the offline tool as a whole program over a storage that fails.
#define SIM_MAIN
#include "rtos.hpp"
#include <cmath>
#include <complex>
using namespace sim;
extern "C" {
size_t mp_size(); int mp_fft_length(); int mp_columns_max(); int mp_window_max(); int mp_init(void *, int, int); int mp_gravity(void *, const float *, int); int mp_fft(void *, int, int); int mp_run(void *, const float *, int);
int mp_length(void *); int mp_get(void *, float *, size_t); int mp_name(void *, int, char *, size_t); const float *mp_lowpass(int *); int motion_main(int, const char **);
extern long msim_rows, msim_row_error, msim_rows_before_error;
}
#define mp_init(...) (dirty_stack(), mp_init(__VA_ARGS__))
#define mp_run(...) (dirty_stack(), mp_run(__VA_ARGS__))
#define mp_get(...) (dirty_stack(), mp_get(__VA_ARGS__))
static const int NF = 8;

static std::vector<float> samples(long n, int kind, uint64_t seed) {
    Rng r(seed); std::vector<float> v(n * 6); double f = 0.2 + r.unit() * 8, ph = r.unit() * 6.28, g[3] = {r.unit() * 2 - 1, r.unit() * 2 - 1, r.unit() * 2 - 1};
    for (long i = 0; i < n; i++) for (int c = 0; c < 6; c++) {
        double x = 0;
        switch (kind) {
        case 0: x = c < 3 ? 9.81 * g[c] + 2 * sin(f * i * 0.12 + ph + c) : r.unit() * 3; break;
        case 1: x = (r.unit() * 2 - 1) * 20; break;
        case 2: x = c < 3 ? 9.81 * g[c] : 0; break;                    // at rest
        case 3: x = (i / 20 + c) % 3 == 0 ? 30 : -5; break;           // steps
        case 4: x = (r.unit() * 2 - 1) * 2000; break;
        default: x = i % 17 == 3 ? 500 : 0.25 * (c + 1);              // impulses
        }
        v[i * 6 + c] = (float)x;
    }
    return v;
}
// the definition of the features, in double precision
struct Def {
    std::vector<double> co, z[3]; bool grav = false, known = true; long frames = 0; double g[3] = {0, 0, 0};
    double iir(int c, double x) { for (size_t s = 0; s < co.size() / 6; s++) { const double *k = &co[6 * s]; double *d = &z[c][2 * s]; double y = k[0] * x + d[0]; d[0] = k[1] * x - k[4] * y + d[1]; d[1] = k[2] * x - k[5] * y; x = y; } return x; }
    // fixed features, then the spectrum of the motion magnitude
    void window(const std::vector<float> &w, int fft, std::vector<double> &o, std::vector<std::complex<double>> &sp) {
        long n = w.size() / 6; double s[3] = {0, 0, 0}, lo = INFINITY, hi = -INFINITY, m2 = 0; std::vector<double> mag(fft, 0.0);
        for (long i = 0; i < n; i++) {
            double m[3];
            if (grav && frames == 0) for (int c = 0; c < 3; c++) for (int r = 0; r < 10; r++) iir(c, w[i * 6 + c]);
            for (int c = 0; c < 3; c++) { g[c] = grav ? iir(c, w[i * 6 + c]) : w[i * 6 + c]; m[c] = w[i * 6 + c] - g[c]; s[c] += m[c] * m[c]; }
            double a = m[0] * m[0] + m[1] * m[1] + m[2] * m[2], q = sqrt(a); m2 += a; lo = std::min(lo, q); hi = std::max(hi, q); if (i < fft) mag[i] = q; frames++;
        }
        double gm = sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2]);
        o = {g[0] / gm, g[1] / gm, g[2] / gm, sqrt(m2 / n), hi - lo, sqrt(s[0] / n), sqrt(s[1] / n), sqrt(s[2] / n)};
        sp.assign(fft, 0); for (int k = 0; k < fft; k++) { std::complex<double> a = 0; for (int i = 0; i < std::min<long>(n, fft); i++) a += mag[i] * std::polar(1.0, -2 * M_PI * k * i / fft); sp[k] = a; }
    }
};
static void check_def(const std::vector<float> &f, int start, const std::vector<double> &d, const std::vector<std::complex<double>> &sp, double scale, const char *where) {
    for (size_t k = 0; k < f.size(); k++) {
        if (k < (size_t)NF) { double tol = k < 3 ? 2e-3 : 2e-3 * scale + 1e-3; if (k < 3 && !std::isfinite(d[k])) continue; if (!(std::fabs(f[k] - d[k]) <= tol)) violate("feature-wrong", "%s: feature %zu is %.9g; by definition it is %.9g", where, k, f[k], d[k]); }
        else { auto c = sp[start + k - NF]; double tol = 4e-3 * scale * 10 + 1e-2; if (!(std::fabs(f[k] - std::fabs(c.real())) <= tol || std::fabs(f[k] - std::abs(c)) <= tol)) violate("feature-wrong", "%s: spectrum bin %zu is %.9g; by definition it is %.9g", where, start + k - NF, f[k], std::abs(c)); }
    }
}

// ---------------------------------------------------------------- preprocessing
struct In { void *o = nullptr; bool ok = false; int rate = 0, window = 0, a = 0, b = 0; std::vector<std::vector<float>> seen; bool grav = false; int kept = 0; std::vector<float> co; Def def; std::vector<double> d; std::vector<std::complex<double>> sp; double scale = 1; };
struct Op { std::string op; int i; long a, b, c; uint64_t seed; };
static std::vector<Op> parse(const Plan &p) { std::vector<Op> v; for (auto &l : p.lines) if (l.op() == "init" || l.op() == "grav" || l.op() == "fft" || l.op() == "run" || l.op() == "get" || l.op() == "name") v.push_back({l.op(), (int)(std::labs(l.i(1)) % 3), l.i(2), l.i(3), l.i(4), l.u(5)}); return v; }
static std::vector<float> coeffs(int n, uint64_t k) {
    int m; const float *lp = mp_lowpass(&m); std::vector<float> c(std::max(n, m)); for (int i = 0; i < (int)c.size(); i++) c[i] = i < m ? lp[i] : 0.5f;
    if (k % 3 == 1) { for (int s = 0; s < 2; s++) { float q[6] = {0.2f, 0.1f, 0.05f, 1, -0.5f - 0.1f * s, 0.2f}; memcpy(&c[6 * s], q, sizeof q); } }
    c.resize(n); return c;
}
// executes the operations of instances picked by `only` (-1: all); returns the features of the last `get` up to op `upto` of that instance
static std::vector<float> history(const std::vector<Op> &ops, int only, size_t upto, bool check, std::vector<std::vector<float>> *ref) {
    In in[3]; std::vector<float> last; int fft = mp_fft_length(); uint64_t seedk = 77;
    for (size_t k = 0; k < ops.size() && k <= upto; k++) {
        auto &o = ops[k]; if (only >= 0 && o.i != only) continue; In &x = in[o.i];
        if (!x.o) { x.o = malloc(mp_size()); Rng r(++seedk * (only >= 0 ? 3 : 1)); for (size_t j = 0; j < mp_size(); j++) ((uint8_t *)x.o)[j] = r.next(); }
        std::vector<uint8_t> before((uint8_t *)x.o, (uint8_t *)x.o + mp_size()); bool reject = false; int rc = 0;
        if (o.op == "init") {
            reject = o.b > fft; if (only >= 0 && reject) continue;
            if (!x.ok && reject) { rc = mp_init(x.o, o.a, o.b); }
            else { rc = mp_init(x.o, o.a, o.b); if (!reject) { x.ok = true; x.rate = o.a; x.window = o.b; x.a = 0; x.b = fft; x.seen.clear(); x.grav = false; x.def = Def(); x.d.clear(); x.scale = 1; } }
        } else if (!x.ok) continue;
        else if (o.op == "grav") {
            reject = o.a != 12; if (only >= 0 && reject) continue; auto c = coeffs(o.a, o.b); float *e = (float *)malloc(c.size() * 4 + 1); memcpy(e, c.data(), c.size() * 4); rc = mp_gravity(x.o, e, o.a); memset(e, 0xEE, c.size() * 4); free(e);
            if (!reject) { x.grav = true; bool was = x.def.grav; if (x.def.frames) x.def.known = false; /* other coefficients for the state of the filter: not defined */ x.def.co.assign(c.begin(), c.end()); x.def.grav = true; if (!was) for (auto &z : x.def.z) z.assign(4, 0.0); }
        } else if (o.op == "fft") {
            reject = o.a < 0 || o.b < 0 || o.a > fft || o.b > fft || o.a > o.b; if (only >= 0 && reject) continue; rc = mp_fft(x.o, o.a, o.b); if (!reject) { x.a = o.a; x.b = o.b; }
        } else if (o.op == "run") {
            long n = (long)x.window * 6 + o.a; if (n < 0) n = 0; reject = n != x.window * 6 || x.rate <= 0; if (only >= 0 && reject) continue;
            auto v = samples((n + 5) / 6 + 1, o.b, o.seed); float *e = (float *)malloc(n * 4 + 1); memcpy(e, v.data(), n * 4); rc = mp_run(x.o, e, n); memset(e, 0xEE, n * 4); free(e);
            if (!reject && check) { v.resize(n); x.def.window(v, fft, x.d, x.sp); double m = 0; for (float f : v) m = std::max(m, (double)std::fabs(f)); x.scale = std::max(x.scale, m); }
            if (!reject) x.seen.push_back({});
        } else if (o.op == "get") {
            int n = mp_length(x.o); if (n != NF + x.b - x.a) violate("features-length", "%d features are announced; %d were configured", n, NF + x.b - x.a);
            long len = n + o.a; if (len < 0) len = 0; reject = len < n; if (only >= 0 && k != upto) continue;
            float *e = (float *)malloc(len * 4 + 1); memset(e, 0x6B, len * 4); rc = mp_get(x.o, e, len);
            if (reject) { for (long j = 0; j < len * 4; j++) if (((uint8_t *)e)[j] != 0x6B) violate("rejected-writes", "a rejected call writes into the output"); }
            else if (rc == 0 && !x.seen.empty()) {
                last.assign(e, e + n);
                if (check) { count("features_checked"); if (x.def.known) check_def(last, x.a, x.d, x.sp, x.scale, "preprocessing"); hash_bytes(last.data(), n * 4);
                    auto &w = (*ref)[k]; for (int j = 0; j < n; j++) if (w.size() != (size_t)n || (memcmp(&w[j], &last[j], 4) && !(std::isnan(w[j]) && std::isnan(last[j])))) violate("features-differ", "feature %d of instance %d is %.9g; the instance alone, given only the accepted calls, gives %.9g", j, o.i, last[j], w.size() > (size_t)j ? w[j] : NAN);
                    reach("get fft%d grav%d n%d", x.b > x.a, x.grav, (int)std::min<size_t>(x.seen.size(), 5)); }
            }
            free(e);
        } else if (o.op == "name") {
            int n = NF + x.b - x.a; long len = std::min(64l, std::max(0l, o.b)); char *e = (char *)malloc(len + 1); memset(e, 0x6B, len + 1); rc = mp_name(x.o, o.a, e, len);
            bool in_range = o.a >= 0 && o.a < n;
            if (check) { if (e[len] != 0x6B) violate("name-overrun", "a feature name is written past its buffer");
                if (!in_range && rc >= 0) violate("invalid-accepted", "the name of feature %ld of %d is given", o.a, n);
                if (in_range && rc > 0 && (rc > len || (long)strnlen(e, len) + 1 != rc)) violate("name-length", "the name of feature %ld is announced with %d characters", o.a, rc);
                if (in_range && len >= 40 && rc <= 0) violate("valid-refused", "the name of feature %ld is refused with %d", o.a, rc); }
            free(e); if (check && memcmp(before.data(), x.o, before.size())) violate("name-writes", "asking for a name changes the state"); continue;
        }
        if (check) {
            count(reject ? "fault_rejected_calls" : "calls"); note("%s %d %d", o.op.c_str(), o.i, rc);
            if (reject && rc == 0 && o.op == "fft" && o.a >= 0 && o.b >= 0 && o.a <= fft && o.b <= fft) violate("range-reversed", "features of the spectrum from %ld until %ld are accepted and announced as %d features", o.a, o.b, mp_length(x.o));
            if (reject && rc == 0) violate("invalid-accepted", "%s(%ld, %ld) is accepted", o.op.c_str(), o.a, o.b);
            if (!reject && rc != 0) violate("valid-refused", "%s(%ld, %ld) is refused with %d", o.op.c_str(), o.a, o.b, rc);
            if (reject && memcmp(before.data(), x.o, before.size())) violate("rejected-changes", "a rejected %s(%ld, %ld) changes the state", o.op.c_str(), o.a, o.b);
        }
    }
    return last;
}

// ---------------------------------------------------------------- the tool on a failing storage
struct F { long nth; std::string type; long arg; };
struct File { std::string data; size_t durable = 0; bool closed = false; long nr = 0, nw = 0, ns = 0; };
static File in_f, out_f; static std::vector<F> rf, wf, of, cf, sf; static long n_open = 0, n_close = 0; static long injected = 0, close_failed = 0; static size_t out_limit = 0; static int bm = 0, bs = 512;
static std::set<FILE *> open_files;
struct H { File *f; size_t pos; bool out; };
static const F *hit(std::vector<F> &v, long n, const char *k) { for (auto &f : v) if (f.nth == n) { injected++; count((std::string("fault_") + k + "_" + f.type).c_str()); return &f; } return nullptr; }
static ssize_t hr(void *c, char *b, size_t n) { auto h = (H *)c; long k = ++h->f->nr; size_t m = h->pos < h->f->data.size() ? std::min(n, h->f->data.size() - h->pos) : 0; for (auto &f : rf) if (f.nth == k) { if (f.type == "short") { if (m > 1) m = std::min(m - 1, (size_t)std::max(1l, f.arg)); count("fault_read_short"); } else { injected++; count("fault_read_neg"); errno = EIO; return -1; } } memcpy(b, h->f->data.data() + h->pos, m); h->pos += m; return m; }
static ssize_t hw(void *c, const char *b, size_t n) { auto h = (H *)c; long k = ++h->f->nw; if (auto f = hit(wf, k, "write")) { if (f->type == "neg") { errno = EIO; return -1; } size_t m = std::min((size_t)std::max(0l, f->arg), n - 1); h->f->data.append(b, m); errno = ENOSPC; return m; } h->f->data.append(b, n); if (h->f->data.size() > out_limit) violate(msim_row_error ? "row-error-ignored" : "hang", msim_row_error ? "after a row that cannot be read, the tool writes without end" : "the tool writes without end"); return n; }
static int hs(void *c, off64_t *o, int w) { auto h = (H *)c; if (hit(sf, ++h->f->ns, "seek")) { errno = EIO; return -1; } h->pos = w == SEEK_SET ? *o : w == SEEK_CUR ? h->pos + *o : h->f->data.size() + *o; *o = h->pos; return 0; }
static int hc(void *c) { auto h = (H *)c; bool out = h->out; if (out && hit(cf, ++n_close, "close")) { errno = EIO; return -1; } h->f->durable = h->f->data.size(); h->f->closed = true; return 0; }
extern "C" FILE *msim_fopen(const char *path, const char *mode) {
    if (!path) { errno = EFAULT; return nullptr; }
    if (hit(of, ++n_open, "open")) { errno = EMFILE; return nullptr; }
    bool out = mode[0] != 'r'; auto h = new H{out ? &out_f : &in_f, 0, out}; cookie_io_functions_t io = {hr, hw, hs, hc}; FILE *f = fopencookie(h, mode, io); if (!f) harness_error("fopencookie"); open_files.insert(f);
    if (bm == 2) setvbuf(f, nullptr, _IONBF, 0); else setvbuf(f, (char *)malloc(bs), bm == 1 && out ? _IOLBF : _IOFBF, bs);
    return f;
}
extern "C" int msim_fclose(FILE *f) { open_files.erase(f); int r = fclose(f); if (r) close_failed++; return r; }

static void tool(const Plan &plan) {
    static const char *cols = "time,acc_x,acc_y,acc_z,gyro_x,gyro_y,gyro_z\n"; std::vector<float> s; bool bad_input = false; std::string tail; int header = plan.cfg("header", 0);
    for (auto &l : plan.lines) {
        if (l.op() == "data" && s.size() < 6 * 3000) { auto v = samples(std::min(600l, std::max(0l, l.i(1))), std::labs(l.i(2)) % 6, l.u(3)); s.insert(s.end(), v.begin(), v.end()); }
        else if (l.op() == "rf") rf.push_back({l.i(1), l.s(2), l.i(3)}); else if (l.op() == "wf") wf.push_back({l.i(1), l.s(2), l.i(3)}); else if (l.op() == "of") of.push_back({l.i(1), "failed", 0});
        else if (l.op() == "cf") cf.push_back({l.i(1), "failed", 0}); else if (l.op() == "sf") sf.push_back({l.i(1), "failed", 0});
    }
    long N = s.size() / 6; long cut = plan.cfg("torn", 0), wide = plan.cfg("wide", -1); bm = plan.cfg("bm", 0) % 3; bs = std::max(1l, plan.cfg("bs", 512));
    int window = plan.cfg("window", 50), hop = plan.cfg("hop", 50), rate = plan.cfg("rate", 50);
    in_f.data = header == 1 ? "time,acc_x,acc_y,acc_z,gyro_x,gyro_y\n" : header == 2 ? "time,acc_x,acc_z,acc_y,gyro_x,gyro_y,gyro_z\n" : header == 3 ? "" : cols; if (header) bad_input = true;
    std::vector<size_t> ends; std::vector<float> back;
    for (long i = 0; i < N; i++) {
        char b[300]; int n = snprintf(b, sizeof b, "%.3f", i * 0.02); for (int c = 0; c < 6; c++) { char q[40]; snprintf(q, sizeof q, "%.6f", s[i * 6 + c]); back.push_back((float)strtod(q, nullptr)); n += snprintf(b + n, sizeof b - n, ",%s", q); }
        if (i == wide && wide >= 0) { n += snprintf(b + n, sizeof b - n, wide % 2 ? ",1.5" : ",1,2,3,4,5,6,7"); bad_input = true; count("fault_wide_row"); }
        b[n++] = '\n'; in_f.data.append(b, n); ends.push_back(in_f.data.size());
    }
    long whole = N;
    if (cut > 0 && N) { size_t keep = in_f.data.size() - std::min((size_t)cut, in_f.data.size() - 1); in_f.data.resize(keep); while (whole && ends[whole - 1] > keep) whole--; size_t at = whole ? ends[whole - 1] : strlen(cols); if (keep != at) { bad_input = true; count("fault_torn_tail"); } }
    if (wide >= 0 && wide < whole) whole = wide;
    bool bad_cfg = window > mp_fft_length() || window > mp_window_max() || window < 1 || hop < 1 || hop > window || rate < 1; if (bad_cfg) count("fault_bad_configuration");
    // the table that should come out
    std::vector<std::vector<float>> want; 
    if (!bad_cfg) {
        auto raw = rtos::alone([&] {
            void *m = malloc(mp_size()); memset(m, 0x37, mp_size()); int n; const float *lp = mp_lowpass(&n); std::vector<uint8_t> o; std::vector<float> f(NF + 9);
            if (mp_init(m, rate, window) || mp_gravity(m, lp, n) || mp_fft(m, 1, 10)) violate("valid-refused", "a window of %d at %d Hz is refused", window, rate);
            for (long a = 0; a + window <= whole; a += hop) { if (mp_run(m, &back[a * 6], window * 6) || mp_get(m, f.data(), f.size())) violate("valid-refused", "window at %ld is refused", a); o.insert(o.end(), (uint8_t *)f.data(), (uint8_t *)(f.data() + f.size())); }
            return o; });
        for (size_t k = 0; k + (NF + 9) * 4 <= raw.size(); k += (NF + 9) * 4) { std::vector<float> f(NF + 9); memcpy(f.data(), &raw[k], f.size() * 4); want.push_back(f); }
        Def d; int n; const float *lp = mp_lowpass(&n); d.co.assign(lp, lp + n); d.grav = true; for (auto &z : d.z) z.assign(4, 0.0);
        if (hop == window) { std::vector<double> o; std::vector<std::complex<double>> sp; double scale = 1; for (size_t k = 0; k < want.size(); k++) { std::vector<float> w(back.begin() + k * hop * 6, back.begin() + (k * hop + window) * 6); for (float x : w) scale = std::max(scale, (double)std::fabs(x)); d.window(w, mp_fft_length(), o, sp); check_def(want[k], 1, o, sp, scale, "tool"); } }
    }
    char aw[20], ah[20], ar[20]; snprintf(aw, 20, "%d", window); snprintf(ah, 20, "%d", hop); snprintf(ar, 20, "%d", rate);
    const char *argv[] = {"motion_process", "--input", "in.csv", "--output", "out.csv", "--window_length", aw, "--hop_length", ah, "--samplerate", ar, nullptr};
    out_limit = 65536 + 600 * want.size(); auto whole_program = [&] { budget(300000000); dirty_stack(); int rc = motion_main(11, argv); budget(0); return rc; };
    bool bad_hop = window <= mp_fft_length() && rate > 0 && (hop < 1 || hop > window);
    if (bad_hop) { // may do anything: in a process of its own
        pid_t pid = fork(); if (pid < 0) harness_error("fork"); if (!pid) { if (!freopen("/dev/null", "w", stderr)) _exit(3); int rc = whole_program(); _exit(rc == 0 ? 0 : 77); }
        int st; waitpid(pid, &st, 0); note("hop %d of %d", hop, window); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { count("tool_refused"); return; }
        violate("hop-accepted", "a hop of %d with a window of %d is not refused", hop, window);
    }
    int rc = whole_program(); if (rc != 0) for (FILE *f : open_files) fflush(f); // exit() flushes what was left open
    run().steps += step_count(); note("rc %d in %zu out %zu", rc, in_f.data.size(), out_f.data.size());
    bool excused = injected || bad_input || bad_cfg; reach("tool rc%d inj%d bad%d cfg%d hop%d n%d", rc == 0, injected > 0, bad_input, bad_cfg, hop == window, (int)std::min<size_t>(want.size(), 4));
    if (rc != 0 && !excused) violate("tool-fails", "the tool exits with %d on a healthy table of %ld rows", rc, N);
    if (rc == 0 && bad_cfg) { if (out_f.durable == 0) return; }
    if (rc == 0 && header) violate("invalid-accepted", "the tool exits with 0 for a table with other columns");
    // rows that were read before one that could not be read, and everything that did reach the disk, are checked all the same
    bool row_ignored = rc == 0 && msim_row_error, close_ignored = rc == 0 && close_failed && !row_ignored; if (row_ignored) whole = std::min(whole, msim_rows_before_error);
    if (row_ignored) want.resize(std::min<size_t>(want.size(), whole < window ? 0 : (whole - window) / hop + 1));
    std::vector<std::string> lines; std::string cur; const std::string d = rc == 0 && !close_ignored ? out_f.data.substr(0, out_f.durable) : out_f.data; for (char c : d) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    if (rc != 0 && injected && !wf.empty()) { count("tool_refused"); return; } // what a failed write leaves behind is another property
    if (row_ignored) { if (!close_failed && (lines.empty() || lines.size() < want.size() + 1)) violate("window-lost", "the tool has %zu rows of the %zu windows before a row that cannot be read", lines.size(), want.size()); if (lines.size() > want.size() + 1) lines.resize(want.size() + 1); }
    else if (close_ignored) { }
    else if (rc == 0) {
        if (!out_f.closed || lines.empty() || !cur.empty()) violate("table-incomplete", "the tool exits with 0 and the table is not on disk");
        if (lines.size() != want.size() + 1) violate(lines.size() < want.size() + 1 ? "window-lost" : "window-invented", "the tool exits with 0 and has %zu rows for %ld samples: windows of %d every %d samples are %zu", lines.size() - 1, whole, window, hop, want.size());
        if (bad_input && !(cut > 0 && wide < 0)) violate("error-hidden", "the tool exits with 0 although the input has a row it cannot read");
        if (bad_input) violate("error-hidden", "the tool exits with 0 although the last row of the input is torn");
        count("tool_ran");
    } else count("tool_refused");
    for (size_t k = 1; k < lines.size(); k++) {
        if (k > want.size()) violate("window-invented", "row %zu of the table is no window of the input: '%.80s'", k, lines[k].c_str());
        const char *p = lines[k].c_str(); std::vector<double> v; char *x; while (*p) { v.push_back(strtod(p, &x)); if (x == p) violate("row-differs", "row %zu is '%.120s'", k, lines[k].c_str()); p = *x == ',' ? x + 1 : x; }
        if (v.size() != 1 + NF + 9 + 2) violate("row-differs", "row %zu has %zu columns", k, v.size());
        double t = (float)k * (float)(hop / (float)rate); if (std::fabs(v[0] - t) > 1e-4 * (1 + std::fabs(t))) violate("time-wrong", "row %zu has time %g instead of %g", k, v[0], t);
        for (int j = 0; j < NF + 9; j++) { double w = want[k - 1][j]; if (!(std::isnan(w) ? std::isnan(v[1 + j]) : std::fabs(v[1 + j] - w) <= 5.1e-7 + 1e-6 * std::fabs(w))) violate("row-differs", "row %zu feature %d is %.9g; the window gives %.9g", k, j, v[1 + j], w); }
        count("rows_checked");
    }
    if (row_ignored) violate("row-error-ignored", "a row cannot be read and the tool exits with 0");
    if (close_ignored) violate("close-error-ignored", "closing the table fails and the tool exits with 0");
}

Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p; int fft = mp_fft_length();
    if (r.chance(0.5)) {
        p.add("cfg tool 1"); int window = r.chance(0.8) ? r.range(1, 60) : r.range(61, 128), hop = r.chance(0.4) ? window : r.range(1, window);
        if (r.chance(0.03)) { int k = r.chance(0.6) ? 0 : r.below(5); if (k == 0) window = fft + 1 + r.below(200); else if (k == 1) hop = window + 1 + r.below(50); else if (k == 2) hop = -(int)r.below(3); else if (k == 3) window = -(int)r.below(3); else p.add("cfg rate 0"); }
        p.add("cfg window %d", window); p.add("cfg hop %d", hop); if (r.chance(0.5)) p.add("cfg rate %d", (int)r.range(1, 200));
        p.add("cfg bm %d", (int)r.below(3)); p.add("cfg bs %d", (int)r.pick(std::vector<int>{16, 64, 512, 4096}));
        for (int k = r.range(1, 3); k-- > 0;) p.add("data %d %d %d", r.chance(0.7) ? (int)r.range(0, 3 * std::max(1, std::abs(window))) : (int)r.range(0, 250), (int)r.below(6), (int)r.below(100000));
        if (r.chance(0.01)) p.add("cfg torn %d", (int)r.range(1, r.chance(0.5) ? 5 : 90)); if (r.chance(0.008)) p.add("cfg wide %d", (int)r.below(100)); if (r.chance(0.04)) p.add("cfg header %d", (int)r.range(1, 3));
        if (r.chance(0.35)) for (int k = r.range(1, 3); k-- > 0;) p.add("rf %d %s %d", (int)r.range(1, r.chance(0.3) ? 5 : 200), r.chance(0.02) ? "neg" : "short", (int)r.range(1, 60));
        if (r.chance(0.02)) p.add("sf %d", (int)r.range(1, 150)); if (r.chance(0.2)) p.add("wf %d %s %d", (int)r.range(1, r.chance(0.5) ? 4 : 100), r.chance(0.5) ? "neg" : "short", (int)r.below(40));
        if (r.chance(0.05)) p.add("of %d", (int)r.range(1, 2)); if (r.chance(0.015)) p.add("cf 1");
        return p;
    }
    int n = r.range(1, 3); bool reversed = r.chance(0.02);
    for (int i = 0; i < n; i++) { p.add("init %d %d %d", i, (int)r.range(1, 100), (int)r.range(1, fft)); if (r.chance(0.8)) p.add("grav %d 12 %d", i, (int)r.below(3)); }
    for (int k = r.range(3, 25); k-- > 0;) {
        int i = r.below(n);
        switch (r.below(14)) {
        case 0: p.add("init %d %d %d", i, (int)r.range(r.chance(0.1) ? -2 : 1, 100), r.chance(0.3) ? fft + (int)r.range(1, 1000) : (int)r.range(1, fft)); break;
        case 1: p.add("grav %d %d %d", i, r.chance(0.5) ? 12 : (int)r.range(0, 24), (int)r.below(3)); break;
        case 2: case 3: { int a = r.range(r.chance(0.1) ? -5 : 0, fft + (r.chance(0.2) ? 5 : 0)), b = r.range(r.chance(0.1) ? -5 : 0, fft + (r.chance(0.2) ? 5 : 0)); if (!reversed && a > b && b >= 0 && a <= fft) std::swap(a, b); p.add("fft %d %d %d", i, a, b); break; }
        case 4: case 5: p.add("get %d %d", i, r.chance(0.4) ? (int)r.range(-20, -1) : (int)r.range(0, 20)); break;
        case 6: p.add("name %d %d %d", i, (int)r.range(-2, fft + 12), (int)r.below(50)); break;
        default: p.add("run %d %d %d 0 %d", i, r.chance(0.2) ? (int)r.pick(std::vector<int>{-6, 6, -1, 1, -100000, 60}) : 0, (int)r.below(6), (int)r.below(100000));
        }
    }
    for (int i = 0; i < n; i++) p.add("get %d 0", i);
    return p;
}
void execute(const Plan &plan) {
    if (!freopen("/dev/null", "w", stdout)) harness_error("stdout"); // what the tool prints
    if (plan.cfg("tool", 0)) { tool(plan); return; }
    auto ops = parse(plan); std::vector<std::vector<float>> ref(ops.size());
    for (size_t k = 0; k < ops.size(); k++) if (ops[k].op == "get") { auto b = rtos::alone([&] { auto f = history(ops, ops[k].i, k, false, nullptr); return std::vector<uint8_t>((uint8_t *)f.data(), (uint8_t *)(f.data() + f.size())); }); ref[k].resize(b.size() / 4); memcpy(ref[k].data(), b.data(), b.size()); }
    budget(300000000); history(ops, -1, ops.size(), true, &ref); run().steps += step_count();
}
