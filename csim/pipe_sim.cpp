// C19: device programs that filter samples, keep a window, compute features, classify them with a
// generated model and append the results to a CSV log, as preempted tasks of a simulated RTOS, with
// power cuts, sensor dropouts and write faults. The firmware below is the application; the library,
// the models and the CSV code it calls are the code under test.
#define SIM_MAIN
#include "rtos.hpp"
#include "units.h"
#include <cmath>
#include <deque>
using namespace sim;

extern "C" {
typedef int (*wfn)(void *, const uint8_t *, size_t);
typedef int (*rfn)(void *, uint8_t *, size_t);
typedef int (*sfn)(void *, size_t);
int pf_file_write(void *, const uint8_t *, size_t); int pf_file_read(void *, uint8_t *, size_t); int pf_file_seek(void *, size_t);
size_t pf_writer_size(); void pf_writer(void *, wfn, sfn, void *, size_t); int pf_header(void *, const char **, size_t); int pf_row(void *, const float *, size_t);
size_t pf_reader_size(); void pf_reader(void *, rfn, sfn, void *); int pf_read_header(void *, char *, size_t, char **, size_t); int pf_read_row(void *, char *, size_t, char **, size_t);
int pf_iir_check(int, float *, const float *); float pf_iir(int, float *, const float *, float);
size_t pf_arr_size(); int pf_arr_init(void *, int, int, int16_t *); int pf_arr_push(void *, int, int, int, int16_t *); int pf_arr_sum(void *, float *); int pf_arr_get(void *, int, int, int16_t *);
int pf_means(void *, int, int, float, int16_t *); void *pf_fft_new(); int pf_mels(void *, void *, int, float *);
int pf_knl_save(void *, int16_t *, int16_t *); void pf_knl_load(void *, int, const int16_t *, const int16_t *); int pf_knl_add(void *, const int16_t *, int, int);
void unit_dirty(void *p, size_t n);
}
// every call finds different values below the stack pointer
#define pf_header(...) (dirty_stack(), pf_header(__VA_ARGS__))
#define pf_row(...) (dirty_stack(), pf_row(__VA_ARGS__))
#define pf_read_header(...) (dirty_stack(), pf_read_header(__VA_ARGS__))
#define pf_read_row(...) (dirty_stack(), pf_read_row(__VA_ARGS__))
#define pf_iir_check(...) (dirty_stack(), pf_iir_check(__VA_ARGS__))
#define pf_iir(...) (dirty_stack(), pf_iir(__VA_ARGS__))
#define pf_arr_init(...) (dirty_stack(), pf_arr_init(__VA_ARGS__))
#define pf_arr_push(...) (dirty_stack(), pf_arr_push(__VA_ARGS__))
#define pf_arr_sum(...) (dirty_stack(), pf_arr_sum(__VA_ARGS__))
#define pf_means(...) (dirty_stack(), pf_means(__VA_ARGS__))
#define pf_mels(...) (dirty_stack(), pf_mels(__VA_ARGS__))
#define pf_knl_add(...) (dirty_stack(), pf_knl_add(__VA_ARGS__))
static uint64_t g_dirty = 1;
extern "C" void unit_dirty(void *p, size_t n) { Rng r(g_dirty); auto b = (uint8_t *)p; for (size_t i = 0; i < n; i++) b[i] = r.next(); }

// models a pipeline can use: unit, operation, number of channels
struct Kind { const char *unit, *op; int ch; };
static const Kind kinds[] = {
    {"tri", "predict", 6}, {"rfl", "predict", 6}, {"rfp", "predict", 6}, {"rgl", "predict", 6}, {"knn", "predict", 4}, {"knl", "predict", 4},
    {"eti", "predict", 5}, {"bay", "predict", 5}, {"rgi", "predict", 5}, {"nml", "predict", 6}, {"nmi", "infer", 6}, {"mix", "score", 4},
    {"ell", "predict", 4}, {"nb2", "predict", 4}, {"nrm", "regress", 4}, {"nbi", "infer", 4}, {"rfl", "proba", 6}, {"nml", "proba", 6},
};
static const int NK = sizeof kinds / sizeof kinds[0];
static const UnitOp *find_op(const char *u, const char *o) { for (int i = 0; i < unit_ops_n; i++) if (!strcmp(unit_ops[i].unit, u) && !strcmp(unit_ops[i].name, o)) return &unit_ops[i]; return nullptr; }

// a place where a task can lose the CPU or the device its power, outside instrumented code
static void point() { ++step_count(); if (step_hook()) step_hook()(); }

// ---------------------------------------------------------------- storage
struct WFault { long nth; std::string type; long arg; };
struct Log {
    std::string data; size_t durable = 0; size_t pos = 0; bool busy = false;
    long nw = 0, nr = 0, ns = 0; std::vector<WFault> wf, rf, sf; long full_from = -1, full_n = 0; int rleft = 0;
    const WFault *hit(std::vector<WFault> &v, long n, const char *k) { for (auto &f : v) if (f.nth == n) { count((std::string("fault_") + k + "_" + f.type).c_str()); return &f; } return nullptr; }
    long write(const char *b, size_t n) {
        long k = ++nw; point();
        if (auto f = hit(wf, k, "write")) {
            if (f->type == "neg") return -1;
            size_t m = f->type == "zero" ? 0 : std::min((size_t)std::max(0l, f->arg), n ? n - 1 : 0); data.append(b, m); return m;
        }
        if (full_n > 0 && k >= full_from && k < full_from + full_n) { count("fault_write_full"); size_t m = n > 3 ? n / 2 : 0; data.append(b, m); return m; }
        for (size_t i = 0; i < n; i++) { data.push_back(b[i]); if (i % 3 == 2) point(); }
        return n;
    }
    long read(size_t at, char *b, size_t n) {
        point(); long k = ++nr; size_t m = at < data.size() ? std::min(n, data.size() - at) : 0;
        if (rleft > 0) if (auto f = hit(rf, k, "read")) { rleft--; if (f->type == "neg") return -1; if (f->type == "zero") return 0; if (m > 1) m = std::min(m - 1, (size_t)std::max(1l, f->arg)); }
        memcpy(b, data.data() + std::min(at, data.size()), m); return m;
    }
    bool sync() { point(); long k = ++ns; if (hit(sf, k, "sync")) return false; durable = data.size(); point(); return true; }
    void truncate(size_t n) { point(); if (n < data.size()) data.resize(n); if (durable > n) durable = n; point(); } // metadata journal: durable at once
};
struct Stream { Log *d; size_t pos = 0; FILE *f = nullptr; char *buf = nullptr; wfn w; rfn r; sfn s; void *ctx; };
static int dw(void *c, const uint8_t *b, size_t n) { return (int)((Stream *)c)->d->write((const char *)b, n); }
static int dr(void *c, uint8_t *b, size_t n) { auto s = (Stream *)c; long m = s->d->read(s->pos, (char *)b, n); if (m > 0) s->pos += m; return (int)m; }
static int ds(void *c, size_t p) { auto s = (Stream *)c; point(); s->pos = p; return 0; }
static ssize_t cw(void *c, const char *b, size_t n) { long m = ((Stream *)c)->d->write(b, n); if (m < 0) { errno = EIO; return 0; } if ((size_t)m < n) errno = ENOSPC; return m; }
static ssize_t cr(void *c, char *b, size_t n) { auto s = (Stream *)c; long m = s->d->read(s->pos, b, n); if (m > 0) s->pos += m; if (m < 0) errno = EIO; return m; }
static int cs(void *c, off64_t *o, int wh) { auto s = (Stream *)c; point(); if (wh == SEEK_SET) s->pos = *o; else if (wh == SEEK_CUR) s->pos += *o; else s->pos = s->d->data.size() + *o; *o = s->pos; return 0; }
// streams of a boot that lost power are abandoned, never closed: nothing of them may reach the device
static Stream *open_stream(Log *d, bool file, const char *mode, int bufmode, int bufsize) {
    auto s = new Stream; s->d = d;
    if (!file) { s->w = dw; s->r = dr; s->s = ds; s->ctx = s; return s; }
    cookie_io_functions_t io = {cr, cw, cs, nullptr}; s->f = fopencookie(s, mode, io); if (!s->f) harness_error("fopencookie");
    if (bufmode == 2) setvbuf(s->f, nullptr, _IONBF, 0); else { s->buf = (char *)malloc(bufsize); setvbuf(s->f, s->buf, bufmode == 1 ? _IOLBF : _IOFBF, bufsize); }
    s->w = pf_file_write; s->r = pf_file_read; s->s = pf_file_seek; s->ctx = s->f; return s;
}
static void close_stream(Stream *s) { if (s->f) fclose(s->f); }

// ---------------------------------------------------------------- pipelines
static const int MAXROWS = 40, MAXC = 6, QCAP = 5;
struct Row { long seq; float label, sum, feat; };
struct Ckpt { uint64_t sum = 0; long gen = 0, chunks = 0, pos = 0, seq = 0; std::vector<float> st; std::vector<int16_t> win; std::vector<float> hold; std::vector<int16_t> kd, kl; std::vector<long> ghost; std::vector<std::vector<int16_t>> grows;
    uint64_t hash() const { uint64_t h = 99; auto mix = [&](const void *p, size_t n) { auto b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } }; long a[4] = {gen, chunks, pos, seq}; mix(a, sizeof a); mix(st.data(), st.size() * 4); mix(win.data(), win.size() * 2); mix(hold.data(), hold.size() * 4); mix(kd.data(), kd.size() * 2); mix(kl.data(), kl.size() * 2); return h; } };
struct Attempt { Row row; int boot; long chunk; };
// the running state of one pipeline: filters, window, model instance
struct Engine {
    int C = 4, rows = 8, hop = 1, ns = 1, feat = 0, kind = 0, every = 4;
    std::vector<float> co; float *st = nullptr; int16_t *win = nullptr; void *arr = nullptr, *inst = nullptr, *fft = nullptr, *scr = nullptr; std::vector<float> hold;
    const UnitOp *op = nullptr; long chunks = 0;
};
struct Pipe {
    Engine cfg; std::vector<std::vector<float>> sig; std::map<long, int> bad; // sample -> 1 dropout, 2 NaN, 3 infinite
    bool replay = true, file = false, rfile = false; int wbm = 0, wbs = 64, rbm = 0, rbs = 64; long gap = 0; int cp_every = 3, group = 1;
    // durable
    Log log; Ckpt slot[2];
    // volatile, lost at a power cut
    Engine *e = nullptr; std::deque<Row> q; bool recovered = false, sampled = false, logged_all = false; long last_logged = 0, next_seq = 1; size_t acked_len = 0; long boot_seq = 0;
    // simulator's record
    long sensor = 0; std::vector<std::vector<long>> lineage; std::map<long, Attempt> attempts; long acked = 0; std::vector<std::map<long, Row>> made; std::vector<long> ghost; std::vector<std::vector<int16_t>> grows;
    int boots = 0;
};
static std::map<int, Pipe> pipes;
static long total_boots = 0;
// the power goes cut_left steps from now, or cut_then steps after the cut_windows-th window from now
static uint64_t cut_left, cut_then; static long cut_windows; static bool cut_now;

static void *raw(size_t n) { void *p = malloc(n); unit_dirty(p, n); return p; }
static float clampv(float v) { if (std::isnan(v)) return -1; return std::max(-1e9f, std::min(1e9f, v)); }
static Engine *engine_new(const Engine &c, const Ckpt *k) {
    auto e = new Engine(c);
    e->op = find_op(kinds[c.kind].unit, kinds[c.kind].op); if (!e->op) harness_error("unit %s", kinds[c.kind].unit);
    size_t sn = (size_t)c.C * 4 * c.ns;
    e->st = (float *)raw(sn * 4); e->win = (int16_t *)raw((size_t)c.rows * c.C * 2); e->arr = raw(pf_arr_size());
    if (e->op->create) e->inst = e->op->create();
    if (c.feat == 2) e->fft = pf_fft_new();
    e->scr = raw((size_t)e->op->n_scr * std::max(1, e->op->scr_unit) + 1);
    if (k) { memcpy(e->st, k->st.data(), sn * 4); memcpy(e->win, k->win.data(), k->win.size() * 2); e->hold = k->hold; e->chunks = k->chunks; if (!strcmp(e->op->unit, "knl")) pf_knl_load(e->inst, k->kl.size(), k->kd.data(), k->kl.data()); }
    else { memset(e->st, 0, sn * 4); memset(e->win, 0, (size_t)c.rows * c.C * 2); e->hold.assign(c.C, 0); }
    for (int ch = 0; ch < c.C; ch++) if (pf_iir_check(c.ns, e->st + (size_t)ch * 4 * c.ns, e->co.data())) violate("valid-refused", "filter of %d stages refused", c.ns);
    if (pf_arr_init(e->arr, c.C, c.rows, e->win)) violate("valid-refused", "window of %d rows refused", c.rows);
    return e;
}
// one chunk of samples through the pipeline
static Row engine_step(Engine &e, const Pipe &p, long pos, std::vector<std::vector<int16_t>> *grows) {
    std::vector<int16_t> chunk((size_t)e.hop * e.C);
    for (int r = 0; r < e.hop; r++) for (int c = 0; c < e.C; c++) {
        float v = p.sig[(pos + r) % p.sig.size()][c]; auto b = p.bad.find(pos + r);
        if (b != p.bad.end()) { if (b->second == 2) v = NAN; else if (b->second == 3) v = -INFINITY; }
        if ((b != p.bad.end() && b->second == 1) || !std::isfinite(v)) v = e.hold[c]; // the sensor gave nothing usable: the last value is kept
        e.hold[c] = v;
        float f = pf_iir(e.ns, e.st + (size_t)c * 4 * e.ns, e.co.data(), v);
        chunk[r * e.C + c] = std::isnan(f) ? 0 : (int16_t)std::lrintf(std::max(-32768.0f, std::min(32767.0f, f)));
    }
    if (pf_arr_push(e.arr, e.rows, e.C, e.hop, chunk.data())) violate("valid-refused", "pushing %d rows into a window of %d refused", e.hop, e.rows);
    if (grows) {
        for (int r = 0; r < e.hop; r++) grows->push_back(std::vector<int16_t>(chunk.begin() + r * e.C, chunk.begin() + (r + 1) * e.C));
        for (int r = 0; r < e.rows; r++) { long i = (long)grows->size() - e.rows + r; for (int c = 0; c < e.C; c++) { int16_t want = i < 0 ? 0 : (*grows)[i][c]; if (e.win[r * e.C + c] != want) violate("window-content", "row %d column %d of the window is %d, the sample is %d", r, c, e.win[r * e.C + c], want); } }
    }
    Row o = {0, 0, 0, 0};
    if (pf_arr_sum(e.arr, &o.sum)) violate("valid-refused", "sum of the window refused");
    float ff[8] = {0}; int16_t fh[8] = {0}; int rc = 0; bool h = e.op->type == 'h';
    if (e.feat == 2) { rc = pf_mels(e.fft, e.arr, e.rows, ff); if (rc) violate("valid-refused", "features refused with %d", rc); for (int i = 0; i < 8; i++) fh[i] = (int16_t)std::max(-30000.0f, std::min(30000.0f, ff[i] * 50)); o.feat = clampv(ff[1]); }
    else if (e.feat == 1) { rc = pf_means(e.arr, e.C, e.rows, 100.0f, fh); for (int i = 0; i < e.C; i++) ff[i] = fh[i] / 100.0f; o.feat = fh[0] + 100000.0f * (rc != 0); }
    else { for (int i = 0; i < e.C; i++) { if (pf_arr_get(e.arr, i, e.rows - 1, &fh[i])) violate("valid-refused", "element refused"); ff[i] = fh[i] / 200.0f; } o.feat = fh[0]; }
    e.chunks++;
    if (!strcmp(e.op->unit, "knl") && e.chunks % 3 == 1 && e.chunks < 3 * 20) { rc = pf_knl_add(e.inst, fh, 4, (int)(e.chunks % 4)); if (rc) violate("valid-refused", "learning item %ld refused with %d", e.chunks / 3, rc); }
    std::vector<float> out(std::max(8, e.op->n_out), 0.0f);
    dirty_stack(); rc = e.op->call(e.inst, h ? (void *)fh : (void *)ff, e.op->n_in, out.data(), e.op->n_out, e.scr, e.op->n_scr);
    o.label = rc ? -100.0f - rc : clampv(out[0] + (e.op->n_out > 1 && !(e.op->flags & STATE) ? 3 * out[1] : 0));
    return o;
}
static const char *names[4] = {"seq", "label", "sum", "feat"};
static void put(const Row &r, float *v) { v[0] = r.seq; v[1] = r.label; v[2] = r.sum; v[3] = r.feat; }
static bool val_eq(const char *t, float v) { char *x; double d = strtod(t, &x); return *t && !*x && !isspace((unsigned char)*t) && std::fabs(d - (double)v) <= 5.1e-7; }
static bool row_eq(char **c, const Row &r) { float v[4]; put(r, v); for (int i = 0; i < 4; i++) if (!val_eq(c[i], v[i])) return false; return true; }

// ---------------------------------------------------------------- firmware: tasks
struct Buf { char *b = (char *)malloc(200); char *c[6]; ~Buf() { free(b); } };
// reads the log with the real reader. Returns the length of its intact part, or -1 without a header
static long read_log(Pipe &p, const std::function<void(char **, int)> &row) {
    auto s = open_stream(&p.log, p.rfile, "r", p.rbm, p.rbs); void *rd = raw(pf_reader_size()); pf_reader(rd, s->r, s->s, s->ctx);
    auto b = new Buf; long len = -1; int rc = -1;
    for (int t = 0; t < 5 && (rc = pf_read_header(rd, b->b, 200, b->c, 4)) != 0; t++) point();
    if (rc == 0) {
        len = 0; for (int i = 0; i < 4; i++) { if (strcmp(b->c[i], names[i])) { len = -1; break; } len += strlen(b->c[i]) + 1; }
        while (len >= 0) {
            // an empty or failed reading is believed only when it repeats
            for (int t = 0; t < 5 && (rc = pf_read_row(rd, b->b, 200, b->c, 4)) <= 0; t++) point();
            if (rc <= 0) break;
            long n = 0; for (int i = 0; i < rc; i++) n += strlen(b->c[i]) + 1; len += n; row(b->c, rc);
        }
    }
    close_stream(s); delete b; free(rd); return len;
}
static void check_row(Pipe &p, char **c, int n, long at, const char *when) {
    if (n != 4) violate("row-differs", "%s: row %ld has %d columns", when, at, n);
    auto it = p.attempts.find(at);
    if (it == p.attempts.end()) violate("row-invented", "%s: row %ld (%s,%s,%s,%s) was never written", when, at, c[0], c[1], c[2], c[3]);
    if (!row_eq(c, it->second.row)) violate("row-differs", "%s: row %ld reads %s,%s,%s,%s; written was %ld,%.9g,%.9g,%.9g", when, at, c[0], c[1], c[2], c[3], it->second.row.seq, it->second.row.label, it->second.row.sum, it->second.row.feat);
}
static void recover(Pipe &p) {
    p.log.rleft = 2; long at = 0;
    long len = read_log(p, [&](char **c, int n) { check_row(p, c, n, ++at, "recovery"); });
    p.log.rleft = 0;
    if (at < p.acked) violate("row-lost", "recovery finds %ld rows, %ld were acknowledged", at, p.acked);
    if (len < 0) len = 0;
    if ((size_t)len != p.log.data.size()) { count("torn_tail_cut"); p.log.truncate(len); }
    p.acked_len = len; p.last_logged = at; p.acked = at;
    note("recovered %ld rows %ld bytes", at, len); reach("recover %d boots%d", at > 0, std::min(p.boots, 4));
    p.recovered = true;
}
static void logger(Pipe &p) {
    recover(p);
    Stream *s = open_stream(&p.log, p.file, "a", p.wbm, p.wbs); void *w = raw(pf_writer_size()); pf_writer(w, s->w, s->s, s->ctx, 4);
    auto again = [&] { close_stream(s); p.log.truncate(p.acked_len); s = open_stream(&p.log, p.file, "a", p.wbm, p.wbs); pf_writer(w, s->w, s->s, s->ctx, 4); rtos::yield(); };
    auto commit = [&] { return (!s->f || fflush(s->f) == 0) && p.log.sync(); };
    while (p.acked_len == 0) { int rc = pf_header(w, names, 4); if (rc == 0 && commit()) p.acked_len = p.log.data.size(); else { count("header_retries"); again(); } }
    for (;;) {
        if (p.q.empty()) { if (p.sampled) break; rtos::yield(); continue; }
        size_t k = std::min(p.q.size(), (size_t)p.group), done = 0; // rows committed together
        for (; done < k; done++) { Row r = p.q[done]; float v[4]; put(r, v); p.attempts[r.seq] = {r, p.boots, r.seq}; if (pf_row(w, v, 4)) break; }
        if (done == k && commit()) {
            p.acked_len = p.log.data.size(); p.last_logged = p.q[k - 1].seq; if (p.last_logged > p.acked) p.acked = p.last_logged;
            for (size_t i = 0; i < k; i++) p.q.pop_front(); count("rows_acked", k); note("acked %ld", p.last_logged);
            continue;
        }
        count(done == k ? "commit_retries" : "row_retries");
        again();
    }
    close_stream(s); p.logged_all = true;
}
static void sampler(Pipe &p) {
    while (!p.recovered) rtos::yield();
    const Ckpt *k = nullptr; for (auto &c : p.slot) if (c.gen && c.sum == c.hash() && (!k || c.gen > k->gen)) k = &c;
    for (auto &c : p.slot) if (c.gen && c.sum != c.hash()) count("fault_checkpoint_torn");
    p.e = engine_new(p.cfg, k); long gen = k ? k->gen : 0;
    p.ghost = k ? k->ghost : std::vector<long>(); p.grows = k ? k->grows : std::vector<std::vector<int16_t>>();
    long pos = p.replay ? (k ? k->pos : 0) : p.sensor, seq = p.replay ? (k ? k->seq : 0) : p.last_logged;
    if (k) count("restores"); note("boot %d at sample %ld row %ld", p.boots, pos, seq);
    while (pos + p.cfg.hop <= (long)p.sig.size()) {
        p.ghost.push_back(pos); p.lineage[p.boots] = p.ghost; // what this state has seen, even if the power goes now
        long at = pos; pos += p.cfg.hop; p.sensor = pos;
        Row r = engine_step(*p.e, p, at, &p.grows); r.seq = ++seq; count("windows"); run().simtime_us += 10000 * p.cfg.hop;
        p.made[p.boots][p.e->chunks] = r;
        if (cut_windows && --cut_windows == 0) cut_left = cut_then;
        if (r.seq > p.last_logged) { while ((int)p.q.size() >= QCAP) rtos::yield(); p.q.push_back(r); }
        else { auto it = p.attempts.find(r.seq); count("rows_recomputed"); if (it != p.attempts.end() && (it->second.row.label != r.label || it->second.row.sum != r.sum || it->second.row.feat != r.feat)) violate("recomputed-differs", "row %ld after a restart is %.9g,%.9g,%.9g; before %.9g,%.9g,%.9g", r.seq, r.label, r.sum, r.feat, it->second.row.label, it->second.row.sum, it->second.row.feat); }
        if (p.e->chunks % p.cp_every == 0) {
            while (p.last_logged < seq) rtos::yield();
            // everything up to here is in the log: checkpoint into the older slot, header last
            Ckpt &c = p.slot[p.slot[0].gen <= p.slot[1].gen ? 0 : 1]; Ckpt n; n.gen = ++gen; n.chunks = p.e->chunks; n.pos = pos; n.seq = seq;
            size_t sn = (size_t)p.cfg.C * 4 * p.cfg.ns; n.st.assign(p.e->st, p.e->st + sn); n.win.assign(p.e->win, p.e->win + (size_t)p.cfg.rows * p.cfg.C); n.hold = p.e->hold; n.ghost = p.ghost; n.grows = p.grows;
            if (!strcmp(p.e->op->unit, "knl")) { n.kd.resize(80); n.kl.resize(20); int m = pf_knl_save(p.e->inst, n.kd.data(), n.kl.data()); n.kd.resize(4 * m); n.kl.resize(m); }
            uint64_t sum = n.hash(); n.sum = ~sum; c = n; for (int t = 0; t < 6; t++) point(); c.sum = sum; count("checkpoints");
        }
    }
    p.sampled = true;
}

// ---------------------------------------------------------------- plan
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p; int np = r.chance(0.6) ? 2 : r.chance(0.5) ? 1 : 3;
    int same = r.chance(0.4) ? (int)r.below(NK) : -1; // pipelines sharing one constant model
    for (int i = 0; i < np; i++) {
        int kind = same >= 0 ? same : (int)r.below(NK); bool w = r.chance(0.5);
        p.add("pipe %d %d %d %d %d %d %d %d", i, kind, (int)r.range(2, 16), (int)r.range(1, 5), (int)r.range(1, 3), (int)r.below(3), (int)r.below(100000), (int)r.range(1, 12));
        p.add("mode %d %d %d %d", i, w ? 0 : 1, (int)r.below(9), (int)r.range(1, 4));
        p.add("streams %d %d %d %d %d %d %d", i, (int)r.below(2), (int)r.below(3), (int)r.pick(std::vector<int>{1, 7, 16, 64, 300}), (int)r.below(2), (int)r.below(3), (int)r.pick(std::vector<int>{1, 7, 16, 64, 300}));
        for (int k = r.range(1, 3); k-- > 0;) p.add("samples %d %d %d %d", i, (int)r.range(5, 45), (int)r.below(5), (int)r.below(100000));
        for (int k = r.below(4); k-- > 0;) p.add("sensor %d %d %d %d", i, (int)r.below(90), (int)r.range(1, 6), (int)r.range(1, 3));
        if (r.chance(0.6)) for (int k = r.range(1, 5); k-- > 0;) p.add("wf %d %d %s %d", i, (int)r.range(1, r.chance(0.3) ? 12 : 120), r.pick(std::vector<const char *>{"short", "zero", "neg"}), (int)r.below(8));
        if (r.chance(0.25)) p.add("full %d %d %d", i, (int)r.range(1, 100), (int)r.range(1, 25));
        if (r.chance(0.4)) for (int k = r.range(1, 3); k-- > 0;) p.add("sf %d %d", i, (int)r.range(1, 25));
        if (r.chance(0.5)) for (int k = r.range(1, 4); k-- > 0;) p.add("rf %d %d %s %d", i, (int)r.range(1, 20), r.pick(std::vector<const char *>{"short", "zero", "neg"}), (int)r.range(1, 30));
    }
    if (r.chance(0.35)) for (int k = r.range(1, 12); k-- > 0;) p.add("noise %d %d %d", (int)r.below(unit_ops_n), (int)r.below(4), (int)r.below(100000));
    if (r.chance(0.75)) for (int k = r.range(1, 5); k-- > 0;) { bool w = r.chance(0.6); p.add("cut %lu %d %d %d", (unsigned long)(1 + exp(r.unit() * (w ? 7.0 : r.pick(std::vector<double>{6, 9, 11.5})))), (int)r.below(1001), r.chance(0.3) ? (int)r.range(1, 40) : 0, w ? (int)r.range(1, 60) : 0); }
    rtos::plan_slices(p, r, 2 * np + 1, r.range(0, 150), r.chance(0.5) ? 5.0 : 9.0);
    return p;
}
static void power_hook() {
    auto &c = rtos::cpu(); if (c.cur < 0) return;
    if (cut_left && --cut_left == 0) { cut_now = true; swapcontext(&c.tasks[c.cur].ctx, &c.main); }
    rtos::hook();
}
void execute(const Plan &plan) {
    std::vector<Line> noise; std::deque<Line> cuts;
    for (auto &l : plan.lines) {
        int i = l.i(1);
        if (l.op() == "pipe") {
            if (pipes.count(i)) continue; Pipe &p = pipes[i]; Engine &e = p.cfg;
            e.kind = (uint64_t)std::labs(l.i(2)) % NK; e.C = kinds[e.kind].ch; e.rows = std::min<long>(60, std::max(1l, l.i(3))); e.hop = std::min<long>(e.rows, std::max(1l, l.i(4))); e.ns = std::min<long>(4, std::max(1l, l.i(5))); e.feat = (uint64_t)std::labs(l.i(6)) % 3;
            Rng r(l.u(7)); p.cp_every = std::max(1l, l.i(8, 3));
            if (e.feat == 2 && (e.C > 5 || e.op)) e.feat = 1;
            for (int s = 0; s < e.ns; s++) { double rad = r.unit() * 0.9, th = r.unit() * M_PI, g = 0.3 + r.unit() * 0.7, zt = r.unit() * M_PI; float c[6] = {(float)g, (float)(-2 * g * cos(zt)), (float)g, 1, (float)(-2 * rad * cos(th)), (float)(rad * rad)}; e.co.insert(e.co.end(), c, c + 6); }
        }
        else if (l.op() == "cut") cuts.push_back(l);
        else if (l.op() == "noise") noise.push_back(l);
        if (!pipes.count(i) || l.op() == "cut" || l.op() == "noise" || l.op() == "slice") continue;
        Pipe &p = pipes[i];
        if (l.op() == "mode") { p.replay = !l.i(2); p.gap = std::max(0l, l.i(3)); p.group = std::min<long>(QCAP, std::max(1l, l.i(4, 1))); }
        else if (l.op() == "streams") { p.file = l.i(2); p.wbm = l.i(3) % 3; p.wbs = std::max(1l, l.i(4)); p.rfile = l.i(5); p.rbm = l.i(6) % 3; p.rbs = std::max(1l, l.i(7)); }
        else if (l.op() == "samples") { Rng r(l.u(4)); int kind = l.i(3); for (long k = 0; k < std::min(200l, l.i(2)); k++) { std::vector<float> v; for (int c = 0; c < p.cfg.C; c++) v.push_back(kind == 0 ? (r.unit() * 2 - 1) * 800 : kind == 1 ? 500 * sin(0.3 * k + c) : kind == 2 ? (r.unit() * 2 - 1) * 40000 : kind == 3 ? 300.0f * c : r.chance(0.05) ? (r.unit() * 2 - 1) * 1e6 : (r.unit() * 2 - 1) * 30); p.sig.push_back(v); } }
        else if (l.op() == "sensor") { for (long k = 0; k < std::min(40l, l.i(3)); k++) p.bad[l.i(2) + k] = 1 + std::labs(l.i(4)) % 3; }
        else if (l.op() == "wf") p.log.wf.push_back({l.i(2), l.s(3), l.i(4)});
        else if (l.op() == "full") { p.log.full_from = l.i(2); p.log.full_n = l.i(3); }
        else if (l.op() == "sf") p.log.sf.push_back({l.i(2), "failed", 0});
        else if (l.op() == "rf") p.log.rf.push_back({l.i(2), l.s(3), l.i(4)});
    }
    for (auto it = pipes.begin(); it != pipes.end();) if (it->second.sig.empty()) it = pipes.erase(it); else ++it;
    if (pipes.empty()) return;
    std::vector<Pipe *> v; for (auto &k : pipes) v.push_back(&k.second);
    for (auto *p : v) for (auto &b : p->bad) if (b.first < (long)p->sig.size()) count(b.second == 1 ? "fault_sensor_dropout" : b.second == 2 ? "fault_sensor_nan" : "fault_sensor_inf");
    // what the pipelines give undisturbed
    auto undisturbed = [&](Pipe *p, const std::vector<long> &hist) {
        auto b = rtos::alone([&] { auto e = engine_new(p->cfg, nullptr); std::vector<uint8_t> o; for (long at : hist) { Row r = engine_step(*e, *p, at, nullptr); o.insert(o.end(), (uint8_t *)&r, (uint8_t *)(&r + 1)); } return o; });
        std::vector<Row> rows(b.size() / sizeof(Row)); memcpy((void *)rows.data(), b.data(), rows.size() * sizeof(Row)); return rows;
    };
    // the program: two tasks per pipeline, and one that keeps other units of the library busy
    for (auto *p : v) { rtos::add([p] { logger(*p); }); rtos::add([p] { sampler(*p); }); }
    rtos::add([&] {
        for (auto &l : noise) {
            auto &o = unit_ops[(uint64_t)std::labs(l.i(1)) % unit_ops_n]; if (o.flags & EXCL) continue;
            Rng r(l.u(3)); std::vector<uint8_t> in((size_t)o.n_in * 4), out((size_t)std::max({o.n_out, o.n_in, 64}) * 4), scr((size_t)o.n_scr * std::max(1, o.scr_unit) + 16);
            for (int k = 0; k < o.n_in; k++) { if (o.type == 'h') { int16_t x = r.range(-3000, 3000); memcpy(&in[2 * k], &x, 2); } else { float x = (r.unit() * 2 - 1) * (l.i(2) == 1 ? 1e6 : 4); memcpy(&in[4 * k], &x, 4); } }
            if (o.flags & INPLACE) memcpy(out.data(), in.data(), in.size());
            void *self = o.create ? o.create() : nullptr; o.call(self, in.data(), o.n_in, (float *)out.data(), o.n_out, scr.data(), o.n_scr); count("noise_calls");
        }
    });
    auto slices = rtos::slices(plan); size_t si = 0; auto &cpu = rtos::cpu(); int n = cpu.tasks.size();
    uint64_t switches = 0; int last = -1; budget(60000000);
    for (bool more = true; more;) {
        // power on
        total_boots++; g_dirty = 77 + total_boots;
        for (auto *p : v) { p->e = nullptr; p->q.clear(); p->recovered = p->sampled = p->logged_all = false; p->last_logged = 0; p->acked_len = 0; p->lineage.push_back({}); p->made.push_back({}); p->boots = (int)p->lineage.size() - 1; }
        for (int i = 0; i < n; i++) rtos::make(i);
        cut_now = false; Line cut; cut_windows = 0; cut_left = 0; if (!cuts.empty()) { cut = cuts.front(); cuts.pop_front(); cut_windows = std::max(0l, cut.i(4)); cut_left = cut_windows ? 0 : std::max<uint64_t>(1, cut.u(1)); cut_then = std::max<uint64_t>(1, cut.u(1)); }
        step_hook() = power_hook; static_hook() = rtos::shared_access;
        auto live = [&](int i) { for (int k = 0; k < n; k++) { int j = (i + k) % n; if (!cpu.tasks[j].done) return j; } return -1; };
        long turns = 0; int rr = 0;
        while (!cut_now) {
            int i; uint64_t steps = 0, shared = 0;
            if (si < slices.size()) { i = live(((slices[si].first % n) + n) % n); steps = slices[si].second; shared = slices[si].shared; si++; }
            else { i = live(rr++ % n); if (++turns > 20000) violate("no-progress", "faults are over and the pipelines do not finish"); }
            if (i < 0) break;
            if (i != last) switches++; last = i; rtos::resume(i, steps, shared);
        }
        step_hook() = nullptr; static_hook() = nullptr; more = cut_now;
        if (cut_now) {
            count("fault_power_cut"); reach("cut recovered%d sampled%d", v[0]->recovered, v[0]->sampled);
            for (auto *p : v) {
                // of what was not synced, a prefix survives; its end may be zeros
                size_t vol = p->log.data.size() - std::min(p->log.durable, p->log.data.size()), keep = vol * (uint64_t)std::min(1000l, std::max(0l, cut.i(2))) / 1000;
                if (vol && keep < vol) count("fault_lost_tail");
                p->log.data.resize(p->log.data.size() - vol + keep);
                if (long z = cut.i(3)) if (keep) { size_t m = std::min(keep, (size_t)z); p->log.data.replace(p->log.data.size() - m, m, m, '\0'); count("fault_zero_tail"); }
                p->log.durable = p->log.data.size();
                if (!p->replay) { p->sensor += p->gap; if (p->gap) count("fault_samples_missed", p->gap); }
            }
            note("cut %zu", v[0]->log.data.size());
        }
    }
    count("switches", switches); count("fault_preemption", cpu.preemptions); count("boots", total_boots);
    // ---- the recorded history against the undisturbed runs
    for (auto *p : v) {
        p->log.rleft = 0; long at = 0;
        read_log(*p, [&](char **c, int k) { check_row(*p, c, k, ++at, "final log"); });
        if (at < p->acked) violate("row-lost", "the final log has %ld rows, %ld were acknowledged", at, p->acked);
        if (p->replay) {
            std::vector<long> all; for (long s = 0; s + p->cfg.hop <= (long)p->sig.size(); s += p->cfg.hop) all.push_back(s);
            auto ref = undisturbed(p, all);
            if (ref.size() != (size_t)at) violate("row-lost", "the final log has %ld rows, the undisturbed run %zu", at, ref.size());
            for (long s = 1; s <= at; s++) { auto &g = p->attempts[s].row; auto &w = ref[s - 1]; if (g.label != w.label || g.sum != w.sum || g.feat != w.feat) violate("classification-differs", "row %ld (%s %s) is %.9g,%.9g,%.9g; undisturbed %.9g,%.9g,%.9g", s, p->cfg.op ? "" : kinds[p->cfg.kind].unit, kinds[p->cfg.kind].op, g.label, g.sum, g.feat, w.label, w.sum, w.feat); }
        }
        long prev = 0;
        for (size_t b = 0; b < p->lineage.size(); b++) {
            if (p->lineage[b].empty() || (p->replay && b + 1 < p->lineage.size())) continue;
            auto ref = undisturbed(p, p->lineage[b]);
            for (auto &m : p->made[b]) {
                if (m.first < 1 || m.first > (long)ref.size()) harness_error("lineage");
                auto &w = ref[m.first - 1]; auto &g = m.second; hash_bytes(&g.label, 4); hash_bytes(&g.sum, 4);
                if (g.label != w.label || g.sum != w.sum || g.feat != w.feat) violate("classification-differs", "window %ld of boot %zu (%s %s) is %.9g,%.9g,%.9g; the same samples undisturbed give %.9g,%.9g,%.9g", m.first, b, kinds[p->cfg.kind].unit, kinds[p->cfg.kind].op, g.label, g.sum, g.feat, w.label, w.sum, w.feat);
            }
        }
        (void)prev; reach("%s %s feat%d replay%d boots%d", kinds[p->cfg.kind].unit, kinds[p->cfg.kind].op, p->cfg.feat, p->replay, std::min(p->boots, 3));
        count("rows_checked", at);
    }
    run().steps += step_count();
}
