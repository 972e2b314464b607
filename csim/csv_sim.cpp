// Simulated storage device and application tasks around the CSV log (C01..C04).
// The reader, writer and stdio adapter are the real code; the disk below them is simulated.
#define SIM_MAIN
#include "sim.hpp"
#include <cmath>
#include <memory>
#include <ucontext.h>
using namespace sim;

extern "C" {
typedef int (*wfn)(void *, const uint8_t *, size_t);
typedef int (*rfn)(void *, uint8_t *, size_t);
typedef int (*sfn)(void *, size_t);
int sut_file_write(void *f, const uint8_t *b, size_t n);
int sut_file_read(void *f, uint8_t *b, size_t n);
int sut_file_seek(void *f, size_t p);
void *sut_writer(wfn w, sfn s, void *stream, size_t n_columns);
int sut_write_header(void *w, const char **names, size_t n);
int sut_write_row(void *w, const float *v, size_t n);
void *sut_reader(rfn r, sfn s, void *stream);
int sut_read_header(void *r, char *buf, size_t n, char **cols, size_t nc);
int sut_read_row(void *r, char *buf, size_t n, char **cols, size_t nc);
}
// every call finds different values below the stack pointer
#define sut_write_header(...) (dirty_stack(), sut_write_header(__VA_ARGS__))
#define sut_write_row(...) (dirty_stack(), sut_write_row(__VA_ARGS__))
#define sut_read_header(...) (dirty_stack(), sut_read_header(__VA_ARGS__))
#define sut_read_row(...) (dirty_stack(), sut_read_row(__VA_ARGS__))

static const uint64_t CALL_BUDGET = 3000000;

// ---------------------------------------------------------------- simulated disk
struct Fault { char kind; long nth; std::string type; long arg; }; // kind: w r s; nth: 1-based call of that kind in the next operation
struct Disk {
    std::string data;          // what the device holds if it never loses power
    size_t durable = 0;        // synced prefix
    bool dead = false;         // power is lost
    bool full = false;         // no space left
    std::vector<Fault> armed;  // faults for the current operation
    long ncall[3] = {0, 0, 0};
    long fired = 0, fired_r = 0, fired_s = 0, fired_w = 0, zero_reads = 0;
    long crash_at = 0, crash_bytes = 0;
    size_t chunk = 0;          // accept at most this many bytes between two yields (0: all)
    void (*yield)() = nullptr;
    void begin() { ncall[0] = ncall[1] = ncall[2] = 0; fired = fired_r = fired_s = fired_w = zero_reads = 0; }
    void end() { armed.clear(); crash_at = 0; }
    const Fault *hit(char kind) {
        int k = kind == 'w' ? 0 : kind == 'r' ? 1 : 2;
        long n = ++ncall[k];
        for (auto &f : armed) if (f.kind == kind && f.nth == n) {
            fired++; (kind == 'w' ? fired_w : kind == 'r' ? fired_r : fired_s)++;
            count((std::string("fault_") + kind + "_" + f.type).c_str());
            return &f;
        }
        return nullptr;
    }
    void append(const char *b, size_t n) {
        while (n) {
            size_t c = chunk ? std::min(chunk, n) : n;
            data.append(b, c); b += c; n -= c;
            if (yield && n) yield();
        }
    }
    long write(const char *b, size_t n) {
        if (yield) yield();
        if (dead) return -1;
        const Fault *f = hit('w');
        if (crash_at && ncall[0] == crash_at) {
            data.append(b, std::min((size_t)crash_bytes, n));
            dead = true; count("fault_power_loss_in_write"); fired++;
            return -1;
        }
        if (f) {
            if (f->type == "neg") return -1;
            if (f->type == "enospc") { full = true; }
            else { size_t m = f->type == "zero" ? 0 : std::min((size_t)f->arg, n ? n - 1 : 0); data.append(b, m); return m; }
        }
        if (full) { fired++; count("fault_w_full"); return 0; }
        append(b, n);
        return n;
    }
    long read(size_t pos, char *b, size_t n) {
        if (yield) yield();
        const Fault *f = hit('r');
        size_t m = pos < data.size() ? std::min(n, data.size() - pos) : 0;
        if (f) {
            if (f->type == "neg") return -1;
            if (f->type == "zero") { zero_reads++; return 0; }
            if (f->type == "short" && m > 1) m = std::min(m - 1, (size_t)std::max(1l, f->arg));
        }
        memcpy(b, data.data() + std::min(pos, data.size()), m);
        return m;
    }
};

// ---------------------------------------------------------------- streams on the disk
struct Stream {
    Disk *d; size_t pos = 0; bool isfile = false; FILE *f = nullptr; char *vbuf = nullptr;
    ~Stream() { close(); }
    void close() { if (f) { fclose(f); f = nullptr; } free(vbuf); vbuf = nullptr; }
    wfn w; rfn r; sfn s; void *ctx;
    long in_accept = 0;
};
static int dir_write(void *c, const uint8_t *b, size_t n) { return (int)((Stream *)c)->d->write((const char *)b, n); }
static int dir_read(void *c, uint8_t *b, size_t n) {
    auto st = (Stream *)c; long m = st->d->read(st->pos, (char *)b, n); if (m > 0) st->pos += m; return (int)m;
}
static int dir_seek(void *c, size_t p) {
    auto st = (Stream *)c; if (st->d->yield) st->d->yield();
    const Fault *f = st->d->hit('s');
    if (f) { if (f->type == "moved") st->pos = p; else if (f->type == "lost") st->pos = f->arg; return -1; }
    st->pos = p; return 0;
}
static ssize_t ck_read(void *c, char *b, size_t n) { auto st = (Stream *)c; long m = st->d->read(st->pos, b, n); if (m > 0) st->pos += m; if (m < 0) errno = EIO; return m; }
static ssize_t ck_write(void *c, const char *b, size_t n) { auto st = (Stream *)c; long m = st->d->write(b, n); if (m < 0) { errno = EIO; return 0; } if ((size_t)m < n) errno = ENOSPC; return m; }
static int ck_seek(void *c, off64_t *off, int wh) {
    auto st = (Stream *)c; const Fault *f = st->d->hit('s');
    if (f) { if (f->type == "moved") st->pos = *off; errno = EIO; return -1; }
    if (wh == SEEK_SET) st->pos = *off; else if (wh == SEEK_CUR) st->pos += *off; else st->pos = st->d->data.size() + *off;
    *off = st->pos; return 0;
}
static std::unique_ptr<Stream> open_stream(Disk *d, bool isfile, const char *mode, long bufmode, long bufsize) {
    auto st = std::make_unique<Stream>(); st->d = d; st->isfile = isfile;
    if (isfile) {
        cookie_io_functions_t io = {ck_read, ck_write, ck_seek, nullptr};
        st->f = fopencookie(st.get(), mode, io); if (!st->f) harness_error("fopencookie");
        if (bufmode == 2) setvbuf(st->f, nullptr, _IONBF, 0);
        else { st->vbuf = (char *)malloc(bufsize); setvbuf(st->f, st->vbuf, bufmode == 1 ? _IOLBF : _IOFBF, bufsize); }
        st->w = sut_file_write; st->r = sut_file_read; st->s = sut_file_seek; st->ctx = st->f;
    } else { st->w = dir_write; st->r = dir_read; st->s = dir_seek; st->ctx = st.get(); }
    return st;
}
// everything the writer's stream has accepted and not lost, in order
static std::string view(Stream &st) {
    std::string v = st.d->data;
    if (st.f && st.f->_IO_write_ptr > st.f->_IO_write_base) v.append(st.f->_IO_write_base, st.f->_IO_write_ptr);
    return v;
}

// ---------------------------------------------------------------- model of the log
typedef std::vector<float> Row;
static std::vector<std::string> split(const std::string &l, char c) {
    std::vector<std::string> o; size_t a = 0;
    for (;;) { size_t b = l.find(c, a); if (b == std::string::npos) { o.push_back(l.substr(a)); return o; } o.push_back(l.substr(a, b - a)); a = b + 1; }
}
static bool value_eq(const std::string &t, float v) {
    if (t.empty()) return false;
    char *e; double x = strtod(t.c_str(), &e); if (*e) return false;
    if (isspace((unsigned char)t[0])) return false;
    return std::fabs(x - (double)v) <= 5.1e-7;
}
static bool row_text_eq(const std::vector<std::string> &t, const Row &r) {
    if (t.size() != r.size()) return false;
    for (size_t i = 0; i < r.size(); i++) if (!value_eq(t[i], r[i])) return false;
    return true;
}
// is `add` exactly one complete line holding the row?
static bool is_line(const std::string &add, const Row &r) {
    if (add.empty() || add.back() != '\n' || std::count(add.begin(), add.end(), '\n') != 1) return false;
    return row_text_eq(split(add.substr(0, add.size() - 1), ','), r);
}
static std::string join(const std::vector<std::string> &v) { std::string o; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; } return o; }
static std::string shorten(const std::string &s) { std::string o; for (char c : s.substr(0, 120)) o += (c >= 32 && c < 127) ? c : (c == '\n' ? '|' : '?'); return o; }
static std::string rowstr(const Row &r) { std::string o; char b[40]; for (auto v : r) { snprintf(b, sizeof b, "%.9g,", v); o += b; } return shorten(o); }
static std::vector<std::string> names_of(const Line &l) { std::vector<std::string> o; for (size_t i = 1; i < l.f.size(); i++) { auto &f = l.f[i]; o.push_back(f == "-" ? "" : f); if (f[0] == '~') { o.back().resize(std::min(100000l, std::max(1l, atol(f.c_str() + 1)))); for (size_t k = 0; k < o.back().size(); k++) o.back()[k] = 'a' + k % 23; } } return o; } // ~N: a name of N characters


// Exact-size heap buffers, so that any access outside them is caught
struct ReadBuf {
    char *buf; size_t n; char **cols; size_t nc;
    ReadBuf(size_t n_, size_t nc_) : buf((char *)malloc(n_ ? n_ : 1)), n(n_), cols((char **)malloc((nc_ ? nc_ : 1) * sizeof(char *))), nc(nc_) {
        memset(buf, 'Z', n ? n : 1); for (size_t i = 0; i < nc; i++) cols[i] = (char *)(uintptr_t)0x10;
    }
    ~ReadBuf() { free(buf); free(cols); }
    // the delivered strings, or a violation when they do not lie inside the buffer
    std::vector<std::string> get(size_t k) {
        std::vector<std::string> o;
        for (size_t i = 0; i < k; i++) {
            if (cols[i] < buf || cols[i] >= buf + n) violate("bad-column-pointer", "column %zu of %zu does not point into the buffer", i, k);
            size_t m = buf + n - cols[i]; size_t len = strnlen(cols[i], m);
            if (len == m) violate("unterminated-column", "column %zu is not terminated inside the buffer", i);
            o.push_back(std::string(cols[i], len));
        }
        return o;
    }
};

// ================================================================ C01 / C02: writer, crashes, write faults
static void gen_names(Rng &r, Plan &p, int n) {
    std::string l = "header"; int longest = r.chance(0.01) ? (int)r.below(n) : -1;
    static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.";
    for (int i = 0; i < n; i++) {
        l += ' ';
        if (i == longest) { l += '~' + std::to_string(r.chance(0.8) ? r.range(120, 600) : r.range(32700, 70000)); continue; }
        if (n > 1 && r.chance(0.03)) { l += '-'; continue; }
        int len = r.chance(0.1) ? r.range(20, 60) : r.range(1, 8);
        for (int k = 0; k < len; k++) l += al[r.below(64)];
    }
    p.addline(l);
}
static float gen_value(Rng &r) {
    switch (r.below(12)) {
        case 0: return 0.0f;
        case 1: return -0.0f;
        case 2: return (float)r.range(-1000, 1000);
        case 3: return (float)(r.unit() * 2e-6 - 1e-6);
        case 4: return (float)((r.unit() - 0.5) * 1.9e11);
        case 5: return r.chance(0.5) ? 1.17549435e-38f : -1e-42f;
        case 6: return (float)((r.unit() - 0.5) * 60000);
        case 7: return (float)r.range(-9, 9) + (r.chance(0.5) ? 0.9999995f : 0.0000005f);
        default: return (float)((r.unit() - 0.5) * 20);
    }
}
static void gen_row(Rng &r, Plan &p, int n, const char *op = "row") {
    std::string l = op; char b[40];
    for (int i = 0; i < n; i++) { snprintf(b, sizeof b, " %.9g", gen_value(r)); l += b; }
    p.addline(l);
}
// wide logs: column counts and offsets beyond 8 and 16 bits
static int gen_ncol(Rng &r) { return r.chance(0.015) ? (int)r.range(100, 700) : r.chance(0.1) ? (int)r.range(12, 60) : r.chance(0.2) ? 1 : (int)r.range(1, 8); }
// rows of a log that is longer than the limits of narrow integers: "bulk COUNT SEED" stands for COUNT rows
static int gen_bulk(Rng &r, int n) { int bytes = r.pick(std::vector<int>{35000, 70000, 70000, 140000}); return bytes / (n * 9) + 1; }
static Row bulk_row(uint64_t seed, long k, size_t n) { Rng r(seed * 1000003 + k); Row v(n); for (auto &x : v) x = (float)((r.unit() - 0.5) * 20); return v; }
static void gen_backend(Rng &r, Plan &p, const char *pre) {
    bool file = r.chance(0.6);
    p.add("cfg %sfile %d", pre, (int)file);
    p.add("cfg %sbufmode %d", pre, (int)r.below(3));
    static const std::vector<int> sizes = {1, 2, 3, 7, 16, 31, 64, 100, 256, 1024, 4096};
    p.add("cfg %sbufsize %d", pre, r.pick(sizes));
}

static Plan plan_write(Rng &r, bool crash, bool wfaults) {
    Plan p;
    gen_backend(r, p, "w"); gen_backend(r, p, "r");
    bool bulk = r.chance(0.012); int n = gen_ncol(r); if (bulk) n = std::max(n, r.chance(0.15) ? r.chance(0.07) ? (int)r.range(r.chance(0.5) ? 32760 : 65530, 70000) : (int)r.range(4000, 8000) : 20); // at times lines of more than 32 or 64 KB
    int nops = n > 1000 ? 3 : r.chance(0.2) ? (int)r.range(20, 60) : (int)r.range(3, 16);
    double psync = r.pick(std::vector<double>{0.05, 0.2, 0.5}), pcrash = crash ? r.pick(std::vector<double>{0.08, 0.2}) : 0;
    double pf = wfaults ? r.pick(std::vector<double>{0.05, 0.15, 0.4}) : 0, prej = r.pick(std::vector<double>{0, 0.1, 0.25});
    bool enospc = wfaults && r.chance(0.2);
    auto arm = [&](int cols) {
        if (wfaults && r.chance(pf)) {
            int k = r.chance(0.1) ? 2 : 1;
            while (k--) {
                const char *t = r.chance(0.4) ? "short" : r.chance(0.4) ? "neg" : (enospc && r.chance(0.3)) ? "enospc" : "zero";
                p.add("wf %d %s %d", (int)r.range(1, r.chance(0.3) ? 2 : 2 * cols), t, (int)r.below(12));
            }
        }
        if (crash && r.chance(pcrash / 2)) p.add("wcrash %d %d", (int)r.range(1, 2 * cols), (int)r.below(14));
    };
    arm(n); gen_names(r, p, n);
    if (crash) p.add("sync");
    if (bulk) p.add("bulk %d %d", gen_bulk(r, n), (int)r.below(1000000));
    for (int k = 0; k < nops; k++) {
        if (r.chance(prej)) {
            arm(n);
            if (r.chance(0.4)) { int m = n + (int)r.pick(std::vector<int>{-1, 1, 2, 7}); if (m < 0) m = 0; gen_row(r, p, m); }
            else {
                // a value that needs more characters than the format allows, anywhere in the row
                std::string l = "row"; char b[40]; int at = (int)r.below(n);
                for (int i = 0; i < n; i++) {
                    float v = i == at ? (r.chance(0.5) ? 1.0f : -1.0f) * (float)std::pow(10.0, r.range(12, 38)) : gen_value(r);
                    if (i == at && r.chance(0.3)) v = r.chance(0.5) ? -99999997952.0f : 999999995904.0f;
                    snprintf(b, sizeof b, " %.9g", v); l += b;
                }
                p.addline(l);
            }
        } else { arm(n); gen_row(r, p, n); }
        if (r.chance(0.15)) { arm(n); p.add("flush"); }
        if (r.chance(psync)) { arm(n); p.add("sync"); }
        if (wfaults && r.chance(0.1)) p.add("close");
        if (crash && r.chance(pcrash)) p.add("crash %d %d", (int)r.below(1001), r.chance(0.3) ? (int)r.range(1, 40) : 0);
    }
    if (crash && r.chance(0.7)) p.add("crash %d %d", (int)r.below(1001), r.chance(0.3) ? (int)r.range(1, 40) : 0);
    return p;
}

struct Log {
    Disk disk; std::unique_ptr<Stream> st; void *writer = nullptr;
    bool wfile, rfile; long wbm, wbs, rbm, rbs;
    std::vector<std::string> header; bool have_header = false; bool header_acked = false;
    struct R { Row v; bool acked; size_t end; };
    std::vector<R> rows; // lines that belong to the log, in order
    size_t header_end = 0;
    size_t n = 0;
    void open(size_t ncol) {
        st = open_stream(&disk, wfile, "a", wbm, wbs);
        free(writer);
        writer = sut_writer(st->w, st->s, st->ctx, ncol);
    }
    // read the whole medium with a fresh reader; returns false when the header is not delivered
    bool readback(std::vector<std::vector<std::string>> &out, std::vector<std::string> &hdr, int &last) {
        disk.armed.clear(); disk.begin();
        auto rs = open_stream(&disk, rfile, "r", rbm, rbs);
        void *rd = sut_reader(rs->r, rs->s, rs->ctx);
        size_t bn = 64 * std::max<size_t>(80, n + header.size()) + join(header).size(), nc = std::max(n, header.size()) + 4;
        {
            ReadBuf b(bn, nc); budget(CALL_BUDGET);
            int e = sut_read_header(rd, b.buf, b.n, b.cols, b.nc); budget(0);
            if (e != 0) { free(rd); last = e; return false; }
            hdr = b.get(header.size());
        }
        size_t limit = disk.data.size() + 4; int stop = 0;
        for (size_t k = 0; k < limit && stop < 3; k++) {
            ReadBuf b(bn, nc); budget(CALL_BUDGET);
            int m = sut_read_row(rd, b.buf, b.n, b.cols, b.nc); budget(0);
            if (m > 0) {
                if (stop) violate("row-after-end", "a row was delivered after the end of the readable data");
                if ((size_t)m > nc) violate("bad-column-count", "%d columns reported", m);
                out.push_back(b.get(m));
            } else { stop++; last = m; }
        }
        free(rd);
        return true;
    }
};

static void check_rows(Log &L, size_t must, const char *when) {
    std::vector<std::vector<std::string>> got; std::vector<std::string> hdr; int last = 0;
    bool complete_tail = !L.disk.data.empty() && L.disk.data.back() == '\n';
    bool header_there = L.have_header && L.header_acked && L.header_end <= L.disk.data.size() && L.header_end > 0;
    if (!L.readback(got, hdr, last)) {
        if (header_there) violate("header-lost", "%s: header was written and survives, but is not readable", when);
        if (must) violate("rows-lost", "%s: header unreadable, %zu durable rows lost", when, must);
        return;
    }
    if (!L.have_header) violate("header-invented", "%s: a header was read from a log without one", when);
    if (hdr != L.header) violate("header-differs", "%s: header read '%s', written '%s'", when, shorten(join(hdr)).c_str(), shorten(join(L.header)).c_str());
    for (size_t k = 0; k < got.size(); k++) {
        if (k >= L.rows.size()) violate("row-invented", "%s: row %zu '%s' was never written", when, k, shorten(join(got[k])).c_str());
        if (!row_text_eq(got[k], L.rows[k].v))
            violate("row-differs", "%s: row %zu read '%s', written '%s'", when, k, shorten(join(got[k])).c_str(), rowstr(L.rows[k].v).c_str());
    }
    if (got.size() < must) violate("rows-lost", "%s: %zu of %zu acknowledged durable rows delivered", when, got.size(), must);
    if (last < 0 && complete_tail) violate("spurious-error", "%s: error at the end of a log that ends with a complete row", when);
    count("rows_read_back", got.size());
    note("readback %s rows=%zu last=%d", when, got.size(), last < 0 ? -1 : 0);
}

static void exec_write(const Plan &p, bool crashes, bool c02) {
    Log L;
    L.wfile = p.cfg("wfile", 0); L.wbm = p.cfg("wbufmode", 0); L.wbs = std::max(1l, p.cfg("wbufsize", 64));
    L.rfile = p.cfg("rfile", 0); L.rbm = p.cfg("rbufmode", 0); L.rbs = std::max(1l, p.cfg("rbufsize", 64));
    L.open(0);
    size_t good = 0;        // length of the stream up to the end of the last complete line
    bool torn = false;      // a failed call may have left a partial line behind
    std::vector<Fault> pend; long ca = 0, cb = 0;
    auto durable_rows = [&] { size_t k = 0; while (k < L.rows.size() && L.rows[k].acked && L.rows[k].end <= L.disk.durable) k++; return k; };
    auto recover = [&](const char *when) {
        // the application reads its log, cuts the torn tail and appends again
        size_t must = durable_rows();
        check_rows(L, must, when);
        auto e = L.disk.data.rfind('\n');
        size_t keep = e == std::string::npos ? 0 : e + 1;
        if (keep < L.disk.data.size()) count("torn_tail_cut");
        L.disk.data.resize(keep); L.disk.durable = keep;
        size_t lines = std::count(L.disk.data.begin(), L.disk.data.end(), '\n');
        if (lines == 0) { L.have_header = L.header_acked = false; L.rows.clear(); L.header_end = 0; }
        else {
            L.rows.resize(std::min(L.rows.size(), lines - 1));
            L.header_acked = true; L.header_end = L.disk.data.find('\n') + 1;
            size_t at = L.header_end;
            for (auto &rw : L.rows) { at = L.disk.data.find('\n', at) + 1; rw.acked = true; rw.end = at; }
        }
        good = keep; torn = false;
        L.open(L.have_header ? L.n : 0);
    };
    auto do_crash = [&](long permille, long zeros) {
        L.disk.dead = true; L.st->close();           // what stdio still buffers is lost
        L.disk.dead = false; L.disk.full = false;
        size_t vol = L.disk.data.size() - L.disk.durable;
        size_t keep = L.disk.durable + vol * std::min(1000l, permille) / 1000;
        if (keep < L.disk.data.size()) count("fault_crash_lost_tail");
        size_t lost = L.disk.data.size() - keep;
        L.disk.data.resize(keep);
        if (zeros > 0 && lost > 0) { L.disk.data.append(std::min((size_t)zeros, lost), '\0'); count("fault_crash_zero_tail"); }
        count("fault_crash");
        // abstract state: durable?/volatile?/torn tail?/zeros?
        reach("crash d%d v%d t%d z%d f%d rows%zu", L.disk.durable > 0, vol > 0, !L.disk.data.empty() && L.disk.data.back() != '\n', zeros > 0, (int)L.wfile, std::min(L.rows.size(), (size_t)6));
        recover("after crash");
    };
    // repair of the stream after a failed call (the application truncates and reopens)
    auto repair = [&] {
        L.disk.full = false; L.st->close();
        recover("after write error");
        count("repairs");
    };
    for (auto &l : p.lines) {
        run().steps++;
        const std::string &op = l.op();
        if (op == "cfg" || op == "prop") continue;
        if (op == "wf") { pend.push_back({'w', l.i(1), l.s(2), l.i(3)}); continue; }
        if (op == "wcrash") { ca = l.i(1); cb = l.i(2); continue; }
        if (op == "crash") { do_crash(l.i(1), l.i(2)); pend.clear(); ca = 0; continue; }
        if (op == "bulk") {
            if (!L.have_header) continue;
            L.disk.begin(); L.disk.armed.clear(); L.disk.crash_at = 0; long m = std::min(20000l, l.i(1));
            for (long k = 0; k < m; k++) {
                Row v = bulk_row(l.u(2), k, L.n); budget(CALL_BUDGET); int rc = sut_write_row(L.writer, v.data(), v.size()); budget(0);
                if (rc) violate("spurious-write-error", "row %ld of a long log failed with %d", k, rc);
                L.rows.push_back({v, true, 0});
            }
            if (L.st->f && (fflush(L.st->f) || ferror(L.st->f))) harness_error("flush");
            size_t at = L.header_end; // where the lines ended
            for (auto &rw : L.rows) { auto e = L.disk.data.find('\n', at); if (e == std::string::npos) violate("acknowledged-but-lost", "a row of a long log is not in the stream"); at = e + 1; if (!rw.end) rw.end = at; }
            count("long_logs"); note("bulk %ld len=%zu", m, L.disk.data.size()); continue;
        }
        L.disk.begin(); L.disk.armed = pend; L.disk.crash_at = ca; L.disk.crash_bytes = cb;
        pend.clear(); ca = 0;
        bool ok = false, isrow = op == "row", ishdr = op == "header";
        std::string before = view(*L.st);
        budget(CALL_BUDGET);
        Row v; std::vector<std::string> names;
        int rc = 0;
        if (ishdr) {
            if (L.have_header) { L.disk.end(); budget(0); continue; } // one header per log
            names = names_of(l); std::vector<const char *> c; for (auto &s : names) c.push_back(s.c_str());
            rc = sut_write_header(L.writer, c.data(), c.size());
            ok = rc == 0;
        } else if (isrow) {
            if (!L.have_header) { L.disk.end(); budget(0); continue; }
            for (size_t i = 1; i < l.f.size(); i++) v.push_back((float)l.d(i));
            float *h = (float *)malloc(std::max<size_t>(1, v.size() * sizeof(float))); if (!v.empty()) memcpy(h, v.data(), v.size() * sizeof(float));
            rc = sut_write_row(L.writer, h, v.size());
            free(h); ok = rc == 0;
        } else if (op == "flush" || op == "sync" || op == "close") {
            int e = L.st->f ? fflush(L.st->f) : 0;
            ok = e == 0 && !(L.st->f && ferror(L.st->f));
            if (ok && op != "flush" && !L.disk.dead) L.disk.durable = L.disk.data.size();
            count(op.c_str());
        }
        budget(0);
        bool fault = L.disk.fired > 0 || L.disk.dead;
        std::string after = view(*L.st);
        note("%s n=%zu rc=%d fault=%ld len=%zu", op.c_str(), v.size(), rc != 0, L.disk.fired, after.size());
        if (fault) reach("op %s fault w%ld of %ld ok%d file%d", op.c_str(), L.disk.fired_w, std::min(L.disk.ncall[0], 8l), ok, (int)L.wfile);
        if (L.disk.dead) {
            // power went down inside the call: the caller never saw the result
            count("crash_inside_call");
            if (isrow || ishdr) {
                if (ishdr) { L.have_header = true; L.header_acked = false; L.header = names; L.n = names.size(); L.header_end = 0; }
                else L.rows.push_back({v, false, 0});
            }
            // power loss in one call keeps what the device got
            do_crash(1000, 0);
            L.disk.end(); continue;
        }
        L.disk.end();
        if (isrow || ishdr) {
            if (isrow && ok && v.size() != L.n) violate("wrong-width-accepted", "a row of %zu values was acknowledged in a log of %zu columns", v.size(), L.n);
            if (ok) {
                bool appended = after.size() > before.size() && after.compare(0, before.size(), before) == 0;
                std::string add = appended ? after.substr(before.size()) : "";
                bool complete = appended && (ishdr ? add == join(names) + "\n" : is_line(add, v));
                if (!complete)
                    violate(fault ? "acknowledged-but-lost" : "wrong-output", "%s acknowledged, but the stream got '%s' (fault injected: %s)", op.c_str(), shorten(add).c_str(), fault ? "yes" : "no");
                if (ishdr) { L.have_header = L.header_acked = true; L.header = names; L.n = names.size(); L.header_end = after.size(); }
                else L.rows.push_back({v, true, after.size()});
                good = after.size(); count(ishdr ? "header_acked" : "row_acked");
            } else {
                bool legit_reject = isrow && v.size() != L.n;
                bool toolong = false;
                for (float x : v) { char t[64]; if (snprintf(t, sizeof t, "%.6f", x) >= 19 || !std::isfinite(x)) toolong = true; }
                if (!fault && !legit_reject && !toolong) violate("spurious-write-error", "%s failed with %d without any fault", op.c_str(), rc);
                if (!fault) {
                    count("row_rejected");
                    if (after != before) violate("rejected-row-left-bytes", "a rejected row left '%s' in the stream", shorten(after.substr(std::min(after.size(), before.size()))).c_str());
                } else torn = true;
                if (ishdr) { repair(); continue; }
            }
        } else if (!ok) torn = true;
        if (torn) { repair(); continue; }
    }
    // orderly shutdown: flush, close, and read everything back
    L.disk.begin(); L.disk.full = false;
    if (L.st->f && (fflush(L.st->f) != 0)) harness_error("final flush failed");
    L.disk.durable = L.disk.data.size();
    L.st->close();
    size_t must = durable_rows();
    if (must != L.rows.size()) violate("acknowledged-but-lost", "%zu rows acknowledged, only %zu reached the medium by the final sync", L.rows.size(), must);
    if (L.have_header) check_rows(L, must, "at end");
    (void)crashes; (void)c02; (void)good;
}

// ================================================================ C03: reader under read and seek faults
static Plan plan_read(Rng &r) {
    Plan p;
    gen_backend(r, p, "r");
    bool bulk = r.chance(0.012); int n = gen_ncol(r); if (bulk) n = std::max(n, r.chance(0.15) ? r.chance(0.07) ? (int)r.range(r.chance(0.5) ? 32760 : 65530, 70000) : (int)r.range(4000, 8000) : 20);
    bool faults = r.chance(0.85);
    p.add("cfg ncol %d", n);
    gen_names(r, p, n);
    int rows = n > 1000 ? 2 : r.chance(0.15) ? (int)r.range(15, 40) : (int)r.range(0, 8);
    for (int k = 0; k < rows; k++) {
        if (r.chance(0.7)) gen_row(r, p, n, "line");
        else {
            std::string l = "line"; for (int i = 0; i < n; i++) { l += ' '; int len = r.chance(0.1) ? (int)r.range(30, 200) : (int)r.range(1, 9); if (len == 1) l += "0"; else for (int q = 0; q < len; q++) l += "0123456789.-+eE_xyz#;:"[r.below(22)]; }
            p.addline(l);
        }
    }
    if (r.chance(0.25)) p.add("tail %d", (int)r.range(1, 60));
    if (bulk) { int b = gen_bulk(r, n); p.add("bulk %d %d", b, (int)r.below(1000000)); if (r.chance(0.5)) rows += std::min(b, 300); }
    int nops = rows * (r.chance(0.5) ? 2 : 1) + (int)r.range(2, 10);
    double pf = faults ? r.pick(std::vector<double>{0.1, 0.3, 0.6}) : 0, psmall = r.pick(std::vector<double>{0, 0.1, 0.3});
    auto arm = [&] {
        if (!r.chance(pf)) return;
        int k = r.chance(0.2) ? 2 : 1;
        while (k--) {
            if (r.chance(0.6)) p.add("rf %d %s %d", r.chance(0.7) ? 1 : (int)r.range(1, 6), r.pick(std::vector<const char *>{"short", "zero", "neg"}), (int)r.below(40));
            else p.add("sf %d %s %d", r.chance(0.7) ? 1 : 2, r.pick(std::vector<const char *>{"keep", "moved", "lost"}), (int)r.below(300));
        }
    };
    auto size = [&] { return r.chance(psmall) ? (int)r.range(0, 60) : r.chance(0.3) ? -(int)r.range(0, 6) : (int)r.range(100, 9000); };
    arm(); p.add("hdr %d %d", size(), r.chance(0.1) ? (int)r.below(n + 1) : n + (int)r.below(4));
    if (r.chance(0.5)) p.add("hdr %d %d", 8000, n);
    for (int k = 0; k < nops; k++) {
        arm();
        p.add("row %d %d", size(), r.chance(0.08) ? (int)r.below(n + 1) : n + (int)r.below(4));
    }
    return p;
}
static void exec_read(const Plan &p) {
    Disk d; std::vector<std::string> header; std::vector<std::vector<std::string>> rows; std::vector<size_t> len;
    size_t n = std::max(1l, p.cfg("ncol", 1)); bool have = false; long tail = 0;
    for (auto &l : p.lines) {
        if (l.op() == "header") { header = names_of(l); have = true; }
        if (l.op() == "line") { auto v = names_of(l); if (v.size() == n) rows.push_back(v); }
        if (l.op() == "tail") tail = l.i(1);
    }
    if (!have) return;
    if (header.size() != n) return;
    d.data = join(header) + "\n"; size_t hlen = d.data.size();
    for (auto &v : rows) { std::string t = join(v) + "\n"; d.data += t; len.push_back(t.size()); }
    for (auto &l : p.lines) if (l.op() == "bulk") {
        count("long_logs"); char b[40];
        for (long k = 0, m = std::min(20000l, l.i(1)); k < m; k++) {
            std::vector<std::string> v; for (float x : bulk_row(l.u(2), k, n)) { snprintf(b, sizeof b, "%.6f", x); v.push_back(b); }
            std::string t = join(v) + "\n"; rows.push_back(v); d.data += t; len.push_back(t.size());
        }
    }
    bool torn = false;
    if (tail > 0) { std::string t; for (size_t i = 0; i < n; i++) t += (i ? ",7.250000" : "1.500000"); t.resize(std::min((size_t)tail, t.size())); d.data += t; torn = true; count("torn_tail"); }
    const std::string stored = d.data;
    auto st = open_stream(&d, p.cfg("rfile", 0), "r", p.cfg("rbufmode", 0), std::max(1l, p.cfg("rbufsize", 64)));
    void *rd = sut_reader(st->r, st->s, st->ctx);
    bool got_header = false; size_t next = 0;
    std::vector<Fault> pend;
    auto call = [&](bool hdr, long bl, long nc, bool quiet) -> int {
        // buffer sizes <= 0 are relative to the exact need of the line to be read
        size_t need = hdr ? hlen : next < rows.size() ? len[next] : 8;
        size_t bn = bl > 0 || (bl == 0 && false) ? (size_t)bl : (need + 2 > (size_t)(-bl) ? need + 2 + bl : 0);
        ReadBuf b(bn, nc);
        d.begin(); d.armed = pend; pend.clear();
        budget(CALL_BUDGET);
        int m = hdr ? sut_read_header(rd, b.buf, b.n, b.cols, b.nc) : sut_read_row(rd, b.buf, b.n, b.cols, b.nc);
        budget(0);
        d.end();
        bool fault = d.fired > 0, small = bn < need + 2, few = (size_t)nc < n;
        if (fault && !quiet) count("faulted_calls");
        note("%s buf=%zu cols=%ld -> %d fault=%ld", hdr ? "hdr" : "row", bn, nc, m < 0 ? -1 : m, d.fired);
        reach("%s r%ld s%ld small%d few%d ret%d at%zu/%d file%d", hdr ? "h" : "r", d.fired_r, d.fired_s, small, few, m < 0 ? -1 : (m > 0), std::min(next, (size_t)3), next >= rows.size(), (int)st->isfile);
        if (d.data != stored) harness_error("medium changed while reading");
        if (hdr) {
            if (m == 0) {
                if (few) violate("header-differs", "header of %zu columns accepted with room for %ld", n, nc);
                auto h = b.get(n);
                if (h != header) violate("header-differs", "header read '%s', stored '%s'", shorten(join(h)).c_str(), shorten(join(header)).c_str());
                got_header = true; next = 0; return 1;
            }
            if (!fault && !small && !few) violate("spurious-read-error", "reading the header failed with %d without any fault", m);
            return -1;
        }
        if (m > 0) {
            if (next >= rows.size()) {
                if ((size_t)m <= (size_t)nc) { auto g = b.get(m); violate("row-invented", "row '%s' delivered after the last complete row", shorten(join(g)).c_str()); }
                violate("row-invented", "%d columns delivered after the last complete row", m);
            }
            if ((size_t)m != n) violate("row-differs", "row %zu delivered with %d columns, has %zu", next, m, n);
            auto g = b.get(m);
            if (g != rows[next]) violate("row-differs", "row %zu read '%s', stored '%s'", next, shorten(join(g)).c_str(), shorten(join(rows[next])).c_str());
            next++; count("rows_delivered"); return 1;
        }
        if (m == 0) {
            bool zero = d.zero_reads > 0;
            if (next < rows.size() && !zero && !(small && bn == 0)) violate("premature-end", "end of data reported with %zu of %zu rows delivered", next, rows.size());
            return 0;
        }
        if (!fault && !small && !few && !(torn && next >= rows.size()))
            violate("spurious-read-error", "reading row %zu of %zu failed with %d without any fault", next, rows.size(), m);
        return -1;
    };
    for (auto &l : p.lines) {
        run().steps++;
        if (l.op() == "rf") pend.push_back({'r', l.i(1), l.s(2), l.i(3)});
        else if (l.op() == "sf") pend.push_back({'s', l.i(1), l.s(2), l.i(3)});
        else if (l.op() == "hdr" && !got_header) call(true, l.i(1), std::max(0l, l.i(2)), false);
        else if (l.op() == "row") {
            if (!got_header) { pend.clear(); continue; }
            call(false, l.i(1), std::max(0l, l.i(2)), false);
        }
    }
    // faults are over: the header within one call, then every remaining row with one call each
    pend.clear();
    if (!got_header && call(true, 9000 + 64 * n + hlen, n, true) != 1) violate("no-progress", "header not readable after faults stopped");
    while (next < rows.size()) {
        size_t b4 = next; call(false, 16000 + 210 * n, n, true);
        if (next == b4) violate("no-progress", "row %zu not delivered by a call after faults stopped", next);
    }
    int e = call(false, 9000 + 64 * n, n, true);
    if (e > 0) violate("row-invented", "row after the end");
    free(rd);
}

// ================================================================ C03: a log of gigabytes, beyond 32-bit positions
// The device does not hold it: every row has the same length, and its first column is its number.
struct Big { size_t pos = 0, rowlen = 0, rows = 0; std::string header, row; long calls = 0, nf = 0; uint64_t fr = 0; };
static Big big;
static int big_read(void *, uint8_t *b, size_t n) {
    if (big.fr && ++big.calls % (long)(big.fr) == 0) { count("fault_r_neg"); return -1; }
    size_t end = big.header.size() + big.rows * big.rowlen, got = 0;
    while (got < n && big.pos < end) {
        if (big.pos < big.header.size()) { size_t m = std::min(n - got, big.header.size() - big.pos); memcpy(b + got, &big.header[big.pos], m); got += m; big.pos += m; continue; }
        size_t k = (big.pos - big.header.size()) / big.rowlen, o = (big.pos - big.header.size()) % big.rowlen, m = std::min(n - got, big.rowlen - o);
        memcpy(b + got, &big.row[o], m);
        if (o < 10) { char t[16]; snprintf(t, sizeof t, "%010zu", k); memcpy(b + got, t + o, std::min(m, 10 - o)); }
        got += m; big.pos += m;
    }
    return (int)got;
}
static int big_seek(void *, size_t p) { big.pos = p; return 0; }
static Plan plan_big(Rng &r) {
    Plan p; p.add("cfg big 1"); p.add("cfg mb %d", r.chance(0.5) ? 4500 : 2200); p.add("cfg ncol %d", (int)r.range(15000, 25000)); p.add("cfg fault_every %d", (int)r.range(500, 3000)); p.add("cfg width %d", (int)r.range(7, 12)); return p;
}
static void exec_big(const Plan &p) {
    size_t n = std::max(2l, p.cfg("ncol", 20000)); big = Big(); big.fr = p.cfg("fault_every", 0); std::string v(std::max(1l, p.cfg("width", 9)), '7');
    big.row = "0000000000"; for (size_t i = 1; i < n; i++) { big.header += "c,"; big.row += ","; big.row += v; } big.header += "c\n"; big.row += "\n";
    big.rowlen = big.row.size(); big.rows = (size_t)p.cfg("mb", 100) * 1000000 / big.rowlen + 1;
    void *rd = sut_reader(big_read, big_seek, nullptr); ReadBuf b(std::max(big.rowlen, big.header.size()) + 100, n);
    for (int t = 0; sut_read_header(rd, b.buf, b.n, b.cols, b.nc) != 0; t++) if (t > 2) violate("no-progress", "header not readable");
    int bad = 0;
    for (size_t k = 0; k < big.rows;) {
        long f = big.fr ? big.calls / big.fr : 0; int m = sut_read_row(rd, b.buf, b.n, b.cols, b.nc);
        if (m > 0) {
            bad = 0; char t[16]; snprintf(t, sizeof t, "%010zu", k);
            if ((size_t)m != n) violate("row-differs", "row %zu of a log of %zu rows delivered with %d columns", k, big.rows, m);
            if (strcmp(b.cols[0], t)) violate("row-differs", "row %zu at %zu MB: '%s' delivered", k, k * big.rowlen / 1000000, shorten(std::string(b.cols[0], strnlen(b.cols[0], 40))).c_str());
            for (size_t i = 1; i < n; i += 1 + n / 50) if (v != b.cols[i]) violate("row-differs", "row %zu column %zu differs", k, i);
            k++; run().steps++;
        } else {
            if (!(big.fr && big.calls / (long)big.fr > f) || m == 0) violate(m ? "spurious-read-error" : "premature-end", "reading row %zu of %zu at %zu MB returned %d", k, big.rows, k * big.rowlen / 1000000, m);
            if (++bad > 2) violate("no-progress", "row %zu not delivered", k);
        }
    }
    int e = sut_read_row(rd, b.buf, b.n, b.cols, b.nc); if (e > 0) violate("row-invented", "row after the end"); // an injected fault may hit this call
    count("rows_delivered", big.rows); count("gigabyte_logs"); note("big %zu", big.rows); free(rd);
}

// ================================================================ C04: writer and tailing reader as interleaved tasks
struct Task { ucontext_t ctx; std::vector<char> stack; bool done = false; };
static Task T[2]; static ucontext_t sched_ctx; static int cur = -1; static long quota = 0; static long yields = 0;
static std::function<void()> body[2];
static void task_yield() {
    if (cur < 0) return;
    yields++;
    if (yields > 3000000) violate("hang", "tasks make no progress");
    if (--quota > 0) return;
    int me = cur; swapcontext(&T[me].ctx, &sched_ctx);
}
static void task_main(int k) { body[k](); T[k].done = true; swapcontext(&T[k].ctx, &sched_ctx); }
static void run_slice(int k, long n) {
    if (T[k].done || n <= 0) return;
    quota = n; cur = k; uint64_t b = step_count(); (void)b;
    swapcontext(&sched_ctx, &T[k].ctx); cur = -1;
}
static Plan plan_tail(Rng &r) {
    Plan p;
    gen_backend(r, p, "w"); gen_backend(r, p, "r");
    p.add("cfg chunk %d", r.chance(0.5) ? 0 : (int)r.pick(std::vector<int>{1, 2, 3, 5, 8, 20}));
    p.add("cfg maxpolls %d", 100000);
    int n = gen_ncol(r); if (n > 20) n = 20;
    bool bulk = r.chance(0.006); if (bulk) n = 60; // 35 or 70 KB
    gen_names(r, p, n);
    int rows = r.chance(0.2) ? (int)r.range(10, 30) : (int)r.range(1, 9);
    double pfl = r.pick(std::vector<double>{0, 0.2, 0.6, 1.0});
    if (bulk) { rows = r.pick(std::vector<int>{60, 120}); count("long_logs"); }
    for (int k = 0; k < rows; k++) { gen_row(r, p, n); if (r.chance(pfl)) p.add("flush"); }
    int ns = (int)r.range(2, 120); int style = (int)r.below(3);
    for (int k = 0; k < ns; k++) p.add("slice %d %d", (int)r.below(2), style == 0 ? 1 : style == 1 ? (int)r.range(1, 4) : (int)r.range(1, 25));
    return p;
}
static void exec_tail(const Plan &p) {
    static Disk d; static std::vector<Row> rows; static std::vector<std::string> header; static size_t acked = 0; static bool wdone = false;
    static size_t delivered = 0; static long polls_after = 0; static size_t left_at_stop = 0; static bool got_header = false;
    for (auto &l : p.lines) { if (l.op() == "header") header = names_of(l); }
    if (header.empty()) return;
    size_t n = header.size();
    d.yield = task_yield; d.chunk = p.cfg("chunk", 0);
    auto ws = open_stream(&d, p.cfg("wfile", 0), "a", p.cfg("wbufmode", 0), std::max(1l, p.cfg("wbufsize", 64)));
    auto rs = open_stream(&d, p.cfg("rfile", 0), "r", p.cfg("rbufmode", 0), std::max(1l, p.cfg("rbufsize", 64)));
    void *w = sut_writer(ws->w, ws->s, ws->ctx, 0), *rd = sut_reader(rs->r, rs->s, rs->ctx);
    body[0] = [&] {
        std::vector<const char *> c; for (auto &s : header) c.push_back(s.c_str());
        if (sut_write_header(w, c.data(), c.size()) != 0) violate("spurious-write-error", "header write failed");

        for (auto &l : p.lines) {
            if (l.op() == "row") {
                Row v; for (size_t i = 1; i < l.f.size(); i++) v.push_back((float)l.d(i));
                if (v.size() != n) continue;
                rows.push_back(v);
                if (sut_write_row(w, v.data(), v.size()) != 0) violate("spurious-write-error", "row write failed");
                acked++; note("W row %zu", acked);
                task_yield();
            } else if (l.op() == "flush" && ws->f) { if (fflush(ws->f)) harness_error("flush"); count("flush"); }
        }
        if (ws->f && fflush(ws->f)) harness_error("flush");
        wdone = true; left_at_stop = rows.size() - delivered; note("W done, %zu left", left_at_stop);
    };
    body[1] = [&] {
        for (;;) {
            // a poll that started after the writer stopped has to make progress
            bool fair = wdone;
            size_t avail_before = d.data.size();
            ReadBuf b(6000 + join(header).size(), n + 2);
            if (!got_header) {
                int e = sut_read_header(rd, b.buf, b.n, b.cols, b.nc);
                if (e == 0) {
                    auto h = b.get(n); if (h != header) violate("header-differs", "header read '%s', written '%s'", shorten(join(h)).c_str(), shorten(join(header)).c_str());
                    got_header = true; note("R header");
                } else { count("poll_header_early"); if (fair) polls_after++; }
            } else {
                int m = sut_read_row(rd, b.buf, b.n, b.cols, b.nc);
                if (m > 0) {
                    if (delivered >= rows.size()) violate("row-invented", "row %zu delivered, only %zu written", delivered, rows.size());
                    if ((size_t)m != n) violate("row-differs", "row %zu delivered with %d of %zu columns", delivered, m, n);
                    auto g = b.get(m);
                    if (!row_text_eq(g, rows[delivered])) violate("row-differs", "row %zu read '%s', written '%s'", delivered, shorten(join(g)).c_str(), rowstr(rows[delivered]).c_str());
                    if (delivered + 1 > acked) count("row_read_before_ack");
                    delivered++; note("R row %zu", delivered);
                } else {
                    count(m == 0 ? "poll_no_data" : "poll_partial_row");
                    note("R %d", m < 0 ? -1 : 0);
                    reach("poll %d lag%zu behind%d", m < 0 ? -1 : 0, std::min(acked - std::min(acked, delivered), (size_t)5), avail_before != d.data.size());
                    if (fair) polls_after++;
                }
            }
            if (wdone && delivered == rows.size() && got_header) break;
            if (polls_after > 4) violate("no-progress", "writer stopped, %zu of %zu rows delivered, and further polls deliver nothing", delivered, rows.size());
            task_yield();
        }
        // at the end of the log: nothing more
        for (int k = 0; k < 2; k++) { ReadBuf b(6000 + join(header).size(), n + 2); int m = sut_read_row(rd, b.buf, b.n, b.cols, b.nc); if (m != 0) violate(m > 0 ? "row-invented" : "spurious-read-error", "poll at the end of the complete log returned %d", m); }
    };
    for (int k = 0; k < 2; k++) {
        T[k].stack.resize(512 * 1024); getcontext(&T[k].ctx); T[k].ctx.uc_stack.ss_sp = T[k].stack.data(); T[k].ctx.uc_stack.ss_size = T[k].stack.size(); T[k].ctx.uc_link = nullptr;
        makecontext(&T[k].ctx, (void (*)())task_main, 1, k);
    }
    int last = -1;
    for (auto &l : p.lines) if (l.op() == "slice") {
        int k = l.i(1) & 1; if (k != last) { count("switches"); last = k; }
        run_slice(k, l.i(2)); run().steps++; note("S %d %zu", k, d.data.size());
    }
    while (!T[0].done) run_slice(0, 1000000);
    while (!T[1].done) run_slice(1, 1000000);
    if (delivered != rows.size()) violate("rows-lost", "%zu of %zu rows delivered", delivered, rows.size());
    count("rows_tailed", delivered);
    free(w); free(rd);
}

Plan make_plan(uint64_t seed) {
    Rng r(seed); std::string prop = property(); Plan b;
    if (prop == "C01") b = plan_write(r, true, false);
    else if (prop == "C02") b = plan_write(r, false, r.chance(0.9));
    else if (prop == "C03") b = getenv("SIM_BIG") ? plan_big(r) : plan_read(r);
    else if (prop == "C04") b = plan_tail(r);
    else harness_error("SIM_PROPERTY");
    return b;
}
void execute(const Plan &p) {
    std::string prop = property();
    if (prop == "C01") exec_write(p, true, false);
    else if (prop == "C02") exec_write(p, false, true);
    else if (prop == "C03") { if (p.cfg("big", 0)) exec_big(p); else exec_read(p); }
    else exec_tail(p);
}
