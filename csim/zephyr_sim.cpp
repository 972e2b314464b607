// C28: the Zephyr sensor recording application (its main loop and its sampling thread) on a simulated
// kernel: threads preempted at instrumented instructions, message queues, sleeping, a sensor that fails
// or is slow, and a flash disk that fails, is slow, or loses power. Also its sampling thread alone, with
// other windows, channels and consumers, and stopped and started again.
#define SIM_MAIN
#include "rtos.hpp"
#include "zsim.h"
extern "C" {
#include "sensor_reader.h"
int app_main(void); extern float feature_values[] __attribute__((weak));
int zm_features(const float *, int, int, int, float *, int);
size_t zr_size(void); int zr_buffers(void); int zr_max_channels(void); void zr_start(void *); void zr_stop(void *); void zr_errors(void *, long *);
void zr_init(void *, int, int, float *, float *, int, enum sensor_channel *, const struct device *, struct k_msgq *, struct k_thread *, k_thread_stack_t *, size_t);
const struct device zsim_devices[2] = {{"imu0", 0}, {"imu1", 1}};
}
#include <cmath>
#include <deque>
using namespace sim;

// ---------------------------------------------------------------- kernel
static const int MAXT = 6;
struct Kt { bool used = false, started = false; int64_t wake = 0, hold = 0, deadline = -1; struct k_msgq *wq = nullptr; bool wput = false; struct k_thread *th = nullptr; };
static Kt kt[MAXT]; static int nt = 1; static int64_t now_us = 0; static uint64_t acct_at = 0; static int locked = -1; static long lock_depth = 0;
static void account() { uint64_t s = step_count(); now_us += (s - acct_at + 3) / 4; acct_at = s; }
static uint64_t progress_at = 0; // when the sensor was last read
static long kernel_left = 0; // a slice may end at the k-th call of the kernel or a driver
static void point() { ++step_count(); if (kernel_left && --kernel_left == 0) { rtos::cpu().left = 1; count("fault_preemption_at_kernel_call"); } if (step_hook()) step_hook()(); }
static int self() { return rtos::cpu().cur; }
static void sleep_us(int64_t us) { account(); Kt &k = kt[self()]; k.wake = now_us + std::max<int64_t>(us, 0); rtos::yield(); }
static bool runnable(int i) {
    Kt &k = kt[i]; if (!k.used || !k.started || rtos::cpu().tasks[i].done || now_us < k.hold) return false;
    if (k.wq) return (k.wput ? k.wq->used < k.wq->max_msgs : k.wq->used > 0) || (k.deadline >= 0 && now_us >= k.deadline);
    return now_us >= k.wake;
}
static void overflow_check(const char *when);

// ---------------------------------------------------------------- sensors
struct Fault { long at, n; long arg; bool hit(long k) const { return k >= at && k < at + n; } };
struct Chunk { std::vector<float> v; long first = 0; int session = 0; };
struct Sensor {
    int ch = 6, window = 50, rate = 52; std::vector<enum sensor_channel> channels;
    std::vector<Fault> ferr, gerr, late;
    long fetches = 0, valid = -1;                 // valid: the sample the driver holds
    std::vector<std::vector<float>> samples; long sess_first = 0; int session = 0; std::vector<float> last; // as the thread should see them
    long fetch_fail = 0, get_fail = 0, put_fail = 0, puts = 0, sess_puts = 0, tried = -1; bool failed = false; int aborts = 0, abort_slack = 0;
    std::deque<Chunk> ghost; long last_end = 0; std::set<long> open; // get faults per channel call
    struct k_msgq *q = nullptr; struct k_thread *th = nullptr; bool running = false; long gets = 0;
};
static Sensor sen[2]; static bool faults_on = true, app = false;
static struct sensor_value sensed(int dev, long n, int c) { int s = (n * 7 + dev) % 3 == 0 ? -1 : 1; return {(int32_t)(s * (n % 9973)), (int32_t)(s * (100000 * (c % 8) + 50000 * dev + 7))}; }
static int column(Sensor &s, enum sensor_channel c) { for (size_t i = 0; i < s.channels.size(); i++) if (s.channels[i] == c) return i; return -1; }
static int by_queue(struct k_msgq *q) { for (int i = 0; i < 2; i++) if (sen[i].q == q) return i; if (app) { sen[0].q = q; return 0; } return -1; }
static bool fire(std::vector<Fault> &v, long k, const char *name, long *arg = nullptr) { if (!faults_on) return false; for (auto &f : v) if (f.hit(k)) { count(name); if (arg) *arg = f.arg; return true; } return false; }

extern "C" {
bool device_is_ready(const struct device *) { point(); return true; }
static bool attr_fails = false, usb_fails = false;
int sensor_attr_set(const struct device *, enum sensor_channel, enum sensor_attribute, const struct sensor_value *) { point(); if (attr_fails) { count("fault_attr_set"); return -EIO; } return 0; }
int usb_disk_setup(void) { point(); if (usb_fails) { count("fault_usb"); return -ENODEV; } return 0; }
int sensor_sample_fetch(const struct device *d) {
    Sensor &s = sen[d->id]; point(); progress_at = step_count(); long k = ++s.fetches, us = 0;
    if (!s.running) violate("sampling-stopped", "the sensor is read by a stopped thread");
    long n = (long)s.samples.size() - s.sess_first; // samples taken in this session
    if (s.sess_puts < n / s.window) violate("window-lost", "%ld samples of windows of %d were taken and only %ld windows handed over", n, s.window, s.sess_puts);
    if (fire(s.late, k, "fault_sensor_slow", &us)) sleep_us(us);
    if (s.last.empty()) s.last.assign(s.ch, 0.0f);
    bool bad = fire(s.ferr, k, "fault_fetch");
    if (bad) s.fetch_fail++; else s.valid = k;
    s.samples.push_back(s.last); // until the channels are read
    point(); return bad ? -EIO : 0;
}
int sensor_sample_fetch_chan(const struct device *d, enum sensor_channel) { return sensor_sample_fetch(d); }
int sensor_channel_get(const struct device *d, enum sensor_channel c, struct sensor_value *v) {
    Sensor &s = sen[d->id]; point(); int col = column(s, c); if (col < 0) violate("wrong-channel", "channel %d is read, which is not one of the reader's", (int)c);
    if (s.samples.empty()) return -EAGAIN;
    long k = ++s.gets;
    if (s.valid < 0 || fire(s.gerr, k, "fault_get")) { s.get_fail++; point(); return -EIO; }
    *v = sensed(d->id, s.valid, col);
    s.last[col] = (float)sensor_value_to_double(v); s.samples.back()[col] = s.last[col];
    point(); return 0;
}
// ---- threads
k_tid_t k_thread_create(struct k_thread *t, k_thread_stack_t *, size_t, k_thread_entry_t entry, void *a, void *b, void *c, int, uint32_t, k_timeout_t delay) {
    int i = -1; for (int k = 1; k < nt; k++) if (kt[k].th == t) i = k;
    if (i < 0) { if (nt >= MAXT) harness_error("too many threads"); i = nt++; kt[i].th = t; }
    else if (kt[i].started && !rtos::cpu().tasks[i].done) violate("thread-twice", "a thread is created that is running");
    rtos::cpu().tasks[i].body = [=] { dirty_stack(); entry(a, b, c); account(); }; rtos::make(i); t->id = i;
    Kt &k = kt[i]; k.used = true; k.started = delay.us >= 0; k.hold = 0; k.wake = now_us + std::max<int64_t>(0, delay.us); k.wq = nullptr;
    for (auto &s : sen) if (s.th == t || (app && &s == &sen[0])) { s.th = t; s.running = true; s.session++; s.sess_first = s.samples.size(); s.sess_puts = 0; s.tried = -1; s.last.clear(); }
    point(); return t;
}
void k_thread_start(k_tid_t t) { kt[t->id].started = true; }
int k_thread_name_set(k_tid_t, const char *) { return 0; }
k_tid_t k_current_get(void) { return kt[self()].th; }
void k_thread_abort(k_tid_t t) {
    point(); if (!t) violate("abort-none", "a thread is aborted that was never created");
    int i = t->id; rtos::cpu().tasks[i].done = true; if (locked == i) { locked = -1; lock_depth = 0; }
    for (auto &s : sen) if (s.th == t) { s.running = false; s.aborts++; s.abort_slack++; }
    if (i == self()) rtos::yield();
    point();
}
int k_thread_join(struct k_thread *t, k_timeout_t to) { int64_t end = now_us + to.us; while (!rtos::cpu().tasks[t->id].done) { if (to.us >= 0 && now_us >= end) return -EAGAIN; sleep_us(1000); } return 0; }
int32_t k_usleep(int32_t us) { point(); sleep_us(us); return 0; }
int32_t k_msleep(int32_t ms) { point(); sleep_us((int64_t)ms * 1000); return 0; }
int32_t k_sleep(k_timeout_t t) { point(); sleep_us(t.us < 0 ? (int64_t)1 << 50 : t.us); return 0; }
void k_yield(void) { rtos::yield(); }
void k_busy_wait(uint32_t us) { for (uint32_t i = 0; i < us / 10; i++) { step_count() += 39; point(); } }
int64_t k_uptime_get(void) { point(); account(); return now_us / 1000; }
uint32_t k_uptime_get_32(void) { return (uint32_t)k_uptime_get(); }
uint32_t k_cycle_get_32(void) { point(); account(); return (uint32_t)(now_us * 64); }
void k_sched_lock(void) { point(); if (locked == self()) lock_depth++; else { locked = self(); lock_depth = 1; } }
void k_sched_unlock(void) { if (locked == self() && --lock_depth == 0) locked = -1; point(); }
unsigned int irq_lock(void) { k_sched_lock(); return 0; }
void irq_unlock(unsigned int) { k_sched_unlock(); }
// ---- message queues
void k_msgq_init(struct k_msgq *q, char *b, size_t n, uint32_t max) { *q = {n, max, b, 0, 0}; }
static void wait_on(struct k_msgq *q, bool put, k_timeout_t to) { account(); Kt &k = kt[self()]; k.wq = q; k.wput = put; k.deadline = to.us < 0 ? -1 : now_us + to.us; rtos::yield(); k.wq = nullptr; }
int k_msgq_put(struct k_msgq *q, const void *data, k_timeout_t to) {
    point(); int r = by_queue(q); 
    if (r >= 0 && self() > 0) {
        Sensor &s = sen[r]; auto *m = (const struct sensor_chunk_msg *)data;
        if (app) s.window = m->length / s.ch;
        long n = (long)s.samples.size() - s.sess_first; bool again = s.failed && n == s.tried; // a failed hand-over may be retried
        if (again) s.put_fail--; else { s.puts++; s.sess_puts++; }
        s.tried = n; s.failed = true;
        if (m->length != (size_t)s.ch * s.window) violate("window-length", "a chunk of %zu values is handed over; a window has %d", m->length, s.ch * s.window);
        if (n < s.window || n % s.window) violate("window-span", "a window of %d samples is handed over after %ld samples", s.window, n);
        if (s.sess_puts > n / s.window) violate("window-twice", "%ld windows of %d are handed over after %ld samples", s.sess_puts, s.window, n);
    }
    while (q->used >= q->max_msgs) { if (to.us == 0) { if (r >= 0) { sen[r].put_fail++; count("queue_full"); } point(); return -ENOMSG; } int64_t t0 = now_us; wait_on(q, true, to); if (q->used >= q->max_msgs) { if (to.us >= 0 && now_us >= t0 + to.us) { if (r >= 0) sen[r].put_fail++; return -EAGAIN; } } }
    memcpy(q->buffer + q->msg_size * ((q->read + q->used) % q->max_msgs), data, q->msg_size); q->used++;
    if (r >= 0 && self() > 0) {
        Sensor &s = sen[r]; s.failed = false; Chunk c; c.first = (long)s.samples.size() - s.window; c.session = s.session;
        for (long i = c.first; i < (long)s.samples.size(); i++) c.v.insert(c.v.end(), s.samples[i].begin(), s.samples[i].end());
        s.ghost.push_back(c);
    }
    point(); return 0;
}
static Chunk got_chunk; static std::vector<Chunk> processed; static std::vector<std::vector<float>> feats; static std::vector<int> acked;
int k_msgq_get(struct k_msgq *q, void *data, k_timeout_t to) {
    point();
    if (!q->used && to.us != 0) { wait_on(q, false, to); }
    if (!q->used) { point(); return to.us == 0 ? -ENOMSG : -EAGAIN; }
    memcpy(data, q->buffer + q->msg_size * q->read, q->msg_size); q->read = (q->read + 1) % q->max_msgs; q->used--;
    int r = by_queue(q);
    if (r >= 0) {
        Sensor &s = sen[r]; if (s.ghost.empty()) violate("chunk-invented", "a chunk is received that was never handed over");
        got_chunk = s.ghost.front(); s.ghost.pop_front(); count("chunks_received");
        if (got_chunk.first < s.last_end) violate("chunk-order", "chunk starting at sample %ld after one that ended at %ld", got_chunk.first, s.last_end);
        s.last_end = got_chunk.first + s.window; note("chunk %d %ld at %lld", r, got_chunk.first, (long long)now_us);
        if (app) processed.push_back(got_chunk);
    }
    point(); return 0;
}
int k_msgq_peek(struct k_msgq *q, void *data) { point(); if (!q->used) return -ENOMSG; memcpy(data, q->buffer + q->msg_size * q->read, q->msg_size); return 0; }
void k_msgq_purge(struct k_msgq *q) { point(); int r = by_queue(q); if (r >= 0) { if (self() > 0) sen[r].put_fail += q->used; sen[r].ghost.clear(); } q->used = 0; }
uint32_t k_msgq_num_used_get(struct k_msgq *q) { return q->used; }
uint32_t k_msgq_num_free_get(struct k_msgq *q) { return q->max_msgs - q->used; }

// ---- console
static std::string line; static bool app_done = false;
static long field(const char *name, long def) { size_t p = line.find(name); return p == std::string::npos ? def : atol(line.c_str() + p + strlen(name)); }
void printk(const char *f, ...) {
    point(); char b[1000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); line += b;
    if (line.find('\n') == std::string::npos) return;
    if (line.find("write_err=") != std::string::npos) {
        if (acked.size() >= processed.size()) violate("report-invented", "%zu chunks are reported, %zu were received", acked.size() + 1, processed.size());
        acked.resize(processed.size(), -999); feats.resize(processed.size()); size_t i = processed.size() - 1;
        acked[i] = field("write_err=", -998);
        long run = field("run_err=", -998), copy = field("copy_err=", -998);
        if (run || copy) violate("features-refused", "features of chunk %zu: run_err=%ld copy_err=%ld", i, run, copy);
        if (feature_values) feats[i].assign(feature_values, feature_values + 17);
        note("report %zu write_err %d", i, acked[i]); count(acked[i] ? "chunks_write_failed" : "chunks_written"); reach("report %d %d", acked[i], (int)std::min<size_t>(i, 6));
    }
    line.clear();
}
}
// ---------------------------------------------------------------- flash disk
struct WF { long nth; std::string type; long arg; };
struct Disk { std::string data; size_t durable = 0; std::vector<WF> wf, of, cf; std::map<long, long> slow; long nw = 0, no = 0, nc = 0; int bm = 0, bs = 256; bool failed = false; };
static Disk disk; struct Handle { FILE *f; char *buf; bool dirty; };
static const WF *hit(std::vector<WF> &v, long n, const char *k) { if (!faults_on) return nullptr; for (auto &f : v) if (f.nth == n) { count((std::string("fault_") + k + "_" + f.type).c_str()); return &f; } return nullptr; }
static size_t over = SIZE_MAX; // position of a file opened for update
static void place(Disk &d, char c) { if (over < d.data.size()) d.data[over++] = c; else d.data.push_back(c); }
static ssize_t dw(void *, const char *b, size_t n) {
    Disk &d = disk; long k = ++d.nw; point();
    if (faults_on && d.slow.count(k)) { count("fault_slow_write"); sleep_us(d.slow[k]); }
    if (auto f = hit(d.wf, k, "write")) {
        d.failed = true; size_t m = f->type == "neg" ? 0 : std::min((size_t)std::max(0l, f->arg), n - 1); for (size_t i = 0; i < m; i++) place(d, b[i]); errno = f->type == "neg" ? EIO : ENOSPC;
        return f->type == "neg" ? -1 : (ssize_t)m;
    }
    for (size_t i = 0; i < n; i++) { place(d, b[i]); if (i % 16 == 15) point(); }
    return n;
}
static int dclose(void *) {
    Disk &d = disk; long k = ++d.nc; point();
    if (auto f = hit(d.cf, k, "close")) { d.failed = true; if (f->arg > 0) sleep_us(f->arg); errno = EIO; return -1; }
    d.durable = d.data.size(); point(); return 0;
}
extern "C" FILE *zsim_fopen(const char *path, const char *mode) {
    Disk &d = disk; long k = ++d.no; point();
    if (hit(d.of, k, "open")) { errno = EMFILE; return nullptr; }
    over = mode[0] == 'r' ? 0 : SIZE_MAX;
    if (mode[0] == 'w') { if (d.data.size()) count("log_started_over"); d.data.clear(); d.durable = 0; }
    cookie_io_functions_t io = {nullptr, dw, nullptr, dclose}; FILE *f = fopencookie(&d, mode[0] == 'w' ? "w" : "a", io); if (!f) harness_error("fopencookie");
    if (d.bm == 2) setvbuf(f, nullptr, _IONBF, 0); else setvbuf(f, (char *)malloc(d.bs), d.bm == 1 ? _IOLBF : _IOFBF, d.bs);
    (void)path; return f;
}
extern "C" int zsim_fclose(FILE *f) { point(); return fclose(f); }

// ---------------------------------------------------------------- the sampling thread alone
struct Held { bool on = false; Chunk c; const float *p = nullptr; };
struct Rd { void *o = nullptr; float *in = nullptr, *out = nullptr; std::vector<uint8_t> inb, outb; struct k_thread th; struct k_msgq q; char qb[64]; char stack[64]; Held held; bool on = false; };
static Rd rd[2];
static const size_t PAD = 256;
static float *guarded(std::vector<uint8_t> &b, size_t floats) { b.assign(floats * 4 + 2 * PAD, 0xA5); return (float *)(b.data() + PAD); }
static void check_pads(const char *when) { for (int r = 0; r < 2; r++) for (auto *b : {&rd[r].inb, &rd[r].outb}) for (size_t i = 0; b->size() && i < PAD; i++) if ((*b)[i] != 0xA5 || (*b)[b->size() - 1 - i] != 0xA5) violate("buffer-overrun", "%s: memory next to a buffer of reader %d is written", when, r); }
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0 || std::fabs((double)a - (double)b) <= 1e-4 + 1e-6 * std::fabs((double)b); }
static void check_held(const char *when) {
    for (int r = 0; r < 2; r++) if (rd[r].held.on) { auto &h = rd[r].held;
        for (size_t i = 0; i < h.c.v.size(); i++) { point(); if (!same(h.p[i], h.c.v[i])) violate(when[0] == 'r' ? "chunk-differs" : "chunk-changed", "%s: value %zu of the chunk of samples %ld.. of reader %d is %.9g; sampled was %.9g", when, i, h.c.first, r, h.p[i], h.c.v[i]); } }
    check_pads(when);
}
static void check_counts(const char *when) {
    for (int r = 0; r < 2; r++) if (rd[r].o) { Sensor &s = sen[r]; long was[3] = {s.fetch_fail, s.get_fail, s.put_fail}, e[3]; zr_errors(rd[r].o, e); long want[3] = {s.fetch_fail, s.get_fail, s.put_fail}; const char *n[3] = {"fetch", "get", "put"};
        // an error may not be counted yet, and never is if the thread was stopped there
        for (int k = 0; k < 3; k++) if (e[k] > want[k] || e[k] < was[k] - 1 - s.abort_slack) violate("errors-miscounted", "%s: %ld %s errors are counted, %ld happened", when, e[k], n[k], want[k]); }
}
static bool use(int r, k_timeout_t to, int64_t hold) {
    struct sensor_chunk_msg m = {0, nullptr, 0}; rd[r].held.on = false; // asking for the next chunk gives the last one back
    if (k_msgq_get(&rd[r].q, &m, to)) return false;
    if (m.length != (size_t)sen[r].ch * sen[r].window) violate("window-length", "a chunk of %zu values", m.length);
    rd[r].held.on = true; rd[r].held.c = got_chunk; rd[r].held.p = m.buffer; check_held("received");
    for (int k = 0; k < 3 && hold; k++) { sleep_us(hold / 3); check_held("in use"); }
    return true;
}

// ---------------------------------------------------------------- plan
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p; bool ap = r.chance(0.5); p.add("cfg app %d", ap);
    auto sensor_faults = [&](int d, long n) {
        if (r.chance(0.4)) for (int k = r.range(1, 4); k-- > 0;) p.add("ferr %d %ld %d", d, (long)r.range(1, n), r.chance(0.8) ? (int)r.range(1, 3) : r.chance(0.8) ? (int)r.range(3, 80) : (int)r.range(200, 70000));
        if (r.chance(0.4)) for (int k = r.range(1, 5); k-- > 0;) p.add("gerr %d %ld %d", d, (long)r.range(1, n * 6), r.chance(0.8) ? (int)r.range(1, 6) : r.chance(0.9) ? (int)r.range(6, 200) : (int)r.range(200, 200000));
        if (r.chance(0.4)) for (int k = r.range(1, 5); k-- > 0;) p.add("late %d %ld %d %d", d, (long)r.range(1, n), (int)r.range(1, 4), (int)exp(r.unit() * 14));
    };
    if (ap) {
        long T = r.range(2, 14); p.add("cfg seconds %ld", T); p.add("disk %d %d", (int)r.below(3), (int)r.pick(std::vector<int>{16, 64, 128, 512, 1024, 4096}));
        sensor_faults(0, T * 52);
        double w = r.chance(0.5) ? 40 : 600;
        if (r.chance(0.6)) for (int k = r.range(1, 6); k-- > 0;) p.add("slow %d %d", (int)r.range(1, (int)w), (int)exp(r.unit() * 15.0));
        if (r.chance(0.6)) for (int k = r.range(1, 4); k-- > 0;) p.add("wf %d %s %d", (int)r.range(1, (int)w), r.chance(0.3) ? "neg" : "short", (int)r.below(r.chance(0.5) ? 20 : 600));
        if (r.chance(0.3)) for (int k = r.range(1, 2); k-- > 0;) p.add("of %d", (int)r.range(1, T));
        if (r.chance(0.3)) for (int k = r.range(1, 2); k-- > 0;) p.add("cf %d %d", (int)r.range(1, T), r.chance(0.5) ? 0 : (int)r.range(1, 2000000));
        if (r.chance(0.05)) p.add("cfg attr 1"); if (r.chance(0.05)) p.add("cfg usb 1");
        if (r.chance(0.3)) p.add("cut %lu %d", (unsigned long)(1 + exp(r.unit() * 15.0)), (int)r.below(1001));
    } else {
        int nr = r.chance(0.6) ? 1 : 2; bool slow = nr == 2 && r.chance(0.5);
        for (int i = 0; i < nr; i++) { p.add("reader %d %d %d %d", i, (int)r.range(1, 9), (int)(r.chance(0.7) ? r.range(1, 8) : r.chance(0.9) ? r.range(1, 64) : r.range(100, 400)), slow || nr == 1 && r.chance(0.5) ? (int)r.pick(std::vector<int>{1, 10, 26, 52, 104}) : (int)r.pick(std::vector<int>{52, 104, 1000, 7000})); sensor_faults(i, 120); }
        for (int k = r.range(4, 30); k-- > 0;) {
            int i = r.below(nr);
            switch (r.below(10)) {
            case 0: p.add("nap %d", (int)exp(r.unit() * 15)); break;
            case 1: p.add("stop %d", i); break;
            case 2: p.add("start %d", i); break;
            default: p.add("use %d %d %d", i, r.chance(0.2) ? 0 : (int)exp(r.unit() * 16), r.chance(0.4) ? 0 : (int)exp(r.unit() * 15));
                if (r.chance(0.25)) { p.add("stop %d", i); p.add("start %d", i); p.add("nap %d", (int)exp(r.unit() * 14)); }
            }
        }
    }
    int ns = r.range(0, 120); double ml = r.pick(std::vector<double>{4.0, 7.0, 10.0}), ps = r.chance(0.5) ? 0.5 : 0.1, ph = r.chance(0.5) ? 0.0 : 0.3, pk = r.chance(0.5) ? 0.6 : 0.05;
    for (int i = 0; i < ns; i++) {
        unsigned long len = 1 + exp(r.unit() * ml); int sh = r.chance(ps) ? (int)r.range(1, 10) : 0; long hold = r.chance(ph) ? (long)exp(r.unit() * 14.5) : 0;
        int kc = !sh && r.chance(pk) ? (int)r.range(1, r.chance(0.5) ? 6 : 60) : 0;
        p.add("slice %d %lu %d %ld %d", (int)r.below(3), sh || kc ? len * 20 : len, sh, hold, kc);
    }
    return p;
}

static uint64_t cut_left = 0; static bool cut_now = false;
static void hook() {
    auto &c = rtos::cpu(); if (c.cur < 0) return;
    if (cut_left && --cut_left == 0) { cut_now = true; swapcontext(&c.tasks[c.cur].ctx, &c.main); }
    if (locked == c.cur) return; // no preemption while the scheduler is locked
    rtos::hook();
}
static void shared(void *p, bool st) { if (locked != rtos::cpu().cur) rtos::shared_access(p, st); }

static void check_log(bool all) {
    // what is on the disk against what was reported
    std::string head = "accel_x,accel_y,accel_z,gyro_x,gyro_y,gyro_z"; std::vector<std::string> lines; std::string cur; for (char c : disk.data) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    if (processed.empty() && !all) return;
    if (lines.empty() || lines[0] != head) violate("header-lost", "the application runs and the log does not start with the header but '%.60s'", lines.empty() ? cur.c_str() : lines[0].c_str());
    auto row = [&](const Chunk &c, int i) { std::vector<float> v(c.v.begin() + i * 6, c.v.begin() + (i + 1) * 6); return v; };
    auto is_row = [&](const std::string &l, const std::vector<float> &v) { const char *p = l.c_str(); for (int k = 0; k < 6; k++) { char *x; if (isspace((unsigned char)*p) || !*p) return false; double d = strtod(p, &x); if (std::fabs(d - (double)v[k]) > 5.1e-7 && !same((float)d, v[k])) return false; if (*x != (k == 5 ? 0 : ',')) return false; p = x + 1; } return true; };
    std::vector<size_t> at = {1}; // where the log can go on: after a failure, equal rows can be of either chunk
    for (size_t i = 0; i < acked.size(); i++) {
        int n = processed[i].v.size() / 6; bool failed_before = false; for (size_t k = i; k-- > 0 && acked[k];) failed_before = true;
        if (acked[i]) continue;
        auto match = [&](size_t s) { for (int k = 0; k < n; k++) if (s + k >= lines.size() || !is_row(lines[s + k], row(processed[i], k))) return k; return n; };
        std::vector<size_t> next; if (failed_before) { for (size_t s = at[0]; s < lines.size(); s++) if (match(s) == n) next.push_back(s + n); } else for (size_t s : at) if (match(s) == n) next.push_back(s + n);
        size_t s = failed_before ? lines.size() : at.back(); int m = match(s);
        if (next.empty()) { bool tail = s + m >= lines.size(); violate(tail ? "row-lost" : "row-differs", "chunk %zu was reported as written; row %d of its %d is %s in the log%s%.80s%s", i, m, n, tail ? "missing" : "wrong", tail ? "" : ": '", tail ? "" : lines[s + m].c_str(), tail ? "" : "'"); }
        at = next; count("rows_checked", n);
    }
    bool failed_last = acked.size() < processed.size() || (!acked.empty() && acked.back()); 
    if (!failed_last && (at.back() < lines.size() || !cur.empty())) violate("row-invented", "the log goes on after the last row that was written: '%.80s'", at.back() < lines.size() ? lines[at.back()].c_str() : cur.c_str());
}

void execute(const Plan &plan) {
    app = plan.cfg("app", 0); auto &cpu = rtos::cpu(); cpu.tasks.resize(MAXT); budget(900000000);
    std::vector<Line> script; Line cut; bool has_cut = false;
    for (auto &l : plan.lines) {
        int d = (int)(std::labs(l.i(1)) % 2);
        if (l.op() == "ferr") sen[d].ferr.push_back({l.i(2), l.i(3, 1), 0});
        else if (l.op() == "gerr") sen[d].gerr.push_back({l.i(2), l.i(3, 1), 0});
        else if (l.op() == "late") sen[d].late.push_back({l.i(2), l.i(3, 1), std::min(2000000l, std::labs(l.i(4)))});
        else if (l.op() == "disk") { disk.bm = l.i(1) % 3; disk.bs = std::max(1l, l.i(2)); }
        else if (l.op() == "slow") disk.slow[l.i(1)] = std::min(4000000l, std::labs(l.i(2)));
        else if (l.op() == "wf") disk.wf.push_back({l.i(1), l.s(2), l.i(3)});
        else if (l.op() == "of") disk.of.push_back({l.i(1), "failed", 0});
        else if (l.op() == "cf") disk.cf.push_back({l.i(1), "failed", l.i(2)});
        else if (l.op() == "cut") { cut = l; has_cut = true; }
        else if (l.op() == "reader") {
            Rd &x = rd[d]; if (x.o || app) continue; Sensor &s = sen[d];
            s.ch = std::min<long>(zr_max_channels(), std::max(1l, l.i(2))); s.window = std::min(400l, std::max(1l, l.i(3))); s.rate = std::max(1l, l.i(4));
            static const enum sensor_channel all[9] = {SENSOR_CHAN_GYRO_Z, SENSOR_CHAN_ACCEL_X, SENSOR_CHAN_MAGN_Y, SENSOR_CHAN_ACCEL_Z, SENSOR_CHAN_DIE_TEMP, SENSOR_CHAN_GYRO_X, SENSOR_CHAN_MAGN_Z, SENSOR_CHAN_ACCEL_Y, SENSOR_CHAN_GYRO_Y};
            for (int k = 0; k < s.ch; k++) s.channels.push_back(all[(k + 3 * d) % 9]);
            x.in = guarded(x.inb, (size_t)s.ch * s.window); x.out = guarded(x.outb, (size_t)s.ch * s.window * zr_buffers());
            k_msgq_init(&x.q, x.qb, sizeof(struct sensor_chunk_msg), 1); s.q = &x.q; s.th = &x.th; x.o = calloc(1, zr_size());
            zr_init(x.o, s.rate, s.window, x.in, x.out, s.ch, s.channels.data(), &zsim_devices[d], &x.q, &x.th, x.stack, sizeof x.stack);
        }
        else if (l.op() == "use" || l.op() == "nap" || l.op() == "stop" || l.op() == "start") script.push_back(l);
    }
    int ref_in[2], ref_out[2]; pid_t ref = 0; int64_t T1 = 0, T2 = 0; size_t before = 0; bool quiet = false;
    if (app) {
        sen[0].channels = {SENSOR_CHAN_ACCEL_X, SENSOR_CHAN_ACCEL_Y, SENSOR_CHAN_ACCEL_Z, SENSOR_CHAN_GYRO_X, SENSOR_CHAN_GYRO_Y, SENSOR_CHAN_GYRO_Z}; sen[0].ch = 6; sen[0].window = 1 << 20;
        attr_fails = plan.cfg("attr", 0); usb_fails = plan.cfg("usb", 0); T1 = std::min(60l, std::max(1l, plan.cfg("seconds", 5))) * 1000000; T2 = T1 + 11000000;
        rtos::add([] {}); cpu.tasks.pop_back(); cpu.tasks[0].body = [] { app_main(); app_done = true; };
    } else {
        if (!rd[0].o && !rd[1].o) return;
        cpu.tasks[0].body = [&] {
            auto start = [&](int r) { if (!rd[r].o || rd[r].on) return; rd[r].on = true; zr_start(rd[r].o); count("starts"); };
            auto stop = [&](int r) { if (!rd[r].o || !rd[r].on) return; zr_stop(rd[r].o); rd[r].on = false; count("fault_thread_stopped"); };
            for (int r = 0; r < 2; r++) start(r);
            for (auto &l : script) {
                int r = (int)(std::labs(l.i(1)) % 2); if (l.op() != "nap" && !rd[r].o) r = 1 - r;
                if (l.op() == "nap") { sleep_us(std::min(4000000l, std::labs(l.i(1)))); check_held("in use"); }
                else if (l.op() == "stop") stop(r); else if (l.op() == "start") start(r);
                else { bool ok = use(r, Z_TIMEOUT(std::min(10000000l, std::labs(l.i(2)))), std::min(4000000l, std::labs(l.i(3)))); reach("use %d ch%d w%d %d", ok, sen[r].ch, std::min(sen[r].window, 9), std::min(sen[r].session, 3)); }
                check_counts(l.op().c_str()); check_held("in use");
            }
            // no more faults: every reader delivers windows
            faults_on = false;
            for (int r = 0; r < 2; r++) if (rd[r].o) {
                start(r); Sensor &s = sen[r]; int64_t w = (int64_t)s.window * (1000000 / s.rate + 4000) + 5000000;
                for (int k = 0; k < 3; k++) { int64_t t0 = now_us; if (!use(r, Z_TIMEOUT(2 * w), 0)) violate("no-progress", "reader %d gives no chunk of %d samples at %d Hz within %lld us", r, s.window, s.rate, (long long)(now_us - t0)); check_held("in use"); }
            }
            check_counts("end"); 
        };
    }
    (void)ref; (void)ref_in; (void)ref_out;
    if (app) { // a process that only computes the features of the chunks it is told
        if (pipe(ref_in) || pipe(ref_out)) harness_error("pipe"); ref = fork(); if (ref < 0) harness_error("fork");
        if (ref == 0) {
            close(ref_in[1]); close(ref_out[0]); std::vector<float> in; float b[4096]; ssize_t n; std::string raw; while ((n = read(ref_in[0], b, sizeof b)) > 0) raw.append((char *)b, n);
            int32_t len = 0; if (raw.size() < 4) _exit(0); memcpy(&len, raw.data(), 4); in.resize((raw.size() - 4) / 4); memcpy(in.data(), raw.data() + 4, in.size() * 4);
            int k = len > 0 ? in.size() / len : 0; std::vector<float> out((size_t)k * 17 + 1); out[0] = zm_features(in.data(), k, 52, len, out.data() + 1, 17);
            size_t o = 0; while (o < out.size() * 4) { ssize_t w = write(ref_out[1], (char *)out.data() + o, out.size() * 4 - o); if (w <= 0) break; o += w; } _exit(0);
        }
        close(ref_in[0]); close(ref_out[1]);
    }
    kt[0].used = kt[0].started = true; rtos::make(0); cut_left = has_cut && app ? std::max<uint64_t>(1, cut.u(1)) : 0;
    std::vector<Line> sl; for (auto &l : plan.lines) if (l.op() == "slice") sl.push_back(l);
    step_hook() = hook; static_hook() = shared; size_t si = 0; int rr = 0, last = -1; long switches = 0; acct_at = step_count();
    while (!cut_now) {
        if (app && app_done) break;
        if (!app && cpu.tasks[0].done) break;
        if (app && !quiet && now_us >= T1) { quiet = true; faults_on = false; before = processed.size(); }
        if (app && now_us >= T2) break;
        if (step_count() > 300000000) { if (step_count() - progress_at > 100000000) violate("hang", "no sample is taken for %lu steps", (unsigned long)(step_count() - progress_at)); count("long_runs_ended"); cut_now = true; break; }
        int i = -1; uint64_t steps = 200000, sh = 0; int64_t hold = 0;
        if (locked >= 0 && runnable(locked)) i = locked;
        else if (si < sl.size()) { auto &l = sl[si++]; for (int k = 0; k < nt; k++) { int j = (int)((std::labs(l.i(1)) + k) % nt); if (runnable(j)) { i = j; break; } } steps = std::max<uint64_t>(1, l.u(2)); sh = l.u(3); hold = std::min(2000000l, std::labs(l.i(4))); kernel_left = std::max(0l, l.i(5)); } 
        else for (int k = 0; k < nt; k++) { int j = (rr + k) % nt; if (runnable(j)) { i = j; rr = j + 1; break; } }
        if (i < 0) {
            int64_t t = INT64_MAX; for (int k = 0; k < nt; k++) if (kt[k].used && kt[k].started && !cpu.tasks[k].done) { int64_t w = kt[k].wq ? (kt[k].deadline >= 0 ? kt[k].deadline : INT64_MAX) : kt[k].wake; t = std::min(t, std::max(w, kt[k].hold)); }
            if (t == INT64_MAX) violate("no-progress", "all threads wait forever");
            now_us = std::max(now_us + 1, t); if (now_us > ((int64_t)1 << 49)) violate("no-progress", "all threads sleep forever"); continue;
        }
        if (i != last) switches++; last = i;
        rtos::resume(i, steps, sh); kernel_left = 0; account();
        if (hold && faults_on && !cut_now) { kt[i].hold = now_us + hold; count("fault_stalled"); }
    }
    step_hook() = nullptr; static_hook() = nullptr;
    count("switches", switches); count("fault_preemption", cpu.preemptions); count("fault_preemption_at_shared_access", cpu.shared_preemptions); run().simtime_us += now_us; run().steps += step_count();
    if (!app) { check_pads("end"); return; }
    bool started = sen[0].session > 0;
    if (cut_now) { count("fault_power_cut"); size_t vol = disk.data.size() - std::min(disk.durable, disk.data.size()); size_t keep = vol * (uint64_t)std::min(1000l, std::max(0l, cut.i(2))) / 1000; if (keep < vol) count("fault_lost_tail"); disk.data.resize(disk.data.size() - vol + keep); }
    else if (app_done) {
        if (!disk.failed && !run().count.count("fault_open_failed")) violate("application-ended", "the application ends without a failure of the disk");
        count("application_gave_up"); return;
    } else {
        if (!started || processed.size() < before + 4) violate("no-progress", "faults are over for 11 s and only %zu chunks were processed", processed.size() - before);
        size_t good = 0; for (size_t i = before + 1; i < acked.size(); i++) if (!acked[i]) good++;
        if (good < 3) violate("no-progress", "faults are over for 11 s and only %zu chunks were written", good);
    }
    if (started) check_log(!cut_now);
    // features
    int32_t len = processed.empty() ? 0 : processed[0].v.size(); if (!len) return;
    std::string raw((char *)&len, 4); for (size_t i = 0; i < feats.size(); i++) raw.append((char *)processed[i].v.data(), len * 4);
    signal(SIGPIPE, SIG_IGN); size_t o = 0; while (o < raw.size()) { ssize_t w = write(ref_in[1], raw.data() + o, raw.size() - o); if (w <= 0) break; o += w; } close(ref_in[1]);
    std::string back; char b[65536]; ssize_t n; while ((n = read(ref_out[0], b, sizeof b)) > 0) back.append(b, n); waitpid(ref, nullptr, 0);
    std::vector<float> f(back.size() / 4); memcpy(f.data(), back.data(), f.size() * 4);
    if (f.size() != feats.size() * 17 + 1) harness_error("reference process"); if (f[0] != 17) violate("features-refused", "the preprocessing alone returns %g", f[0]);
    for (size_t i = 0; i < feats.size(); i++) for (size_t k = 0; k < feats[i].size(); k++) { float w = f[1 + i * 17 + k]; if (memcmp(&w, &feats[i][k], 4) && !(std::isnan(w) && std::isnan(feats[i][k]))) violate("features-differ", "feature %zu of chunk %zu is %.9g; the same chunks processed undisturbed give %.9g", k, i, feats[i][k], w); }
    count("features_checked", feats.size());
}
