// C08: on-device kNN learning. Histories of add, predict, rejected calls and restarts of a
// device, on the real eml_neighbors.h, against a plain kNN over the accepted items.
#define SIM_MAIN
#include "sim.hpp"
using namespace sim;
typedef struct _EmlNeighborsModel M;
extern "C" {
void knn_setup(void *, int, int, int, int16_t *, int16_t *, int);
size_t knn_model_size(); size_t knn_dist_size();
int knn_items(void *); int knn_add(void *, const int16_t *, int, int);
int knn_predict(void *, const int16_t *, int, void *, int, int16_t *);
int knn_check(void *, int, int, int);
}
// every call finds different values below the stack pointer
#define knn_add(...) (dirty_stack(), knn_add(__VA_ARGS__))
#define knn_predict(...) (dirty_stack(), knn_predict(__VA_ARGS__))
#define knn_check(...) (dirty_stack(), knn_check(__VA_ARGS__))
static const int CLASSES = 10; // EML_NEIGHBORS_MAX_CLASSES default

Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p;
    bool big = r.chance(0.06), huge = big && r.chance(0.15); // huge: offsets beyond 16 bits
    int nf = huge ? r.range(260, 700) : big ? r.range(1, 48) : r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 5, 8});
    int cap = huge ? 70000 / nf : big ? r.range(60, 300) : r.pick(std::vector<int>{1, 2, 3, 5, 8, 15, 16, 17, 18, 20, 31, 33, 48});
    if (huge && r.chance(0.06)) { nf = r.range(20000, 32767); cap = r.range(1, 3); }
    int k = r.chance(0.15) ? r.range(1, cap + 1) : r.range(1, std::min(cap, 7));
    int labels = r.pick(std::vector<int>{1, 2, 2, 3, 3, 5, 10});
    p.add("cfg nf %d", nf); p.add("cfg cap %d", cap); p.add("cfg k %d", k);
    int dist = r.below(5), qdist = r.chance(0.7) ? dist : (int)r.below(5);
    int warm = huge ? cap - (int)r.below(3) : r.chance(0.6) ? r.range(0, cap) : 0;
    for (int i = 0; i < warm; i++) p.add("add %d %d %d", (int)r.below(labels), dist, (int)r.below(1000000));
    int n = r.range(4, big ? 30 : 40);
    bool badlabels = r.chance(0.15);
    for (int i = 0; i < n; i++) {
        double u = r.unit();
        if (u < 0.34) {
            int lab = badlabels && r.chance(0.3) ? r.pick(std::vector<int>{-1, 10, 11, 127, 32767, -32768}) : (int)r.below(labels);
            p.add("add %d %d %d", lab, r.chance(0.1) ? (int)r.below(5) : dist, (int)r.below(1000000));
        } else if (u < 0.76) p.add("query %d %d %d", qdist, (int)r.below(1000000), r.chance(0.3) ? (int)r.below(4) : 0);
        else if (u < 0.83) p.add("badadd %d %d %d", r.pick(std::vector<int>{-1, 1, -nf, -nf - 1, 2, 5}), dist, (int)r.below(1000000));
        else if (u < 0.90) p.add("badquery %d %d %d", (int)r.below(2), r.pick(std::vector<int>{-1, 1, -nf, -nf - 1, 3}), (int)r.below(1000000));
        else if (u < 0.94) p.add("checkpoint");
        else if (u < 0.96) p.add("check %d %d %d", (int)r.range(-1, 1), (int)r.range(-1, 1), (int)r.range(-1, 1));
        else p.add("restart %d", (int)r.range(0, 3));
    }
    p.add("query %d %d 0", qdist, (int)r.below(1000000));
    return p;
}

static std::vector<int16_t> values(int dist, uint64_t vs, int nf) {
    Rng r(vs * 31 + dist);
    std::vector<int16_t> v(nf);
    for (auto &x : v) {
        switch (dist) {
        case 0: x = r.range(0, 3); break;
        case 1: x = r.range(-32768, 32767); break;
        case 2: x = r.pick(std::vector<int>{-32768, 32767, 0, -1, 1}); break;
        case 3: x = r.range(-120, 120); break;
        default: x = r.chance(0.5) ? r.range(32000, 32767) : r.range(-32768, -32000); break;
        }
    }
    return v;
}
static uint64_t isqrt(uint64_t x) {
    uint64_t g = (uint64_t)__builtin_sqrt((double)x);
    while (g * g > x) g--;
    while ((g + 1) * (g + 1) <= x) g++;
    return g;
}

struct Item { std::vector<int16_t> v; int label; };

void execute(const Plan &p) {
    int nf = p.cfg("nf", 2), cap = p.cfg("cap", 4), k = p.cfg("k", 1);
    if (nf < 1) nf = 1; if (cap < 1) cap = 1; if (k < 1) k = 1;
    // storage of the device: exact-size heap blocks, so that AddressSanitizer sees any stray access
    auto blk = [](size_t n) { return (int16_t *)malloc(n * sizeof(int16_t)); };
    int16_t *data = blk(cap * nf), *labels = blk(cap);
    void *model = malloc(knn_model_size());
    knn_setup(model, nf, 0, cap, data, labels, k);
    std::vector<Item> ref, saved;
    auto verify_store = [&](const char *when) {
        if (knn_items(model) != (int)ref.size()) violate("stored-set", "%s: %d items stored, %zu accepted", when, knn_items(model), ref.size());
        for (size_t i = 0; i < ref.size(); i++) {
            if (memcmp(data + i * nf, ref[i].v.data(), nf * 2)) violate("stored-set", "%s: features of item %zu changed", when, i);
            if (labels[i] != ref[i].label) violate("stored-set", "%s: label of item %zu is %d, was %d", when, i, labels[i], ref[i].label);
        }
    };
    auto run_predict = [&](std::vector<int16_t> q, int len, int extra, int16_t &out) {
        // a query buffer of exactly the stated length, a distance buffer full of old values
        int16_t *f = blk(std::max(len, 0)); for (int i = 0; i < len; i++) f[i] = q[i % q.size()];
        int dl = (int)ref.size() + extra; if (dl < 0) dl = 0;
        void *dist = malloc(dl * knn_dist_size()); memset(dist, 0xA5, dl * knn_dist_size());
        uint64_t n = ref.size();
        budget(20000 + n * (200 * (uint64_t)(nf + 80)) + 200 * n * n);
        out = -1234; in_sut = true;
        int rc = knn_predict(model, f, len, dist, dl, &out);
        in_sut = false; run().steps += step_count(); budget(0);
        free(f); free(dist);
        return rc;
    };
    for (auto &l : p.lines) {
        if (l.op() == "cfg") continue;
        if (l.op() == "add") {
            auto v = values(l.i(2), l.i(3), nf); int lab = (int16_t)l.i(1);
            int16_t *b = blk(nf); memcpy(b, v.data(), nf * 2);
            budget(20000 + 400 * (uint64_t)nf);
            int rc = knn_add(model, b, nf, lab); run().steps += step_count(); budget(0); free(b);
            bool full = (int)ref.size() >= cap;
            note("add lab=%d n=%zu -> %d", lab, ref.size(), rc);
            if (full) { count("fault_full_store"); if (rc == 0) violate("capacity", "item accepted although the store of %d is full", cap); }
            else { if (rc) violate("lost-item", "valid item refused with %d, %zu of %d stored", rc, ref.size(), cap); ref.push_back({v, lab}); count("adds"); }
            verify_store("add");
            reach("add %d %d", full, rc);
        } else if (l.op() == "badadd") {
            int len = nf + l.i(1); if (len == nf) continue;
            auto v = values(l.i(2), l.i(3), std::max(len, 1)); int16_t *b = blk(std::max(len, 0)); memcpy(b, v.data(), std::max(len, 0) * 2);
            int rc = knn_add(model, b, len, 0); free(b);
            count("fault_wrong_length_add"); note("badadd len=%d -> %d", len, rc);
            if (rc == 0) violate("bad-item-accepted", "item of length %d accepted by a model with %d features", len, nf);
            verify_store("rejected add");
        } else if (l.op() == "badquery") {
            int16_t out; auto q = values(3, l.i(3), nf); int rc;
            if (l.i(1) == 0) { int len = nf + l.i(2); if (len == nf) continue; rc = run_predict(q, len, 0, out); count("fault_wrong_length_query"); note("badquery len=%d -> %d", len, rc); }
            else { if (ref.empty()) continue; int ex = -1 - (int)((uint64_t)std::labs(l.i(2)) % ref.size()); rc = run_predict(q, nf, ex, out); count("fault_short_scratch"); note("badquery scratch=%d -> %d", ex, rc); }
            if (rc == 0) violate("bad-query-accepted", "predict accepted wrong lengths");
            if (out != -1234) violate("rejected-changed-output", "rejected predict wrote %d to the output", out);
            verify_store("rejected predict");
        } else if (l.op() == "query") {
            auto q = values(l.i(1), l.i(2), nf); int16_t out;
            int rc = run_predict(q, nf, (int)l.i(3), out);
            count("queries");
            int n = ref.size();
            std::vector<std::pair<uint64_t, int>> d;
            for (auto &it : ref) {
                uint64_t s = 0; for (int i = 0; i < nf; i++) { int64_t x = (int64_t)q[i] - it.v[i]; s += x * x; }
                d.push_back({isqrt(s), it.label});
            }
            std::sort(d.begin(), d.end());
            note("query n=%d k=%d -> %d %d", n, k, rc, rc ? 0 : out);
            if (rc && out != -1234) violate("rejected-changed-output", "rejected predict wrote %d to the output", out);
            verify_store("predict");
            if (n == 0) { if (rc == 0) violate("no-items", "prediction %d with no items stored", out); continue; }
            int kk = std::min(k, n);
            uint64_t D = d[kk - 1].first; int rest = kk; bool sure_bad = false, maybe_bad = false;
            std::map<int, int> base, tie;
            for (auto &x : d) {
                if (x.first < D) { base[x.second]++; rest--; if (x.second < 0 || x.second >= CLASSES) sure_bad = true; }
                else if (x.first == D) { tie[x.second]++; if (x.second < 0 || x.second >= CLASSES) maybe_bad = true; }
            }
            int ntie = 0; for (auto &t : tie) ntie += t.second;
            if (ntie == rest && maybe_bad) sure_bad = true;
            bool boundary_tie = ntie > rest;
            reach("query k=%d tie=%d bad=%d/%d rc=%d n=%d", std::min(k, 8), boundary_tie, sure_bad, maybe_bad, rc, std::min(n, 20));
            if (boundary_tie) count("boundary_ties");
            if (rc) {
                if (k > n) { count("fault_too_few_items"); continue; }
                if (sure_bad || maybe_bad) { count("fault_label_out_of_range"); continue; }
                violate("query-failed", "valid query returned error %d (%d items, k=%d)", rc, n, k);
            }
            if (sure_bad) violate("wrong-label", "prediction %d although a neighbour has a label out of range", out);
            int L = out;
            auto cnt = [&](std::map<int, int> &m, int x) { auto i = m.find(x); return i == m.end() ? 0 : i->second; };
            int x = std::min(cnt(tie, L), rest), V = cnt(base, L) + x, left = rest - x; bool ok = V > 0; long room = 0;
            std::set<int> all; for (auto &b : base) all.insert(b.first); for (auto &t : tie) all.insert(t.first);
            for (int m : all) if (m != L) { if (cnt(base, m) > V) ok = false; room += std::min(cnt(tie, m), std::max(0, V - cnt(base, m))); }
            if (room < left) ok = false;
            if (!ok) violate("wrong-label", "label %d does not have the most votes among the %d nearest of %d items (distance of the last %llu)", L, kk, n, (unsigned long long)D);
        } else if (l.op() == "check") {
            // the model against the buffers it was given: too small ones must be refused, fitting ones accepted
            int dd = l.i(1), dl = l.i(2), dx = l.i(3);
            if (cap * nf > 32000) { dd = -(cap * nf - (int)((uint32_t)(cap * nf + 1000 * dd) % 32000)); if (dd >= 0) dd = -1; } // the lengths are 16-bit: no buffer fits
            int rc = knn_check(model, cap * nf + dd, cap + dl, cap + dx), bad = dd < 0 || dl < 0 || dx < 0;
            note("check %d %d %d -> %d", dd, dl, dx, rc); count(bad ? "fault_short_model_buffers" : "checks");
            if (bad && rc == 0) violate("bad-buffers-accepted", "check accepted buffers for %+d features, %+d labels, %+d distances", dd, dl, dx);
            if (!bad && rc) violate("valid-refused", "check refused fitting buffers with %d", rc);
            verify_store("check");
        } else if (l.op() == "checkpoint") { saved = ref; note("checkpoint %zu", saved.size()); }
        else if (l.op() == "restart") {
            // brown-out: RAM lost, items restored from the checkpoint into a new model, maybe with more room
            count("fault_restart");
            int ncap = std::max((int)saved.size(), cap + (int)l.i(1) - 1); if (ncap < 1) ncap = 1;
            memset(data, 0xEE, cap * nf * 2); free(data); free(labels); memset(model, 0xEE, knn_model_size()); free(model);
            cap = ncap; data = blk(cap * nf); labels = blk(cap); model = malloc(knn_model_size());
            memset(data, 0x55, cap * nf * 2); memset(labels, 0x55, cap * 2);
            ref = saved;
            for (size_t i = 0; i < ref.size(); i++) { memcpy(data + i * nf, ref[i].v.data(), nf * 2); labels[i] = ref[i].label; }
            knn_setup(model, nf, ref.size(), cap, data, labels, k);
            note("restart cap=%d n=%zu", cap, ref.size());
        }
    }
}
