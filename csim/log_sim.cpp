// C31: the diagnostic log. Units with their log on, in preempted tasks, over a console that fails, stalls
// and calls back into the library; compared with the same units with their log off, and what is said with what is.
#define SIM_MAIN
#include "rtos.hpp"
#include <cmath>
#include <cstdarg>
#include <map>
using namespace sim;
extern "C" {
#define DECL(P) \
int P##_predict(void *, int, int32_t *, int, uint8_t *, int, int, int, int, const int16_t *, int); \
int P##_regress(void *, int, int32_t *, int, uint8_t *, int, int, const int16_t *, int, float *, int); \
void P##_node(void *, int, int, int, int, int); int P##_node_size(void); \
int P##_knn_size(void); int P##_knn_dist_size(void); void P##_knn_setup(void *, int, int, int16_t *, int16_t *, int); \
int P##_knn_add(void *, const int16_t *, int, int); int P##_knn_predict(void *, const int16_t *, int, void *, int, int16_t *); \
void P##_entry(const char *, int, bool, float, const float *, int);
DECL(on) DECL(off)
int sim_console(void *stream, const char *types, const char *format, ...);
}
// what may be said during a call
struct Facts { std::string call; std::map<std::string, std::vector<double>> num; std::map<std::string, std::vector<double>> arr; std::map<std::string, std::string> text; };
struct Forest {
    int nf = 1, nc = 2, bits = 0, n = 0, nl = 0; std::vector<int32_t> roots; std::vector<uint8_t> nodes; std::vector<float> leafmem;
    std::vector<std::array<int, 4>> plain;
    uint8_t *leaves() { return (uint8_t *)leafmem.data(); }
    int grow(Rng &r, int depth) { // -> index of the node
        int at = plain.size(); plain.push_back({(int)r.below(nf), (int)r.range(-500, 500), 0, 0});
        for (int s = 2; s < 4; s++) { int v = depth > 0 && r.chance(0.7) ? grow(r, depth - 1) - at : -(int)(r.below(nl)) - 1; plain[at][s] = v; }
        return at;
    }
    void make(uint64_t seed, bool reg) {
        Rng r(seed); nf = r.range(1, 12); nc = reg ? 1 : r.range(2, 12); bits = reg ? 32 : r.chance(0.5) ? 8 : 0; nl = r.range(2, 40);
        int nt = r.range(1, 6); for (int i = 0; i < nt; i++) roots.push_back(grow(r, r.range(0, 4)));
        n = plain.size(); nodes.assign(n * off_node_size(), 0); for (int i = 0; i < n; i++) off_node(nodes.data(), i, plain[i][0], plain[i][1], plain[i][2], plain[i][3]);
        leafmem.assign(nl * (reg ? 1 : nc) + 1, 0);
        if (reg) for (int i = 0; i < nl; i++) leafmem[i] = (float)((r.unit() - 0.5) * (r.chance(0.5) ? 3 : 3000));
        else for (int i = 0; i < nl * (bits ? nc : 1); i++) leaves()[i] = bits ? r.below(256) : r.below(nc);
    }
    int leaf(int root, const int16_t *x) { int i = root; while (i >= 0) { auto &p = plain[i]; int c = x[p[0]] < p[1] ? p[2] : p[3]; i = c >= 0 ? i + c : c; } return -i - 1; }
    void facts(Facts &f, const int16_t *x, int n_) {
        f.num["classes"] = {(double)nc}; f.num["features-model"] = {(double)nf}; f.num["features-input"] = {(double)n_}; f.num["trees"] = {(double)roots.size()};
        if (n_ != nf) return;
        std::vector<double> v(nc, 0.0); double sum = 0;
        for (int t : roots) {
            int l = leaf(t, x); f.num["leaf"].push_back(l); f.num["node"].push_back(-l - 1);
            if (bits == 0) v[leaves()[l]] += 1.0 / roots.size(); else if (bits == 8) for (int c = 0; c < nc; c++) v[c] += leaves()[l * nc + c] / 255.0 / roots.size();
            else sum += leafmem[l];
        }
        for (int i = -70000; i < 0; i += 70001) f.num["node"].push_back(i);
        if (bits == 32) f.num["output"] = {sum / roots.size()}; else f.arr["votes"] = v;
    }
};
struct Out { int rc = 0; float f = 0; int16_t label = 0; bool operator==(const Out &o) const { return rc == o.rc && !memcmp(&f, &o.f, 4) && label == o.label; } };
struct Knn { int nf = 1, cap = 1, k = 1, n = 0; std::vector<int16_t> data, labels; std::vector<uint8_t> model, dist; };
static void knn_make(Knn &m, uint64_t seed, bool on) {
    Rng r(seed); m.nf = r.range(1, 8); m.cap = r.range(2, 24); m.k = r.range(1, 5); m.n = 0; m.data.assign(m.nf * m.cap, 0); m.labels.assign(m.cap, 0);
    m.model.assign(off_knn_size() + 16, 0); m.dist.assign(off_knn_dist_size() * m.cap, 0);
    (on ? on_knn_setup : off_knn_setup)(m.model.data(), m.nf, m.cap, m.data.data(), m.labels.data(), m.k);
}
// ---- one call, with the log on or off; the facts of it are set around the call with the log on
struct Lane { std::vector<Facts *> facts; std::vector<std::string> line; };
static std::map<int, Lane> lanes;
static Lane &lane() { return lanes[rtos::cpu().cur]; }
static void finished();
struct Saying { Saying(Facts &f) { Lane &l = lane(); l.facts.push_back(&f); l.line.push_back(""); } ~Saying() { finished(); Lane &l = lane(); l.facts.pop_back(); l.line.pop_back(); } };
static Out call_forest(Forest &m, const std::vector<int16_t> &x, bool on, bool bad_out, Facts *f) {
    Out o; int n = x.size();
    if (m.bits == 32) o.rc = (on ? on_regress : off_regress)(m.nodes.data(), m.n, m.roots.data(), m.roots.size(), m.leaves(), m.nl, m.nf, x.data(), n, &o.f, bad_out ? 0 : 1);
    else o.rc = (on ? on_predict : off_predict)(m.nodes.data(), m.n, m.roots.data(), m.roots.size(), m.leaves(), m.nl, m.bits, m.nf, m.nc, x.data(), n);
    return o;
}
static std::vector<int16_t> gen_x(Rng &r, int nf, double bad) { int n = nf; if (r.chance(bad)) n = std::max<long>(0, nf + (r.chance(0.5) ? 1 : -1)); std::vector<int16_t> x(n); for (auto &v : x) v = r.range(-600, 600); x.reserve(1); return x; }
static Out step(const std::string &kind, Forest &fo, Knn &kn, uint64_t seed, bool on, const Out *expect) {
    Rng r(seed); Out o; Facts f; f.call = kind;
    if (kind == "forest" || kind == "regress") {
        auto x = gen_x(r, fo.nf, 0.1); auto x0 = x; bool bo = r.chance(0.05);
        fo.facts(f, x.data(), x.size()); if (expect) f.num["class"] = {(double)expect->rc};
        if (!on) return call_forest(fo, x, false, bo, nullptr);
        Forest f0 = fo; { Saying s(f); dirty_stack(); in_sut = true; o = call_forest(fo, x, true, bo, &f); in_sut = false; }
        if (x != x0 || fo.nodes != f0.nodes || memcmp(fo.leafmem.data(), f0.leafmem.data(), fo.leafmem.size() * 4) || fo.roots != f0.roots) violate("input-changed", "the model or the input was changed by a call with the log on");
    } else if (kind == "knn") {
        bool add = kn.n < kn.k || r.chance(0.5); auto x = gen_x(r, kn.nf, 0.05); int label = r.below(r.chance(0.5) ? 3 : 10);
        for (int i = 0; i < std::max(kn.cap, 64); i++) f.num["index"].push_back(i);
        for (int i = 0; i < kn.n; i++) f.num["label"].push_back(kn.labels[i]);
        if (add) f.num["label"] = {(double)label}, f.num["index"] = {(double)kn.n};
        f.num["k"] = {(double)kn.k}; f.num["items"] = {(double)kn.n}; f.num["distances"] = {(double)kn.n};
        for (int i = 0; i <= kn.k; i++) f.num["votes"].push_back(i);
        if ((int)x.size() == kn.nf) for (int i = 0; i < kn.n; i++) { double d = 0; for (int j = 0; j < kn.nf; j++) { double e = kn.data[i * kn.nf + j] - x[j]; d += e * e; } f.num["distance"].push_back(d); f.num["distance"].push_back(std::floor(std::sqrt(d))); }
        auto go = [&] {
            if (add) o.rc = (on ? on_knn_add : off_knn_add)(kn.model.data(), x.data(), x.size(), label);
            else o.rc = (on ? on_knn_predict : off_knn_predict)(kn.model.data(), x.data(), x.size(), kn.dist.data(), kn.cap, &o.label);
        };
        if (on) { Saying s(f); dirty_stack(); in_sut = true; go(); in_sut = false; } else go();
        if (add && !o.rc) kn.n++;
    } else {
        std::vector<float> v(r.range(0, 6)); for (auto &q : v) q = (r.unit() - 0.5) * 100; v.reserve(1);
        int i = r.chance(0.1) ? INT32_MIN : r.range(-100000, 100000); bool b = r.chance(0.5); float num = (r.unit() - 0.5) * 1000; const char *t[] = {"a", "string-value", "x_1"}; const char *text = t[r.below(3)];
        f.num["integer"] = {(double)i}; f.num["number"] = {num}; f.text["text"] = text; f.text["flag"] = b ? "true" : "false"; f.text["positive"] = i > 0 && b ? "true" : "false"; f.arr["values"] = std::vector<double>(v.begin(), v.end());
        if (on) { Saying s(f); in_sut = true; on_entry(text, i, b, num, v.data(), v.size()); in_sut = false; } else off_entry(text, i, b, num, v.data(), v.size());
    }
    return o;
}
// ---- the console
static bool near(const std::string &said, double is) {
    if (std::isnan(is)) return said.find("nan") != std::string::npos;
    char *e; double v = strtod(said.c_str(), &e); size_t dot = said.find('.'); int digits = dot == std::string::npos ? 0 : said.size() - dot - 1;
    return std::fabs(v - is) <= 0.5000001 * std::pow(10.0, -digits) * (digits || is != std::floor(is) ? 1 : 0) + 2e-6 * std::fabs(is) * (digits || is != std::floor(is) ? 1 : 0) + (digits ? 1e-6 : 0);
}
static bool number(const std::string &s) { if (s.empty()) return false; char *e; strtod(s.c_str(), &e); return !*e; }
static bool token(const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isalnum((unsigned char)c) && !strchr("_-.:/", c)) return false; return true; }
static void entry(const std::string &l, Facts &f) {
    std::vector<std::string> w; size_t at = 0;
    while (at < l.size()) { size_t sp = l.find(' ', at); if (sp == std::string::npos) sp = l.size(); if (sp > at) w.push_back(l.substr(at, sp - at)); at = sp + 1; }
    if (w.empty() || !token(w[0])) violate("malformed-entry", "no event name in the entry \"%s\"", l.c_str());
    for (size_t i = 1; i < w.size(); i++) {
        size_t eq = w[i].find('='); std::string k = w[i].substr(0, eq), v = eq == std::string::npos ? "" : w[i].substr(eq + 1);
        if (eq == std::string::npos || !token(k)) violate("malformed-entry", "\"%s\" of the entry \"%s\" is no pair of a key and a value", w[i].c_str(), l.c_str());
        if (v.empty()) violate("malformed-entry", "key %s of the entry \"%s\" has no value", k.c_str(), l.c_str());
        if (v[0] == '[') {
            if (v.back() != ']') violate("malformed-entry", "array %s of \"%s\" does not end", k.c_str(), l.c_str());
            std::vector<std::string> e; std::string in = v.substr(1, v.size() - 2); size_t a = 0;
            while (!in.empty()) { size_t c = in.find(',', a); e.push_back(in.substr(a, c == std::string::npos ? c : c - a)); if (c == std::string::npos) break; a = c + 1; }
            for (auto &x : e) if (!number(x)) violate("malformed-entry", "array %s of \"%s\" holds \"%s\"", k.c_str(), l.c_str(), x.c_str());
            if (f.arr.count(k)) {
                auto &t = f.arr[k]; if (e.size() != t.size()) violate("untrue-entry", "%s: %zu values of %s are logged, there are %zu", f.call.c_str(), e.size(), k.c_str(), t.size());
                for (size_t j = 0; j < t.size(); j++) if (!near(e[j], t[j])) violate("untrue-entry", "%s: value %zu of %s is logged as %s, it is %g", f.call.c_str(), j, k.c_str(), e[j].c_str(), t[j]);
            }
        } else if (number(v)) {
            if (f.text.count(k)) violate("untrue-entry", "%s: %s is logged as %s, it is %s", f.call.c_str(), k.c_str(), v.c_str(), f.text[k].c_str());
            if (f.num.count(k)) { bool ok = false; for (double t : f.num[k]) if (near(v, t)) ok = true; if (!ok && k != "node") violate("untrue-entry", "%s: %s is logged as %s, it is %g", f.call.c_str(), k.c_str(), v.c_str(), f.num[k].empty() ? 0 : f.num[k][0]); }
        } else if (f.text.count(k) && f.text[k] != v) violate("untrue-entry", "%s: %s is logged as %s, it is %s", f.call.c_str(), k.c_str(), v.c_str(), f.text[k].c_str());
        else if (f.num.count(k) && v != "nan" && v != "-nan") violate("untrue-entry", "%s: number %s is logged as %s", f.call.c_str(), k.c_str(), v.c_str());
    }
    count("log_entries"); reach("%s %s %zu", f.call.c_str(), w[0].c_str(), w.size());
}
static void finished() { Lane &l = lane(); if (!l.line.back().empty()) violate("malformed-entry", "the call ends within the entry \"%s\"", l.line.back().c_str()); }
struct Trouble { long at; std::string kind; long arg; };
static std::vector<Trouble> troubles; static long prints = 0;
static Forest guest; static bool guest_ready = false;
int sim_console(void *, const char *types, const char *format, ...) {
    bool was = in_sut; in_sut = false; va_list ap; va_start(ap, format); std::string s; size_t arg = 0, nargs = strlen(types);
    for (const char *p = format; *p; p++) {
        if (*p != '%') { s += *p; continue; }
        if (p[1] == '%') { s += '%'; p++; continue; }
        std::string spec = "%"; p++; while (*p && strchr("-+ #0123456789.", *p)) spec += *p++;
        std::string mod; while (*p && strchr("hlzjtL", *p)) mod += *p++;
        char c = *p, b[512]; if (!c) violate("wrong-format", "the format \"%s\" is cut off", format);
        if (arg >= nargs) violate("wrong-format", "\"%s\" uses more arguments than it is given", format);
        char t = types[arg++]; bool wide = mod == "l" || mod == "ll" || mod == "z" || mod == "j" || mod == "t";
        bool ok = strchr("fFeEgG", c) ? t == 'f' : c == 's' ? t == 's' : strchr("diuxXoc", c) ? (wide ? t == 'l' : t == 'i') : c == 'p' ? t == 'p' || t == 's' : false;
        if (!ok) violate("wrong-format", "\"%%%s%c\" of \"%s\" is given an argument of another type (%c)", mod.c_str(), c, format, t);
        if (t == 'f') snprintf(b, sizeof b, (spec + c).c_str(), va_arg(ap, double));
        else if (t == 's') snprintf(b, sizeof b, (spec + c).c_str(), va_arg(ap, const char *));
        else if (t == 'l') snprintf(b, sizeof b, (spec + "l" + c).c_str(), va_arg(ap, long));
        else if (t == 'p') snprintf(b, sizeof b, "%p", va_arg(ap, void *));
        else snprintf(b, sizeof b, (spec + c).c_str(), va_arg(ap, int));
        s += b;
    }
    va_end(ap);
    if (arg != nargs) violate("wrong-format", "\"%s\" does not use all of its arguments", format);
    Lane &l = lane(); if (l.line.empty()) violate("log-unexpected", "\"%s\" is printed outside of a call", s.c_str());
    for (char c : s) if (c == '\n') { std::string e = l.line.back(); l.line.back().clear(); entry(e, *l.facts.back()); } else l.line.back() += c;
    long k = ++prints; if (!l.line.back().empty()) reach("in %s %zu", l.line.back().substr(0, l.line.back().find(' ')).c_str(), l.facts.size()); int rc = s.size();
    for (auto &t : troubles) if (t.at == k) {
        if (t.kind == "fail") { count("fault_console_failed"); errno = EIO; rc = -1; }
        else if (t.kind == "stall") { count("fault_console_stalled"); for (long i = 0; i < t.arg; i++) { run().simtime_us += 10000; rtos::yield(); } }
        else if (l.facts.size() < 3) { count("fault_console_calls_back"); Knn none; Out a = step("forest", guest, none, t.arg, false, nullptr); Out b = step("forest", guest, none, t.arg, true, &a); if (!(a == b)) violate("result-changed", "a call from within the console gives %d, with the log off %d", b.rc, a.rc); }
    }
    in_sut = was; return rc;
}
Plan make_plan(uint64_t seed) {
    Rng r(seed); Plan p; int n = r.range(1, 4); const char *kinds[] = {"forest", "forest", "regress", "knn", "app"}; int calls = 0;
    for (int i = 0; i < n; i++) {
        p.add("task %d %s %d", i, kinds[r.below(5)], (int)r.below(1000000)); int m = r.range(1, 12); calls += m;
        for (int k = 0; k < m; k++) p.add("call %d %d", i, (int)r.below(1000000));
    }
    if (r.chance(0.7)) { int m = r.range(1, 12); const char *t[] = {"fail", "stall", "back"}; for (int i = 0; i < m; i++) { long a = r.below(calls * 30) + 1; std::string k = t[r.below(3)]; p.add("console %ld %s %ld", a, k.c_str(), k == "stall" ? (long)r.range(1, 5) : (long)r.below(1000000)); } }
    if (n > 1) rtos::plan_slices(p, r, n, r.range(3, 80), r.chance(0.5) ? 4.0 : 7.0);
    return p;
}
struct Task { std::string kind; uint64_t seed = 0; std::vector<uint64_t> calls; Forest fo; Knn kn; std::vector<Out> want; };
void execute(const Plan &p) {
    std::map<int, Task> ts;
    for (auto &l : p.lines) {
        if (l.op() == "task") { Task t; t.kind = l.s(2); t.seed = l.u(3); ts[l.i(1)] = t; }
        else if (l.op() == "call") { auto it = ts.find(l.i(1)); if (it != ts.end()) it->second.calls.push_back(l.u(2)); }
        else if (l.op() == "console") troubles.push_back({l.i(1), l.s(2), std::min(l.i(3), l.s(2) == "stall" ? 20l : 1000000l)});
    }
    guest.make(7, false);
    std::vector<Task *> v;
    for (auto &k : ts) {
        Task &t = k.second; if (t.kind != "regress" && t.kind != "knn" && t.kind != "app") t.kind = "forest";
        v.push_back(&t);
        // the same history with the log off
        if (t.kind == "knn") knn_make(t.kn, t.seed, false); else t.fo.make(t.seed, t.kind == "regress");
        for (uint64_t s : t.calls) t.want.push_back(step(t.kind, t.fo, t.kn, s, false, nullptr));
        if (t.kind == "knn") knn_make(t.kn, t.seed, true);
    }
    int id = 0;
    for (Task *t : v) { int i = id++; rtos::add([t, i] {
        for (size_t k = 0; k < t->calls.size(); k++) {
            Out o = step(t->kind, t->fo, t->kn, t->calls[k], true, &t->want[k]); count("calls"); reach("call %s %d %d %zu", t->kind.c_str(), o.rc < 0 ? -1 : o.rc > 0, (int)(k > 3), lanes.size());
            if (!(o == t->want[k])) violate("result-changed", "%s call %zu of task %d: with the log on %d %g %d, with the log off %d %g %d", t->kind.c_str(), k, i, o.rc, o.f, o.label, t->want[k].rc, t->want[k].f, t->want[k].label);
            hash_bytes(&o.rc, sizeof o.rc); run().simtime_us += 1000;
        }
    }); }
    rtos::run(rtos::slices(p));
    note("prints %ld preempted %lu", prints, (unsigned long)rtos::cpu().preemptions); hash_bytes(&prints, sizeof prints);
    run().steps = step_count();
}
