// Symbolic runtime. See DESIGN.md. Not instrumented.
#include "sv.h"
#include <z3.h>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <tuple>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>

// ---------------------------------------------------------------- shared state
struct HStat {
    long paths, checks, checks_reached, discharged, violated, unknown, queries, q_sat, q_unsat, q_unknown, forks, truncated, ops,
         merged, infeasible, stopped, crashes, unconfirmed, discharged_trivially, interval, wit;
    double solver_s; int stop; int labels_n; char labels[48][64]; long label_n[48];
};
struct Shared { sem_t tokens; double deadline; HStat h[256]; };
static Shared* SH; static HStat* H; static int out_fd = 1; static int g_tier = 0;
static const char* g_harness = "";
static bool have_token = true; static bool async_child = false; static pid_t root_pid;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
#define ADD(f, n) __atomic_add_fetch(&H->f, (n), __ATOMIC_RELAXED)
static void addd(double* p, double v) { // racy add is good enough, but make it atomic
    uint64_t* q = (uint64_t*) p; uint64_t o = __atomic_load_n(q, __ATOMIC_RELAXED), n; double d;
    do { memcpy(&d, &o, 8); d += v; memcpy(&n, &d, 8); } while (!__atomic_compare_exchange_n(q, &o, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
}

// ---------------------------------------------------------------- values and terms
typedef Z3_ast A;
static Z3_context C; static Z3_solver S; static Z3_sort RS, FS32, FS64; static bool FPT = false; static bool nonlin = false;
static bool concrete_mode = false; static int merge_on = 1;
struct Term { A a; double lo, hi; int op; int x, y; int w; double xc, yc; };   // w: 32/64 (FP theory)
enum { OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_SQRT, OP_ABS, OP_ITE, OP_TRANS, OP_EXT, OP_OTHER };
static std::vector<Term> T(1);
static const uint64_t TAG64 = 0xFFF8000000000000ull; static const uint32_t TAG32 = 0xFFC00000u;
struct V { int id; double c; bool sym() const { return id != 0; } };
static inline V get(float f) { uint32_t b; memcpy(&b, &f, 4); if ((b & 0xFFC00000u) == TAG32 && (b & 0x3FFFFF)) return {(int)(b & 0x3FFFFF), 0}; return {0, (double) f}; }
static inline V get(double f) { uint64_t b; memcpy(&b, &f, 8); if ((b & 0xFFFF800000000000ull) == TAG64 && (b & 0xFFFFFFFFFFull)) return {(int)(b & 0xFFFFFFFF), 0}; return {0, f}; }
template<class F> F box(int id);
template<> float box<float>(int id) { if (id >= (1 << 22)) { static const char m[] = "sv: too many terms\n"; (void)!write(2, m, sizeof m); _exit(77); } uint32_t b = TAG32 | (uint32_t) id; float f; memcpy(&f, &b, 4); return f; }
template<> double box<double>(int id) { uint64_t b = TAG64 | (uint64_t) id; double f; memcpy(&f, &b, 8); return f; }
template<class F> F unbox(V v) { return v.sym() ? box<F>(v.id) : (F) v.c; }

static void die(const char* fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "sv[%s]: ", g_harness); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); _exit(77); }
[[noreturn]] static void end_path(bool completed);
[[noreturn]] static void unsupported(const char* what) {
    static std::set<std::string> said; if (said.insert(what).second) fprintf(stderr, "sv[%s]: unsupported on symbolic value: %s\n", g_harness, what);
    ADD(truncated, 1); end_path(false);
}

static std::string dec_mul2(std::string s, int k) { for (int i = 0; i < k; i++) { int c = 0; for (int j = (int) s.size() - 1; j >= 0; j--) { int d = (s[j] - '0') * 2 + c; s[j] = '0' + d % 10; c = d / 10; } if (c) s.insert(s.begin(), '0' + c); } return s; }
static std::unordered_map<uint64_t, A> ccache;
static A rconst(double d) {
    uint64_t b; if (d == 0) d = 0; memcpy(&b, &d, 8); auto it = ccache.find(b); if (it != ccache.end()) return it->second;
    int e; double m = frexp(d, &e); long long n = (long long) ldexp(m, 53); e -= 53; while (n && !(n & 1)) { n >>= 1; e++; }
    std::string s; if (n == 0) s = "0"; else { std::string mant = std::to_string(n < 0 ? -n : n); if (e > 0) mant = dec_mul2(mant, e); s = (n < 0 ? "-" : "") + mant; if (e < 0) s += "/" + dec_mul2("1", -e); }
    A a = Z3_mk_numeral(C, s.c_str(), RS); ccache[b] = a; return a;
}
static A fconst(double d, int w) { return w == 32 ? Z3_mk_fpa_numeral_float(C, (float) d, FS32) : Z3_mk_fpa_numeral_double(C, d, FS64); }
static A ast(V v, int w = 64) { if (v.sym()) return T[v.id].a; return FPT ? fconst(v.c, w) : rconst(v.c); }
static double lo(V v) { return v.sym() ? T[v.id].lo : v.c; } static double hi(V v) { return v.sym() ? T[v.id].hi : v.c; }
static void widen(double& l, double& h) { double m = std::max(fabs(l), fabs(h)); if (std::isnan(l) || std::isnan(h)) { l = -INFINITY; h = INFINITY; return; } if (std::isfinite(m)) { l -= 1e-12 * m; h += 1e-12 * m; } }
static std::map<std::tuple<int, int, int, uint64_t, uint64_t>, int> hc;
static int newterm(A a, double l, double h, int op, int x = 0, int y = 0, int w = 64) {
    T.push_back({a, l, h, op, x, y, w}); return (int) T.size() - 1;
}
static uint64_t key(V v) { if (v.sym()) return 0x8000000000000000ull | v.id; uint64_t b; memcpy(&b, &v.c, 8); return b * 2654435761u ^ (b >> 7); }

// ---------------------------------------------------------------- solver
static std::vector<A> pc; static Z3_model wit = nullptr; static std::unordered_map<A, bool> known;
static unsigned RL_SMT = 3000000, RL_NLSAT = 20000000;
static Z3_params mkparams(unsigned rl, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rl); if (rl) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); return p; }
static void set_rl(Z3_solver s, unsigned rl, unsigned ms) { Z3_params p = mkparams(rl, ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
static void new_context(bool fp) {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
    RS = Z3_mk_real_sort(C); FPT = fp;
    if (fp) { FS32 = Z3_mk_fpa_sort_32(C); FS64 = Z3_mk_fpa_sort_64(C); S = Z3_mk_solver(C); } else S = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, S); set_rl(S, fp ? 0 : RL_SMT, 2000);
}
static Z3_tactic g_nl = nullptr;
static int query(const std::vector<A>& extra, Z3_model* m) {
    ADD(queries, 1); double t0 = now(); Z3_lbool r;
    if (FPT) { // one bit-blasting solver per query: much faster than the incremental core on floating-point terms
        Z3_solver n = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FP")); Z3_solver_inc_ref(C, n);
        for (A a : pc) Z3_solver_assert(C, n, a); for (A a : extra) Z3_solver_assert(C, n, a);
        r = Z3_solver_check(C, n); if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, n); Z3_model_inc_ref(C, *m); }
        Z3_solver_dec_ref(C, n);
    } else {
    Z3_solver_push(C, S); for (A a : extra) Z3_solver_assert(C, S, a);
    r = Z3_solver_check(C, S);
    if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, *m); }
    Z3_solver_pop(C, S, 1); }
    if (r == Z3_L_UNDEF && !FPT) {
        if (!g_nl) { auto tk = [](const char* n) { Z3_tactic t = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, t); return t; }; Z3_tactic si = tk("simplify"), se = tk("solve-eqs"), nl = tk("qfnra-nlsat");
            Z3_tactic in = Z3_tactic_and_then(C, se, nl); Z3_tactic_inc_ref(C, in); g_nl = Z3_tactic_and_then(C, si, in); Z3_tactic_inc_ref(C, g_nl); }
        Z3_solver n = Z3_mk_solver_from_tactic(C, g_nl); Z3_solver_inc_ref(C, n); set_rl(n, RL_NLSAT, 30000);
        for (A a : pc) Z3_solver_assert(C, n, a);
        for (A a : extra) Z3_solver_assert(C, n, a);
        r = Z3_solver_check(C, n);
        if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, n); Z3_model_inc_ref(C, *m); }
        Z3_solver_dec_ref(C, n);
    }
    double dt = now() - t0; addd(&H->solver_s, dt);
    static double slow = getenv("SV_SLOW") ? atof(getenv("SV_SLOW")) : 1e9;
    if (dt > slow) { fprintf(stderr, "sv[%s]: slow query %.2fs -> %d (pc %zu terms %zu)\n", g_harness, dt, (int) r, pc.size(), T.size());
        if (getenv("SV_DUMP")) { FILE* f = fopen(getenv("SV_DUMP"), "w"); for (A a : pc) fprintf(f, "PC %s\n", Z3_ast_to_string(C, a)); for (A a : extra) fprintf(f, "Q %s\n", Z3_ast_to_string(C, a)); fclose(f); } }
    if (r == Z3_L_TRUE) { ADD(q_sat, 1); return 1; } if (r == Z3_L_FALSE) { ADD(q_unsat, 1); return 0; }
    ADD(q_unknown, 1); return -1;
}
static void add_pc(A a) { pc.push_back(a); Z3_solver_assert(C, S, a); }
static A mnot(A a) { return Z3_mk_not(C, a); }
static A mand(A a, A b) { A x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
static A mor(A a, A b) { A x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
static int weval(A c) { if (!wit) return -1; A o; if (!Z3_model_eval(C, wit, c, true, &o)) return -1; Z3_lbool b = Z3_get_bool_value(C, o); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1; }
static bool valid_const(A a, bool& v) { Z3_lbool b = Z3_get_bool_value(C, a); if (b == Z3_L_UNDEF) return false; v = b == Z3_L_TRUE; return true; }

// ---------------------------------------------------------------- inputs and reporting
struct Input { std::string name; char type; V v; };
static std::vector<Input> inputs; static std::map<std::string, std::string> replay; static std::map<std::string, int> name_n;
static double rat_to_double(A a) { double d = Z3_get_numeral_double(C, a); if (!std::isfinite(d)) d = atof(Z3_get_numeral_decimal_string(C, a, 20)); return d; } // the conversion fails for very long fractions
static double num_to_double(A a) {
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) return rat_to_double(a);
    if (Z3_is_algebraic_number(C, a)) { A l = Z3_get_algebraic_number_lower(C, a, 20); return rat_to_double(l); }
    return 0;
}
static double model_val(Z3_model m, int id) {
    A o; if (!Z3_model_eval(C, m, T[id].a, true, &o)) return 0;
    if (FPT) {
        if (Z3_fpa_is_numeral_nan(C, o)) return NAN; if (Z3_fpa_is_numeral_inf(C, o)) return Z3_fpa_is_numeral_negative(C, o) ? -INFINITY : INFINITY;
        if (Z3_fpa_is_numeral_zero(C, o)) return Z3_fpa_is_numeral_negative(C, o) ? -0.0 : 0.0;
        A bv = Z3_mk_fpa_to_ieee_bv(C, o); bv = Z3_simplify(C, bv); uint64_t b = 0; Z3_get_numeral_uint64(C, bv, &b);
        if (T[id].w == 32) { uint32_t u = (uint32_t) b; float f; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &b, 8); return d;
    }
    return num_to_double(o);
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string hexf(double d) { char b[64]; if (std::isnan(d)) return "nan"; if (std::isinf(d)) return d > 0 ? "inf" : "-inf"; snprintf(b, 64, "%.9g", d); return b; }
static void emit(const char* type, const char* label, const std::vector<double>& vals, const std::string& extra = "") {
    std::string s = std::string("{\"type\":\"") + type + "\",\"harness\":\"" + g_harness + "\",\"label\":\"" + jesc(label) + "\",\"inputs\":[";
    for (size_t i = 0; i < inputs.size(); i++) { if (i) s += ","; s += "[\"" + jesc(inputs[i].name) + "\",\"" + inputs[i].type + std::string("\",\"") + (inputs[i].type == 'f' ? hexf(vals[i]) : std::to_string((int) vals[i])) + "\"]"; }
    s += "]" + extra + "}\n"; (void)!write(out_fd, s.data(), s.size());
}
struct Trans { int fid; double p; int arg, res; std::vector<double> pts; }; static std::vector<Trans> trans;
static double tfun(int fid, double p, double x);
static int tcurv(int fid, double p); static int tmono(int fid, double p);
// sine and cosine are monotone on parts of their domain
static int tmono(int f, double p, double l, double h) { if (f != 7 && f != 8) return tmono(f, p); if (!std::isfinite(l) || !std::isfinite(h)) return 0; double sh = f == 7 ? M_PI / 2 : 0; long a = (long) floor((l + sh + 1e-9) / M_PI), b = (long) floor((h + sh - 1e-9) / M_PI); if (a != b || l + sh < a * M_PI - 1e-9) return 0; int up = f == 7 ? 1 : -1; return (a % 2) ? -up : up; }
static A R(double d) { return rconst(d); }
static A mle(A a, A b) { return Z3_mk_le(C, a, b); } static A mlt(A a, A b) { return Z3_mk_lt(C, a, b); }
static A madd(A a, A b) { A x[2] = {a, b}; return Z3_mk_add(C, 2, x); } static A mmul(A a, A b) { A x[2] = {a, b}; return Z3_mk_mul(C, 2, x); } static A msub(A a, A b) { A x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
static void point_lemmas(const Trans& t, double x0, std::vector<A>& out) {
    double y = tfun(t.fid, t.p, x0); if (!std::isfinite(y)) return; double eps = 1e-9 * (1 + fabs(y));
    A x = T[t.arg].a, f = T[t.res].a; int mo = tmono(t.fid, t.p, T[t.arg].lo, T[t.arg].hi), cu = tcurv(t.fid, t.p);
    if (t.fid == 7 || t.fid == 8) { // 1-Lipschitz
        A d = msub(x, R(x0)); out.push_back(mand(Z3_mk_implies(C, mle(R(0), d), mand(mle(f, madd(R(y + eps), d)), mle(msub(R(y - eps), d), f))), Z3_mk_implies(C, mle(d, R(0)), mand(mle(f, msub(R(y + eps), d)), mle(madd(R(y - eps), d), f))))); }
    if (mo > 0) { out.push_back(Z3_mk_implies(C, mle(x, R(x0)), mle(f, R(y + eps)))); out.push_back(Z3_mk_implies(C, mle(R(x0), x), mle(R(y - eps), f))); }
    if (mo < 0) { out.push_back(Z3_mk_implies(C, mle(x, R(x0)), mle(R(y - eps), f))); out.push_back(Z3_mk_implies(C, mle(R(x0), x), mle(f, R(y + eps)))); }
    if (cu != 0) {
        double h = 1e-4 * (1 + fabs(x0)); double yp = tfun(t.fid, t.p, x0 + h), ym = tfun(t.fid, t.p, x0 - h);
        if (std::isfinite(yp) && std::isfinite(ym)) {
            // a supporting line: any slope between the one-sided difference quotients; the slack covers the difference
            double sl = (yp - ym) / (2 * h); double slack = fabs((yp - 2 * y + ym)) + eps;
            // convex: f(x) >= y + sl (x-x0) holds up to slack*(|x-x0|/h) in the worst case; use exact derivative slopes instead
            double d = (t.fid == 0) ? y : (t.fid == 1) ? 1 / x0 : (t.fid == 2) ? t.p * pow(x0, t.p - 1) : (t.fid == 3) ? y * log(t.p) : sl; (void) slack;
            double deps = 1e-9 * (1 + fabs(d)); if (!std::isfinite(d)) return;
            A line_up = madd(R(y + eps), mmul(R(d), msub(x, R(x0)))), line_dn = madd(R(y - eps), mmul(R(d), msub(x, R(x0)))); (void) deps;
            if (cu > 0) out.push_back(mle(line_dn, f)); else out.push_back(mle(f, line_up));
        }
    }
}
// chords to the neighbouring sample points: the other side of a convex or concave function
static void chord_lemmas(Trans& t, double x0, std::vector<A>& out) {
    int cu = tcurv(t.fid, t.p); double xl = T[t.arg].lo, xh = T[t.arg].hi; if (!cu || !std::isfinite(xl) || !std::isfinite(xh) || !(x0 > xl && x0 < xh)) return;
    if (t.pts.empty()) t.pts = {xl, xh}; auto it = std::lower_bound(t.pts.begin(), t.pts.end(), x0); if (it == t.pts.begin() || it == t.pts.end() || *it == x0) return;
    double ends[2] = {*(it - 1), *it}; t.pts.insert(it, x0);
    for (double e0 : ends) { double p = std::min(e0, x0), q = std::max(e0, x0), yp = tfun(t.fid, t.p, p), yq = tfun(t.fid, t.p, q); if (!(q - p > 1e-7) || !std::isfinite(yp) || !std::isfinite(yq)) continue;
        double sl = (yq - yp) / (q - p), e = 1e-9 * (1 + fabs(yp) + fabs(yq)); A x = T[t.arg].a, f = T[t.res].a, line = madd(R(yp), mmul(R(sl), msub(x, R(p)))), in[2] = {mle(R(p), x), mle(x, R(q))};
        out.push_back(Z3_mk_implies(C, Z3_mk_and(C, 2, in), cu > 0 ? mle(f, madd(line, R(e))) : mle(msub(line, R(e)), f))); }
}
// checks a model against the true transcendental functions; returns lemmas when it is wrong
static bool refine(Z3_model m, std::vector<A>& lem) {
    bool ok = true; double tol = 1e-7;
    for (auto& t : trans) {
        double x = model_val(m, t.arg), f = model_val(m, t.res), y = tfun(t.fid, t.p, x);
        if (std::isfinite(y) && fabs(f - y) > tol * (1 + fabs(y))) { ok = false; point_lemmas(t, x, lem); chord_lemmas(t, x, lem); }
    }
    return ok;
}
static bool nice_model(std::vector<A> extra, Z3_model m, std::vector<double>& vals, bool quick = false) {
    // extra: the negated property (plus lemmas). Try to make the inputs short dyadic numbers so that the native replay is exact.
    vals.assign(inputs.size(), 0);
    for (size_t i = 0; i < inputs.size(); i++) vals[i] = inputs[i].v.sym() ? model_val(m, inputs[i].v.id) : inputs[i].v.c;
    if (FPT || quick) return true;
    static const double grid[] = {1, 4, 64, 4096, 0};
    for (size_t i = 0; i < inputs.size(); i++) if (inputs[i].v.sym()) {
        double v = model_val(m, inputs[i].v.id); bool done = false;
        for (double g : grid) {
            double c = g ? std::round(v * g) / g : (double) (float) v; if ((double) (float) c != c) continue;
            std::vector<A> e = extra; e.push_back(Z3_mk_eq(C, T[inputs[i].v.id].a, R(c)));
            Z3_model m2 = nullptr;
            for (int it = 0; it < 4; it++) {
                if (query(e, &m2) != 1) break;
                std::vector<A> lem; if (!refine(m2, lem)) { e.insert(e.end(), lem.begin(), lem.end()); Z3_model_dec_ref(C, m2); m2 = nullptr; continue; }
                done = true; break;
            }
            if (done) { extra = e; m = m2; vals[i] = c; break; }
        }
        if (!done) vals[i] = (double) (float) v;
    }
    return true;
}

// ---------------------------------------------------------------- paths
[[noreturn]] static void end_path(bool completed) {
    if (completed) {
        ADD(paths, 1);
        long n = __atomic_load_n(&H->wit, __ATOMIC_RELAXED);
        if (!inputs.empty() && n < 24 && !concrete_mode) { // sample of completed paths, re-run concretely by the driver
            if (__atomic_add_fetch(&H->wit, 1, __ATOMIC_RELAXED) <= 24) {
                Z3_model m = nullptr; std::vector<A> ex; bool ok = false;
                for (int it = 0; it < 6 && !ok; it++) { if (query(ex, &m) != 1) break; std::vector<A> lem; if (refine(m, lem)) ok = true; else ex.insert(ex.end(), lem.begin(), lem.end()); }
                if (ok) { std::vector<double> v; nice_model({}, m, v, true); emit("witness", "", v); }
            }
        }
    }
    if (have_token) sem_post(&SH->tokens);
    _exit(0);
}
static void leash() { double left = SH->deadline - now() + 60; alarm(left < 1 ? 1u : left > 1e6 ? 1000000u : (unsigned) left); } // no path outlives the run, even when the root process was killed
static int do_fork() { // returns 1 in the child, 0 in the parent, -1 when not forking any more
    if (H->stop || now() > SH->deadline) { ADD(truncated, 1); return -1; }
    ADD(forks, 1);
    if (sem_trywait(&SH->tokens) == 0) {
        pid_t p = fork(); if (p < 0) { sem_post(&SH->tokens); ADD(truncated, 1); return -1; }
        if (p == 0) { have_token = true; leash(); return 1; }
        return 0;
    }
    pid_t p = fork(); if (p < 0) { ADD(truncated, 1); return -1; }
    if (p == 0) { have_token = false; leash(); return 1; }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return 0;
}
static bool path_check() { if (now() > SH->deadline || H->stop) { ADD(truncated, 1); end_path(false); } return true; }
static int choose(int n) { // nondeterministic choice without a condition
    for (int i = 0; i < n - 1; i++) { int f = do_fork(); if (f == 1) return i; if (f < 0) return i; }
    return n - 1;
}
static bool branch(A c) {
    bool cv; c = Z3_simplify(C, c); if (valid_const(c, cv)) return cv;
    auto it = known.find(c); if (it != known.end()) return it->second;
    path_check();
    int w = weval(c); int ft, ff; Z3_model mt = nullptr, mf = nullptr;
    if (w == 1) { ft = 1; mt = wit; ff = query({mnot(c)}, &mf); }
    else if (w == 0) { ff = 1; mf = wit; ft = query({c}, &mt); }
    else { ft = query({c}, &mt); ff = ft == 0 ? 1 : query({mnot(c)}, &mf); }
    if (ft == 0 && ff == 0) { ADD(infeasible, 1); end_path(false); }
    bool side;
    if (ft == 0) side = false; else if (ff == 0) side = true;
    else { int f = do_fork(); side = (f == 1) ? false : true; }
    add_pc(side ? c : mnot(c)); known[c] = side;
    Z3_model nm = side ? mt : mf; wit = nm;
    return side;
}
static void crash(int sig);

// ---------------------------------------------------------------- comparisons (real theory)
static double native_cmp(int p, double a, double b) {
    switch (p) { case 0: return 0; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
        case 6: return a < b || a > b; case 7: return !(std::isnan(a) || std::isnan(b)); case 8: return std::isnan(a) || std::isnan(b);
        case 9: return !(a < b || a > b); case 10: return !(a <= b); case 11: return !(a < b); case 12: return !(a >= b); case 13: return !(a > b); case 14: return a != b; }
    return 1;
}
static A fpcmp(int p, A a, A b) {
    A un = mor(Z3_mk_fpa_is_nan(C, a), Z3_mk_fpa_is_nan(C, b));
    switch (p) { case 1: return Z3_mk_fpa_eq(C, a, b); case 2: return Z3_mk_fpa_gt(C, a, b); case 3: return Z3_mk_fpa_geq(C, a, b); case 4: return Z3_mk_fpa_lt(C, a, b);
        case 5: return Z3_mk_fpa_leq(C, a, b); case 6: return mand(mnot(un), mnot(Z3_mk_fpa_eq(C, a, b))); case 7: return mnot(un); case 8: return un;
        case 9: return mor(un, Z3_mk_fpa_eq(C, a, b)); case 10: return mnot(Z3_mk_fpa_leq(C, a, b)); case 11: return mnot(Z3_mk_fpa_lt(C, a, b));
        case 12: return mnot(Z3_mk_fpa_geq(C, a, b)); case 13: return mnot(Z3_mk_fpa_gt(C, a, b)); case 14: return mnot(Z3_mk_fpa_eq(C, a, b)); }
    return p == 0 ? Z3_mk_false(C) : Z3_mk_true(C);
}
static int ckey(V v, double& c) { if (!v.sym()) { c = v.c; return 1; } return 0; }
// returns 0/1 when decided without a solver, else -1 and the condition
static int cmp_term(int p, V a, V b, int w, A* out) {
    if (p == 0) return 0; if (p == 15) return 1;
    if (FPT) { *out = fpcmp(p, ast(a, w), ast(b, w)); return -1; }
    double ca, cb; bool ka = ckey(a, ca), kb = ckey(b, cb);
    if (ka && (std::isnan(ca) || std::isinf(ca))) return native_cmp(p, ca, 0) != 0;
    if (kb && (std::isnan(cb) || std::isinf(cb))) return native_cmp(p, 0, cb) != 0;
    if (p == 7) return 1; if (p == 8) return 0;
    if (p > 8) p = p == 9 ? 1 : p == 10 ? 2 : p == 11 ? 3 : p == 12 ? 4 : p == 13 ? 5 : 6;
    if (p == 2) { std::swap(a, b); p = 4; } if (p == 3) { std::swap(a, b); p = 5; }
    if (a.sym() && b.sym() && a.id == b.id) return p == 1 || p == 5;
    // sqrt rewriting
    auto issq = [](V v) { return v.sym() && T[v.id].op == OP_SQRT; };
    if (issq(a) && issq(b)) { a = {T[a.id].x, 0}; b = {T[b.id].x, 0}; if (a.id == b.id) return p == 1 || p == 5; }
    else if (issq(a) && !b.sym()) { if (b.c < 0) return p == 6; if (b.c == 0 && p == 4) return 0; a = {T[a.id].x, 0}; A bb = mmul(R(b.c), R(b.c)); A aa = T[a.id].a;
        double h2 = b.c * b.c; if (T[a.id].hi < h2 * (1 - 1e-9)) return p == 4 || p == 5 || p == 6; if (T[a.id].lo > h2 * (1 + 1e-9)) return p == 6;
        *out = p == 1 ? Z3_mk_eq(C, aa, bb) : p == 4 ? mlt(aa, bb) : p == 5 ? mle(aa, bb) : mnot(Z3_mk_eq(C, aa, bb)); return -1; }
    else if (issq(b) && !a.sym()) { if (a.c < 0) return p == 4 || p == 5 || p == 6; if (a.c == 0 && p == 5) return 1; b = {T[b.id].x, 0}; A aa = mmul(R(a.c), R(a.c)); A bb = T[b.id].a;
        double h2 = a.c * a.c; if (T[b.id].lo > h2 * (1 + 1e-9)) return p == 4 || p == 5 || p == 6; if (T[b.id].hi < h2 * (1 - 1e-9)) return p == 6;
        *out = p == 1 ? Z3_mk_eq(C, aa, bb) : p == 4 ? mlt(aa, bb) : p == 5 ? mle(aa, bb) : mnot(Z3_mk_eq(C, aa, bb)); return -1; }
    double al = lo(a), ah = hi(a), bl = lo(b), bh = hi(b);
    if (ah < bl) { ADD(interval, 1); return p == 4 || p == 5 || p == 6; }
    if (al > bh) { ADD(interval, 1); return p == 6; }
    A x = ast(a), y = ast(b);
    *out = p == 1 ? Z3_mk_eq(C, x, y) : p == 4 ? mlt(x, y) : p == 5 ? mle(x, y) : mnot(Z3_mk_eq(C, x, y));
    return -1;
}
static bool fcmp(int p, V a, V b, int w) {
    if (!a.sym() && !b.sym()) return native_cmp(p, a.c, b.c) != 0;
    A c; int r = cmp_term(p, a, b, w, &c); if (r >= 0) return r; return branch(c);
}

// ---------------------------------------------------------------- arithmetic
static V con(double c) { return {0, c}; }
static bool exact_on = false; // concrete quotients that float cannot represent become exact rational terms
template<class F> static bool inexact_quot(F a, F b) { if (!exact_on || FPT || concrete_mode || !std::isfinite(a) || !std::isfinite(b) || b == 0) return false; F q = a / b; return std::fma((double) q, (double) b, -(double) a) != 0; }
static V exact_quot(double a, double b) { A x = Z3_simplify(C, Z3_mk_div(C, rconst(a), rconst(b))); double q = a / b; return {newterm(x, q - 1e-12 * fabs(q), q + 1e-12 * fabs(q), OP_OTHER), 0}; }
static int mk2(int op, V a, V b, int w) {
    auto k = std::make_tuple(op, FPT ? w : 0, 0, key(a), key(b)); auto it = hc.find(k); if (it != hc.end()) return it->second;
    A x = ast(a, w), y = ast(b, w), r; double l, h;
    if (FPT) {
        A rm = Z3_mk_fpa_round_nearest_ties_to_even(C); l = -INFINITY; h = INFINITY;
        switch (op) { case OP_ADD: r = Z3_mk_fpa_add(C, rm, x, y); break; case OP_SUB: r = Z3_mk_fpa_sub(C, rm, x, y); break; case OP_MUL: r = Z3_mk_fpa_mul(C, rm, x, y); break; default: r = Z3_mk_fpa_div(C, rm, x, y); }
    } else {
        double al = lo(a), ah = hi(a), bl = lo(b), bh = hi(b);
        switch (op) {
            case OP_ADD: r = madd(x, y); l = al + bl; h = ah + bh; break;
            case OP_SUB: r = msub(x, y); l = al - bh; h = ah - bl; break;
            case OP_MUL: { r = mmul(x, y); double c[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
                for (double q : c) if (std::isnan(q)) { l = -INFINITY; h = INFINITY; }
                if (a.sym() && b.sym() && a.id == b.id) { l = (al <= 0 && ah >= 0) ? 0 : std::min(al * al, ah * ah); h = std::max(al * al, ah * ah); }
                if (a.sym() && b.sym()) nonlin = true; break; }
            default: { r = Z3_mk_div(C, x, y); if (b.sym()) nonlin = true;
                if (bl > 0 || bh < 0) { double c[4] = {al / bl, al / bh, ah / bl, ah / bh}; l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4); for (double q : c) if (std::isnan(q)) { l = -INFINITY; h = INFINITY; } } else { l = -INFINITY; h = INFINITY; } }
        }
        bool z = l == 0 && op == OP_MUL; widen(l, h); if (z) l = 0;
    }
    int id = newterm(r, l, h, op, a.id, b.id, w); T[id].xc = a.c; T[id].yc = b.c; hc[k] = id; return id;
}
static V neg(V a, int w); static V absv(V a, int w);
template<class F> static V arith(int op, V a, V b) {
    const int w = sizeof(F) * 8;
    if (!a.sym() && !b.sym()) { F x = (F) a.c, y = (F) b.c, r; switch (op) { case OP_ADD: r = x + y; break; case OP_SUB: r = x - y; break; case OP_MUL: r = x * y; break; default: r = x / y; } return con(r); }
    ADD(ops, 1);
    if (FPT) return {mk2(op, a, b, w), 0};
    if (!a.sym() && std::isnan(a.c)) return a; if (!b.sym() && std::isnan(b.c)) return b;
    bool ai = !a.sym() && std::isinf(a.c), bi = !b.sym() && std::isinf(b.c);
    switch (op) {
        case OP_ADD: if (ai) return a; if (bi) return b; if (!a.sym() && a.c == 0) return b; if (!b.sym() && b.c == 0) return a; break;
        case OP_SUB: if (ai) return a; if (bi) return con(-b.c); if (!b.sym() && b.c == 0) return a; if (a.id == b.id && a.sym()) return con(0); if (!a.sym() && a.c == 0) return neg(b, w); break;
        case OP_MUL: if (ai || bi) { V s = ai ? b : a; double i = ai ? a.c : b.c; if (fcmp(2, s, con(0), w)) return con(i); if (fcmp(4, s, con(0), w)) return con(-i); return con(NAN); }
            if (!a.sym() && a.c == 1) return b; if (!b.sym() && b.c == 1) return a; if (!a.sym() && a.c == 0) return con(0); if (!b.sym() && b.c == 0) return con(0);
            if (!a.sym() && a.c == -1) return neg(b, w); if (!b.sym() && b.c == -1) return neg(a, w);
            if (a.sym() && b.sym() && a.id == b.id && T[a.id].op == OP_SQRT) return {T[a.id].x, 0}; break;
        default:
            if (bi) return con(0); if (ai) return fcmp(4, b, con(0), w) ? con(-a.c) : a;
            if (!b.sym() && b.c == 1) return a; if (!b.sym() && b.c == 0) { if (fcmp(2, a, con(0), w)) return con(INFINITY); if (fcmp(4, a, con(0), w)) return con(-INFINITY); return con(NAN); }
            if (b.sym() && fcmp(1, b, con(0), w)) { if (fcmp(2, a, con(0), w)) return con(INFINITY); if (fcmp(4, a, con(0), w)) return con(-INFINITY); return con(NAN); }
            if (!a.sym() && a.c == 0) return con(0); if (a.sym() && a.id == b.id) return con(1);
            if (!b.sym()) { double r = 1 / b.c; if (std::isfinite(r)) { int e; double m = frexp(b.c, &e); if (m == 0.5 || m == -0.5) { V rr = con(r); return {mk2(OP_MUL, a, rr, w), 0}; } } }
    }
    if (op == OP_ADD || op == OP_MUL) if (key(a) > key(b)) std::swap(a, b);
    return {mk2(op, a, b, w), 0};
}
static V neg(V a, int w) {
    if (!a.sym()) return con(-a.c);
    if (!FPT && T[a.id].op == OP_NEG) return {T[a.id].x, 0};
    auto k = std::make_tuple((int) OP_NEG, 0, 0, key(a), (uint64_t) 0); auto it = hc.find(k); if (it != hc.end()) return {it->second, 0};
    A r = FPT ? Z3_mk_fpa_neg(C, ast(a, w)) : Z3_mk_unary_minus(C, ast(a)); int id = newterm(r, -hi(a), -lo(a), OP_NEG, a.id, 0, w); hc[k] = id; return {id, 0};
}
static V iteT(A c, V t, V f, int w) {
    if (t.sym() && f.sym() && t.id == f.id) return t; if (!t.sym() && !f.sym() && t.c == f.c) return t;
    static std::map<std::tuple<A, uint64_t, uint64_t, int>, int> ic; auto k = std::make_tuple(c, key(t), key(f), FPT ? w : 0); auto it = ic.find(k); if (it != ic.end()) return {it->second, 0};
    int id = newterm(Z3_mk_ite(C, c, ast(t, w), ast(f, w)), std::min(lo(t), lo(f)), std::max(hi(t), hi(f)), OP_ITE, t.id, f.id, w); ic[k] = id; return {id, 0};
}
static V absv(V a, int w) {
    if (!a.sym()) return con(fabs(a.c));
    if (FPT) return {newterm(Z3_mk_fpa_abs(C, ast(a, w)), 0, INFINITY, OP_ABS, a.id, 0, w), 0};
    if (lo(a) >= 0) return a; if (hi(a) <= 0) return neg(a, w);
    auto k = std::make_tuple((int) OP_ABS, 0, 0, key(a), (uint64_t) 0); auto it = hc.find(k); if (it != hc.end()) return {it->second, 0};
    A x = ast(a); int id = newterm(Z3_mk_ite(C, Z3_mk_ge(C, x, R(0)), x, Z3_mk_unary_minus(C, x)), 0, std::max(fabs(lo(a)), fabs(hi(a))), OP_ABS, a.id, 0, w); hc[k] = id; return {id, 0};
}
static int fresh_n = 0;
static A fresh(const char* p) { char b[64]; snprintf(b, 64, "%s!%d", p, fresh_n++); return Z3_mk_const(C, Z3_mk_string_symbol(C, b), RS); }
static void axiom(A a) { wit = nullptr; add_pc(a); }
static V sqrtv(V a, int w) {
    if (!a.sym()) return con(w == 32 ? (double) sqrtf((float) a.c) : sqrt(a.c));
    if (FPT) return {newterm(Z3_mk_fpa_sqrt(C, Z3_mk_fpa_round_nearest_ties_to_even(C), ast(a, w)), -INFINITY, INFINITY, OP_OTHER, a.id, 0, w), 0};
    auto k = std::make_tuple((int) OP_SQRT, 0, 0, key(a), (uint64_t) 0); auto it = hc.find(k); if (it != hc.end()) return {it->second, 0};
    if (fcmp(4, a, con(0), w)) return con(NAN);
    if (T[a.id].op == OP_MUL && T[a.id].x == T[a.id].y && T[a.id].x) { V x = {T[a.id].x, 0}; return absv(x, w); }
    A s = fresh("sqrt"); double l = std::max(0.0, lo(a)), h = hi(a); l = sqrt(l); h = sqrt(h); widen(l, h); if (l < 0) l = 0;
    int id = newterm(s, l, h, OP_SQRT, a.id, 0, w); hc[k] = id; nonlin = true;
    axiom(Z3_mk_ge(C, s, R(0))); axiom(Z3_mk_eq(C, mmul(s, s), ast(a)));
    return {id, 0};
}
// transcendental functions: 0 exp 1 log 2 pow(x,p) 3 p^x 4 acos 5 asin 6 atan 7 sin 8 cos 9 tan 10 tanh 11 cbrt 12 erf
static double tfun(int f, double p, double x) { switch (f) { case 0: return exp(x); case 1: return log(x); case 2: return pow(x, p); case 3: return pow(p, x); case 4: return acos(x); case 5: return asin(x); case 6: return atan(x); case 7: return sin(x); case 8: return cos(x); case 9: return tan(x); case 10: return tanh(x); case 11: return cbrt(x); case 12: return erf(x); } return NAN; }
static int tmono(int f, double p) { switch (f) { case 0: case 1: case 5: case 6: case 10: case 11: case 12: return 1; case 2: return p > 0 ? 1 : -1; case 3: return p > 1 ? 1 : -1; case 4: return -1; } return 0; }
static int tcurv(int f, double p) { switch (f) { case 0: case 3: return 1; case 1: return -1; case 2: return (p > 1 || p < 0) ? 1 : -1; } return 0; }
static V polar(int f, V a, int w); static bool exp_pairs_on = false;
static V transc(int f, double p, V a, int w) {
    if (!a.sym()) { if (w == 32) { float x = (float) a.c; switch (f) { case 0: return con(expf(x)); case 1: return con(logf(x)); case 2: return con(powf(x, (float) p)); case 3: return con(powf((float) p, x)); case 4: return con(acosf(x)); case 5: return con(asinf(x)); case 6: return con(atanf(x)); case 7: return con(sinf(x)); case 8: return con(cosf(x)); case 9: return con(tanf(x)); case 10: return con(tanhf(x)); case 11: return con(cbrtf(x)); case 12: return con(erff(x)); } } return con(tfun(f, p, a.c)); }
    if (FPT) unsupported("transcendental function in IEEE theory");
    if (f == 1) { if (fcmp(4, a, con(0), w)) return con(NAN); if (fcmp(1, a, con(0), w)) return con(-INFINITY); }
    if (f == 1) { // log of a product or quotient of positive factors
        const int o = T[a.id].op; V x = {T[a.id].x, T[a.id].xc}, y = {T[a.id].y, T[a.id].yc};
        if ((o == OP_MUL || o == OP_DIV) && lo(x) > 0 && lo(y) > 0 && !(T[a.id].x && T[a.id].x == T[a.id].y)) { V lx = transc(1, 0, x, 64), ly = transc(1, 0, y, 64); return arith<double>(o == OP_MUL ? OP_ADD : OP_SUB, lx, ly); } }
    if (f == 7 || f == 8) { V q = polar(f, a, w); if (q.id || !std::isnan(q.c)) return q; }
    if (f == 2) { if (p == 0) return con(1); if (p == 1) return a; if (p == 2) return arith<double>(OP_MUL, a, a); if (p == 3) return arith<double>(OP_MUL, arith<double>(OP_MUL, a, a), a); if (p == 0.5) return sqrtv(a, w); if (p == -1) return arith<double>(OP_DIV, con(1), a);
        if (p == 4) { V s = arith<double>(OP_MUL, a, a); return arith<double>(OP_MUL, s, s); }
        if (fcmp(4, a, con(0), w)) { if (p == floor(p)) unsupported("pow of a negative number"); return con(NAN); } if (fcmp(1, a, con(0), w)) return con(p > 0 ? 0 : INFINITY); }
    if (f == 3) { if (p == 1) return con(1); if (p <= 0) unsupported("pow with non-positive base"); }
    if (f == 4 || f == 5) { if (fcmp(4, a, con(-1), w) || fcmp(2, a, con(1), w)) return con(NAN); }
    auto k = std::make_tuple(100 + f, 0, 0, key(a), key(con(p))); auto it = hc.find(k); if (it != hc.end()) return {it->second, 0};
    // inverse pairs
    if (T[a.id].op == OP_TRANS) for (auto& t : trans) if (t.res == a.id) {
        if ((f == 1 && t.fid == 0) || (f == 0 && t.fid == 1)) return {t.arg, 0};
        if (f == 2 && t.fid == 2 && fabs(t.p * p - 1) < 1e-6) return {t.arg, 0};
        if (f == 1 && t.fid == 3) return arith<double>(OP_MUL, V{t.arg, 0}, con(log(t.p)));
    }
    double l, h; int mo = tmono(f, p, lo(a), hi(a)); double ylo = tfun(f, p, lo(a)), yhi = tfun(f, p, hi(a));
    if (f == 1 && lo(a) <= 0) ylo = -INFINITY; if (f == 2 && lo(a) <= 0) ylo = p > 0 ? 0 : INFINITY;
    if ((f == 4 || f == 5)) { ylo = tfun(f, p, std::max(-1.0, lo(a))); yhi = tfun(f, p, std::min(1.0, hi(a))); }
    if (mo > 0) { l = ylo; h = yhi; } else if (mo < 0) { l = yhi; h = ylo; } else { l = -1; h = 1; if (f == 9) { l = -INFINITY; h = INFINITY; } else if (std::isfinite(lo(a)) && std::isfinite(hi(a))) { auto has = [&](double x0) { return floor((hi(a) - x0) / (2 * M_PI) + 1e-9) >= ceil((lo(a) - x0) / (2 * M_PI) - 1e-9); }; double top = f == 7 ? M_PI / 2 : 0; h = has(top) ? 1 : std::max(ylo, yhi); l = has(top + M_PI) ? -1 : std::min(ylo, yhi); } }
    if (std::isnan(l)) l = -INFINITY; if (std::isnan(h)) h = INFINITY;
    { double m = std::max(std::isfinite(l) ? fabs(l) : 0, std::isfinite(h) ? fabs(h) : 0); if (std::isfinite(l) && !(f == 0 || f == 3 || (f == 2 && l == 0))) l -= 1e-9 * (1 + m); if (std::isfinite(h)) h += 1e-9 * (1 + m); }
    if (f == 4) l = std::max(l, 0.0); if (f == 7 || f == 8) { l = std::max(l, -1.0); h = std::min(h, 1.0); }
    A v = fresh("tr"); int id = newterm(v, l, h, OP_TRANS, a.id, 0, w); hc[k] = id;
    Trans t{f, p, a.id, id, {}};
    if (f == 0 || f == 3 || f == 2) axiom(mlt(R(0), v));
    if (std::isfinite(l)) axiom(mle(R(l), v)); if (std::isfinite(h)) axiom(mle(v, R(h)));
    for (auto& o : trans) if (o.fid == f && o.p == p && mo && ((f != 7 && f != 8) || (tmono(f, p, std::min(T[o.arg].lo, lo(a)), std::max(T[o.arg].hi, hi(a)))))) { A x = T[a.id].a, xo = T[o.arg].a, r = v, ro = T[o.res].a; if (mo < 0) std::swap(r, ro);
        axiom(mand(Z3_mk_iff(C, mle(x, xo), mle(r, ro)), Z3_mk_iff(C, mle(xo, x), mle(ro, r)))); }
    if (f == 2 && p > 0 && p < 0.5) { double k = round(1 / p); if (fabs(p * k - 1) < 1e-6 && k <= 4) { A m = v; for (int i = 1; i < k; i++) m = mmul(m, v); axiom(Z3_mk_eq(C, m, T[a.id].a)); nonlin = true; } } // k-th root
    for (auto& o : trans) if ((f == 0 && o.fid == 1) || (f == 1 && o.fid == 0) || (f == 2 && o.fid == 2 && fabs(o.p * p - 1) < 1e-6)) { // inverse functions: a <= g(x) iff f(a) <= x
        A x = T[a.id].a, r = T[o.res].a, y = T[o.arg].a, u = v; if (mo < 0) std::swap(u, y); axiom(mand(Z3_mk_iff(C, mle(x, r), mle(u, y)), Z3_mk_iff(C, mle(r, x), mle(y, u)))); }
    if (f == 0 && exp_pairs_on) for (auto& o : trans) if (o.fid == 0) { nonlin = true; axiom(mor(Z3_mk_not(C, Z3_mk_eq(C, madd(T[a.id].a, T[o.arg].a), R(0))), Z3_mk_eq(C, mmul(v, T[o.res].a), R(1)))); } // exp(-x) exp(x) = 1
    // a few tangents / points, and the chord over the whole interval
    std::vector<A> lem; double xl = lo(a), xh = hi(a); if (f == 4 || f == 5) { xl = std::max(xl, -1.0); xh = std::min(xh, 1.0); }
    double pts[5]; int np = 0; if (std::isfinite(xl) && std::isfinite(xh)) { pts[np++] = xl; pts[np++] = xl + (xh - xl) * 0.25; pts[np++] = (xl + xh) / 2; pts[np++] = xl + (xh - xl) * .75; pts[np++] = xh; }
    if (f == 0 || f == 3) { if (xl <= 0 && xh >= 0) pts[np > 4 ? 2 : np++] = 0; } if ((f == 1 || f == 2) && xl <= 1 && xh >= 1) pts[np > 4 ? 2 : np++] = 1;
    if (mo) for (int i = 0; i < np; i++) point_lemmas(t, pts[i], lem);
    if (tcurv(f, p) && std::isfinite(xl) && std::isfinite(xh) && xl < xh) { double yl = tfun(f, p, xl), yh = tfun(f, p, xh); if (std::isfinite(yl) && std::isfinite(yh)) { double sl = (yh - yl) / (xh - xl); double e = 1e-9 * (1 + fabs(yl) + fabs(yh));
        A line = madd(R(yl), mmul(R(sl), msub(T[a.id].a, R(xl)))); lem.push_back(tcurv(f, p) > 0 ? mle(v, madd(line, R(e))) : mle(msub(line, R(e)), v)); } }
    for (A q : lem) axiom(q);
    if (f == 7 || f == 8) { // sin^2 + cos^2 = 1
        for (auto& o : trans) if (o.arg == a.id && ((o.fid == 7 && f == 8) || (o.fid == 8 && f == 7))) { axiom(Z3_mk_eq(C, madd(mmul(v, v), mmul(T[o.res].a, T[o.res].a)), R(1))); nonlin = true; }
    }
    trans.push_back(t); return {id, 0};
}
static std::vector<std::tuple<int, int, int>> atan2s; // y, x, res
static V atan2v(V y, V x, int w) {
    if (!y.sym() && !x.sym()) return con(w == 32 ? (double) atan2f((float) y.c, (float) x.c) : atan2(y.c, x.c));
    if (FPT) unsupported("atan2 in IEEE theory");
    if ((!y.sym() && std::isnan(y.c)) || (!x.sym() && std::isnan(x.c))) return con(NAN);
    if ((!y.sym() && std::isinf(y.c)) || (!x.sym() && std::isinf(x.c))) unsupported("atan2 of infinity");
    auto k = std::make_tuple(200, 0, 0, key(y), key(x)); auto it = hc.find(k); if (it != hc.end()) return {it->second, 0};
    // decide the signs (quadrants), then theta is pinned at the axes and in its quadrant otherwise
    int sy = fcmp(2, y, con(0), w) ? 1 : fcmp(4, y, con(0), w) ? -1 : 0, sx = fcmp(2, x, con(0), w) ? 1 : fcmp(4, x, con(0), w) ? -1 : 0;
    if (sy == 0) return con(sx >= 0 ? 0 : M_PI); if (sx == 0) return con(sy > 0 ? M_PI / 2 : -M_PI / 2);
    double l = sy > 0 ? (sx > 0 ? 0 : M_PI / 2) : (sx > 0 ? -M_PI / 2 : -M_PI), h = l + M_PI / 2;
    A v = fresh("atan2"); int id = newterm(v, l, h, OP_OTHER, y.id, x.id, w); T[id].xc = y.c; T[id].yc = x.c; hc[k] = id; axiom(mlt(R(l), v)); axiom(mlt(v, R(h)));
    // comparison with the diagonals
    double mid = (l + h) / 2; A ay = ast(absv(y, w)), ax = ast(absv(x, w)); bool steeper_is_larger = (sx * sy > 0);
    axiom(Z3_mk_iff(C, steeper_is_larger ? mle(ay, ax) : mle(ax, ay), mle(v, R(mid))));
    // angular order against earlier ones in the same quadrant: cross product sign
    for (auto& o : atan2s) { V oy = {std::get<0>(o), 0}, ox = {std::get<1>(o), 0}; if (!oy.id || !ox.id || !x.sym() || !y.sym()) continue;
        if (T[std::get<2>(o)].lo == l) { A cr = msub(mmul(ast(ox), ast(y)), mmul(ast(oy), ast(x))); axiom(mand(Z3_mk_iff(C, mlt(R(0), cr), mlt(T[std::get<2>(o)].a, v)), Z3_mk_iff(C, mlt(cr, R(0)), mlt(v, T[std::get<2>(o)].a)))); nonlin = true; } }
    atan2s.push_back(std::make_tuple(y.id, x.id, id)); return {id, 0};
}
// angle = k * atan2(y,x) + c with k = +-1 up to rounding: sine and cosine from the vector itself, up to a small error
static bool affine(int id, double& k, double& c, int& base) {
    const Term t = T[id]; if (t.op == OP_OTHER) { for (auto& o : atan2s) if (std::get<2>(o) == id) { k = 1; c = 0; base = id; return true; } return false; }
    if (t.op == OP_NEG) { if (!affine(t.x, k, c, base)) return false; k = -k; c = -c; return true; }
    if (t.op < OP_ADD || t.op > OP_DIV || (t.x && t.y)) return false;
    double q = t.x ? t.yc : t.xc; if (!affine(t.x ? t.x : t.y, k, c, base)) return false;
    switch (t.op) { case OP_ADD: c += q; return true; case OP_SUB: if (t.x) c -= q; else { k = -k; c = q - c; } return true; case OP_MUL: k *= q; c *= q; return true; default: if (!t.x) return false; k /= q; c /= q; return true; }
}
static V polar(int f, V a, int w) {
    double k, c; int base; if (!affine(a.id, k, c, base) || fabs(fabs(k) - 1) > 1e-5) return con(NAN);
    V y = {0, 0}, x = {0, 0}; bool found = false; for (auto& o : atan2s) if (std::get<2>(o) == base) { y = {std::get<0>(o), T[base].xc}; x = {std::get<1>(o), T[base].yc}; found = true; } if (!found) return con(NAN);
    auto strip = [](V v) { return v.id && T[v.id].op == OP_NEG ? V{T[v.id].x, 0} : v; }; V sy = strip(y), sx = strip(x); bool fl = w == 32; (void) fl;
    V xx = arith<float>(OP_MUL, sx, sx), yy = arith<float>(OP_MUL, sy, sy), r = sqrtv(arith<float>(OP_ADD, xx, yy), 32);
    auto unit = [&](V v, int tag) { auto kk = std::make_tuple(302 + tag, 0, 0, (uint64_t) base, key(v)); auto it = hc.find(kk); if (it != hc.end()) return it->second; A s = fresh("unit"); int id = newterm(s, -1, 1, OP_OTHER); hc[kk] = id; axiom(Z3_mk_eq(C, mmul(s, ast(r)), ast(v))); axiom(mle(R(-1), s)); axiom(mle(s, R(1))); return id; };
    int s = unit(y, 0), co = unit(x, 1); { auto kk = std::make_tuple(304, 0, 0, (uint64_t) base, (uint64_t) 0); if (!hc.count(kk)) { hc[kk] = s; axiom(Z3_mk_eq(C, madd(mmul(T[s].a, T[s].a), mmul(T[co].a, T[co].a)), R(1))); } } nonlin = true;
    // sin(k t + c) = k sin t cos c + cos t sin c ; cos(k t + c) = cos t cos c - k sin t sin c
    double kc = cos(c), ks = sin(c), sg = k > 0 ? 1 : -1; if (fabs(kc) < 1e-6) kc = 0; if (fabs(ks) < 1e-6) ks = 0; if (fabs(fabs(kc) - 1) < 1e-6) kc = kc > 0 ? 1 : -1; if (fabs(fabs(ks) - 1) < 1e-6) ks = ks > 0 ? 1 : -1;
    V S = {s, 0}, O = {co, 0}, v = f == 7 ? arith<double>(OP_ADD, arith<double>(OP_MUL, S, con(sg * kc)), arith<double>(OP_MUL, O, con(ks))) : arith<double>(OP_SUB, arith<double>(OP_MUL, O, con(kc)), arith<double>(OP_MUL, S, con(sg * ks)));
    A e = fresh("eps"); int id = newterm(madd(ast(v), e), lo(v) - 1e-5, hi(v) + 1e-5, OP_OTHER); axiom(mle(R(-1e-5), e)); axiom(mle(e, R(1e-5))); return {id, 0};
}
static V select(int p, V a, V b, V t, V f, int wc, int w) {
    if (!a.sym() && !b.sym()) return native_cmp(p, a.c, b.c) ? t : f;
    A c; int r = cmp_term(p, a, b, wc, &c); if (r >= 0) return r ? t : f;
    if (!FPT && ((!t.sym() && !std::isfinite(t.c)) || (!f.sym() && !std::isfinite(f.c)))) return branch(c) ? t : f;
    if (!merge_on) return branch(c) ? t : f;
    auto it = known.find(Z3_simplify(C, c)); if (it != known.end()) return it->second ? t : f;
    ADD(merged, 1); V res = iteT(c, t, f, w);
    if (!FPT && res.sym() && T[res.id].op == OP_ITE) { bool ab = key(t) == key(a) && key(f) == key(b), ba = key(t) == key(b) && key(f) == key(a), up = p == 2 || p == 3 || p == 10 || p == 11, dn = p == 4 || p == 5 || p == 12 || p == 13; // minimum or maximum
        if ((ab || ba) && (up || dn)) { if (up == ab) { T[res.id].lo = std::max(lo(a), lo(b)); T[res.id].hi = std::max(hi(a), hi(b)); } else { T[res.id].lo = std::min(lo(a), lo(b)); T[res.id].hi = std::min(hi(a), hi(b)); } } }
    return res;
}
// integer part enumeration: mode 0 trunc, 1 floor, 2 ceil, 3 round-half-away, 4 nearbyint
static long long intpart(V a, int mode, int w) {
    if (FPT) {
        A x = ast(a, w); if (branch(mor(Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_infinite(C, x)))) unsupported("integer conversion of NaN/Inf");
        for (int n = 0; n < 100000; n++) {
            Z3_model m = wit; if (!m && query({}, &m) != 1) unsupported("integer conversion"); double v = model_val(m, a.id);
            if (fabs(v) > 1e15) unsupported("huge integer conversion");
            double iv = mode == 0 ? trunc(v) : mode == 1 ? floor(v) : mode == 2 ? ceil(v) : mode == 3 ? round(v) : nearbyint(v);
            A rm = mode == 0 ? Z3_mk_fpa_rtz(C) : mode == 1 ? Z3_mk_fpa_rtn(C) : mode == 2 ? Z3_mk_fpa_rtp(C) : mode == 3 ? Z3_mk_fpa_rna(C) : Z3_mk_fpa_rne(C);
            if (branch(Z3_mk_fpa_eq(C, Z3_mk_fpa_round_to_integral(C, rm, x), fconst(iv, w)))) return (long long) iv;
        }
    }
    A x = ast(a);
    for (int n = 0; n < 100000; n++) {
        if (!wit) { Z3_model m; if (query({}, &m) != 1) unsupported("integer conversion"); wit = m; }
        double v = model_val(wit, a.id); if (fabs(v) > 1e15) unsupported("huge integer conversion");
        // candidate from the double approximation; verified by exact constraints
        double k = mode == 0 ? trunc(v) : mode == 1 ? floor(v) : mode == 2 ? ceil(v) : round(v); A c;
        if (mode == 1 || (mode == 0 && k > 0)) c = mand(mle(R(k), x), mlt(x, R(k + 1)));
        else if (mode == 2 || (mode == 0 && k < 0)) c = mand(mlt(R(k - 1), x), mle(x, R(k)));
        else if (mode == 0) c = mand(mlt(R(-1), x), mlt(x, R(1)));
        else c = k > 0 ? mand(mle(R(k - .5), x), mlt(x, R(k + .5))) : k < 0 ? mand(mlt(R(k - .5), x), mle(x, R(k + .5))) : mand(mlt(R(-.5), x), mlt(x, R(.5)));
        if (branch(c)) return (long long) k;
        if (wit && weval(c) == 1) wit = nullptr;
    }
    unsupported("integer conversion with too many values");
}
template<class F> static long long fptoint(F f, int bits, int sg) {
    V a = get(f);
    if (a.sym()) { if (concrete_mode) die("symbolic value in concrete mode"); return intpart(a, 0, sizeof(F) * 8); }
    double d = a.c; if (std::isnan(d)) return bits == 64 ? INT64_MIN : INT32_MIN;
    if (sg) { if (bits == 64) return d >= 9.2e18 || d < -9.3e18 ? INT64_MIN : (long long) d; if (d >= 2147483648.0 || d <= -2147483649.0) return INT32_MIN; return (long long) d; }
    if (d < 0) return (long long) d; return (long long) (unsigned long long) d;
}
static int isfpclass(V a, int mask, int w) {
    if (!a.sym()) { double c = a.c; int cls = std::isnan(c) ? 2 : std::isinf(c) ? (c < 0 ? 4 : 512) : c == 0 ? (std::signbit(c) ? 32 : 64) : (c < 0 ? 8 : 256);
        if (cls == 2) return (mask & 3) != 0; if (cls == 8) return (mask & (8 | 16)) != 0; if (cls == 256) return (mask & (128 | 256)) != 0; return (mask & cls) != 0; }
    if (FPT) { A x = ast(a, w); A c = Z3_mk_false(C); if (mask & 3) c = mor(c, Z3_mk_fpa_is_nan(C, x)); A ng = Z3_mk_fpa_is_negative(C, x), ps = Z3_mk_fpa_is_positive(C, x), inf = Z3_mk_fpa_is_infinite(C, x), z = Z3_mk_fpa_is_zero(C, x), nm = mor(Z3_mk_fpa_is_normal(C, x), Z3_mk_fpa_is_subnormal(C, x));
        if (mask & 4) c = mor(c, mand(ng, inf)); if (mask & 512) c = mor(c, mand(ps, inf)); if (mask & 32) c = mor(c, mand(ng, z)); if (mask & 64) c = mor(c, mand(ps, z)); if (mask & 24) c = mor(c, mand(ng, nm)); if (mask & 384) c = mor(c, mand(ps, nm)); return branch(c); }
    int fin = 8 | 16 | 32 | 64 | 128 | 256; if ((mask & fin) == fin) return 1; if ((mask & fin) == 0) return 0;
    unsupported("is.fpclass");
}

// ---------------------------------------------------------------- entry points
#define GEN(F, S) \
extern "C" F svrt_fadd_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return a + b; return unbox<F>(arith<F>(OP_ADD, x, y)); } \
extern "C" F svrt_fsub_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return a - b; return unbox<F>(arith<F>(OP_SUB, x, y)); } \
extern "C" F svrt_fmul_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return a * b; return unbox<F>(arith<F>(OP_MUL, x, y)); } \
extern "C" F svrt_fdiv_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) { if (inexact_quot(a, b)) return unbox<F>(exact_quot(a, b)); return a / b; } return unbox<F>(arith<F>(OP_DIV, x, y)); } \
extern "C" F svrt_fmod_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::fmod(a, b); if ((!x.sym() && !std::isfinite(x.c)) || (!y.sym() && !std::isfinite(y.c))) return std::isnan(x.c) || std::isinf(x.c) || std::isnan(y.c) ? (F) NAN : a; \
    V q = arith<double>(OP_DIV, x, y); if (!q.sym()) { if (!std::isfinite(q.c)) return (F) NAN; return unbox<F>(arith<F>(OP_SUB, x, arith<double>(OP_MUL, con(trunc(q.c)), y))); } double k = (double) intpart(q, 0, 64); return unbox<F>(arith<F>(OP_SUB, x, arith<double>(OP_MUL, con(k), y))); } \
extern "C" F svrt_fneg_##S(F a) { V x = get(a); if (!x.sym()) return -a; return unbox<F>(neg(x, sizeof(F) * 8)); } \
extern "C" F svrt_fabs_##S(F a) { V x = get(a); if (!x.sym()) return std::fabs(a); return unbox<F>(absv(x, sizeof(F) * 8)); } \
extern "C" F svrt_sqrt_##S(F a) { V x = get(a); if (!x.sym()) return std::sqrt(a); return unbox<F>(sqrtv(x, sizeof(F) * 8)); } \
extern "C" int svrt_fcmp_##S(int p, F a, F b) { V x = get(a), y = get(b); return fcmp(p, x, y, sizeof(F) * 8); } \
extern "C" int svrt_fpclass_##S(F a, int m) { return isfpclass(get(a), m, sizeof(F) * 8); } \
extern "C" long long svrt_fptoint_##S(F a, int b, int s) { return fptoint<F>(a, b, s); } \
extern "C" F svrt_concrete_##S(F a) { if (get(a).sym()) unsupported("long double conversion"); return a; } \
extern "C" F svrt_fmin_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::fmin(a, b); if (!x.sym() && std::isnan(x.c)) return b; if (!y.sym() && std::isnan(y.c)) return a; return unbox<F>(select(4, x, y, x, y, sizeof(F) * 8, sizeof(F) * 8)); } \
extern "C" F svrt_fmax_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::fmax(a, b); if (!x.sym() && std::isnan(x.c)) return b; if (!y.sym() && std::isnan(y.c)) return a; return unbox<F>(select(2, x, y, x, y, sizeof(F) * 8, sizeof(F) * 8)); } \
extern "C" F svrt_fma_##S(F a, F b, F c) { V x = get(a), y = get(b), z = get(c); if (!x.sym() && !y.sym() && !z.sym()) return std::fma(a, b, c); return unbox<F>(arith<F>(OP_ADD, arith<F>(OP_MUL, x, y), z)); } \
extern "C" F svrt_hypot_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::hypot(a, b); return unbox<F>(sqrtv(arith<F>(OP_ADD, arith<F>(OP_MUL, x, x), arith<F>(OP_MUL, y, y)), sizeof(F) * 8)); } \
extern "C" F svrt_copysign_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::copysign(a, b); const int w = sizeof(F) * 8; V m = absv(x, w); return unbox<F>(fcmp(4, y, con(0), w) ? neg(m, w) : m); } \
extern "C" F svrt_atan2_##S(F a, F b) { return unbox<F>(atan2v(get(a), get(b), sizeof(F) * 8)); } \
extern "C" F svrt_pow_##S(F a, F b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return std::pow(a, b); if ((!x.sym() && std::isnan(x.c)) || (!y.sym() && std::isnan(y.c))) return (F) NAN; \
    if (!y.sym()) return unbox<F>(transc(2, y.c, x, sizeof(F) * 8)); if (!x.sym()) return unbox<F>(transc(3, x.c, y, sizeof(F) * 8)); \
    return unbox<F>(transc(0, 0, arith<double>(OP_MUL, y, transc(1, 0, x, 64)), sizeof(F) * 8)); } \
static F intf_##S(F a, int mode) { V x = get(a); if (FPT && x.sym()) { A rm = mode == 0 ? Z3_mk_fpa_rtz(C) : mode == 1 ? Z3_mk_fpa_rtn(C) : mode == 2 ? Z3_mk_fpa_rtp(C) : mode == 3 ? Z3_mk_fpa_rna(C) : Z3_mk_fpa_rne(C); return box<F>(newterm(Z3_mk_fpa_round_to_integral(C, rm, ast(x, sizeof(F) * 8)), -INFINITY, INFINITY, OP_OTHER, x.id, 0, sizeof(F) * 8)); } if (x.sym()) return (F) intpart(x, mode, sizeof(F) * 8); return mode == 0 ? std::trunc(a) : mode == 1 ? std::floor(a) : mode == 2 ? std::ceil(a) : mode == 3 ? std::round(a) : std::nearbyint(a); } \
extern "C" F svrt_trunc_##S(F a) { return intf_##S(a, 0); } extern "C" F svrt_floor_##S(F a) { return intf_##S(a, 1); } extern "C" F svrt_ceil_##S(F a) { return intf_##S(a, 2); } \
extern "C" F svrt_round_##S(F a) { return intf_##S(a, 3); } extern "C" F svrt_rint_##S(F a) { return intf_##S(a, 4); } extern "C" F svrt_nearbyint_##S(F a) { return intf_##S(a, 4); } \
extern "C" F svrt_exp_##S(F a) { return unbox<F>(transc(0, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_log_##S(F a) { return unbox<F>(transc(1, 0, get(a), sizeof(F) * 8)); } \
extern "C" F svrt_exp2_##S(F a) { return unbox<F>(transc(3, 2, get(a), sizeof(F) * 8)); } \
extern "C" F svrt_expm1_##S(F a) { V x = get(a); if (!x.sym()) return std::expm1(a); return unbox<F>(arith<double>(OP_SUB, transc(0, 0, x, 64), con(1))); } \
extern "C" F svrt_log1p_##S(F a) { V x = get(a); if (!x.sym()) return std::log1p(a); return unbox<F>(transc(1, 0, arith<double>(OP_ADD, x, con(1)), 64)); } \
extern "C" F svrt_log10_##S(F a) { V x = get(a); if (!x.sym()) return std::log10(a); V l = transc(1, 0, x, 64); return unbox<F>(arith<double>(OP_MUL, l, con(0.43429448190325182765))); } \
extern "C" F svrt_log2_##S(F a) { V x = get(a); if (!x.sym()) return std::log2(a); V l = transc(1, 0, x, 64); return unbox<F>(arith<double>(OP_MUL, l, con(1.4426950408889634074))); } \
extern "C" F svrt_acos_##S(F a) { return unbox<F>(transc(4, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_asin_##S(F a) { return unbox<F>(transc(5, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_atan_##S(F a) { return unbox<F>(transc(6, 0, get(a), sizeof(F) * 8)); } \
extern "C" F svrt_sin_##S(F a) { return unbox<F>(transc(7, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_cos_##S(F a) { return unbox<F>(transc(8, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_tan_##S(F a) { return unbox<F>(transc(9, 0, get(a), sizeof(F) * 8)); } \
extern "C" F svrt_tanh_##S(F a) { return unbox<F>(transc(10, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_cbrt_##S(F a) { return unbox<F>(transc(11, 0, get(a), sizeof(F) * 8)); } extern "C" F svrt_erf_##S(F a) { return unbox<F>(transc(12, 0, get(a), sizeof(F) * 8)); } \
extern "C" F svrt_sinh_##S(F a) { if (get(a).sym()) unsupported("sinh"); return std::sinh(a); } extern "C" F svrt_cosh_##S(F a) { if (get(a).sym()) unsupported("cosh"); return std::cosh(a); } \
extern "C" F svrt_tgamma_##S(F a) { if (get(a).sym()) unsupported("tgamma"); return std::tgamma(a); } extern "C" F svrt_lgamma_##S(F a) { if (get(a).sym()) unsupported("lgamma"); return std::lgamma(a); } extern "C" F svrt_erfc_##S(F a) { if (get(a).sym()) unsupported("erfc"); return std::erfc(a); } \
extern "C" F svrt_select_##S##_f32x(F a); 
GEN(float, f32)
GEN(double, f64)
#define GENS(F, S, G, U) extern "C" G svrt_select_##S##_##U(int p, F a, F b, G t, G f) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return native_cmp(p, x.c, y.c) ? t : f; return unbox<G>(select(p, x, y, get(t), get(f), sizeof(F) * 8, sizeof(G) * 8)); }
GENS(float, f32, float, f32) GENS(float, f32, double, f64) GENS(double, f64, float, f32) GENS(double, f64, double, f64)
extern "C" double svrt_fpext(float a) { V x = get(a); if (!x.sym()) return (double) a; if (FPT) { int id = x.id; auto k = std::make_tuple((int) OP_EXT, 1, 0, key(x), (uint64_t) 0); auto it = hc.find(k); if (it != hc.end()) return box<double>(it->second); id = newterm(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), T[x.id].a, FS64), -INFINITY, INFINITY, OP_EXT, x.id, 0, 64); hc[k] = id; return box<double>(id); } return box<double>(x.id); }
extern "C" float svrt_fptrunc(double a) { V x = get(a); if (!x.sym()) return (float) a; if (FPT) { if (T[x.id].op == OP_EXT) return box<float>(T[x.id].x); auto k = std::make_tuple(301, 1, 0, key(x), (uint64_t) 0); auto it = hc.find(k); if (it != hc.end()) return box<float>(it->second); int id = newterm(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), T[x.id].a, FS32), -INFINITY, INFINITY, OP_OTHER, x.id, 0, 32); hc[k] = id; return box<float>(id); } return box<float>(x.id); }

// std::sort of floats: its specification (a sorting network over terms). Concrete data are sorted by the real algorithm.
extern "C" void svrt_sort_f32(float* p, long n) {
    bool any = false; for (long i = 0; i < n; i++) any |= get(p[i]).sym();
    if (!any) { std::sort(p, p + n); return; }
    // an unordered value is outside the specification of std::sort: run the library's algorithm as it is, branching on each comparison
    for (long i = 0; i < n; i++) if (!get(p[i]).sym() && std::isnan(get(p[i]).c)) { std::sort(p, p + n, [](float a, float b) { return fcmp(4, get(a), get(b), 32); }); return; }
    for (long i = 0; i < n; i++) for (long j = 0; j + 1 < n - i; j++) { float a = p[j], b = p[j + 1]; V x = get(a), y = get(b); p[j] = unbox<float>(select(5, x, y, x, y, 32, 32)); p[j + 1] = unbox<float>(select(5, x, y, y, x, 32, 32)); }
}

// ---------------------------------------------------------------- harness API
namespace sv {
static std::string uniq(const char* n) { int k = name_n[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
std::string idx(const char* n, int i) { return std::string(n) + std::to_string(i); }
std::string idx(const char* n, int i, int j) { return std::string(n) + std::to_string(i) + "_" + std::to_string(j); }
std::string idx(const char* n, int i, int j, int k) { return idx(n, i, j) + "_" + std::to_string(k); }
float f32(const char* name, double l, double h, int kinds) {
    std::string n = uniq(name);
    if (concrete_mode) { auto it = replay.find(n); float v = it == replay.end() ? (float) l : strtof(it->second.c_str(), 0); inputs.push_back({n, 'f', con(v)}); return v; }
    int opts[4], k = 0; if (kinds & NAN_) opts[k++] = NAN_; if (kinds & PINF) opts[k++] = PINF; if (kinds & NINF) opts[k++] = NINF; if (kinds & FIN) opts[k++] = FIN;
    int c = opts[choose(k)];
    if (c != FIN) { float v = c == NAN_ ? NAN : c == PINF ? INFINITY : -INFINITY; inputs.push_back({n, 'f', con(v)}); return v; }
    A a = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), FPT ? FS32 : RS); int id = newterm(a, l, h, OP_VAR, 0, 0, 32);
    if (FPT) { T[id].lo = -INFINITY; T[id].hi = INFINITY; axiom(mand(Z3_mk_fpa_leq(C, fconst(l, 32), a), Z3_mk_fpa_leq(C, a, fconst(h, 32)))); }
    else { axiom(mle(R(l), a)); axiom(mle(a, R(h))); }
    inputs.push_back({n, 'f', {id, 0}}); return box<float>(id);
}
int integer(const char* name, int l, int h) {
    std::string n = uniq(name);
    if (concrete_mode) { auto it = replay.find(n); int v = it == replay.end() ? l : atoi(it->second.c_str()); inputs.push_back({n, 'i', con(v)}); return v; }
    int v = l + choose(h - l + 1); inputs.push_back({n, 'i', con(v)}); return v;
}
bool flag(const char* name) { return integer(name, 0, 1) != 0; }
static std::vector<A> bt(1); // B ids: 0 false, 1 true, else index+2
static B mkb(A a) { bool v; a = Z3_simplify(C, a); if (valid_const(a, v)) return mk(v); bt.push_back(a); return {(int) bt.size()}; }
static A bast(B b) { return b.id == 0 ? Z3_mk_false(C) : b.id == 1 ? Z3_mk_true(C) : bt[b.id - 1]; }
B mk(bool b) { return {b ? 1 : 0}; }
static B cmp(int p, double a, double b) { V x = get(a), y = get(b); if (!x.sym() && !y.sym()) return mk(native_cmp(p, a, b)); A c; int r = cmp_term(p, x, y, 64, &c); if (r >= 0) return mk(r); return mkb(c); }
B le(double a, double b) { return cmp(5, a, b); } B lt(double a, double b) { return cmp(4, a, b); } B eq(double a, double b) { return cmp(1, a, b); }
B land(B a, B b) { if (a.id == 0 || b.id == 0) return mk(false); if (a.id == 1) return b; if (b.id == 1) return a; return mkb(mand(bast(a), bast(b))); }
B lor(B a, B b) { if (a.id == 1 || b.id == 1) return mk(true); if (a.id == 0) return b; if (b.id == 0) return a; return mkb(mor(bast(a), bast(b))); }
B lnot(B a) { if (a.id < 2) return mk(!a.id); return mkb(mnot(bast(a))); }
bool symbolic(double a) { return get(a).sym(); } bool isnum(double a) { V x = get(a); if (!x.sym()) return std::isfinite(a); if (FPT) { A t = ast(x); return branch(mnot(mor(Z3_mk_fpa_is_nan(C, t), Z3_mk_fpa_is_infinite(C, t)))); } return true; }
B close(double a, double b, double tol) {
    V x = get(a), y = get(b);
    if (!x.sym() && !std::isfinite(a)) { if (!y.sym()) return mk((std::isnan(a) && std::isnan(b)) || a == b); if (!FPT) return mk(false); }
    if (!y.sym() && !std::isfinite(b)) { if (!FPT || !x.sym()) return mk(false); }
    if (!x.sym() && !y.sym()) return mk(fabs(a - b) <= tol);
    if (FPT) { A p = ast(x), q = ast(y); A d = Z3_mk_fpa_abs(C, Z3_mk_fpa_sub(C, Z3_mk_fpa_rne(C), p, q)); return mkb(mor(mand(Z3_mk_fpa_is_nan(C, p), Z3_mk_fpa_is_nan(C, q)), mor(Z3_mk_fpa_eq(C, p, q), Z3_mk_fpa_leq(C, d, fconst(tol, 64))))); }
    V d = arith<double>(OP_SUB, x, y); if (!d.sym()) return mk(fabs(d.c) <= tol);
    if (T[d.id].lo >= -tol && T[d.id].hi <= tol) return mk(true);
    A p = ast(d); return mkb(mand(mle(R(-tol), p), mle(p, R(tol))));
}
B same(double a, double b) { V x = get(a), y = get(b); if (x.sym() && y.sym() && x.id == y.id) return mk(true); return close(a, b, 0); }
double ite(B c, double a, double b) { if (c.id < 2) return c.id ? a : b; V x = get(a), y = get(b); if ((!FPT) && ((!x.sym() && !std::isfinite(a)) || (!y.sym() && !std::isfinite(b)))) return decide(c) ? a : b; return unbox<double>(iteT(bast(c), x, y, 64)); }
double dmin(double a, double b) { return ite(le(a, b), a, b); } double dmax(double a, double b) { return ite(le(a, b), b, a); }
double dabs(double a) { V x = get(a); return x.sym() ? unbox<double>(absv(x, 64)) : fabs(a); }
bool decide(B b) { if (b.id < 2) return b.id; return branch(bast(b)); }
void stop_path() { ADD(stopped, 1); end_path(false); }
void assume(B b) {
    if (b.id == 1) return; if (b.id == 0) { if (concrete_mode) { printf("ASSUME-FAILED\n"); fflush(stdout); } ADD(infeasible, 1); end_path(false); }
    A c = bast(b); if (weval(c) != 1) { Z3_model m = nullptr; int r = query({c}, &m); if (r == 0) { ADD(infeasible, 1); end_path(false); } wit = m; }
    add_pc(c); known[c] = true;
}
static void label_hit(const char* l) {
    for (int i = 0; i < 48; i++) {
        if (H->labels[i][0] == 0) { strncpy(H->labels[i], l, 63); }
        if (!strncmp(H->labels[i], l, 63)) { __atomic_add_fetch(&H->label_n[i], 1, __ATOMIC_RELAXED); return; }
    }
}
// a counterexample away from the simple values, which tend to lie just at the tolerance of the assertion and may then not survive rounding
static bool wide_model(std::vector<A> neg, unsigned seed, std::vector<double>& vals) {
    if (FPT) return false;
    std::vector<size_t> order; for (size_t i = 0; i < inputs.size(); i++) if (inputs[i].v.sym()) order.push_back(i);
    if (order.empty()) return false;
    unsigned long long z = 88172645463325252ull * seed + 7 * order.size(); auto rnd = [&]() { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (double) (z >> 11) / 9007199254740992.0; };
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t) (rnd() * i)]);
    Z3_model m = nullptr; double t0 = now(); bool any = false;
    for (size_t i : order) {
        int id = inputs[i].v.id; double lo = std::max(T[id].lo, -1e6), hi = std::min(T[id].hi, 1e6); if (!(lo < hi) || now() - t0 > 8 || now() > SH->deadline) continue;
        for (int k = 0; k < 4; k++) {
            double c = lo + (hi - lo) * rnd(), g = hi - lo > 1 ? 16 : 256; c = std::round(c * g) / g; if (c < lo || c > hi) continue;
            A x = T[id].a; std::vector<A> e = neg; e.push_back(k < 2 ? Z3_mk_eq(C, x, R(c)) : k == 2 ? mle(x, R(c)) : mle(R(c), x));
            Z3_model m2 = nullptr; if (query(e, &m2) == 1) { neg = e; m = m2; any = true; break; }
        }
    }
    if (!any) return false;
    Z3_model mm = nullptr; bool ok = false;
    for (int it = 0; it < 12 && !ok; it++) { if (query(neg, &mm) != 1) break; std::vector<A> lem; if (refine(mm, lem)) ok = true; else neg.insert(neg.end(), lem.begin(), lem.end()); }
    if (ok) m = mm;
    vals.assign(inputs.size(), 0); for (size_t i = 0; i < inputs.size(); i++) vals[i] = inputs[i].v.sym() ? (double) (float) model_val(m, inputs[i].v.id) : inputs[i].v.c;
    return true;
}
static void candidate(const char* label, std::vector<A> neg) {
    ADD(violated, 1);
    Z3_model m = nullptr; bool ok = false; int st = 0;
    for (int it = 0; it < 24 && !ok; it++) {
        st = query(neg, &m); if (st != 1) break;
        std::vector<A> lem; if (refine(m, lem)) ok = true; else neg.insert(neg.end(), lem.begin(), lem.end());
    }
    std::vector<double> v;
    if (st == 0) { ADD(violated, -1); ADD(discharged, 1); return; } // spurious: refuted by valid lemmas about the transcendental functions
    if (st < 0 && !m) { ADD(violated, -1); ADD(unknown, 1); return; }
    nice_model(neg, m, v); emit("candidate", label, v, ok ? "" : ",\"abstract\":true");
    if (H->violated <= 6) for (unsigned r = 1; r <= 3; r++) if (wide_model(neg, r, v)) emit("candidate", label, v, ",\"wide\":true");
    if (H->violated >= 40) H->stop = 1;
}
static std::map<std::string, A> lastdiff;
void check(B b, const char* label) {
    ADD(checks, 1); label_hit(label);
    if (concrete_mode) { if (!b.id) { printf("CHECK-FAILED %s\n", label); fflush(stdout); _exit(10); } return; }
    if (b.id == 1) { ADD(discharged, 1); ADD(discharged_trivially, 1); return; }
    if (b.id == 0) { candidate(label, {}); end_path(false); }
    path_check();
    A c = bast(b); auto it = known.find(c); if (it != known.end() && it->second) { ADD(discharged, 1); return; }
    Z3_model m = nullptr; int r = weval(c) == 0 ? 1 : query({mnot(c)}, &m);
    if (r == 0) { ADD(discharged, 1); known[c] = true; return; }
    if (r < 0) { ADD(unknown, 1); if (getenv("SV_UNKNOWN")) { fprintf(stderr, "sv[%s]: unknown at %s\n", g_harness, label); for (A a : pc) fprintf(stderr, "PC %s\n", Z3_ast_to_string(C, a)); fprintf(stderr, "Q %s\n", Z3_ast_to_string(C, mnot(c))); } return; }
    candidate(label, {mnot(c)});
    m = nullptr; if (query({c}, &m) == 0) end_path(false);
    wit = m; add_pc(c);
}
bool symbolic() { return !concrete_mode; }
void exact_division(bool on) { exact_on = on; } void exp_pairs(bool on) { exp_pairs_on = on; }
void merge(bool on) { merge_on = on; }
int tier() { return g_tier; }
void note(const char* fmt, ...) { if (!concrete_mode || !getenv("SV_NOTES")) return; va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
struct HD { const char* name; void (*f)(); int flags; const char* bounds; };
static std::vector<HD>& regs() { static std::vector<HD> r; return r; }
Reg::Reg(const char* n, void (*f)(), int fl, const char* b) { regs().push_back({n, f, fl, b}); }
}
// text formatting of floats in exceptions never matters to a property; the runtime hides symbolic NaNs from it
static volatile sig_atomic_t crashing = 0;
static void crash(int sig) {
    if (crashing) _exit(3); crashing = 1;
    if (concrete_mode) { printf("CHECK-FAILED crash\n"); fflush(stdout); _exit(10); }
    if (getenv("SV_CRASH")) { void* b[64]; int n = backtrace(b, 64); backtrace_symbols_fd(b, n, 2); fprintf(stderr, "signal %d pid %d\n", sig, getpid()); if (getenv("SV_CRASH")[0] == 'w') sleep(60); }
    ADD(crashes, 1); char l[32]; snprintf(l, 32, "crash:%d", sig); sv::candidate("crash", {}); end_path(false);
}
static void run_one(const sv::HD& h) {
    g_harness = h.name; new_context((h.flags & 2) != 0);
    static char alt[1 << 17]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
    std::string what;
    try { h.f(); end_path(true); }
    catch (const std::exception& e) { what = std::string("uncaught exception"); if (getenv("SV_NOTES")) fprintf(stderr, "exception: %s\n", e.what()); }
    catch (...) { what = "uncaught exception"; }
    sv::check(sv::mk(false), what.c_str());
    end_path(false);
}
int main(int argc, char** argv) {
    double budget = 60; std::string out, rp, one; bool list = false; int jobs = 8; std::vector<std::string> only;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--list") list = true; else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--out") out = argv[++i]; else if (a == "--replay") rp = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--tier") g_tier = atoi(argv[++i]); else if (a == "--nomerge") merge_on = 0; else only.push_back(a); }
    SH = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto& R = sv::regs();
    if (list) { for (auto& h : R) printf("%s\t%d\t%s\n", h.name, h.flags, h.bounds); return 0; }
    if (!rp.empty()) { // concrete run of the instrumented code
        concrete_mode = true; FILE* f = fopen(rp.c_str(), "r"); if (!f) return 4; char nm[256], vl[64], buf[512]; std::string hn;
        while (fgets(buf, sizeof buf, f)) { if (buf[0] == '#') continue; if (sscanf(buf, "harness %255s", nm) == 1) { hn = nm; continue; } if (sscanf(buf, "%255s %63s", nm, vl) == 2) replay[nm] = vl; } fclose(f);
        for (auto& h : R) if (hn == h.name) { H = &SH->h[0]; sem_init(&SH->tokens, 1, 1); SH->deadline = now() + 1e9; run_one(h); } return 4;
    }
    if (!out.empty()) out_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    sem_init(&SH->tokens, 1, jobs); double t0 = now(); SH->deadline = t0 + budget; root_pid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1); setpgid(0, 0);
    std::vector<int> sel; for (size_t i = 0; i < R.size(); i++) { bool ok = only.empty() ? ((R[i].flags & 1) == 0 || g_tier == 1) : false; for (auto& o : only) if (o == R[i].name) ok = true; if (ok && i < 256) sel.push_back(i); }
    double hard = budget + 30; bool killed = false; std::map<pid_t, int> top; std::vector<double> started(R.size(), 0), ended(R.size(), 0); std::vector<int> rc(R.size(), 0);
    for (int i : sel) {
        while (sem_trywait(&SH->tokens) != 0) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p > 0) { if (top.count(p)) { ended[top[p]] = now(); rc[top[p]] |= st; } else if (st) rc[i] |= 0; } else usleep(1000); }
        H = &SH->h[i]; started[i] = now(); pid_t p = fork(); if (p == 0) { have_token = true; leash(); run_one(R[i]); } top[p] = i;
    }
    for (;;) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { if (top.count(p)) { ended[top[p]] = now(); if (st) rc[top[p]] = st; } else if (st) { for (int i : sel) if (WIFSIGNALED(st) || WEXITSTATUS(st) == 77) { rc[i] |= 0x10000; break; } } continue; }
        if (p < 0) break;
        if (now() - t0 > hard) { killed = true; for (int i : sel) SH->h[i].truncated++; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); usleep(200000); // descendants die of SIGTERM
            break; }
        usleep(1000);
    }
    std::string s; char b[4096];
    for (int i : sel) { HStat* h = &SH->h[i];
        snprintf(b, sizeof b, "{\"type\":\"stat\",\"harness\":\"%s\",\"bounds\":\"%s\",\"theory\":\"%s\",\"paths\":%ld,\"checks\":%ld,\"discharged\":%ld,\"trivial\":%ld,\"violated\":%ld,\"unknown\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"q_unknown\":%ld,\"forks\":%ld,\"truncated\":%ld,\"ops\":%ld,\"merged\":%ld,\"infeasible\":%ld,\"stopped\":%ld,\"crashes\":%ld,\"solver_s\":%.3f,\"rc\":%d,\"killed\":%d,\"labels\":{", R[i].name, jesc(R[i].bounds).c_str(), (R[i].flags & 2) ? "ieee" : "real", h->paths, h->checks, h->discharged, h->discharged_trivially, h->violated, h->unknown, h->queries, h->q_sat, h->q_unsat, h->q_unknown, h->forks, h->truncated, h->ops, h->merged, h->infeasible, h->stopped, h->crashes, h->solver_s, rc[i], (int) killed);
        s = b; for (int k = 0; k < 48 && h->labels[k][0]; k++) { snprintf(b, sizeof b, "%s\"%s\":%ld", k ? "," : "", jesc(h->labels[k]).c_str(), h->label_n[k]); s += b; } s += "}}\n"; (void)!write(out_fd, s.data(), s.size()); }
    return 0;
}
// Text streams: a symbolic value is written as a token "@<term>" and read back as the same value (formatting and its rounding are not modelled).
#include <istream>
#include <ostream>
extern "C" std::ostream& __real__ZNSo9_M_insertIdEERSoT_(std::ostream&, double); extern "C" std::istream& __real__ZNSi10_M_extractIfEERSiRT_(std::istream&, float&); extern "C" std::istream& __real__ZNSi10_M_extractIdEERSiRT_(std::istream&, double&);
extern "C" std::ostream& __wrap__ZNSo9_M_insertIdEERSoT_(std::ostream& o, double v) { V x = get(v); if (!x.sym()) return __real__ZNSo9_M_insertIdEERSoT_(o, v); std::string s = "@" + std::to_string(x.id); return o << s; }
template<class F> static bool token(std::istream& i, F& v) { if (!i.good()) return false; i >> std::ws; if (!i.good() || i.peek() != '@') return false; i.get(); int id = 0; i >> id; v = box<F>(id); return true; }
extern "C" std::istream& __wrap__ZNSi10_M_extractIfEERSiRT_(std::istream& i, float& v) { return token(i, v) ? i : __real__ZNSi10_M_extractIfEERSiRT_(i, v); }
extern "C" std::istream& __wrap__ZNSi10_M_extractIdEERSiRT_(std::istream& i, double& v) { return token(i, v) ? i : __real__ZNSi10_M_extractIdEERSiRT_(i, v); }
