// C55: the client's calibrators by distributions (zaga, gaussian, bct)
#include "client.h"
#include "Calibrator/Zaga.h"
#include "Calibrator/Gaussian.h"
#include "Calibrator/Bct.h"
struct Par : ParameterFile { Par() : ParameterFile(Options(""), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
// the stand-in distributions
static double gq(double k, double s, double p) { return p / (1 - p) * s * (k + 1); }
static double gc(double k, double s, double x) { return x / (x + s * (k + 1)); }
static double nq(double p) { return p >= 0.5 ? (2 * p - 1) / (2 - 2 * p) : (2 * p - 1) / (2 * p); }
static double tq(double n, double p) { return (1 + 1 / n) * nq(p); }
static double tc(double n, double x) { double z = x / (1 + 1 / n); return z >= 0 ? (1 + 2 * z) / (2 + 2 * z) : 1 / (2 - 2 * z); }
// zero-adjusted gamma
struct Zaga { double mu, k, s, P; Zaga(const vec& p, double mean, double frac) { mu = p[1] == 0 ? std::exp(p[0]) : std::exp(p[0] + p[1] * std::pow(mean, 1.0 / 3)); double sg = p[3] == 0 ? std::exp(p[2]) : std::exp(p[2] + p[3] * mean); k = 1 / (sg * sg); s = sg * sg * mu; double l = p[4] + p[6] * frac; if (p[5] != 0) l += p[5] * mean; if (p[7] != 0) l += p[7] * std::pow(mean, 1.0 / 3); double e = std::exp(l); P = e / (e + 1); }
    double cdf(double x) const { return P + (1 - P) * gc(k, s, x); } double quantile(double q) const { if (sv::decide(lt(q, P))) return 0; return gq(k, s, (q - P) / (1 - P)); } };
// the members take the values q (increasing), in the order of the members before
static void ranked(const vec& raw, const dvec& q, const dvec& got, double tol, const char* label) { int n = raw.size(); dvec s = csorted(got); for (int i = 0; i < n; i++) { if (!ok(got[i])) { check(false, label); return; } } for (int i = 0; i < n; i++) check(close(s[i], q[i], tol), label); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) check(imp(lt(raw[i], raw[j]), le(got[i], got[j])), "the order of the members is kept"); }
static void kept(const vec& raw, const dvec& got, const char* label) { for (size_t i = 0; i < raw.size(); i++) if (ok(raw[i])) check(eq(got[i], raw[i]), label); else check(!ok(got[i]), label); }
static double mean(const vec& v) { double s = 0; for (float f : v) s += f; return s / v.size(); }
static dvec member(const cvec4& r, int t, int y, int x) { dvec o; for (float f : r[t][y][x]) o.push_back(f); return o; }
static bool complete(const vec& v) { for (float f : v) if (!ok(f)) return false; return true; }
static double frac(const vec& v, double th) { double n = 0; for (float f : v) if (sv::decide(le(f, th))) n++; return n / v.size(); }
static void para(Par& P, const vec& p, int T = 1) { for (int t = 0; t < T; t++) P.setParameters(Parameters(p), t); }
static const vec ZP = {0.25f, 0, -0.25f, 0, -1, 0, 2, 0};
SV_HARNESS(zaga, "1x2 cells, 3 members, any values in [0,4], one member of one cell possibly missing; fixed mean and spread, chance of zero by the fraction of small members: quantiles of the distribution in the order of the members") {
    FileFake f = cfile(1, 2, 3, 1); Variable v("v"); Par P; para(P, ZP); cvec4 a = csym(f, "v", 0, 4, FIN); int c = sv::integer("cell", 0, 1); for (int e = 0; e < 3; e++) a[0][0][1 - c][e] = 0.25f + e; if (sv::flag("missing")) a[0][0][c][1] = MV; cput(f, v, a); check(run("zaga", v, "fracThreshold=1", f, &P), "runs"); cvec4 r = cget(f, v);
    for (int x = 0; x < 2; x++) { const vec& b = a[0][0][x]; if (!complete(b)) { kept(b, member(r, 0, 0, x), "incomplete ensembles are kept"); continue; } Zaga z(ZP, mean(b), frac(b, 1)); dvec q; for (int e = 0; e < 3; e++) q.push_back(z.quantile((e + 0.5) / 3)); ranked(b, q, member(r, 0, 0, x), 1e-3, "quantiles of the distribution"); }
}
SV_HARNESS(zaga_parameters, "1 cell, 2 members of one value in [0.25,30]: mean, spread or chance of zero depending on the ensemble mean, which is limited to 20; one parameter possibly missing") {
    int k = sv::integer("depends", 0, 3); vec p = {0.25f, 0, -0.25f, 0, -1, 0, 0, 0}; static const int W[] = {1, 3, 5, 7}; p[W[k]] = k == 1 ? -0.03f : 0.125f; FileFake f = cfile(1, 1, 2, 1); Variable v("v"); float m = sv::f32("m", 0.25, 30); int miss = sv::integer("missing", -1, 7); vec pm = p; if (miss >= 0) pm[miss] = MV; Par P; para(P, pm); cvec4 a = cfill(f, m); cput(f, v, a); run("zaga", v, "maxEnsMean=20", f, &P); dvec g = member(cget(f, v), 0, 0, 0); if (miss >= 0) { kept(a[0][0][0], g, "kept without parameters"); return; }
    double mm = sv::decide(lt(20, m)) ? 20.0 : (double) m; Zaga z(p, mm, sv::decide(le(m, 0.5)) ? 1 : 0); dvec s = csorted(g); for (int e = 0; e < 2; e++) check(close(s[e], z.quantile((e + 0.5) / 2), 1e-2), "documented dependence on the ensemble mean");
}
SV_HARNESS(zaga_pop, "1x2 cells, 2 members, any values in [0,4], one possibly missing: probability of precipitation and quantiles of the same distribution; the precipitation is kept") {
    FileFake f = cfile(1, 2, 2, 1); Variable v("v"); Par P; para(P, ZP); int c = sv::integer("cell", 0, 1); cvec4 a = csym(f, "v", 0, 4, FIN); for (int e = 0; e < 2; e++) a[0][0][1 - c][e] = 0.25f + e; bool miss = sv::flag("missing"); if (miss) a[0][0][c][1] = MV; cput(f, v, a); static const char* N[] = {"pop", "lo", "mid", "hi"}; for (auto n : N) cput(f, Variable(n), cfill(f, 7)); run("zaga", v, "fracThreshold=1 popVariable=pop popThreshold=0.75 precipLowQuantile=0.125 lowVariable=lo precipMiddleQuantile=0.5 middleVariable=mid precipHighQuantile=0.875 highVariable=hi", f, &P); cvec4 r = cget(f, v), o[4]; for (int i = 0; i < 4; i++) o[i] = cget(f, Variable(N[i]));
    for (int x = 0; x < 2; x++) { const vec& b = a[0][0][x]; kept(b, member(r, 0, 0, x), "precipitation is kept"); if (!complete(b)) { for (auto& q : o) for (int e = 0; e < 2; e++) check(!ok(q[0][0][x][e]), "none for an incomplete ensemble"); continue; } Zaga z(ZP, mean(b), frac(b, 1)); static const double Q[] = {0, 0.125, 0.5, 0.875}; for (int e = 0; e < 2; e++) { check(close(o[0][0][0][x][e], 1 - z.cdf(0.75), 1e-3), "probability of exceeding the threshold"); for (int i = 1; i < 4; i++) check(close(o[i][0][0][x][e], z.quantile(Q[i]), 1e-3), "quantile"); } }
}
SV_HARNESS(zaga_hours, "1 cell, 1 member, 7 hours, one value (any hour) in [0,4] or missing: with 6h the probability is that of the sum of the last six hours, and missing in the first five; without a variable for it, 6h changes nothing") {
    FileFake f = cfile(1, 1, 1, 7); Variable v("v"), p("pop"); Par P; vec q = ZP; para(P, q, 7); cvec4 a = cspot(f, "v", 0, 0.5, MISS, cpos(f)); cput(f, v, a); cput(f, p, cfill(f, 7)); bool pop = sv::flag("pop"); run("zaga", v, pop ? "6h=1 fracThreshold=1.5 popVariable=pop" : "6h=1 fracThreshold=1.5", f, &P); cvec4 r = cget(f, v), o = cget(f, p);
    for (int t = 0; t < 7; t++) { double s = 0; bool miss = false; for (int k = pop ? t - 5 : t; k <= t; k++) if (k >= 0) { if (!ok(a[k][0][0][0])) miss = true; else s += a[k][0][0][0]; } if (pop) { if (t < 5 || miss) { check(!ok(o[t][0][0][0]), "no probability without six hours"); continue; } Zaga z(q, s, sv::decide(le(s, 1.5)) ? 1 : 0); check(close(o[t][0][0][0], 1 - z.cdf(0.5), 1e-3), "probability for the sum of six hours"); } else if (miss) check(!ok(r[t][0][0][0]), "a missing value stays missing"); else { Zaga z(q, s, sv::decide(le(s, 1.5)) ? 1 : 0); check(close(r[t][0][0][0], z.quantile(0.5), 1e-3), "the median for one member"); } }
}
SV_HARNESS(zaga_neighbourhood, "2x3 cells, 1 member, neighbourhood of 1 cell, any values in [0,4] in one cell (each in turn): the fraction of small values is that of the raw values in the neighbourhood") {
    FileFake f = cfile(2, 3, 1, 1); Variable v("v"); Par P; para(P, ZP); cvec4 a = cspot(f, "v", 0, 4, MISS, cpos(f)); cput(f, v, a); run("zaga", v, "fracThreshold=1.5 neighbourhoodSize=1", f, &P); cvec4 r = cget(f, v);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { vec b; for (int i = 0; i < 2; i++) for (int j = std::max(0, x - 1); j <= std::min(2, x + 1); j++) b.push_back(a[0][i][j][0]); if (!complete(b)) { kept(a[0][y][x], member(r, 0, y, x), "kept where the neighbourhood is incomplete"); continue; } Zaga z(ZP, mean(b), frac(b, 1.5)); check(close(r[0][y][x][0], z.quantile(0.5), 1e-3), "median of the distribution of the neighbourhood"); }
}
SV_HARNESS(zaga_functions, "3 parameter sets, 3 ensembles: cumulative distribution and quantile for any threshold in [0,20] and level in (0,1): inverse, non-decreasing, between 0 and 1, zero below the chance of zero") {
    static const vec PS[] = {{0.25f, 0, -0.25f, 0, -1, 0, 2, 0}, {0.5f, 0.25f, -0.5f, 0.03f, 0.5f, -0.25f, -1, 0.25f}, {-0.5f, 0.5f, 0.25f, 0, 0, 0, 0, -0.5f}}; static const float M[] = {0.5f, 2, 8}, F[] = {1, 0.5f, 0}; const vec& p = PS[sv::integer("set", 0, 2)]; int k = sv::integer("ensemble", 0, 2); Parameters P(p); Zaga z(p, M[k], F[k]);
    float q = sv::f32("q", 0.001, 0.999), x = sv::f32("x", 0, 20), y = sv::f32("y", 0, 20); sv::assume(le(x, y)); double v = CalibratorZaga::getInvCdf(q, M[k], F[k], P), c = CalibratorZaga::getCdf(x, M[k], F[k], P), d = CalibratorZaga::getCdf(y, M[k], F[k], P); check(le(0, c), "at least 0"); check(le(c, 1), "at most 1"); check(le(c, d + 1e-9), "cumulative distribution does not decrease"); check(close(c, z.cdf(x), 1e-4), "documented distribution"); if (sv::decide(lt(q, z.P - 1e-5))) check(eq(v, 0), "zero below the chance of zero"); else if (sv::decide(lt(z.P + 1e-5, q))) { check(close(CalibratorZaga::getCdf(v, M[k], F[k], P), q, 1e-4), "the level of the quantile"); check(close(z.cdf(v), q, 1e-4), "documented quantile"); }
    check(close(CalibratorZaga::getP0(M[k], F[k], P), z.P, 1e-4), "chance of zero"); check(close(CalibratorZaga::getCdf(0, M[k], F[k], P), z.P, 1e-4), "chance of zero");
}
SV_HARNESS(invalid, "levels, thresholds, means and fractions outside their range or missing, one missing parameter: no value") {
    Parameters P(ZP), Q(vec{0.5f, 0.25f}), R(vec{0.5f, 1, -1, 0, 1, 0, 2}); int k = sv::integer("case", 0, 5); float b = k < 2 ? sv::f32("b", -5, -0.001) : k == 2 ? sv::f32("b", 1.001, 9) : k == 3 ? MV : NaN; if (k == 5) { vec p = ZP; int w = sv::integer("which", 0, 7); p[w] = MV; check(!ok(CalibratorZaga::getInvCdf(0.5, 1, 0.5, Parameters(p))), "missing parameter"); check(!ok(CalibratorZaga::getCdf(0.5, 1, 0.5, Parameters(p))), "missing parameter"); check(!ok(CalibratorZaga::getP0(1, 0.5, Parameters(p))), "missing parameter"); return; }
    if (k != 0) check(!ok(CalibratorZaga::getInvCdf(0.5, 1, b, P)), "fraction"); if (k != 2) { check(!ok(CalibratorZaga::getInvCdf(0.5, b, 0.5, P)), "mean"); check(!ok(CalibratorBct::getInvCdf(0.5, b, 1, R)), "mean"); check(!ok(CalibratorBct::getInvCdf(0.5, 1, b, R)), "spread"); check(!ok(CalibratorGaussian::getInvCdf(0.5, 1, b, Q)), "spread"); } if (k < 3) { check(!ok(CalibratorZaga::getInvCdf(b, 1, 0.5, P)), "level"); check(!ok(CalibratorGaussian::getInvCdf(b, 1, 1, Q)), "level"); check(!ok(CalibratorBct::getInvCdf(b, 1, 1, R)), "level"); }
}
SV_HARNESS(gaussian, "1x2 cells, 3 members, any values in [0.5,8], fixed spread: quantiles around the ensemble mean in the order of the members") {
    FileFake f = cfile(1, 2, 3, 1); Variable v("v"); Par P; para(P, {0.25f, 0}); cvec4 a = csym(f, "v", 0.5, 8, FIN); int c = sv::integer("cell", 0, 1); for (int e = 0; e < 3; e++) a[0][0][1 - c][e] = 0.75f + (e * 2) % 3; bool miss = sv::flag("missing_parameter"); Par M; para(M, {0.25f, MV}); cput(f, v, a); check(run("gaussian", v, "", f, miss ? &M : &P), "runs"); cvec4 r = cget(f, v);
    for (int x = 0; x < 2; x++) { const vec& b = a[0][0][x]; if (miss) { kept(b, member(r, 0, 0, x), "kept without parameters"); continue; } dvec q; for (int e = 0; e < 3; e++) q.push_back(mean(b) + std::exp(0.25) * nq((e + 0.5) / 3)); ranked(b, q, member(r, 0, 0, x), 1e-2, "quantiles of the distribution"); }
}
SV_HARNESS(gaussian_neighbourhood, "2x3 cells, 1 member, neighbourhood of 1 cell, any value in [0.5,8] or missing in one cell (each in turn): centred at the mean of the raw values of the neighbourhood") {
    FileFake f = cfile(2, 3, 1, 1); Variable v("v"); Par P; para(P, {0.25f, 0}); cvec4 a = cspot(f, "v", 0.5, 8, MISS, cpos(f)); cput(f, v, a); run("gaussian", v, "neighbourhoodSize=1", f, &P); cvec4 r = cget(f, v);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { vec b; for (int i = 0; i < 2; i++) for (int j = std::max(0, x - 1); j <= std::min(2, x + 1); j++) if (ok(a[0][i][j][0])) b.push_back(a[0][i][j][0]); if (ok(a[0][y][x][0])) check(close(r[0][y][x][0], mean(b), 1e-2), "mean of the raw neighbourhood"); }
}
SV_HARNESS(gaussian_functions, "2 parameter sets: distribution and quantile for any threshold, level, mean in [0.5,8], spread 0.5 or 2: inverse and as documented") {
    static const vec PS[] = {{0.25f, 0.5f}, {-0.5f, 0.125f}}; const vec& p = PS[sv::integer("set", 0, 1)]; double s = sv::flag("wide") ? 2 : 0.5, sg = std::exp(p[0] + p[1] * s); Parameters P(p); float q = sv::f32("q", 0.01, 0.99), m = sv::f32("m", 0.5, 8), x = sv::f32("x", -20, 20), y = sv::f32("y", -20, 20); sv::assume(le(x, y)); double v = CalibratorGaussian::getInvCdf(q, m, s, P), c = CalibratorGaussian::getCdf(x, m, s, P), d = CalibratorGaussian::getCdf(y, m, s, P);
    check(le(c, d + 1e-9), "does not decrease"); check(le(0, c), "at least 0"); check(le(c, 1), "at most 1"); check(close(CalibratorGaussian::getCdf(v, m, s, P), q, 1e-4), "the level of the quantile"); if (sv::decide(le(0.5, q))) check(close((v - m) * (2 - 2 * (double) q), sg * (2 * (double) q - 1), 2e-2), "documented quantile"); else check(close((v - m) * 2 * (double) q, sg * (2 * (double) q - 1), 2e-2), "documented quantile");
}
// Box-Cox t distribution
static double bct(const vec& p, double m, double sd, double q) { double mu = p[0] + p[1] * m, sg = p[3] == 0 ? std::exp(p[2]) : std::exp(p[2] + p[3] * std::pow(sd, 1.0 / 3)), nu = p[4], tau = std::exp(std::min(p[6], 10.0f)); if (nu == 0) return mu * std::exp(sg * tq(tau, q)); double T = tc(tau, 1 / (sg * std::fabs(nu))), z = tq(tau, nu > 0 ? 1 - (1 - q) * T : q * T); double b = 1 + sg * nu * z; return mu * (nu == 1 ? b : nu == 0.5 ? b * b : 1 / b); }
SV_HARNESS(bct, "1x2 cells, 3 members, any values in [0,8], one possibly missing; fixed spread, 4 powers, 2 tails: quantiles of the distribution in the order of the members") {
    static const float NU[] = {0, 1, 0.5f, -1}; vec p = {0.5f, 0.75f, -1.5f, 0, NU[sv::integer("power", 0, 3)], 0, sv::flag("heavy") ? 1.0f : 30.0f}; FileFake f = cfile(1, 2, 3, 1); Variable v("v"); Par P; para(P, p); cvec4 a = csym(f, "v", 0, 8, FIN); int c = sv::integer("cell", 0, 1); for (int e = 0; e < 3; e++) a[0][0][1 - c][e] = 0.75f + (e * 2) % 3; if (sv::flag("missing")) a[0][0][c][1] = MV; cput(f, v, a); check(run("bct", v, "", f, &P), "runs"); cvec4 r = cget(f, v);
    for (int x = 0; x < 2; x++) { const vec& b = a[0][0][x]; if (!complete(b)) { kept(b, member(r, 0, 0, x), "incomplete ensembles are kept"); continue; } dvec q; for (int e = 0; e < 3; e++) q.push_back(bct(p, mean(b), 0, (e + 0.5) / 3)); ranked(b, q, member(r, 0, 0, x), 1e-2, "quantiles of the distribution"); }
}
SV_HARNESS(bct_mean, "1 cell, 2 members of one value in [0,150]: the ensemble mean is limited to maxEnsMean (100 or as given); one parameter possibly missing") {
    vec p = {0.5f, 0.75f, -1.5f, 0, 1, 0, 1}; FileFake f = cfile(1, 1, 2, 1); Variable v("v"); float m = sv::f32("m", 0, 150); int miss = sv::integer("missing", -1, 6); vec pm = p; if (miss >= 0) pm[miss] = MV; Par P; para(P, pm); cvec4 a = cfill(f, m); cput(f, v, a); bool set = sv::flag("set"); run("bct", v, set ? "maxEnsMean=20" : "", f, &P); dvec g = csorted(member(cget(f, v), 0, 0, 0)); if (miss >= 0) { for (int e = 0; e < 2; e++) check(eq(g[e], m), "kept without parameters"); return; } double l = set ? 20 : 100, mm = sv::decide(lt(l, m)) ? l : (double) m; for (int e = 0; e < 2; e++) check(close(g[e], bct(p, mm, 0, (e + 0.5) / 2), 1e-2), "limited ensemble mean");
}
SV_HARNESS(bct_functions, "3 parameter sets, power 0, 1 or 1/2, any level in (0,1) and ensemble mean in [0.5,8], spread 0.5 or 2: documented quantile, increasing with the level") {
    int k = sv::integer("power", 0, 2); static const float NU[] = {0, 1, 0.5f}; vec p = {0.5f, 0.75f, -1.5f, 0.25f, NU[k], 0, 1}; double s = sv::flag("wide") ? 2 : 0.5; float q = sv::f32("q", 0.05, 0.95), u = sv::f32("u", 0.05, 0.95), m = sv::f32("m", 0.5, 8); sv::assume(le(q, u)); Parameters P(p); double v = CalibratorBct::getInvCdf(q, m, s, P), w = CalibratorBct::getInvCdf(u, m, s, P); check(le(v, w + 1e-6), "increases with the level"); check(close(v, bct(p, m, s, q), 2e-2), "documented quantile");
}
SV_HARNESS(places, "1x2 cells with their own parameters, 2 times, 2 members, one value (each in turn) any in [1,8]: parameters of the place and time") {
    FileFake f = cfile(1, 2, 2, 2); vec2 la(1, vec(2, 50)), lo(1, vec{1, 3}); f.setLats(la); f.setLons(lo); f.setElevs(vec2(1, vec(2, 0))); Par P; for (int t = 0; t < 2; t++) for (int x = 0; x < 2; x++) P.setParameters(Parameters(vec{0.25f * (t + 1) - 0.5f * x, 0}), t, Location(50, 1 + 2 * x, 0)); P.recomputeTree(); Variable v("v"); cvec4 a = cspot(f, "v", 1, 8, FIN, cpos(f)); cput(f, v, a); run("gaussian", v, "", f, &P); cvec4 r = cget(f, v);
    for (int t = 0; t < 2; t++) for (int x = 0; x < 2; x++) { const vec& b = a[t][0][x]; dvec q; for (int e = 0; e < 2; e++) q.push_back(mean(b) + std::exp(0.25 * (t + 1) - 0.5 * x) * nq((e + 0.5) / 2)); ranked(b, q, member(r, t, 0, x), 1e-2, "quantiles with the parameters of the place and time"); }
}
// training: the function that is minimised is the negative log-likelihood of the complete pairs. The stand-ins keep the function and stop at once.
#include <gsl/gsl_multimin.h>
static gsl_multimin_function objective; static std::vector<double> start; static std::vector<double> found;
extern "C" int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer* s, gsl_multimin_function* f, const gsl_vector* x, const gsl_vector*) { objective = *f; for (size_t i = 0; i < f->n; i++) start.push_back(gsl_vector_get(x, i)); return 0; }
extern "C" int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer* s) { for (size_t i = 0; i < objective.n; i++) gsl_vector_set(s->x, i, found[i]); return 0; }
extern "C" double gsl_multimin_fminimizer_size(const gsl_multimin_fminimizer*) { return 0; }
static double at(const vec& p) { gsl_vector* v = gsl_vector_alloc(p.size()); for (size_t i = 0; i < p.size(); i++) gsl_vector_set(v, i, p[i]); double f = objective.f(v, objective.params); gsl_vector_free(v); return f; }
static void learn(const char* name, const char* opt, const std::vector<ObsEns>& d, const vec& want) { start.clear(); found.assign(want.begin(), want.end()); objective.n = 0; Calibrator* c = Calibrator::getScheme(name, Variable("v"), Options(opt)); Parameters p = c->train(d); delete c; check(p.size() == (int) want.size(), "number of parameters"); for (size_t i = 0; i < want.size() && i < (size_t) p.size(); i++) check(eq(p[i], want[i]), "the parameters found"); }
static const vec REF = {0.1f, 0, 0.1f, 0, 0.1f, 0, 0.1f, 0};
static double zpdf(const vec& p, double m, double fr, double o) { Zaga z(p, m, fr); double w = z.s * (z.k + 1); return o == 0 ? z.P : (1 - z.P) * w / ((o + w) * (o + w)); }
SV_HARNESS(zaga_train, "training on 2 pairs of 3 members, any values in [0,4], 3 thresholds of the fraction, observations 0 or 2: likelihood with the mean and the fraction of small members of every pair") {
    static const vec PS[] = {ZP, {0.5f, 0, -0.5f, 0, 0.5f, 0, -1, 0}}; int k = sv::integer("parameters", 0, 1); std::vector<ObsEns> d; std::vector<vec> e(2, vec{0.25f, 1.25f, 3}); int w = sv::integer("pair", 0, 1); for (int i = 0; i < 3; i++) e[w][i] = sv::f32(sv::idx("e", i).c_str(), 0, 4); bool dry = sv::flag("dry"); float o[] = {dry ? 0 : 2.f, dry ? 0.75f : 0}; static const float TH[] = {0, 0.5f, 2}; float th = TH[sv::integer("threshold", 0, 2)];
    for (int i = 0; i < 2; i++) d.push_back(ObsEns(o[i], e[i])); char b[60]; snprintf(b, 60, "fracThreshold=%g", th); learn("zaga", b, d, {1, 2, 3, 4, 5, 6, 7, 8}); if (objective.n != 8) return; double s = 0; for (int i = 0; i < 2; i++) s -= std::log(zpdf(PS[k], 1, frac(e[i], th), o[i])); for (int i = 0; i < 2; i++) s += std::log(zpdf(REF, 1, frac(e[i], th), o[i])); check(close(at(PS[k]) - at(REF), s, 2e-3), "negative log-likelihood");
}
SV_HARNESS(zaga_train_mean, "training on 3 pairs of 2 members, mean-dependent parameters; one observation, one member or a whole ensemble of one pair possibly missing: likelihood of the complete pairs") {
    static const vec Q = {0.5f, 0.25f, -0.5f, 0.03f, 0.5f, -0.25f, -1, 0.25f}; std::vector<ObsEns> d; std::vector<vec> e = {{0.25f, 1}, {2, 3.5f}, {0, 0.25f}}; float o[] = {1.5f, 0, 0.25f}; int w = sv::integer("pair", 0, 2), miss = sv::integer("missing", 0, 4); float m = sv::flag("nan") ? NaN : MV; if (miss == 1) o[w] = m; if (miss == 2 || miss == 4) e[w][1] = m; if (miss == 3 || miss == 4) e[w][0] = m;
    for (int i = 0; i < 3; i++) d.push_back(ObsEns(o[i], e[i])); learn("zaga", "fracThreshold=1", d, {1, 2, 3, 4, 5, 6, 7, 8}); if (objective.n != 8) return; double s = 0; for (int i = 0; i < 3; i++) { if (!ok(o[i])) continue; vec g; for (float x : e[i]) if (ok(x)) g.push_back(x); if (g.empty()) continue; s += std::log(zpdf(REF, mean(g), frac(g, 1), o[i])) - std::log(zpdf(Q, mean(g), frac(g, 1), o[i])); } check(close(at(Q) - at(REF), s, 2e-3), "negative log-likelihood of the complete pairs");
}
SV_HARNESS(gaussian_train, "training on 3 pairs of 3 members, one observation with 4 values; one observation, member or whole ensemble of one pair possibly missing: likelihood with the mean and the spread of the complete pairs") {
    std::vector<ObsEns> d; std::vector<vec> e = {{1, 1, 1}, {2, 3.5f, 5}, {1, 4, 1.75f}}; float o[] = {1.5f, 2, 3.25f}; int w = sv::integer("pair", 0, 2), miss = sv::integer("missing", 0, 3); float m = sv::flag("nan") ? NaN : MV; if (miss == 0) { static const float V[] = {0.5f, 1, 2.5f, 8}; o[w] = V[sv::integer("o", 0, 3)]; } if (miss == 1) o[w] = m; if (miss == 2) e[w][1] = m; if (miss == 3) e[w] = vec(3, m);
    for (int i = 0; i < 3; i++) d.push_back(ObsEns(o[i], e[i])); learn("gaussian", "", d, {0.5f, 0.25f}); if (objective.n != 2) return; static const vec A = {0.5f, -0.25f}, B = {0.25f, 0.5f}; double s = 0; for (int i = 0; i < 3; i++) { if (!ok(o[i])) continue; vec g; for (float x : e[i]) if (ok(x)) g.push_back(x); if (g.empty()) continue; double u = mean(g), q = 0; for (float x : g) q += (x - u) * (x - u); q = std::sqrt(q / g.size()); auto pdf = [&](const vec& p) { double t = std::exp(p[0] + p[1] * q), z = std::fabs((double) o[i] - u) / t; return 0.5 / ((1 + z) * (1 + z)) / t; }; s += std::log(pdf(B)) - std::log(pdf(A)); } check(close(at(A) - at(B), s, 2e-3), "negative log-likelihood of the complete pairs");
}
SV_HARNESS(train_nothing, "no pairs, or 1 to 2 pairs without observations or members: no parameters") { bool z = sv::flag("zaga"); int n = sv::integer("pairs", 0, 2); float m = sv::flag("nan") ? NaN : MV; bool obs = sv::flag("obs"); std::vector<ObsEns> d; for (int i = 0; i < n; i++) d.push_back(ObsEns(obs ? m : 1.f, obs ? vec{1, 2} : vec{m, m})); learn(z ? "zaga" : "gaussian", "", d, {}); }
