// C48: the client's calibrators that take parameters, and the parameter file itself
#include "client.h"
typedef std::vector<Location> Locs;
struct Par : ParameterFile { Par(const char* o = "") : ParameterFile(Options(o), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
static Parameters par(const vec& v) { return Parameters(v); }
static double mapped(double x, const dvec& f, const dvec& o, int policy, int n) { // reference quantile mapping, f increasing
    double lo = policy == 0 ? 1 : policy == 3 ? 0 : n < 2 ? 1 : policy == 1 ? (o[n - 1] - o[0]) / (f[n - 1] - f[0]) : (o[1] - o[0]) / (f[1] - f[0]), hi = policy == 2 && n > 1 ? (o[n - 1] - o[n - 2]) / (f[n - 1] - f[n - 2]) : lo;
    if (sv::decide(le(x, f[0]))) return o[0] + lo * (x - f[0]); if (sv::decide(le(f[n - 1], x))) return o[n - 1] + hi * (x - f[n - 1]);
    for (int i = 0; i + 1 < n; i++) if (sv::decide(le(x, f[i + 1]))) return o[i] + (o[i + 1] - o[i]) * ((x - f[i]) / (f[i + 1] - f[i])); return 0;
}
static const char* POL[] = {"extrapolation=1to1", "extrapolation=meanSlope", "extrapolation=nearestSlope", "extrapolation=zero"};
SV_HARNESS(qq, "quantile mapping: curves of 1..3 points with given forecasts and any non-decreasing observations in [-50,50]; value in [-100,100] or missing; 4 extrapolation policies") {
    sv::merge(false); int n = sv::integer("size", 1, 3), k = sv::integer("policy", 0, 3); static const float F[] = {-4, 3, 12}; vec p; dvec f, o; double last = 0; for (int i = 0; i < n; i++) { float y = sv::f32(sv::idx("o", i).c_str(), -50, 50); if (i) sv::assume(le(last, y)); last = y; p.push_back(y); p.push_back(F[i]); f.push_back(F[i]); o.push_back(y); }
    FileFake file = cfile(1, 1, 1, 1); Variable v("v"); cvec4 a = csym(file, "v", -100, 100, MISSN); cput(file, v, a); ParameterFileSimple P(par(p)); run("qq", v, POL[k], file, &P); double g = cget(file, v)[0][0][0][0], x = a[0][0][0][0]; if (!ok(x)) check(!ok(g), "missing stays missing"); else check(close(g, mapped(x, f, o, k, n), 1e-2), "mapped through the curve, extended by the policy");
}
SV_HARNESS(qq_forecasts, "quantile mapping: curves of 2 points with any increasing forecasts at least 0.5 apart, given observations; value in [-50,50]") {
    sv::merge(false); int k = sv::integer("policy", 0, 3); float f0 = sv::f32("f0", -20, 20), f1 = sv::f32("f1", -20, 20); sv::assume(le(f0 + 0.5, f1)); FileFake file = cfile(1, 1, 1, 1); Variable v("v"); cvec4 a = csym(file, "v", -50, 50, FIN); cput(file, v, a); ParameterFileSimple P(par({2, f0, 5, f1})); run("qq", v, POL[k], file, &P); check(close(cget(file, v)[0][0][0][0], mapped(a[0][0][0][0], {f0, f1}, {2, 5}, k, 2), 1e-2), "mapped through the curve, extended by the policy");
}
SV_HARNESS(qq_ties, "quantile mapping: curves of 3 points with ties among the forecasts (0 0 1, 0 1 1 or 0 0 0), observations 0 0 2 or 0 1 2: a valid value stays valid, non-decreasing in the forecast, inside the observations if inside the forecasts") {
    sv::merge(false); int k = sv::integer("policy", 0, 3), t = sv::integer("ties", 0, 2); bool z = sv::flag("zero"); float F[][3] = {{0, 0, 1}, {0, 1, 1}, {0, 0, 0}}; ParameterFileSimple P(par({0, F[t][0], z ? 0.0f : 1.0f, F[t][1], 2, F[t][2]})); FileFake file = cfile(1, 1, 2, 1); Variable v("v"); cvec4 a = csym(file, "v", -50, 50, FIN); cput(file, v, a); run("qq", v, POL[k], file, &P); cvec4 r = cget(file, v);
    double x0 = a[0][0][0][0], x1 = a[0][0][0][1], g0 = r[0][0][0][0], g1 = r[0][0][0][1]; check(ok(g0) && ok(g1), "valid"); if (!ok(g0) || !ok(g1)) return; check(imp(land(le(F[t][0], x0), le(x0, F[t][2])), land(le(-1e-3, g0), le(g0, 2 + 1e-3))), "within the observations"); if (t < 2) check(imp(le(x0, x1), le(g0, g1 + 1e-2)), "non-decreasing");
}
SV_HARNESS(qq_extra, "quantile mapping: extra points extend the curve; a missing parameter leaves the ensemble as it was") {
    FileFake file = cfile(1, 2, 1, 2); Variable v("v"); int pos = cpos(file); cvec4 a = cspot(file, "v", -50, 50, MISSN, pos); cput(file, v, a); int m = sv::integer("missing", 0, 4); vec p = {1, 2, 5, 8}; if (m < 4) p[m] = sv::flag("nan") ? NaN : MV; ParameterFileSimple P(par(p)); run("qq", v, m < 4 ? "" : "extraObs=20,-3 extraFcst=11,-1", file, &P); cvec4 r = cget(file, v);
    cells(file, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], b = a[t][y][x][e]; if (!ok(b)) check(!ok(g), "missing stays missing"); else if (m < 4) check(eq(g, b), "not processed"); else check(close(g, mapped(b, {-1, 2, 8, 11}, {-3, 1, 5, 20}, 0, 4), 1e-2), "extra points are part of the curve"); });
}
SV_HARNESS(qq_train, "training on 3 pairs, 2 members each, of which some are missing: the sorted observations and ensemble means of the complete pairs; or their quantiles") {
    std::vector<ObsEns> d; dvec o, f; int m = sv::integer("missing", 0, 3); for (int i = 0; i < 3; i++) { float x = sv::f32(sv::idx("o", i).c_str(), -50, 50), e = sv::f32(sv::idx("e", i).c_str(), -50, 50); vec ens = {e, 4}; if (m == i) { if (i == 0) x = MV; else if (i == 1) ens = {NaN, MV}; else ens[1] = MV; } d.push_back(ObsEns(x, Ens(ens))); if (m == i && i < 2) continue; o.push_back(x); f.push_back(m == 2 && i == 2 ? e : (e + 4) / 2); }
    bool q = sv::flag("quantiles"); CalibratorQq c(Variable("v"), Options(q ? "quantiles=0,0.5,1" : "")); Parameters p = c.train(d); o = csorted(o); f = csorted(f); int n = o.size(); if (q) { check(p.size() == 6, "size"); if (p.size() != 6) return; for (int k = 0; k < 3; k++) { check(close(p[2 * k], cquant(o, 0.5 * k), 1e-3), "quantile of the observations"); check(close(p[2 * k + 1], cquant(f, 0.5 * k), 1e-3), "quantile of the forecasts"); } }
    else { check(p.size() == 2 * n, "size"); if (p.size() != 2 * n) return; for (int k = 0; k < n; k++) { check(close(p[2 * k], o[k], 1e-3), "sorted observations"); check(close(p[2 * k + 1], f[k], 1e-3), "sorted forecasts"); } }
}
SV_HARNESS(qq_train_few, "training on 0 or 1 complete pairs, with or without quantiles") { bool q = sv::flag("quantiles"), one = sv::flag("one"); float x = sv::f32("o", -50, 50), e = sv::f32("e", -50, 50); std::vector<ObsEns> d; d.push_back(ObsEns(one ? x : MV, Ens(2, e))); CalibratorQq c(Variable("v"), Options(q ? "quantiles=0.2,0.8" : "")); Parameters p = c.train(d); check(p.size() == (one ? q ? 4 : 2 : 0), "size"); for (int i = 0; i + 1 < p.size(); i += 2) { check(close(p[i], x, 1e-3), "the observation"); check(close(p[i + 1], e, 1e-3), "the forecast"); } }
SV_HARNESS(polynomial, "regression of order 0, 1 and 2: any coefficients in [-10,10] or missing, value in [-10,10] or missing; one position of 1x2 cells, 2 members, 2 times") {
    int n = sv::integer("size", 1, 3), m = sv::integer("missing", 0, 3); vec p; for (int i = 0; i < n; i++) p.push_back(sv::f32(sv::idx("c", i).c_str(), -10, 10)); if (m < n) p[m] = sv::flag("nan") ? NaN : MV; FileFake f = cfile(1, 2, 2, 2); Variable v("v"); int pos = cpos(f); cvec4 a = cspot(f, "v", -10, 10, MISSN, pos); cput(f, v, a); ParameterFileSimple P(par(p)); run("regression", v, "", f, &P); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], b = a[t][y][x][e]; if (!ok(b) || m < n) { check(!ok(g), "missing without value or coefficients"); return; } double s = 0, w = 1; for (int i = 0; i < n; i++) { s += p[i] * w; w *= b; } check(close(g, s, 1e-2), "polynomial of the value"); });
}
SV_HARNESS(multivariate, "regression on a constant, another variable and itself: any coefficients in [-10,10] or missing, values in [-10,10] or missing; one position of 1x2 cells, 1 member, 2 times") {
    vec p; for (int i = 0; i < 3; i++) p.push_back(sv::f32(sv::idx("c", i).c_str(), -10, 10)); int m = sv::integer("missing", 0, 3); if (m < 3) p[m] = MV; FileFake f = cfile(1, 2, 1, 2); Variable v("v"), u("u"); int pos = cpos(f); cvec4 a = cspot(f, "v", -10, 10, MISSN, pos), b = cspot(f, "u", -10, 10, MISSN, pos); cput(f, v, a); cput(f, u, b); ParameterFileSimple P(par(p)); run("regression", v, "variables=1,u,v", f, &P); cvec4 r = cget(f, v), q = cget(f, u);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], i = a[t][y][x][e], j = b[t][y][x][e]; check(sv::same(q[t][y][x][e], j), "the predictor is left alone"); if (!ok(i) || !ok(j) || m < 3) check(!ok(g), "missing without value, predictor or coefficients"); else check(close(g, p[0] + p[1] * j + p[2] * i, 1e-2), "linear combination of the predictors"); });
}
SV_HARNESS(regression_train, "training on 3 pairs (one possibly missing) with given forecasts, any observations in [-50,50]: least squares, with and without intercept, order 0 and 1") {
    int m = sv::integer("missing", 0, 3), mode = sv::integer("mode", 0, 2); static const float F[] = {-2, 1, 6}; std::vector<ObsEns> d; dvec o, f; for (int i = 0; i < 3; i++) { float x = sv::f32(sv::idx("o", i).c_str(), -50, 50); bool no = m == i; d.push_back(ObsEns(no ? MV : x, Ens{F[i] - 1, F[i] + 1})); if (!no) { o.push_back(x); f.push_back(F[i]); } }
    CalibratorRegression c(Variable("v"), Options(mode == 0 ? "order=0" : mode == 1 ? "order=1" : "order=1 intercept=0")); Parameters p = c.train(d); check(p.size() == (mode ? 2 : 1), "size"); int n = o.size(); double so = 0, sf = 0, r0 = 0, r1 = 0; for (int i = 0; i < n; i++) so += o[i]; if (mode == 0) { check(close(p[0], so / n, 1e-2), "mean of the observations"); return; } if (mode == 2) check(eq(p[0], 0), "no intercept"); for (int i = 0; i < n; i++) { double e = o[i] - p[0] - p[1] * f[i]; r0 += e; r1 += e * f[i]; } if (mode == 1) check(close(r0, 0, 0.05), "residuals sum to zero"); check(close(r1, 0, 0.05), "residuals are orthogonal to the forecasts");
}
SV_HARNESS(direction, "wind-direction factor: any coefficients in [-2,2] or one missing, 5 directions or missing; wind in [0,50] or missing; one position of 1x2 cells, 2 members") {
    static const float D[] = {0, 90, 200, 330, 360, -999}; vec p; for (int i = 0; i < 9; i++) p.push_back(sv::f32(sv::idx("c", i).c_str(), -2, 2)); bool m = sv::flag("missing"); if (m) p[4] = MV; FileFake f = cfile(1, 2, 2, 1); Variable v("v"), d("d"); cvec4 a = cfill(f, 10), b = cfill(f, D[sv::integer("direction", 0, 5)]); a[0][0][1][1] = sv::flag("missing_wind") ? MV : 7; cput(f, v, a); cput(f, d, b); ParameterFileSimple P(par(p)); run("windDirection", v, "directionVariable=d", f, &P); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], w = a[t][y][x][e], k = b[t][y][x][e]; if (!ok(w)) { check(!ok(g), "missing wind stays missing"); return; } if (!ok(k)) { check(eq(g, w), "unchanged without a direction"); return; } if (m) { check(!ok(g), "missing without coefficients"); return; } double s = p[0], z = k * 3.14159265358979 / 180; for (int i = 1; i <= 4; i++) s += p[2 * i - 1] * std::sin(i * z) + p[2 * i] * std::cos(i * z); check(close(g, w * sv::dmax(0, s), 0.02), "multiplied by the factor, never negative"); });
}
static Locs sites() { return {Location(50, 0, 10), Location(52, 1, 50), Location(54, 3, 100)}; }
static double dist(const Location& a, const Location& b) { double r = 3.14159265358979 / 180, c = std::sin(a.lat() * r) * std::sin(b.lat() * r) + std::cos(a.lat() * r) * std::cos(b.lat() * r) * std::cos((a.lon() - b.lon()) * r); return 6.378137e6 * std::acos(std::max(-1.0, std::min(1.0, c))); }
SV_HARNESS(lookup, "3 places, 2 times, the parameter of any place and time present or not, 6 query places: the nearest place that has parameters then; with cycling also later times") {
    Locs L = sites(); bool cyc = sv::flag("cycle"); Par f(cyc ? "cycle=1" : ""); int have = sv::integer("present", 1, 63); float val[3][2]; for (int i = 0; i < 3; i++) for (int t = 0; t < 2; t++) { val[i][t] = sv::f32(sv::idx("p", i, t).c_str(), -100, 100); f.setParameters(have >> (2 * i + t) & 1 ? par({val[i][t]}) : Parameters(), t, L[i]); } f.recomputeTree();
    Location Q[] = {L[0], L[1], L[2], Location(50.4, 0.2, 0), Location(53, 2.4, 7), Location(60, 10, 0)}; Location q = Q[sv::integer("query", 0, 5)]; int t = sv::integer("time", 0, cyc ? 4 : 1); Parameters r = f.getParameters(t, q); int tt = t % 2, best = -1; for (int i = 0; i < 3; i++) if (have >> (2 * i + tt) & 1) if (best < 0 || dist(q, L[i]) < dist(q, L[best])) best = i; if (best < 0) check(r.size() == 0, "none where no place has parameters"); else { check(r.size() == 1, "one parameter"); if (r.size() == 1) check(eq(r[0], val[best][tt]), "parameters of the nearest place that has them"); }
    Location n(MV, MV, MV); bool found = f.getNearestLocation(tt, q, n); check(found == (best >= 0), "found if any place has parameters"); if (best >= 0) check(n == L[best], "nearest place"); check(f.isLocationDependent() && f.isTimeDependent() && f.getLocations().size() == 3, "location and time dependent");
}
SV_HARNESS(per_place, "regression, quantile mapping and wind direction with parameters by place and time, 1x3 cells, 2 times: each cell uses its nearest place and its own time") {
    Par P; FileFake f = cfile(1, 3, 1, 2); f.setLats({{50, 52.1, 53.9}}); f.setLons({{0.1, 1, 3}}); Locs L = sites(); int k = sv::integer("kind", 0, 1); float c[2][3]; for (int t = 0; t < 2; t++) for (int i = 0; i < 3; i++) { c[t][i] = sv::f32(sv::idx("c", t, i).c_str(), -10, 10); P.setParameters(k ? par({c[t][i], 0}) : par({c[t][i], 1}), t, L[2 - i]); } P.recomputeTree(); Variable v("v"); cvec4 a = csym(f, "v", -50, 50, FIN); cput(f, v, a); run(k ? "qq" : "regression", v, "", f, &P); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { check(close(r[t][y][x][e], a[t][y][x][e] + c[t][2 - x], 1e-3), "the parameters of the nearest place at the time"); });
}
SV_HARNESS(mask, "mask: radii of 2 places at 2 times in [1,2e5] m, 1x3 cells: exactly the cells within (or outside) the radius of a place at the time are kept") {
    Par P; FileFake f = cfile(1, 3, 2, 2); Locs L = {Location(50, 0.5, 10), Location(50, 2, 50)}; int T = sv::flag("by_time") ? 2 : 1; float R[2][2]; for (int t = 0; t < T; t++) for (int i = 0; i < 2; i++) { R[t][i] = sv::f32(sv::idx("r", t, i).c_str(), 1, 2e5); P.setParameters(par({R[t][i]}), t, L[i]); } P.recomputeTree(); f.setLats({{50, 50, 51}}); f.setLons({{0, 1, 2}}); bool keep = sv::flag("keep"); Variable v("v"); cvec4 a = csym(f, "v", -50, 50, FIN); a[0][0][0][1] = MV; cput(f, v, a); run("mask", v, keep ? "keep=1" : "keep=0", f, &P); cvec4 r = cget(f, v); static const float X[] = {0, 1, 2}, Y[] = {50, 50, 51};
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], b = a[t][y][x][e]; bool in = false; for (int i = 0; i < 2; i++) { double d = dist(Location(Y[x], X[x], 0), L[i]), q = R[T == 2 ? t : 0][i]; sv::assume(lor(le(d + 50, q), le(q, d - 50))); if (sv::decide(lt(d, q))) in = true; } if (in == keep) check(sv::same(g, b), "kept"); else check(!ok(g), "removed"); });
}
SV_HARNESS(override, "override: 2 places with values in [-50,50] or missing, 5x5 cells, radius 0 or 1, with and without an elevation limit; cell and place elevations in [0,1000] or missing") {
    Par P; FileFake f = cfile(5, 5, 1, 1); vec2 la(5, vec(5)), lo = la, el = la; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { la[i][j] = 50 + i; lo[i][j] = j; el[i][j] = 100; } int where = sv::integer("elevation", 0, 2); float e0 = cval("e0", 0, 1000, MISS), z = where == 2 ? MV : 250; if (where == 1) el[1][2] = e0; if (where == 0) el[2][2] = e0; f.setLats(la); f.setLons(lo); f.setElevs(el);
    int place = sv::integer("place", 0, 3); static const float PY[] = {52.2, 51.1, 50.1, 53.8}, PX[] = {2.1, 1.2, 2, 3.9}; Locs L = {Location(51.9, 2, z), Location(PY[place], PX[place], 120)}; float v0 = cval("v0", -50, 50, MISS), v1 = sv::f32("v1", -50, 50); P.setParameters(par({v0}), 0, L[0]); P.setParameters(par({v1}), 0, L[1]); P.recomputeTree(); int rad = sv::integer("radius", 0, 1); bool lim = sv::flag("limit"); char o[60]; snprintf(o, 60, "radius=%d%s", rad, lim ? " maxElevDiff=149.5" : ""); Variable v("v"); cvec4 a = cfill(f, 7); cput(f, v, a); run("override", v, o, f, &P); cvec4 r = cget(f, v);
    Location first = L[0], second = L[1]; if (L[1].lat() < L[0].lat()) std::swap(first, second); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { double w = 7; for (int k = 0; k < 2; k++) { const Location& l = k ? second : first; double val = l == L[0] ? v0 : v1; if (!ok(val)) continue; int y = std::floor(l.lat() - 50 + 0.5), x = std::floor(l.lon() + 0.5); if (y < 1 || y > 3 || x < 1 || x > 3 || std::abs(i - y) > rad || std::abs(j - x) > rad) continue; if (!lim) w = val; else if (ok(el[i][j]) && ok(l.elev())) w = sv::ite(lt(sv::dabs((double) el[i][j] - l.elev()), 149.5), val, w); } check(sv::same(r[0][i][j][0], w), "exactly the cells in the boxes, within the elevation limit"); }
}
SV_HARNESS(altitude, "altitude: 3 places with any elevation in [-100,4000], 1x3 cells: the elevation of the nearest place") { Par P; FileFake f = cfile(1, 3, 1, 1); f.setLats({{50.1, 52, 60}}); f.setLons({{0.1, 1, 3}}); float z[3]; Locs L = sites(); for (int i = 0; i < 3; i++) { z[i] = sv::f32(sv::idx("z", i).c_str(), -100, 4000); L[i].elev(z[i]); P.setParameters(par({1}), 0, L[i]); } P.recomputeTree(); run("altitude", Variable("v"), "", f, &P); vec2 e = f.getElevs(); for (int i = 0; i < 3; i++) check(eq(e[0][i], z[i]), "elevation of the nearest place"); }
