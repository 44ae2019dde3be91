#include "oi.h"
typedef std::vector<dvec> dmat;
static dmat inv(dmat a) { int n = a.size(); dmat r(n, dvec(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; for (int i = 0; i < n; i++) { double p = a[i][i]; for (int j = 0; j < n; j++) { a[i][j] /= p; r[i][j] /= p; } for (int k = 0; k < n; k++) if (k != i) { double f = a[k][i]; for (int j = 0; j < n; j++) { a[k][j] -= f * a[i][j]; r[k][j] -= f * r[i][j]; } } } return r; } // positive definite: no pivoting
static dmat root(dmat a) { dmat y = a; int n = a.size(); dmat z(n, dvec(n, 0)); for (int i = 0; i < n; i++) z[i][i] = 1; for (int it = 0; it < 30; it++) { dmat iy = inv(y), iz = inv(z); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double p = y[i][j]; y[i][j] = (p + iz[i][j]) / 2; z[i][j] = (z[i][j] + iy[i][j]) / 2; } } return y; } // Denman-Beavers
// ensemble transform Kalman filter: Yb[obs][member] concrete, other inputs symbolic; returns the analysis of each member
static dvec etkf(const vec& b, const vec2& Yb, const vec& rho, const vec& sig, const vec& o) {
    int n = b.size(), S = o.size(); dmat Y(S, dvec(n)); dvec d(S); for (int i = 0; i < S; i++) { double m = 0; for (int e = 0; e < n; e++) m += Yb[i][e]; m /= n; d[i] = o[i] - m; for (int e = 0; e < n; e++) Y[i][e] = Yb[i][e] - m; }
    dmat A(n, dvec(n, 0)); for (int e = 0; e < n; e++) for (int f = 0; f < n; f++) { A[e][f] = e == f ? n - 1 : 0; for (int i = 0; i < S; i++) A[e][f] += Y[i][e] * (double) rho[i] / ((double) sig[i] * sig[i]) * Y[i][f]; }
    dmat P = inv(A), Q = P; for (auto& r : Q) for (double& x : r) x *= n - 1; dmat W = root(Q); dvec w(n, 0); for (int e = 0; e < n; e++) for (int f = 0; f < n; f++) for (int i = 0; i < S; i++) w[e] += P[e][f] * Y[i][f] * (double) rho[i] / ((double) sig[i] * sig[i]) * d[i];
    double m = 0; for (float f : b) m += f; m /= n; dvec r(n, m); for (int e = 0; e < n; e++) for (int k = 0; k < n; k++) r[e] += (b[k] - m) * (W[k][e] + w[k]); return r;
}
static vec2 run(const gridpp::Points& at_, const vec2& b, const gridpp::Points& obs, vec o, vec s, vec2 pb, const gridpp::StructureFunction& st, int mp = 0, bool ex = true) { return gridpp::optimal_interpolation_ensi(at_, b, obs, o, s, pb, st, mp, ex); }
static const vec2 YB = {{1, 2, 4}, {0.5f, -1, 1.5f}, {3, 2.5f, -2}}; static const vec SG = {0.5f, 1, 2};
static vec2 cut(const vec2& v, int n) { return vec2(v.begin(), v.begin() + n); } static vec cut(const vec& v, int n) { return vec(v.begin(), v.begin() + n); }
static void formula(int S) { vec b = symvec("b", 3), o = symvec("o", S); Table st(FG, FP); vec2 q = run(at({0}), {b}, line(S), o, cut(SG, S), cut(YB, S), st); if (!dims(q, 1, 3)) { check(false, "one value per member"); return; } dvec r = etkf(b, cut(YB, S), cut(FG, S), cut(SG, S), o); for (int e = 0; e < 3; e++) check(close(q[0][e], r[e], 2e-2), "ensemble transform analysis of each member"); }
SV_HARNESS(formula_one, "3 members (fixed ensemble at the observation), one observation: symbolic observed value and background members") { formula(1); }
SV_HARNESS(formula_two, "3 members, two observations with fixed ensembles, correlations and error standard deviations: symbolic observed values and background members") { formula(2); }
SV_HARNESS(formula_three, "3 members, three observations") { formula(3); }
SV_HARNESS(formula_pair, "2 members, one observation with a symbolic ensemble at the observation and observed value: mean and spread updates") {
    float a = sv::f32("a", 0.25, 4), c = sv::f32("c", -4, 4), o = sv::f32("o", -10, 10); vec b = {3, 1}; Table st({1}, {{1}}); vec2 q = run(at({0}), {b}, line(1), {o}, {1}, {{c + a, c - a}}, st); if (!dims(q, 1, 2)) { check(false, "one value per member"); return; } // y = (a,-a), n - 1 = 1, s = 1: gain a(x1)/(1+2aa) per unit, x = (1,-1)
    double D = 1 + 2. * a * a, m = ((double) q[0][0] + q[0][1]) / 2, sp = ((double) q[0][0] - q[0][1]) / 2; check(close((m - 2) * D, 2. * a * ((double) o - c), 1e-2), "mean moves by the ensemble gain"); check(lt(0, sp), "spread keeps its sign"); check(close(sp * sp * D, 1, 1e-2), "spread is reduced by the information gained");
}
SV_HARNESS(out_of_range, "1-2 background points at symbolic positions, two observations, symbolic members and observed values, a step structure: every member unchanged beyond the localisation distance") {
    int n = sv::integer("points", 1, 2); vec x = symvec("x", n, -5, 12), o = symvec("o", 2); vec2 b = symvec2("b", n, 3); bool ex = sv::flag("extrapolate"); if (!ex) o = {3, -2}; Step s(1.5); vec2 q = run(at(x), b, at({2, 5}), o, {0.5f, 1}, cut(YB, 2), s, 0, ex); if (!dims(q, n, 3)) { check(false, "one value per member"); return; }
    for (int i = 0; i < n; i++) { sv::B far = land(lor(lt(x[i], 0.4999), lt(3.5001, x[i])), lor(lt(x[i], 3.4999), lt(6.5001, x[i]))); if (sv::decide(far)) for (int e = 0; e < 3; e++) check(sv::same(q[i][e], b[i][e]), "every member is unchanged"); else for (int e = 0; e < 3; e++) check(sv::isnum(q[i][e]), "a number"); }
}
static ivec subset(const char* nm, int n) { ivec I; for (int i = 0; i < n; i++) if (!sv::flag(sv::idx(nm, i).c_str())) I.push_back(i); return I; }
SV_HARNESS(missing_observations, "three observations, any subset of which misses its value, its error or one member of its background: no influence; none left: unchanged") {
    vec o = symvec("o", 3), s = SG; vec2 pb = YB; vec b = symvec("b", 3); int mp = sv::integer("max_points", 0, 2); int how = sv::integer("how", 0, 2); ivec I = subset("missing", 3); if (I.size() == 3) return; for (int i = 0; i < 3; i++) if (std::find(I.begin(), I.end(), i) == I.end()) { if (how == 0) o[i] = NaN; else if (how == 1) s[i] = NaN; else pb[i][(i + 1) % 3] = NaN; } bool ex = sv::flag("extrapolate"); if (!ex) for (int i : I) o[i] = 3 * i;
    Table st(FG, FP); vec2 q = run(at({0}), {b}, line(3), o, s, pb, st, mp, ex); if (!dims(q, 1, 3)) { check(false, "one value per member"); return; } if (I.empty()) { for (int e = 0; e < 3; e++) check(sv::same(q[0][e], b[e]), "unchanged without valid observations"); return; }
    vec x; vec2 pk; for (int i : I) { x.push_back(i + 1); pk.push_back(YB[i]); } vec2 r = run(at({0}), {b}, at(x), pick(o, I), pick(SG, I), pk, st, mp, ex); for (int e = 0; e < 3; e++) check(close(q[0][e], r[0][e], 1e-3), "missing observations have no influence");
}
SV_HARNESS(missing_members, "3 members at 2 points, each possibly missing in some point: missing members are left as they are, the others are analysed without them") {
    vec2 b = symvec2("b", 2, 3); vec o = symvec("o", 2); ivec I = subset("missing", 3); int where = sv::integer("where", 0, 1); bool alsoobs = sv::flag("missing_at_the_observation_too"); vec2 pb = cut(YB, 2); for (int e = 0; e < 3; e++) if (std::find(I.begin(), I.end(), e) == I.end()) { b[where][e] = NaN; if (alsoobs) pb[0][e] = NaN; } if (I.size() == 3) return;
    Table st(FG, FP); vec2 q = run(at({0, 0}), b, line(2), o, cut(SG, 2), pb, st); if (!dims(q, 2, 3)) { check(false, "one value per member"); return; } for (int e = 0; e < 3; e++) if (std::find(I.begin(), I.end(), e) == I.end()) for (int i = 0; i < 2; i++) check(sv::same(q[i][e], b[i][e]), "a missing member is left as it is"); if (I.size() < 1) return;
    vec2 bs(2), pk(2); for (int i = 0; i < 2; i++) { bs[i] = pick(b[i], I); pk[i] = pick(YB[i], I); } vec2 r = run(at({0, 0}), bs, line(2), o, cut(SG, 2), pk, st); for (int i = 0; i < 2; i++) for (size_t k = 0; k < I.size(); k++) check(close(q[i][I[k]], r[i][k], 1e-3), "the other members are analysed without it");
}
SV_HARNESS(order, "three observations in any order, symbolic values, limits 0 to 3") { static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int k = sv::integer("order", 1, 5), mp = sv::integer("max_points", 0, 3); vec o = symvec("o", 3), b = symvec("b", 3); ivec I = {PM[k][0], PM[k][1], PM[k][2]}; vec x; vec2 pk; for (int i : I) { x.push_back(i + 1); pk.push_back(YB[i]); } Table st(FG, FP); vec2 q = run(at({0}), {b}, line(3), o, SG, YB, st, mp), r = run(at({0}), {b}, at(x), pick(o, I), pick(SG, I), pk, st, mp); for (int e = 0; e < 3; e++) check(close(q[0][e], r[0][e], 1e-3), "independent of the order"); }
SV_HARNESS(limit, "three observations with symbolic distinct correlations, limit 1: only the most correlated is used") { vec g = symvec("g", 3, 0.0625, 0.9375); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) sv::assume(lnot(eq(g[i], g[j]))); vec o = symvec("o", 3, -10, 10); vec2 pb = {{1, -1}, {2, -2}, {0.5f, -0.5f}}; vec b = {1, 5}; Table st(g, FP); vec2 q = run(at({0}), {b}, line(3), o, SG, pb, st, 1); int m = 0; for (int i = 1; i < 3; i++) if (sv::decide(lt(g[m], g[i]))) m = i; vec2 r = run(at({0}), {b}, at({m + 1.f}), {o[m]}, {SG[m]}, {pb[m]}, st, 0); for (int e = 0; e < 2; e++) check(close(q[0][e], r[0][e], 1e-3), "the most correlated observation"); }
static void clampm(int S, bool wide) { vec o = symvec("o", S, -10, 10), b = symvec("b", 3, -10, 10); if (!wide) { b[1] = 2; b[2] = 1; } Table st({0.9f, 0.8f, 0.7f}, FP); vec2 q = run(at({0}), {b}, line(S), o, cut(SG, S), cut(YB, S), st, 0, false), f = run(at({0}), {b}, line(S), o, cut(SG, S), cut(YB, S), st, 0, true);
    for (int e = 0; e < 3; e++) { double lo = 0, hi = 0, inc = (double) q[0][e] - b[e], raw = (double) f[0][e] - b[e]; for (int i = 0; i < S; i++) { double d = (double) o[i] - YB[i][e]; lo = sv::dmin(lo, d); hi = sv::dmax(hi, d); } check(land(le(lo - 1e-3, inc), le(inc, hi + 1e-3)), "the increment stays within the member's innovations and zero"); check(imp(land(le(lo + 1e-3, raw), le(raw, hi - 1e-3)), close(inc, raw, 1e-3)), "an increment within the range is not changed"); } }
SV_HARNESS(clamp_one, "extrapolation disallowed: 3 members, 1 observation, symbolic value and background members") { clampm(1, true); }
SV_HARNESS(clamp_two, "extrapolation disallowed: 3 members, 2 observations, symbolic values and one background member") { clampm(2, false); }
SV_HARNESS_T(clamp_two_wide, "extrapolation disallowed: 3 members, 2 observations, symbolic values and background members") { clampm(2, true); }
SV_HARNESS(grid, "2x2 grid and the same four points, symbolic members and observations") {
    vec3 b = symvec3("b", 2, 2, 2); vec o = symvec("o", 2); vec2 lat, lon; lattice(2, 2, 1, 1, lat, lon); gridpp::CressmanStructure s(1.8, 0, 0); auto g = cgrid(lat, lon); vec2 pb = {{1, 2}, {0.5f, -1}}; gridpp::Points obs = at({0.5, 1.75}); int mp = sv::integer("max_points", 0, 1); vec3 q = gridpp::optimal_interpolation_ensi(g, b, obs, o, {0.5f, 1}, pb, s, mp, true); vec2 r = run(g.to_points(), {b[0][0], b[0][1], b[1][0], b[1][1]}, obs, o, {0.5f, 1}, pb, s, mp);
    if (q.size() != 2 || !dims(r, 4, 2)) { check(false, "one value per cell and member"); return; } for (int i = 0; i < 4; i++) for (int e = 0; e < 2; e++) check(close(q[i / 2][i % 2][e], r[i][e], 1e-4), "gridded equals pointwise");
}
SV_HARNESS(empty, "no observations: gridded and pointwise background returned") { vec2 b = symvec2("b", 2, 2, -100, 100, sv::OPT); gridpp::CressmanStructure s(2, 0, 0); vec2 q = run(at({0, 1}), b, at({}), {}, {}, {}, s); vec3 g = gridpp::optimal_interpolation_ensi(cgrid({{0, 0}}, {{0, 1}}), {b}, at({}), {}, {}, {}, s, 0, true); check(dims(q, 2, 2) && g.size() == 1 && dims(g[0], 2, 2), "sizes"); for (int i = 0; i < 2; i++) for (int e = 0; e < 2; e++) { check(sv::same(q[i][e], b[i][e]), "background"); check(sv::same(g[0][i][e], b[i][e]), "background"); } }
SV_HARNESS(reject, "each input one element too short or too long or empty, ensemble sizes differ, negative limit, mixed coordinate types") {
    int which = sv::integer("which", 0, 7); bool grid = sv::flag("grid"); int ch = sv::integer("change", 0, 2), d = ch == 2 ? -2 : ch ? 1 : -1; auto k = [&](int w, int n) { return n + (w == which ? d : 0); }; gridpp::Points obs = which == 6 ? gridpp::Points(vec{0, 0}, vec{2, 3}) : at({2, 3}); int mp = which == 5 ? -1 : 0; gridpp::CressmanStructure s(5, 0, 0); vec2 b(k(0, 2), vec(3, 1)), pb(k(3, 2), vec(k(4, 3), 1)); if (which == 7) pb[1].resize(3 + d, 1); vec o(k(1, 2), 1), sg(k(2, 2), 1);
    check(throws([&] { if (grid) gridpp::optimal_interpolation_ensi(cgrid({{0, 0}}, {{0, 1}}), b.empty() ? vec3() : vec3{b}, obs, o, sg, pb, s, mp, true); else run(at({0, 1}), b, obs, o, sg, pb, s, mp); }), "mismatching inputs are rejected");
}
SV_HARNESS(two_ranges_, "the range of the structure depends on the place: points at 0 and 2 with ranges of 0.1 to 6 each, observations at 1 and 4: every point as if alone") {
    TwoRanges s = two_ranges(); vec2 b = symvec2("b", 2, 3); vec o = symvec("o", 2), x = {0, 2}; vec2 pb = {{1, 2, 3}, {2, 1, 0}}; vec2 q = run(at(x), b, at({1, 4}), o, {1, 0.5}, pb, s); for (int i = 0; i < 2; i++) { vec2 r = run(at({x[i]}), {b[i]}, at({1, 4}), o, {1, 0.5}, pb, s); for (int e = 0; e < 3; e++) check(close(q[i][e], r[0][e], 1e-3), "analysis as if alone"); }
}
