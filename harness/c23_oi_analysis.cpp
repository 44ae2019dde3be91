#include "oi.h"
// reference: solves (P+R) w = d by Cramer's rule on terms
static double det(std::vector<dvec> m) { int n = m.size(); if (n == 1) return m[0][0]; if (n == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0]; double s = 0; for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3; s += m[0][j] * (m[1][a] * m[2][b] - m[1][b] * m[2][a]); } return s; }
static std::vector<dvec> sys(const vec2& P, const vec& r, int n) { std::vector<dvec> m(n, dvec(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = (double) P[i][j] + (i == j ? (double) r[i] : 0.); return m; }
// sum_i g_i w_i det where w solves the system with right-hand side d: numerators only
static double numer(const std::vector<dvec>& m, const vec& g, const dvec& d) { int n = m.size(); double s = 0; for (int i = 0; i < n; i++) { auto k = m; for (int j = 0; j < n; j++) k[j][i] = d[j]; s += g[i] * det(k); } return s; }
SV_HARNESS(one, "one observation: symbolic correlation, innovation, observation and background variance: the scalar Kalman update") {
    float g = sv::f32("g", 0.01, 1), o = sv::f32("obs"), y = sv::f32("y"), b = sv::f32("b"), r = sv::f32("r", 0.1, 10), bv = sv::f32("bv", 0.1, 10), bp = 2; Table s({g}, {{1}}); Res e = oi1(line(1), {o}, {r}, {y}, s, 0, true, b, bv, {bp}); double k = (1 + (double) r / bp); check(close(e.a * k, b * k + g * ((double) o - y), 1e-2), "analysis"); check(close(e.v * k, bv * (k - (double) g * g), 1e-3), "analysis variance");
}
static void two(bool symr) {
    vec g = symvec("g", 2, 0.05, 1), o = symvec("obs", 2, -10, 10), r = symr ? symvec("r", 2, 0.25, 4) : vec{0.5, 2}; float p = symr ? 0.5f : sv::f32("p", 0, 0.9375); float b = sv::f32("b", -10, 10); vec2 P = {{1, p}, {p, 1}}; Table s(g, P); Res e = oi1(line(2), o, r, {0, 0}, s, 0, true, b, 3); auto m = sys(P, r, 2); double D = det(m); check(close((e.a - b) * D, numer(m, g, {o[0], o[1]}), 1e-2), "analysis"); check(close((3 - e.v) * D, 3 * numer(m, g, {g[0], g[1]}), 1e-3), "analysis variance");
}
SV_HARNESS(two_ratios, "two observations: symbolic correlations to the analysis point, innovations and variances") { two(true); }
SV_HARNESS(two_correlations, "two observations: symbolic correlations to the analysis point and with each other, symbolic innovations") { two(false); }
SV_HARNESS(three, "three observations, fixed correlations and variances (4 sets), symbolic observed values and backgrounds") {
    static const float RR[4][3] = {{0.5f, 1, 2}, {4, 0.25f, 1}, {0.125f, 0.125f, 0.125f}, {1, 3, 0.0625f}}; int k = sv::integer("set", 0, 3); vec r = {RR[k][0], RR[k][1], RR[k][2]}; vec o = symvec("obs", 3), y = symvec("y", 3); float b = sv::f32("b"); Table s(FG, FP); Res e = oi1(line(3), o, r, y, s, 0, true, b, 3); auto m = sys(FP, r, 3); check(close((e.a - b) * det(m), numer(m, FG, {(double) o[0] - y[0], (double) o[1] - y[1], (double) o[2] - y[2]}), 1e-2), "analysis"); check(close((3 - e.v) * det(m), 3 * numer(m, FG, {FG[0], FG[1], FG[2]}), 1e-4), "analysis variance");
}
SV_HARNESS(three_ratio, "three observations, fixed correlations, one symbolic variance, symbolic observed values") { vec r = {0.5, sv::f32("r", 0.25, 4), 2}; vec o = symvec("obs", 3, -10, 10); Table s(FG, FP); Res e = oi1(line(3), o, r, {0, 0, 0}, s); auto m = sys(FP, r, 3); check(close(e.a * det(m), numer(m, FG, {o[0], o[1], o[2]}), 1e-2), "analysis"); check(close((1 - e.v) * det(m), numer(m, FG, {FG[0], FG[1], FG[2]}), 1e-3), "analysis variance"); }
SV_HARNESS(order, "three observations in all 6 orders, symbolic values") { static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int k = sv::integer("order", 1, 5), mp = sv::integer("max_points", 0, 3); vec o = symvec("obs", 3), y = symvec("y", 3), r = {0.5, 1, 2}; Table s(FG, FP); ivec I = {PM[k][0], PM[k][1], PM[k][2]}; vec x; for (int i : I) x.push_back(i + 1); Res a = oi1(line(3), o, r, y, s, mp), b = oi1(at(x), pick(o, I), pick(r, I), pick(y, I), s, mp); check(close(a.a, b.a, 1e-2), "independent of the order"); check(close(a.v, b.v, 1e-5), "variance independent of the order"); }
SV_HARNESS(forms, "a 2x3 or 3x2 grid and the same six points, the simple and the full form, symbolic background and observation values") {
    int Y = sv::flag("tall") ? 3 : 2, X = 5 - Y; vec2 b = symvec2("b", Y, X), v = symvec2("v", Y, X, 0, 10), lat, lon; lattice(Y, X, 1, 1, lat, lon); vec o = symvec("obs", 2), y = symvec("y", 2), r = symvec("r", 2, 0.25, 4); gridpp::CressmanStructure s(2.5, 0, 0); auto g = cgrid(lat, lon); bool ex = sv::flag("extrapolate"); gridpp::Points obs = at({0.5, 1.75}); vec2 av; vec av1; if (!ex) r = {1, 2};
    vec2 q = gridpp::optimal_interpolation_full(g, b, v, obs, o, r, y, {1, 1}, s, 0, av, ex), q2 = gridpp::optimal_interpolation(g, b, obs, o, r, y, s, 0, ex); vec b1, v1; for (int i = 0; i < 6; i++) { b1.push_back(b[i / X][i % X]); v1.push_back(v[i / X][i % X]); } vec q1 = gridpp::optimal_interpolation_full(g.to_points(), b1, v1, obs, o, r, y, {1, 1}, s, 0, av1, ex), q3 = gridpp::optimal_interpolation(g.to_points(), b1, obs, o, r, y, s, 0, ex);
    check(dims(q, Y, X) && dims(av, Y, X) && dims(q2, Y, X) && q1.size() == 6 && av1.size() == 6, "one value per cell"); for (int i = 0; i < 6; i++) { check(close(q[i / X][i % X], q1[i], 1e-5), "gridded equals pointwise"); check(close(q2[i / X][i % X], q3[i], 1e-5), "gridded equals pointwise (simple form)"); check(close(q1[i], q3[i], 1e-4), "simple form is the full form with unit variances"); check(close(av[i / X][i % X], av1[i], 1e-5), "gridded variance equals pointwise"); }
}
SV_HARNESS(variances, "scaling: the analysis depends on the ratio of observation to background variance; the analysis variance is proportional to the background variance") { float r = sv::f32("r", 0.25, 4), bp = sv::f32("bp", 0.5, 4), o = sv::f32("obs", -10, 10); Table s({0.5}, {{1}}); Res a = oi1(line(1), {o}, {r}, {0}, s, 0, true, 1, 2, {bp}); check(close((a.a - 1) * ((double) bp + r), 0.5 * bp * o, 1e-3), "ratio of the variances"); check(close((2 - a.v) * ((double) bp + r), 2 * 0.25 * bp, 1e-3), "variance explained"); }
SV_HARNESS(geometry, "one observation at a symbolic position with elevation, Cressman structure: background correlation at the observation's own position") { float x = sv::f32("x", -4, 4), e = sv::f32("e", -40, 40), o = sv::f32("obs", -10, 10); gridpp::CressmanStructure s(3, 50, 0); auto bp = gridpp::Points(vec{0}, vec{0}, vec{0}, vec{0}, gridpp::Cartesian), ob = gridpp::Points(vec{0}, vec{x}, vec{e}, vec{0}, gridpp::Cartesian); sv::assume(lor(lt(sv::dabs(x), 2.999), lt(3.001, sv::dabs(x)))); vec q = gridpp::optimal_interpolation(bp, {0}, ob, {o}, {1}, {0}, s, 0, true); double rho = s.corr(bp.get_point(0), ob.get_point(0)); check(close(q[0], rho * o / 2, 1e-3), "gain from the background correlation"); }
