#include "common.h"
#include "oi.h"
// C40: the result does not depend on the number of threads or the order they run in, and no iteration of a parallel loop touches memory another one writes
static void flat(dvec& o, float v) { o.push_back(v); }
template<class T> static void flat(dvec& o, const std::vector<T>& v) { for (const auto& x : v) flat(o, x); }
template<class F> static dvec run(F f) { dvec o; try { flat(o, f()); } catch (const std::exception&) { o.assign(1, NAN); } return o; }
template<class F> static void par(F f) {
    sv::omp(1, false); dvec a = run(f);
    sv::omp(3, true); dvec b = run(f);
    sv::omp_log(true); dvec c = run(f); sv::omp_log(false); sv::omp(1, false);
    check(sv::omp_conflict().empty(), "no two iterations touch the same memory, one of them writing");
    check(a.size() == b.size() && a.size() == c.size(), "same size for every schedule"); if (a.size() != b.size() || a.size() != c.size()) return;
    sv::B e = sv::mk(true); for (size_t i = 0; i < a.size(); i++) e = land(e, land(sv::same(a[i], b[i]), sv::same(a[i], c[i]))); check(e, "same result for every schedule");
}
struct G2 { vec2 la, lo; gridpp::Grid ig, og; gridpp::Points ip, op; G2() { lattice(2, 3, 2, 2, la, lo); vec2 e = {{1, 2, 3}, {4, 5, 6}}; ig = cgrid(la, lo, e, e); vec2 a, b; lattice(2, 2, 1.25, 1.5, a, b); for (auto& r : a) for (auto& v : r) v += 0.3f; vec2 e2 = {{2, 1}, {0, 7}}; og = cgrid(a, b, e2, e2); ip = gridpp::Points({0.1f, 1, 2.3f}, {0.2f, 3, 1}, {1, 2, 3}, {1, 2, 3}, gridpp::Cartesian); op = gridpp::Points({0.3f, 1.7f, 0.9f}, {1.6f, 2.2f, 0.1f}, {3, 2, 1}, {3, 2, 1}, gridpp::Cartesian); } };
#define V2(n) symvec2(n, 2, 3, -100, 100)
static vec2 v2(const char* n) { vec2 v = V2(n); v[0][1] = sv::f32((std::string(n) + "m").c_str(), -100, 100, sv::OPT); return v; }
static vec3 v3(const char* n, int T = 2) { vec3 v; for (int t = 0; t < T; t++) v.push_back(v2((std::string(n) + char('a' + t)).c_str())); return v; }
static vec v1(const char* n, int N = 3) { vec v = symvec(n, N); v[1] = sv::f32((std::string(n) + "m").c_str(), -100, 100, sv::OPT); return v; }

SV_HARNESS(neighbourhood, "4x3 field, one value optionally missing, half-width 1, all statistics; 2D, 3D (2 members), brute force") {
    vec2 f = symvec2("f", 4, 3); f[1][1] = sv::f32("fm", -100, 100, sv::OPT); auto s = symstat(); int k = sv::integer("form", 0, 3);
    vec3 g(4, vec2(3, vec(2))); for (int y = 0; y < 4; y++) for (int x = 0; x < 3; x++) { g[y][x][0] = f[y][x]; g[y][x][1] = y + x; }
    bool med = s == gridpp::Median; if ((k >= 2 || med) && !(s == gridpp::Mean || s == gridpp::Max)) { if (med) s = gridpp::Mean; }
    par([&] { return k == 0 ? gridpp::neighbourhood(f, 1, s) : k == 1 ? gridpp::neighbourhood(g, 1, s) : k == 2 ? gridpp::neighbourhood_brute_force(f, 1, s) : gridpp::neighbourhood_brute_force(g, 1, s); });
}
SV_HARNESS(neighbourhood_quantile, "3x2 field, one value symbolic or missing, half-width 1; exact and approximate (one level, level field)") {
    vec2 f(3, vec(2)); int k = sv::integer("form", 0, 5); vec th = {-10, 0, 10}; vec2 q(3, vec(2, 0.3f)); q[1][0] = 0.8f;
    vec3 g(3, vec2(2, vec(1))); for (int y = 0; y < 3; y++) for (int x = 0; x < 2; x++) g[y][x][0] = f[y][x];
    { for (int y = 0; y < 3; y++) for (int x = 0; x < 2; x++) { f[y][x] = 5 * y - 9 * x; g[y][x][0] = f[y][x]; } f[0][0] = g[0][0][0] = sv::f32("v", -100, 100, sv::OPT); }
    par([&] { return k == 0 ? gridpp::neighbourhood_quantile(f, 0.4f, 1) : k == 1 ? gridpp::neighbourhood_quantile(g, 0.4f, 1) : k == 2 ? gridpp::neighbourhood_quantile_fast(f, 0.4f, 1, th) : k == 3 ? gridpp::neighbourhood_quantile_fast(g, 0.4f, 1, th) : k == 4 ? gridpp::neighbourhood_quantile_fast(f, q, 1, th) : gridpp::neighbourhood_quantile_fast(g, q, 1, th); });
}
SV_HARNESS(window, "3x4 array, one value optionally missing, length 3, all statistics, both window kinds") {
    vec2 f = symvec2("f", 3, 4); f[1][1] = sv::f32("fm", -100, 100, sv::OPT); auto s = symstat(); bool b = sv::flag("before"), k = sv::flag("keep"), e = sv::flag("edges"); if (s == gridpp::Median) for (int y = 0; y < 3; y += 2) for (int x = 0; x < 4; x++) f[y][x] = x;
    par([&] { return gridpp::window(f, 3, s, b, k, e); });
}
SV_HARNESS(gradients, "local gradients of a 3x3 field, one value optionally missing, both methods") {
    vec2 f = symvec2("f", 3, 3); f[1][1] = sv::f32("fm", -100, 100, sv::OPT); vec2 b = {{1, 2, 4}, {3, 7, 5}, {9, 8, 6}}; auto t = sv::flag("minmax") ? gridpp::MinMax : gridpp::LinearRegression;
    par([&] { return gridpp::calc_gradient(b, f, t, 1, 2, gridpp::MV, 0.5f); });
}
SV_HARNESS(curves, "3 values, one optionally missing; curves of 2 points; vector and spatially varying form, Zero and MeanSlope extrapolation") {
    vec f = v1("f"); auto p = sv::flag("slope") ? gridpp::MeanSlope : gridpp::Zero; bool sp = sv::flag("varying"); vec r = symvec("r", 2), c = {-5, 5}; vec2 f2 = {f}; vec3 r3 = {{r, {1, 2}, {3, 4}}}, c3 = {{c, c, {0, 1}}};
    par([&] { return sp ? gridpp::apply_curve(f2, r3, c3, p, p) : vec2{gridpp::apply_curve(f, r, c, p, p)}; });
}
SV_HARNESS(nearest, "2x3 grid and 3 points to a 2x2 grid and 3 points, 1 or 2 times; all 8 forms; values symbolic, one optionally missing") {
    G2 g; int k = sv::integer("form", 0, 7); vec2 f = v2("f"); vec3 f3 = v3("g"); vec p = v1("p"); vec2 p2 = {p, v1("q")};
    par([&] { vec3 r; switch (k) { case 0: r = {gridpp::nearest(g.ig, g.og, f)}; break; case 1: r = gridpp::nearest(g.ig, g.og, f3); break; case 2: r = {{gridpp::nearest(g.ig, g.op, f)}}; break; case 3: r = {gridpp::nearest(g.ig, g.op, f3)}; break; case 4: r = {{gridpp::nearest(g.ip, g.op, p)}}; break; case 5: r = {gridpp::nearest(g.ip, g.op, p2)}; break; case 6: r = {gridpp::nearest(g.ip, g.og, p)}; break; default: r = gridpp::nearest(g.ip, g.og, p2); } return r; });
}
SV_HARNESS(bilinear, "2x3 grid to a 2x2 grid and 3 points, 1 or 2 times; all 4 forms; values symbolic, one optionally missing") {
    G2 g; int k = sv::integer("form", 0, 3); vec2 f = v2("f"); vec3 f3 = v3("g");
    par([&] { vec3 r; switch (k) { case 0: r = {gridpp::bilinear(g.ig, g.og, f)}; break; case 1: r = gridpp::bilinear(g.ig, g.og, f3); break; case 2: r = {{gridpp::bilinear(g.ig, g.op, f)}}; break; default: r = {gridpp::bilinear(g.ig, g.op, f3)}; } return r; });
}
SV_HARNESS(gradient_downscaling, "simple_gradient (4 forms) and full_gradient (4 forms) on the same geometry, both downscalers") {
    G2 g; int k = sv::integer("form", 0, 7); auto d = sv::flag("bilinear") ? gridpp::Bilinear : gridpp::Nearest; vec2 f = v2("f"), e = v2("e"), l = v2("l"); vec3 f3 = {f, V2("f2")}, e3 = {e, V2("e2")}, l3 = {l, V2("l2")}; float gr = sv::f32("gradient");
    par([&] { vec3 r; switch (k) { case 0: r = {gridpp::simple_gradient(g.ig, g.og, f, gr, d)}; break; case 1: r = gridpp::simple_gradient(g.ig, g.og, f3, gr, d); break; case 2: r = {{gridpp::simple_gradient(g.ig, g.op, f, gr, d)}}; break; case 3: r = {gridpp::simple_gradient(g.ig, g.op, f3, gr, d)}; break;
        case 4: r = {gridpp::full_gradient(g.ig, g.og, f, e, l, d)}; break; case 5: r = gridpp::full_gradient(g.ig, g.og, f3, e3, l3, d); break; case 6: r = {{gridpp::full_gradient(g.ig, g.op, f, e, l, d)}}; break; default: r = {gridpp::full_gradient(g.ig, g.op, f3, e3, l3, d)}; } return r; });
}
SV_HARNESS(probability_and_mask, "2x3 grid with 2 members to a 2x2 grid; values and thresholds symbolic, some optionally missing") {
    G2 g; int k = sv::integer("form", 0, 2); vec3 t(2, vec2(3, vec(2))), f = t, h = t; for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) for (int e = 0; e < 2; e++) { t[y][x][e] = 10 * y + x + e; f[y][x][e] = -t[y][x][e]; h[y][x][e] = y - x + e; }
    h[0][1][0] = sv::f32("h0", -9, 9, sv::OPT); h[1][1][1] = sv::f32("h1", -9, 9, sv::OPT); t[0][1][1] = sv::f32("t", -9, 9, sv::OPT); vec2 th = {{1, sv::f32("th", -9, 9)}, {0, 2}}; auto c = gridpp::Leq;
    par([&] { return k == 0 ? gridpp::downscale_probability(g.ig, g.og, h, th, c) : k == 1 ? gridpp::mask_threshold_downscale_consensus(g.ig, g.og, t, f, h, th, c, gridpp::Mean) : gridpp::mask_threshold_downscale_quantile(g.ig, g.og, t, f, h, th, c, 0.4f); });
}
SV_HARNESS(gridding, "3 observations (one optionally missing) to a 2x2 grid and 3 points: gridding, gridding_nearest, count and distance, all forms") {
    G2 g; int k = sv::integer("form", 0, 11); vec v = v1("v"); auto s = sv::flag("max") ? gridpp::Max : gridpp::Mean;
    par([&] { vec2 r; switch (k) { case 0: r = gridpp::gridding(g.og, g.ip, v, 1.7f, 1, s); break; case 1: r = {gridpp::gridding(g.op, g.ip, v, 1.7f, 1, s)}; break; case 2: r = gridpp::gridding_nearest(g.og, g.ip, v, 1, s); break; case 3: r = {gridpp::gridding_nearest(g.op, g.ip, v, 1, s)}; break;
        case 4: r = {gridpp::count(g.ig, g.op, 1.7f)}; break; case 5: r = gridpp::count(g.ig, g.og, 1.7f); break; case 6: r = gridpp::count(g.ip, g.og, 1.7f); break; case 7: r = {gridpp::count(g.ip, g.op, 1.7f)}; break;
        case 8: r = {gridpp::distance(g.ig, g.op, 2)}; break; case 9: r = gridpp::distance(g.ig, g.og, 2); break; case 10: r = gridpp::distance(g.ip, g.og, 2); break; default: r = {gridpp::distance(g.ip, g.op, 2)}; } return r; });
}
SV_HARNESS(diagnostics, "3 elements, one optionally missing: humidity, pressure, wind array forms") {
    int k = sv::integer("form", 0, 7); auto S = [](const char* n, double lo, double hi) { vec v(3, lo + (hi - lo) / 3); v[0] = sv::f32((std::string(n) + "0").c_str(), lo, hi); v[1] = sv::f32((std::string(n) + "1").c_str(), lo, hi, sv::OPT); return v; };
    vec t = S("t", 260, 290), r = S("r", 0.1, 1), p = S("p", 90000, 101000), z = S("z", 0, 500);
    par([&] { switch (k) { case 0: return gridpp::dewpoint(t, r); case 1: return gridpp::relative_humidity(t, t); case 2: return gridpp::wetbulb(t, p, r); case 3: return gridpp::pressure(z, vec(3, 100), p, t); case 4: return gridpp::sea_level_pressure(p, z, t, r, vec(3, NaN)); case 5: return gridpp::qnh(p, z); case 6: return gridpp::wind_speed(t, r); default: return gridpp::wind_direction(t, r); } });
}
SV_HARNESS(optimal_interpolation, "3 background values (one optionally missing), 2 observations (one optionally missing) with given correlations; values and variances; grid and point forms; static point correlations") {
    int k = sv::integer("form", 0, 3); gridpp::Points b({0, 0.5f, 0}, {0, 1.5f, 40}, vec(), vec(), gridpp::Cartesian), p({0, 0}, {1, 2}, vec(), vec(), gridpp::Cartesian); gridpp::Grid g = cgrid({{0, 0.5f, 0}}, {{0, 1.5f, 40}}); Step s(3);
    vec f = v1("f"), o = {sv::f32("o0"), sv::f32("o1", -100, 100, sv::OPT)}; vec2 f2 = {f}; vec r = {1, 0.5f}, y = {0, sv::f32("y")};
    par([&] { vec2 v, q; vec v1_; if (k == 0) q = {gridpp::optimal_interpolation(b, f, p, o, r, y, s, 1)}; else if (k == 1) q = gridpp::optimal_interpolation(g, f2, p, o, r, y, s, 5, false); else if (k == 2) { q = {gridpp::optimal_interpolation_full(b, f, vec(3, 1), p, o, r, y, vec(2, 1), s, 0, v1_)}; q.push_back(v1_); } else q = gridpp::staticcorr_points(b, p, s, 1); return q; });
}
SV_HARNESS(local_correction, "1x3 background, 3 observations of which one optionally missing") {
    gridpp::Grid g = cgrid({{0, 0.5f, 0}}, {{0, 1.5f, 40}}); gridpp::Points p({0, 0, 0}, {1, 2, 2.5f}, vec(), vec(), gridpp::Cartesian); Step s(3); vec2 f = {{sv::f32("f", 0, 9), 2, 3}}; vec o = {1, sv::f32("o", 0, 9, sv::OPT), 4}, y = {2, 3, 1};
    par([&] { return gridpp::local_distribution_correction(g, f, p, o, y, s, 0.0f, 1.0f, 1); });
}
SV_HARNESS(score, "2x2 forecast, 3 observations, one optionally missing") {
    vec2 la, lo; lattice(2, 2, 2, 2, la, lo); gridpp::Grid g = cgrid(la, lo); gridpp::Points p({0.1f, 1.8f, 2.3f}, {0.2f, 1.6f, 0.3f}, vec(), vec(), gridpp::Cartesian); vec2 f = {{sv::f32("f", -9, 9), 1}, {-1, sv::f32("fm", -9, 9, sv::OPT)}}; vec o = {1, sv::f32("o", -9, 9, sv::OPT), -3};
    par([&] { return gridpp::neighbourhood_score(g, p, f, o, 1, gridpp::Pc, 0); });
}
SV_HARNESS(vectors, "interpolation of 3 values (one optionally missing) in a curve of 3 points") {
    vec x = v1("x"), a = {0, 1, 5}, b = symvec("b", 3);
    par([&] { return gridpp::interpolate(x, a, b); });
}
