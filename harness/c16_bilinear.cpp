#include "common.h"
static gridpp::Points pt(float y, float x) { return gridpp::Points({y}, {x}, vec(), vec(), gridpp::Cartesian); }
// value of a closest node (ties may go either way)
static sv::B of_nearest(const vec2& la, const vec2& lo, double qy, double qx, double out, const vec2& v) {
    sv::B any = sv::mk(false); int Y = la.size(), X = la[0].size(); auto d = [&](int i, int j) { double a = la[i][j] - qy, b = lo[i][j] - qx; return a * a + b * b; };
    for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) { sv::B m = sv::same(out, v[i][j]); for (int k = 0; k < Y; k++) for (int l = 0; l < X; l++) if (k != i || l != j) m = land(m, le(d(i, j), d(k, l) + 1e-6)); any = lor(any, m); } return any;
}
// rectangular grids: axis a varies along rows, b along columns; transposed swaps latitude and longitude; signs flip directions
struct Rect { vec a, b; bool tr; vec2 la, lo; Rect(vec a_, vec b_, bool t) : a(a_), b(b_), tr(t) { la.assign(a.size(), vec(b.size())); lo = la; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { (tr ? lo : la)[i][j] = a[i]; (tr ? la : lo)[i][j] = b[j]; } } };
static void rect_body(const Rect& r, const vec2& v, float qa, float qb, bool range) {
    float qy = r.tr ? qb : qa, qx = r.tr ? qa : qb; auto g = cgrid(r.la, r.lo); double out = gridpp::bilinear(g, pt(qy, qx), v)[0]; int Y = r.a.size(), X = r.b.size();
    auto lo_ = [](double p, double q) { return std::min(p, q); }; auto hi_ = [](double p, double q) { return std::max(p, q); };
    double a0 = lo_(r.a[0], r.a[Y - 1]), a1 = hi_(r.a[0], r.a[Y - 1]), b0 = lo_(r.b[0], r.b[X - 1]), b1 = hi_(r.b[0], r.b[X - 1]);
    sv::B out_ = lor(lor(lt(qa, a0), lt(a1, qa)), lor(lt(qb, b0), lt(b1, qb))); bool any = false, miss = false; for (auto& w : v) for (float f : w) miss = miss || !sv::isnum(f);
    if (sv::decide(out_)) { check(of_nearest(r.la, r.lo, qy, qx, out, v), "outside the grid: nearest value"); return; }
    for (int i = 0; i + 1 < Y && !any; i++) for (int j = 0; j + 1 < X && !any; j++) {
        double p = r.a[i], q = r.a[i + 1], s = r.b[j], t = r.b[j + 1];
        if (!sv::decide(land(land(le(lo_(p, q), qa), le(qa, hi_(p, q))), land(le(lo_(s, t), qb), le(qb, hi_(s, t)))))) continue; any = true;
        double v00 = v[i][j], v10 = v[i + 1][j], v01 = v[i][j + 1], v11 = v[i + 1][j + 1];
        if (!sv::isnum(v00) || !sv::isnum(v10) || !sv::isnum(v01) || !sv::isnum(v11)) { sv::B strict = land(land(lt(lo_(p, q), qa), lt(qa, hi_(p, q))), land(lt(lo_(s, t), qb), lt(qb, hi_(s, t)))); check(imp(strict, of_nearest(r.la, r.lo, qy, qx, out, v)), "missing corner: nearest value"); return; }
        if (miss && !sv::decide(land(land(lt(lo_(p, q), qa), lt(qa, hi_(p, q))), land(lt(lo_(s, t), qb), lt(qb, hi_(s, t)))))) return; // on a shared edge either cell may be used
        double u = ((double) qa - p) / (q - p), w = ((double) qb - s) / (t - s);
        check(close(out, v00 * (1 - u) * (1 - w) + v10 * u * (1 - w) + v01 * (1 - u) * w + v11 * u * w, 0.02), "bilinear formula");
        if (range) { check(le(sv::dmin(sv::dmin(v00, v01), sv::dmin(v10, v11)) - 0.02, out), "no undershoot"); check(le(out, sv::dmax(sv::dmax(v00, v01), sv::dmax(v10, v11)) + 0.02), "no overshoot"); }
    }
    check(any, "every inside point is in a cell");
}
static vec ax(int k, int n, bool rev) { vec r = k == 0 ? vec{0, 2, 3} : vec{-1, 2, 3.5f}; r.resize(n); if (rev) std::reverse(r.begin(), r.end()); return r; }
SV_HARNESS(rectangle, "2x2 rectangular grids in all 8 orientations, symbolic query inside and outside, symbolic corner values") { Rect r(ax(0, 2, sv::flag("ra")), ax(1, 2, sv::flag("rb")), sv::flag("tr")); vec2 v = symvec2("v", 2, 2, -10, 10); rect_body(r, v, sv::f32("qa", -1, 4), sv::f32("qb", -2, 4), false); }
SV_HARNESS(range, "2x2 rectangular grid, symbolic query and corner values: no over- or undershoot") { Rect r(ax(0, 2, false), ax(1, 2, false), false); vec2 v = symvec2("v", 2, 2, -10, 10); rect_body(r, v, sv::f32("qa", 0, 2), sv::f32("qb", -1, 2), true); }
SV_HARNESS(cells, "3x3 uneven rectangular grid in all 8 orientations, symbolic query, distinct concrete values") { Rect r(ax(0, 3, sv::flag("ra")), ax(1, 3, sv::flag("rb")), sv::flag("tr")); vec2 v = {{1, 10, 3}, {-2, 4, 8}, {5, -7, 20}}; rect_body(r, v, sv::f32("qa", -1, 4), sv::f32("qb", -2, 5), false); }
SV_HARNESS(missing_corner, "3x3 grid with one missing node (any), symbolic query, distinct values") { Rect r(ax(0, 3, false), ax(1, 3, false), false); vec2 v = {{1, 10, 3}, {-2, 4, 8}, {5, -7, 20}}; int m = sv::integer("missing", 0, 8); v[m / 3][m % 3] = NaN; rect_body(r, v, sv::f32("qa", -1, 4), sv::f32("qb", -2, 5), false); }
SV_HARNESS(narrow, "grids with a single row or column: always the nearest value") { bool row = sv::flag("row"); vec2 la = row ? vec2{{0, 1, 3}} : vec2{{0}, {1}, {3}}, lo = row ? vec2{{0, 2, 3}} : vec2{{0}, {2}, {3}}, v = row ? vec2{{1, 2, 3}} : vec2{{1}, {2}, {3}}; float qy = sv::f32("qy", -2, 5), qx = sv::f32("qx", -2, 5); check(of_nearest(la, lo, qy, qx, gridpp::bilinear(cgrid(la, lo), pt(qy, qx), v)[0], v), "nearest value"); }
// quads: corners (y,x) in order [0][0],[1][0],[0][1],[1][1]; the query is the image of symbolic (s,t)
static void quad_body(const float (&y)[4], const float (&x)[4], const vec2& v, double s, double t) {
    vec2 la = {{y[0], y[2]}, {y[1], y[3]}}, lo = {{x[0], x[2]}, {x[1], x[3]}}; auto m = [&](double c0, double c1, double c2, double c3) { return c0 * (1 - s) * (1 - t) + c1 * s * (1 - t) + c2 * (1 - s) * t + c3 * s * t; };
    double out = gridpp::bilinear(cgrid(la, lo), pt(m(y[0], y[1], y[2], y[3]), m(x[0], x[1], x[2], x[3])), v)[0]; check(close(out, m(v[0][0], v[1][0], v[0][1], v[1][1]), 0.3), "image of (s,t) gets the bilinear value at (s,t)");
}
static const float PAR[6][8] = {{0, 1, 0, 1, 0, 0.5f, 1, 1.5f}, {0, 0.75f, -0.75f, 0, 0, 0.75f, 0.75f, 1.5f}, {0, 0, 1, 1, 0, 2, 0.25f, 2.25f}, {2, 1, 2.5f, 1.5f, 1, 0.75f, -1, -1.25f}, {0, -0.6f, 0.8f, 0.2f, 0, 0.8f, 0.6f, 1.4f}, {50, 50.5f, 50, 50.5f, 10, 10, 12, 12}};
SV_HARNESS(parallelogram, "6 parallelogram cells (rotated, sheared, transposed), symbolic (s,t), symbolic values") { int k = sv::integer("cell", 0, 5); float y[4], x[4]; for (int i = 0; i < 4; i++) { y[i] = PAR[k][i]; x[i] = PAR[k][4 + i]; } vec2 v = {{1, 9}, {4, -6}}; quad_body(y, x, v, sv::f32("s", 0.02, 0.98), sv::f32("t", 0.02, 0.98)); }
// trapezoid with parallel sides of length 2 and 1, in all 8 orientations
static void orient(int o, float (&y)[4], float (&x)[4]) { if (o & 1) for (auto& e : y) e = -e; if (o & 2) for (auto& e : x) e = -e; if (o & 4) for (int i = 0; i < 4; i++) std::swap(y[i], x[i]); }
static void shuffle(int o, float (&y)[4], float (&x)[4]) { if (o & 1) { std::swap(y[0], y[1]); std::swap(y[2], y[3]); std::swap(x[0], x[1]); std::swap(x[2], x[3]); } if (o & 2) { std::swap(y[0], y[2]); std::swap(y[1], y[3]); std::swap(x[0], x[2]); std::swap(x[1], x[3]); } if (o & 4) { std::swap(y[1], y[2]); std::swap(x[1], x[2]); } }
SV_HARNESS(trapezoid, "a trapezoidal cell in all 8 corner orders and 8 mirror images, symbolic (s,t)") { float y[4] = {0, 1, 0, 1}, x[4] = {0, 0.25f, 2, 1.5f}; orient(sv::integer("mirror", 0, 7), y, x); shuffle(sv::integer("order", 0, 7), y, x); quad_body(y, x, {{1, 9}, {4, -6}}, sv::f32("s", 0.02, 0.98), sv::f32("t", 0.02, 0.98)); }
SV_HARNESS(skew_trapezoid, "a trapezoidal cell whose parallel sides are not along an axis, in all 8 corner orders, symbolic (s,t)") { float y[4] = {0, 1, 2, 2}, x[4] = {0, 0, 2, 1}; shuffle(sv::integer("order", 0, 7), y, x); quad_body(y, x, {{1, 9}, {4, -6}}, sv::f32("s", 0.02, 0.98), sv::f32("t", 0.02, 0.98)); }
SV_HARNESS(quad, "a general convex cell in all 8 corner orders, symbolic (s,t)") { float y[4] = {0, 1, 0.25f, 1.5f}, x[4] = {0, 0.25f, 2, 1.75f}; shuffle(sv::integer("order", 0, 7), y, x); quad_body(y, x, {{1, 9}, {4, -6}}, sv::f32("s", 0.02, 0.98), sv::f32("t", 0.02, 0.98)); }
SV_HARNESS(forms, "grid, point and member forms agree; symbolic query and values, with a missing corner or not, in either member") {
    Rect r(ax(0, 2, false), ax(1, 2, false), false); vec2 v = symvec2("v", 2, 2, -10, 10), w = {{1, 2}, {3, 4}}; bool m = sv::flag("members"); int miss = sv::integer("missing", 0, m ? 3 : 1); if (miss & 1) v[0][1] = NaN; if (miss & 2) w[0][1] = NaN; float qy = sv::f32("qy", -1, 3), qx = sv::f32("qx", -2, 3); auto g = cgrid(r.la, r.lo); auto o1 = gridpp::Points({qy, 1}, {qx, 0.5f}, vec(), vec(), gridpp::Cartesian); auto o2 = cgrid({{qy}, {1}}, {{qx}, {0.5f}});
    vec a = gridpp::bilinear(g, o1, v); vec b0, c0, d0; if (!m) { vec2 q = gridpp::bilinear(g, o2, v); check(dims(q, 2, 1) && a.size() == 2, "sizes"); for (int i = 0; i < 2; i++) check(sv::same(q[i][0], a[i]), "grid form"); vec n = gridpp::downscaling(g, o1, v, gridpp::Bilinear); for (int i = 0; i < 2; i++) check(sv::same(n[i], a[i]), "generic form"); }
    else { vec3 e = {w, v}; vec2 q = gridpp::bilinear(g, o1, e); vec3 p = gridpp::bilinear(g, o2, e); vec wa = gridpp::bilinear(g, o1, w); check(dims(q, 2, 2) && p.size() == 2 && dims(p[0], 2, 1) && dims(p[1], 2, 1), "sizes"); for (int i = 0; i < 2; i++) { check(sv::same(q[1][i], a[i]), "member form"); check(sv::same(p[1][i][0], a[i]), "member grid form"); check(sv::same(q[0][i], wa[i]), "member form"); check(sv::same(p[0][i][0], wa[i]), "member grid form"); } vec2 n = gridpp::downscaling(g, o1, e, gridpp::Bilinear); vec3 n3 = gridpp::downscaling(g, o2, e, gridpp::Bilinear); for (int i = 0; i < 2; i++) { check(sv::same(n[1][i], a[i]), "generic member form"); check(sv::same(n3[1][i][0], a[i]), "generic member grid form"); } }
}
SV_HARNESS(reject, "values of size 0..3 x 0..3 on a 2x2 grid") { Rect r(ax(0, 2, false), ax(1, 2, false), false); auto g = cgrid(r.la, r.lo); auto o = pt(1, 1); auto og = cgrid({{1}}, {{1}}); int Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 3); if (Y == 0 && X) return; vec2 v(Y, vec(X, 1)); bool bad = Y != 2 || X != 2; check(throws([&] { gridpp::bilinear(g, o, v); }) == bad, "size checked"); check(throws([&] { gridpp::bilinear(g, og, v); }) == bad, "size checked"); vec3 w(2, v); check(throws([&] { gridpp::bilinear(g, o, w); }) == bad, "size checked"); check(throws([&] { gridpp::bilinear(g, og, w); }) == bad, "size checked"); }
SV_HARNESS(empty_output, "empty output domains") { Rect r(ax(0, 2, false), ax(1, 2, false), false); auto g = cgrid(r.la, r.lo); gridpp::Points e; gridpp::Grid h; vec2 v(2, vec(2, 1)); vec3 w(2, v); check(gridpp::bilinear(g, e, v).empty() && gridpp::bilinear(g, h, v).empty(), "empty"); check(gridpp::bilinear(g, e, w).size() == 2 && gridpp::bilinear(g, h, w).size() == 2, "empty per member"); }
SV_HARNESS(geodetic, "geodetic rectangular cell, 9 concrete queries, symbolic values") { vec2 la = {{60, 60}, {61, 61}}, lo = {{10, 12}, {10, 12}}; vec2 v = symvec2("v", 2, 2, -10, 10); int i = sv::integer("i", 0, 2), j = sv::integer("j", 0, 2); double u = 0.25 + i * 0.25, w = 0.25 + j * 0.25; double out = gridpp::bilinear(gridpp::Grid(la, lo), gridpp::Points({float(60 + u)}, {float(10 + 2 * w)}), v)[0]; check(close(out, v[0][0] * (1 - u) * (1 - w) + v[1][0] * u * (1 - w) + v[0][1] * (1 - u) * w + v[1][1] * u * w, 0.01), "bilinear in latitude and longitude"); }
