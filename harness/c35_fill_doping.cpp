#include "common.h"
struct Setup { vec2 la, lo, el, f; int Y, X; gridpp::Grid g; };
static Setup mk(int Y, int X, bool elev) { Setup s; s.Y = Y; s.X = X; lattice(Y, X, 10, 10, s.la, s.lo); s.el = vec2(Y, vec(X, 0)); if (elev) s.el = symvec2("e", Y, X, 0, 100); s.f = symvec2("f", Y, X); s.g = cgrid(s.la, s.lo, s.el); return s; }
static double d2(const Setup& s, int y, int x, double qy, double qx) { double dy = s.la[y][x] - qy, dx = s.lo[y][x] - qx; return dy * dy + dx * dx; }
// cell within the radius; exactly on the boundary is outside the claim
static sv::B inside(const Setup& s, int y, int x, double qy, double qx, double r) { double d = d2(s, y, x, qy, qx); sv::assume(lor(le(d + 0.01, r * r), le(r * r + 0.01, d))); return lt(d, r * r); }
static gridpp::Points pts(const vec& y, const vec& x, const vec& e = vec()) { return gridpp::Points(y, x, e, vec(), gridpp::Cartesian); }
static void fill_body(int N, int Y, int X, bool symr) {
    Setup s = mk(Y, X, false); vec py = symvec("py", N, -15, 25), px = symvec("px", N, -15, 25), r(N); for (int i = 0; i < N; i++) r[i] = symr ? sv::f32(sv::idx("r", i).c_str(), 0, 25) : 12; float v = sv::f32("value", -50, 50); bool out = sv::flag("outside");
    vec2 o = gridpp::fill(s.g, s.f, pts(py, px), r, v, out); check(dims(o, Y, X), "size");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { sv::B in = sv::mk(false); for (int i = 0; i < N; i++) in = lor(in, inside(s, y, x, py[i], px[i], r[i])); check(eq(o[y][x], sv::ite(out ? lnot(in) : in, v, s.f[y][x])), "exactly the cells in range are set"); }
}
SV_HARNESS(fill_one, "fill: 1x2 grid, one point at any location, any radius up to 25, inside and outside") { fill_body(1, 1, 2, true); }
SV_HARNESS(fill_square, "fill: 2x2 grid, one point at any location, radius 12, inside and outside") { fill_body(1, 2, 2, false); }
SV_HARNESS(fill_two, "fill: 1x2 grid, two points at any location, radius 12, inside and outside") { fill_body(2, 1, 2, false); }
SV_HARNESS(fill_fixed, "fill: 1x3 grid, two points at fixed locations, any radii, field with missing values and any value, missing included") {
    Setup s = mk(1, 3, false); s.f = symvec2("g", 1, 3, -10, 10, sv::OPT); vec py = {1, 7}, px = {2, 17}, r = symvec("r", 2, 0, 25); float v = sv::f32("value", -5, 5, sv::OPT); bool out = sv::flag("outside"); vec2 o = gridpp::fill(s.g, s.f, pts(py, px), r, v, out);
    for (int y = 0; y < 1; y++) for (int x = 0; x < 3; x++) { sv::B in = sv::mk(false); for (int i = 0; i < 2; i++) in = lor(in, inside(s, y, x, py[i], px[i], r[i])); if (sv::decide(out ? lnot(in) : in)) check(sv::same(o[y][x], v), "cells in range are set"); else check(sv::same(o[y][x], s.f[y][x]), "other cells are unchanged"); }
}
SV_HARNESS(circle, "doping in a circle: 2x2 grid, two points at fixed and symbolic locations, any radius") {
    Setup s = mk(2, 2, false); vec py = {3, sv::f32("py", -15, 25)}, px = {2, sv::f32("px", -15, 25)}, ob = symvec("ob", 2), r = {sv::f32("r0", 0, 25), 12}; vec2 o = gridpp::doping_circle(s.g, s.f, pts(py, px), ob, r, NaN);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { double e = s.f[y][x]; for (int i = 0; i < 2; i++) e = sv::ite(inside(s, y, x, py[i], px[i], r[i]), ob[i], e); check(eq(o[y][x], e), "cells in the circle take the (last) observation"); }
}
SV_HARNESS(circle_elev, "doping in a circle: 2x2 grid with any elevations, one point of any elevation, elevation limit 0-100 or missing") {
    Setup s = mk(2, 2, true); float pe = sv::f32("pe", 0, 100), m = sv::f32("max_elev_diff", 0, 100, sv::OPT), ob = sv::f32("ob", -50, 50); vec r = {12}; vec2 o = gridpp::doping_circle(s.g, s.f, pts({3}, {2}, {pe}), {ob}, r, m);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { sv::B in = inside(s, y, x, 3, 2, 12); if (sv::isnum(m)) in = land(in, le(sv::dabs((double) pe - s.el[y][x]), m)); check(eq(o[y][x], sv::ite(in, ob, s.f[y][x])), "cells in the circle within the elevation limit"); }
}
// nearest cell: any cell at least as close as all others (ties are outside the claim)
static sv::B nearest(const Setup& s, int y, int x, double qy, double qx) { sv::B b = sv::mk(true); for (int i = 0; i < s.Y; i++) for (int j = 0; j < s.X; j++) if (i != y || j != x) { sv::B c = lt(d2(s, y, x, qy, qx), d2(s, i, j, qy, qx)); b = land(b, c); } return b; }
SV_HARNESS(square, "doping in a square: 3x3 grid, one point at any location, half-width 0..2") {
    Setup s = mk(3, 3, false); int hw = sv::integer("halfwidth", 0, 2); float qy = sv::f32("qy", -15, 35), qx = sv::f32("qx", -15, 35), ob = sv::f32("ob", -50, 50); for (double t : {5.0, 15.0}) { sv::assume(le(0.01, sv::dabs(qy - t))); sv::assume(le(0.01, sv::dabs(qx - t))); }
    vec2 o = gridpp::doping_square(s.g, s.f, pts({qy}, {qx}), {ob}, {hw}, NaN);
    for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) { sv::B in = sv::mk(false); for (int i = std::max(0, y - hw); i <= std::min(2, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(2, x + hw); j++) in = lor(in, nearest(s, i, j, qy, qx)); check(eq(o[y][x], sv::ite(in, ob, s.f[y][x])), "cells in the square around the nearest cell"); }
}
SV_HARNESS(square_elev, "doping in a square: 2x3 grid with any elevations, two points, elevation limit 0-100 or missing, half-widths 0..1") {
    Setup s = mk(2, 3, true); vec pe = symvec("pe", 2, 0, 100), ob = symvec("ob", 2); float m = sv::f32("max_elev_diff", 0, 100, sv::OPT); ivec hw = {sv::integer("h0", 0, 1), sv::integer("h1", 0, 1)}; const int NY[] = {0, 1}, NX[] = {1, 2}; vec2 o = gridpp::doping_square(s.g, s.f, pts({1, 12}, {9, 21}, pe), ob, hw, m);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { double e = s.f[y][x]; for (int i = 0; i < 2; i++) if (std::abs(y - NY[i]) <= hw[i] && std::abs(x - NX[i]) <= hw[i]) e = sv::isnum(m) ? sv::ite(le(sv::dabs((double) pe[i] - s.el[y][x]), m), ob[i], e) : ob[i]; check(eq(o[y][x], e), "cells in the square within the elevation limit"); }
}
SV_HARNESS(errors, "mismatching sizes and negative radii, half-widths and limits are rejected") {
    Setup s = mk(2, 2, false); gridpp::Points p = pts({1, 2}, {3, 4}); float n = sv::f32("n", -10, -0.001); vec2 w(2, vec(3)), w2(1, vec(2)); vec r = {1, 2}, r1 = {1}; ivec h = {0, 0}, h1 = {0};
    check(throws([&] { gridpp::fill(s.g, w, p, r, 0, false); }) && throws([&] { gridpp::fill(s.g, w2, p, r, 0, true); }) && throws([&] { gridpp::fill(s.g, s.f, p, r1, 0, true); }) && throws([&] { gridpp::fill(s.g, s.f, p, vec{1, n}, 0, true); }), "fill");
    check(throws([&] { gridpp::doping_square(s.g, w, p, r, h, NaN); }) && throws([&] { gridpp::doping_square(s.g, s.f, p, r1, h, NaN); }) && throws([&] { gridpp::doping_square(s.g, s.f, p, r, h1, NaN); }) && throws([&] { gridpp::doping_square(s.g, s.f, p, r, {0, -1}, NaN); }) && throws([&] { gridpp::doping_square(s.g, s.f, p, r, h, n); }), "doping_square");
    check(throws([&] { gridpp::doping_circle(s.g, w2, p, r, r, NaN); }) && throws([&] { gridpp::doping_circle(s.g, s.f, p, r1, r, NaN); }) && throws([&] { gridpp::doping_circle(s.g, s.f, p, r, r1, NaN); }) && throws([&] { gridpp::doping_circle(s.g, s.f, p, r, vec{n, 1}, NaN); }) && throws([&] { gridpp::doping_circle(s.g, s.f, p, r, r, n); }), "doping_circle");
    gridpp::Points none; vec2 o = gridpp::fill(s.g, s.f, none, vec(), 7, false), q = gridpp::fill(s.g, s.f, none, vec(), 7, true), c = gridpp::doping_circle(s.g, s.f, none, vec(), vec(), NaN), d = gridpp::doping_square(s.g, s.f, none, vec(), ivec(), NaN); for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) { check(eq(o[y][x], s.f[y][x]), "no points"); check(eq(q[y][x], 7), "no points, outside"); check(land(eq(c[y][x], s.f[y][x]), eq(d[y][x], s.f[y][x])), "no points, doping"); }
}
