#include "common.h"
static gridpp::Points pts(const vec& y, const vec& x) { return gridpp::Points(y, x, vec(), vec(), gridpp::Cartesian); }
static double d2(double ay, double ax, double by, double bx) { double dy = ay - by, dx = ax - bx; return dy * dy + dx * dx; }
static bool inside(double d, double r) { sv::assume(lor(le(d + 0.01, r * r), le(r * r + 0.01, d))); return sv::decide(lt(d, r * r)); }
static dvec vals(const vec& v, const std::vector<int>& I) { dvec r; for (int i : I) if (sv::isnum(v[i])) r.push_back(v[i]); return r; }
static void cell(double got, const vec& v, const std::vector<int>& I, int min, gridpp::Statistic st, bool nearest) { if ((int) I.size() < min || (nearest && I.empty())) { check(!sv::isnum(got), "too few observations in range: missing"); return; } check_stat(got, vals(v, I), st, 2e-2, "statistic of the observations in range"); }
SV_HARNESS(radius_symbolic, "gridding: 2 observations at any location, 1x2 cells and 2 points, any radius up to 20, minimum 0..2") {
    vec y = symvec("y", 2, -10, 10), x = symvec("x", 2, -10, 20); vec v = {1, 4}; float r = sv::f32("r", 0, 20); int m = sv::integer("min_num", 0, 2); vec2 la = {{0, 0}}, lo = {{0, 10}}; vec2 g = gridpp::gridding(cgrid(la, lo), pts(y, x), v, r, m, gridpp::Sum); vec p = gridpp::gridding(pts(la[0], lo[0]), pts(y, x), v, r, m, gridpp::Sum); check(dims(g, 1, 2) && p.size() == 2, "size");
    for (int c = 0; c < 2; c++) { std::vector<int> I; for (int i = 0; i < 2; i++) if (inside(d2(y[i], x[i], 0, lo[0][c]), r)) I.push_back(i); cell(g[0][c], v, I, m, gridpp::Sum, false); check(sv::same(g[0][c], p[c]), "points as output agree with the grid"); }
}
SV_HARNESS(statistics, "gridding: 3 observations at fixed locations with any values, missing included, all statistics, 2x2 cells, radius 8, minimum 0..3") {
    vec y = {1, 2, 9}, x = {1, 9, 9}; vec v = symvec("v", 3, -100, 100, sv::OPT); gridpp::Statistic st = symstat(); int m = sv::integer("min_num", 0, 3); vec2 la, lo; lattice(2, 2, 10, 10, la, lo); float r = 8.1f; vec2 g = gridpp::gridding(cgrid(la, lo), pts(y, x), v, r, m, st); vec p = gridpp::gridding(pts({0, 0, 10, 10}, {0, 10, 0, 10}), pts(y, x), v, r, m, st);
    for (int c = 0; c < 4; c++) { std::vector<int> I; for (int i = 0; i < 3; i++) if (d2(y[i], x[i], la[c / 2][c % 2], lo[c / 2][c % 2]) < r * r) I.push_back(i); cell(g[c / 2][c % 2], v, I, m, st, false); check(sv::same(g[c / 2][c % 2], p[c]), "points as output agree with the grid"); }
}
SV_HARNESS(nearest_symbolic, "nearest gridding: 2 observations at any location, 1x3 cells and 3 points, minimum 0..2") {
    vec y = symvec("y", 2, -10, 10), x = symvec("x", 2, -10, 30); vec v = {1, 4}; int m = sv::integer("min_num", 0, 2); vec2 la = {{0, 0, 0}}, lo = {{0, 10, 20}}; for (int i = 0; i < 2; i++) for (double t : {5.0, 15.0}) sv::assume(le(0.01, sv::dabs(x[i] - t)));
    vec2 g = gridpp::gridding_nearest(cgrid(la, lo), pts(y, x), v, m, gridpp::Sum); vec p = gridpp::gridding_nearest(pts(la[0], lo[0]), pts(y, x), v, m, gridpp::Sum); check(dims(g, 1, 3) && p.size() == 3, "size");
    for (int c = 0; c < 3; c++) { std::vector<int> I; for (int i = 0; i < 2; i++) if (sv::decide(land(c == 0 ? sv::mk(true) : lt(lo[0][c] - 5, x[i]), c == 2 ? sv::mk(true) : lt(x[i], lo[0][c] + 5)))) I.push_back(i); cell(g[0][c], v, I, m, gridpp::Sum, true); check(sv::same(g[0][c], p[c]), "points as output agree with the grid"); }
}
SV_HARNESS(nearest_statistics, "nearest gridding: 3 observations at fixed locations with any values, missing included, all statistics, 2x2 cells, minimum 0..3") {
    vec y = {1, 2, 9}, x = {1, 2, 9}; vec v = symvec("v", 3, -100, 100, sv::OPT); gridpp::Statistic st = symstat(); int m = sv::integer("min_num", 0, 3); vec2 la, lo; lattice(2, 2, 10, 10, la, lo); vec2 g = gridpp::gridding_nearest(cgrid(la, lo), pts(y, x), v, m, st); vec p = gridpp::gridding_nearest(pts({0, 0, 10, 10}, {0, 10, 0, 10}), pts(y, x), v, m, st);
    for (int c = 0; c < 4; c++) { std::vector<int> I; if (c == 0) I = {0, 1}; if (c == 3) I = {2}; cell(g[c / 2][c % 2], v, I, m, st, true); check(sv::same(g[c / 2][c % 2], p[c]), "points as output agree with the grid"); }
}
SV_HARNESS(count, "neighbour counts: 2 points at any location, 2 cells, any radius up to 20, all four combinations of grids and points") {
    vec y = symvec("y", 2, -10, 10), x = symvec("x", 2, -10, 20); float r = sv::f32("r", 0, 20); vec2 la = {{0, 0}}, lo = {{0, 10}}; gridpp::Points p = pts(y, x), q = pts(la[0], lo[0]); gridpp::Grid g = cgrid(la, lo), h = cgrid({y}, {x});
    vec2 a = gridpp::count(p, g, r), b = gridpp::count(h, g, r); vec c = gridpp::count(p, q, r), d = gridpp::count(h, q, r); check(dims(a, 1, 2) && dims(b, 1, 2) && c.size() == 2 && d.size() == 2, "size");
    for (int k = 0; k < 2; k++) { int n = 0; for (int i = 0; i < 2; i++) if (inside(d2(y[i], x[i], 0, lo[0][k]), r)) n++; check(a[0][k] == n && b[0][k] == n && c[k] == n && d[k] == n, "number of points within the radius"); }
}
SV_HARNESS(count_cells, "neighbour counts: 3 points at fixed places and one at any place, 2x3 cells, radius 6, all four combinations of grids and points") {
    vec y = {0, 7, 3, sv::f32("y", -10, 10)}, x = {1, 4, -5, sv::f32("x", -10, 10)}; float r = 6; vec2 la, lo; lattice(2, 3, 4, 5, la, lo); vec cy, cx; for (int c = 0; c < 6; c++) { cy.push_back(la[c / 3][c % 3]); cx.push_back(lo[c / 3][c % 3]); } gridpp::Points p = pts(y, x), q = pts(cy, cx); gridpp::Grid g = cgrid(la, lo), h = cgrid({{y[0], y[1]}, {y[2], y[3]}}, {{x[0], x[1]}, {x[2], x[3]}});
    vec2 a = gridpp::count(p, g, r), b = gridpp::count(h, g, r); vec c = gridpp::count(p, q, r), d = gridpp::count(h, q, r); check(dims(a, 2, 3) && dims(b, 2, 3) && c.size() == 6 && d.size() == 6, "size");
    for (int k = 0; k < 6; k++) { int n = 0; for (int i = 0; i < 4; i++) if (inside(d2(y[i], x[i], cy[k], cx[k]), r)) n++; check(a[k / 3][k % 3] == n && b[k / 3][k % 3] == n && c[k] == n && d[k] == n, "number of points within the radius"); }
}
static void dist_body(const vec& y, const vec& x) {
    int N = y.size(), k = sv::integer("k", 1, N + 1); gridpp::Points p = pts(y, x), q = pts({1}, {2}); gridpp::Grid g = cgrid({{1}}, {{2}}), h = cgrid({y}, {x}); vec2 a = gridpp::distance(p, g, k), b = gridpp::distance(h, g, k); vec c = gridpp::distance(p, q, k), d = gridpp::distance(h, q, k); check(dims(a, 1, 1) && dims(b, 1, 1) && c.size() == 1 && d.size() == 1, "size");
    dvec s; for (int i = 0; i < N; i++) s.push_back(d2(y[i], x[i], 1, 2)); s = sorted(s); double e = s[std::min(k, N) - 1]; for (double got : {(double) a[0][0], (double) b[0][0], (double) c[0], (double) d[0]}) { check(le(0, got), "never negative"); check(close(got * got, e, 0.01), "distance to the k-th nearest point"); }
}
SV_HARNESS(distance_cells, "k-th nearest distances: 3 points at fixed places and one at any place, 2x3 cells, k = 1..3, all four combinations of grids and points") {
    vec y = {0, 7, 3, sv::f32("y", -10, 10)}, x = {1, 4, -5, sv::f32("x", -10, 10)}; int k = sv::integer("k", 1, 3); vec2 la, lo; lattice(2, 3, 4, 5, la, lo); vec cy, cx; for (int c = 0; c < 6; c++) { cy.push_back(la[c / 3][c % 3]); cx.push_back(lo[c / 3][c % 3]); } gridpp::Points p = pts(y, x), q = pts(cy, cx); gridpp::Grid g = cgrid(la, lo), h = cgrid({{y[0], y[1]}, {y[2], y[3]}}, {{x[0], x[1]}, {x[2], x[3]}});
    vec2 a = gridpp::distance(p, g, k), b = gridpp::distance(h, g, k); vec c = gridpp::distance(p, q, k), d = gridpp::distance(h, q, k); check(dims(a, 2, 3) && dims(b, 2, 3) && c.size() == 6 && d.size() == 6, "size");
    for (int i = 0; i < 6; i++) { dvec s; for (int j = 0; j < 4; j++) s.push_back(d2(y[j], x[j], cy[i], cx[i])); double e = sorted(s)[k - 1]; for (double got : {(double) a[i / 3][i % 3], (double) b[i / 3][i % 3], (double) c[i], (double) d[i]}) check(close(got * got, e, 0.01), "distance to the k-th nearest point"); }
}
SV_HARNESS(distance_plane, "k-th nearest distances: 2 points at any location, 1 cell, k = 1..3, all four combinations of grids and points") { dist_body(symvec("y", 2, -10, 10), symvec("x", 2, -10, 10)); }
SV_HARNESS(distance_line, "k-th nearest distances: 3 points on a line, 1 cell, k = 1..4, all four combinations of grids and points") { dist_body({1, 1, 1}, symvec("x", 3, -10, 10)); }
SV_HARNESS(errors, "mismatching sizes, negative or missing radii, negative minimum counts and different coordinate types are rejected") {
    gridpp::Points p = pts({0, 1}, {0, 1}), q = pts({5}, {5}), l(vec{0, 1}, vec{0, 1}); gridpp::Grid g = cgrid({{0, 0}}, {{0, 10}}), lg(vec2{{0, 0}}, vec2{{0, 1}}); vec v = {1, 2}, v1 = {1}; float n = sv::f32("n", -10, -0.001, sv::OPT); int m = sv::integer("m", -3, -1);
    check(throws([&] { gridpp::gridding(g, p, v1, 1, 0, gridpp::Mean); }) && throws([&] { gridpp::gridding(q, p, v1, 1, 0, gridpp::Mean); }) && throws([&] { gridpp::gridding_nearest(g, p, v1, 0, gridpp::Mean); }) && throws([&] { gridpp::gridding_nearest(q, p, v1, 0, gridpp::Mean); }), "sizes");
    check(throws([&] { gridpp::gridding(g, p, v, n, 0, gridpp::Mean); }) && throws([&] { gridpp::gridding(q, p, v, n, 0, gridpp::Mean); }), "radius"); check(throws([&] { gridpp::gridding(g, p, v, 1, m, gridpp::Mean); }) && throws([&] { gridpp::gridding(q, p, v, 1, m, gridpp::Mean); }) && throws([&] { gridpp::gridding_nearest(g, p, v, m, gridpp::Mean); }) && throws([&] { gridpp::gridding_nearest(q, p, v, m, gridpp::Mean); }), "minimum count");
    check(throws([&] { gridpp::distance(g, l, 1); }) && throws([&] { gridpp::distance(l, g, 1); }) && throws([&] { gridpp::distance(p, l, 1); }) && throws([&] { gridpp::distance(g, lg, 1); }), "coordinate types");
}
SV_HARNESS(unusable_statistic, "a quantile without a level or a statistic that is none: rejected in every form, without ending the program") { gridpp::Points p = pts({0, 1}, {0, 1}), q = pts({5}, {5}); gridpp::Grid g = cgrid({{0, 0}}, {{0, 10}}); vec v = symvec("v", 2); int k = sv::integer("statistic", 0, 2); auto s = k == 0 ? gridpp::Quantile : k == 1 ? gridpp::Unknown : (gridpp::Statistic) 1; check(throws([&] { gridpp::gridding(g, p, v, 3, 0, s); }), "gridding"); check(throws([&] { gridpp::gridding(q, p, v, 30, 0, s); }), "gridding to points"); check(throws([&] { gridpp::gridding_nearest(g, p, v, 0, s); }), "gridding_nearest"); check(throws([&] { gridpp::gridding_nearest(q, p, v, 0, s); }), "gridding_nearest to points"); }
