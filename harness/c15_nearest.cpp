#include "common.h"
// out must be the value of an input point at minimum distance; ties may go either way
struct In { std::vector<float> y, x; };
static sv::B of_closest(const In& in, double qy, double qx, double out, const vec& v) {
    sv::B any = sv::mk(false); int n = in.y.size(); std::vector<double> d(n); for (int i = 0; i < n; i++) { double a = in.y[i] - qy, b = in.x[i] - qx; d[i] = a * a + b * b; }
    for (int i = 0; i < n; i++) { sv::B m = sv::same(out, v[i]); for (int j = 0; j < n; j++) if (j != i) m = land(m, le(d[i], d[j])); any = lor(any, m); }
    return any;
}
static gridpp::Grid grid22(In& in) { vec2 la = {{0, 0.5f}, {4, 3}}, lo = {{0, 5}, {-1, 4}}; in.y = {0, 0.5f, 4, 3}; in.x = {0, 5, -1, 4}; return gridpp::Grid(la, lo, vec2(), vec2(), gridpp::Cartesian); }
static gridpp::Points points3(In& in) { in.y = {0, 4, 3}; in.x = {0, -1, 4}; return gridpp::Points(in.y, in.x, vec(), vec(), gridpp::Cartesian); }
// output: two locations; the first symbolic
struct Out { vec y, x; gridpp::Points p() const { return gridpp::Points(y, x, vec(), vec(), gridpp::Cartesian); } gridpp::Grid row() const { return gridpp::Grid(vec2(1, y), vec2(1, x), vec2(), vec2(), gridpp::Cartesian); } gridpp::Grid col() const { vec2 a, b; for (size_t i = 0; i < y.size(); i++) { a.push_back({y[i]}); b.push_back({x[i]}); } return gridpp::Grid(a, b, vec2(), vec2(), gridpp::Cartesian); } };
static Out outs() { Out o; o.y = {sv::f32("qy", -8, 8), 3}; o.x = {sv::f32("qx", -8, 8), 3.5f}; return o; }
static vec flat(const vec2& v) { vec r; for (auto& a : v) r.insert(r.end(), a.begin(), a.end()); return r; }
SV_HARNESS(grid_to_any, "fixed 2x2 grid, symbolic values and query; grid (1x2, 2x1) and point outputs") {
    In in; auto g = grid22(in); vec2 v = symvec2("v", 2, 2); v[0][1] = sv::flag("missing") ? NaN : v[0][1]; Out o = outs(); vec f = flat(v), r; int k = sv::integer("out", 0, 2);
    if (k == 0) r = gridpp::nearest(g, o.p(), v); else { vec2 q = gridpp::nearest(g, k == 1 ? o.row() : o.col(), v); check(dims(q, k == 1 ? 1 : 2, k == 1 ? 2 : 1), "output size"); r = flat(q); }
    check(r.size() == 2, "output size"); for (int i = 0; i < 2; i++) check(of_closest(in, o.y[i], o.x[i], r[i], f), "value of a closest input point");
}
SV_HARNESS(points_to_any, "3 points, symbolic values and query; grid and point outputs") {
    In in; auto p = points3(in); vec v = symvec("v", 3); v[1] = sv::flag("missing") ? NaN : v[1]; Out o = outs(); vec r; int k = sv::integer("out", 0, 2);
    if (k == 0) r = gridpp::nearest(p, o.p(), v); else { vec2 q = gridpp::nearest(p, k == 1 ? o.row() : o.col(), v); check(dims(q, k == 1 ? 1 : 2, k == 1 ? 2 : 1), "output size"); r = flat(q); }
    check(r.size() == 2, "output size"); for (int i = 0; i < 2; i++) check(of_closest(in, o.y[i], o.x[i], r[i], v), "value of a closest input point");
}
SV_HARNESS(members, "0..2 members/times, all four input/output combinations, symbolic values and query; each member equals the closest point") {
    int T = sv::integer("T", 0, 2), k = sv::integer("form", 0, 5); In in; Out o = outs(); if (k < 3) { auto g = grid22(in); vec3 v(T); std::vector<vec> f(T); for (int t = 0; t < T; t++) { v[t] = symvec2(sv::idx("v", t).c_str(), 2, 2); if (t == 1) v[t][1][1] = NaN; f[t] = flat(v[t]); }
        if (T == 0) return; // an ensemble without members is not compatible with a grid
        std::vector<vec> r(T); if (k == 0) { vec2 q = gridpp::nearest(g, o.p(), v); check((int) q.size() == T, "one output per member"); for (int t = 0; t < T; t++) r[t] = q[t]; } else { vec3 q = gridpp::nearest(g, k == 1 ? o.row() : o.col(), v); check((int) q.size() == T, "one output per member"); for (int t = 0; t < T; t++) { check(dims(q[t], k == 1 ? 1 : 2, k == 1 ? 2 : 1), "output size"); r[t] = flat(q[t]); } }
        for (int t = 0; t < T; t++) for (int i = 0; i < 2; i++) check(of_closest(in, o.y[i], o.x[i], r[t][i], f[t]), "value of a closest input point"); }
    else { auto p = points3(in); vec2 v(T); for (int t = 0; t < T; t++) { v[t] = symvec(sv::idx("v", t).c_str(), 3); if (t == 1) v[t][0] = NaN; }
        if (T == 0) return; std::vector<vec> r(T); if (k == 3) { vec2 q = gridpp::nearest(p, o.p(), v); check((int) q.size() == T, "one output per member"); for (int t = 0; t < T; t++) r[t] = q[t]; } else { vec3 q = gridpp::nearest(p, k == 4 ? o.row() : o.col(), v); check((int) q.size() == T, "one output per member"); for (int t = 0; t < T; t++) { check(dims(q[t], k == 4 ? 1 : 2, k == 4 ? 2 : 1), "output size"); r[t] = flat(q[t]); } }
        for (int t = 0; t < T; t++) for (int i = 0; i < 2; i++) check(of_closest(in, o.y[i], o.x[i], r[t][i], v[t]), "value of a closest input point"); }
}
SV_HARNESS(symbolic_input, "2x2 grid and 3 points whose own coordinates are symbolic (one query)") {
    In in; bool g = sv::flag("grid"); int n = g ? 4 : 3; in.y = symvec("y", n, -5, 5); in.x = symvec("x", n, -5, 5); vec v = {1, 2, 3, 4}; v.resize(n); Out o; o.y = {1}; o.x = {-2}; vec r;
    if (g) r = gridpp::nearest(gridpp::Grid({{in.y[0], in.y[1]}, {in.y[2], in.y[3]}}, {{in.x[0], in.x[1]}, {in.x[2], in.x[3]}}, vec2(), vec2(), gridpp::Cartesian), o.p(), {{1, 2}, {3, 4}}); else r = gridpp::nearest(gridpp::Points(in.y, in.x, vec(), vec(), gridpp::Cartesian), o.p(), v);
    check(r.size() == 1, "output size"); check(of_closest(in, 1, -2, r[0], v), "value of a closest input point");
}
SV_HARNESS(geodetic, "geodetic grids and points across the date line and pole (fixed coordinates), symbolic values") {
    vec la = {89.5f, 60, 60, -10}, lo = {10, 179.5f, -179.0f, 0}; vec v = symvec("v", 4); gridpp::Points p(la, lo); gridpp::Grid g({{la[0], la[1]}, {la[2], la[3]}}, {{lo[0], lo[1]}, {lo[2], lo[3]}}); gridpp::Points o({90, 60, 60, -80}, {-120, -179.9f, 179.9f, 170}); int e[4] = {0, 2, 1, 3}; vec r = gridpp::nearest(p, o, v), s = gridpp::nearest(g, o, {{v[0], v[1]}, {v[2], v[3]}});
    check(sv::same(r[0], v[0]), "pole"); check(sv::same(s[0], v[0]), "pole"); check(sv::same(r[1], v[1]), "across the date line"); check(sv::same(s[1], v[1]), "across the date line"); check(sv::same(r[2], v[1]), "near the date line"); check(sv::same(r[3], v[3]), "southern"); check(sv::same(s[3], v[3]), "southern");
}
SV_HARNESS(reject, "input sizes 0..3 x 0..3 differing from the 2x2 grid / 3 points") {
    In in; auto g = grid22(in); In ip; auto p = points3(ip); Out o; o.y = {1}; o.x = {1}; int Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 3), k = sv::integer("form", 0, 7); vec2 v(Y, vec(X, 1)); bool bad;
    if (k < 4) { bad = !(Y == 2 && X == 2); if (Y == 0 && X != 0) return; vec3 w(1, v); bool t = k == 0 ? throws([&] { gridpp::nearest(g, o.p(), v); }) : k == 1 ? throws([&] { gridpp::nearest(g, o.row(), v); }) : k == 2 ? throws([&] { gridpp::nearest(g, o.p(), w); }) : throws([&] { gridpp::nearest(g, o.row(), w); }); check(t == bad, bad ? "mismatch rejected" : "match accepted"); }
    else { bad = X != 3; vec u(X, 1); vec2 w(2, u); bool t = k == 4 ? throws([&] { gridpp::nearest(p, o.p(), u); }) : k == 5 ? throws([&] { gridpp::nearest(p, o.row(), u); }) : k == 6 ? throws([&] { gridpp::nearest(p, o.p(), w); }) : throws([&] { gridpp::nearest(p, o.row(), w); }); check(t == bad, bad ? "mismatch rejected" : "match accepted"); }
}
SV_HARNESS(empty_output, "empty output point sets and grids") {
    In in; auto g = grid22(in); In ip; auto p = points3(ip); vec2 v(2, vec(2, 1)); vec u(3, 1); gridpp::Points e; gridpp::Grid h; check(gridpp::nearest(g, e, v).empty() && gridpp::nearest(p, e, u).empty() && gridpp::nearest(g, h, v).empty() && gridpp::nearest(p, h, u).empty(), "empty output"); vec2 a = gridpp::nearest(g, e, vec3(2, v)), b = gridpp::nearest(p, e, vec2(2, u)); vec3 c = gridpp::nearest(g, h, vec3(2, v)), d = gridpp::nearest(p, h, vec2(2, u)); check(a.size() == 2 && a[0].empty() && b.size() == 2 && b[1].empty() && c.size() == 2 && c[0].empty() && d.size() == 2 && d[1].empty(), "empty output per member");
    gridpp::Grid he(vec2(0), vec2(0)); check(gridpp::nearest(g, he, v).empty(), "empty output");
}
SV_HARNESS(generic_downscaling, "the generic downscaling entry point with the nearest method, grids, points and members") {
    In in; auto g = grid22(in); vec2 v = symvec2("v", 2, 2); Out o = outs(); int k = sv::integer("out", 0, 3); vec r, e;
    if (k == 0) { r = gridpp::downscaling(g, o.p(), v, gridpp::Nearest); e = gridpp::nearest(g, o.p(), v); } else if (k == 1) { r = flat(gridpp::downscaling(g, o.row(), v, gridpp::Nearest)); e = flat(gridpp::nearest(g, o.row(), v)); } else if (k == 2) { vec3 w(1, v); r = gridpp::downscaling(g, o.p(), w, gridpp::Nearest)[0]; e = gridpp::nearest(g, o.p(), w)[0]; } else { vec3 w(1, v); r = flat(gridpp::downscaling(g, o.row(), w, gridpp::Nearest)[0]); e = flat(gridpp::nearest(g, o.row(), w)[0]); }
    check(r.size() == 2 && e.size() == 2, "output size"); for (int i = 0; i < 2; i++) check(sv::same(r[i], e[i]), "generic form equals the specific form");
}
