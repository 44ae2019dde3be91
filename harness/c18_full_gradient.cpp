#include "down.h"
struct Case { vec3 v, ge, gl; vec2 e, l; vec oe, ol; bool he, hl; };
static Case mk() {
    Case c; c.v = {symvec2("v", 2, 2), {{1, 5}, {-3, 4}}}; c.he = sv::flag("elev_gradient"); c.hl = sv::flag("laf_gradient"); c.e = symvec2("e", 2, 2, 0, 1000); c.l = symvec2("l", 2, 2, 0, 1); c.oe = symvec("oe", D::N, 0, 1000); c.ol = symvec("ol", D::N, 0, 1);
    if (c.he) c.ge = {symvec2("ge", 2, 2, -0.1, 0.1), {{0.01f, -0.02f}, {0.03f, 0}}}; if (c.hl) c.gl = {symvec2("gl", 2, 2, -10, 10), {{1, -2}, {3, 0}}};
    int miss = sv::integer("missing", 0, 5); if (miss == 1) c.e[0][1] = NaN; if (miss == 2) c.oe[2] = NaN; if (miss == 3) c.l[0][1] = NaN; if (miss == 4) c.ol[2] = NaN; if (miss == 5) c.v[0][1][0] = NaN; return c;
}
static double ref(const D& d, const Case& c, int t, int i, int m, double* ec = 0, double* lc = 0) {
    double a = 0, b = 0; if (c.he) { double x = d.down(c.e, i, m); if (sv::isnum(x) && sv::isnum(c.oe[i])) a = d.down(c.ge[t], i, m) * (c.oe[i] - x); } if (c.hl) { double x = d.down(c.l, i, m); if (sv::isnum(x) && sv::isnum(c.ol[i])) b = d.down(c.gl[t], i, m) * (c.ol[i] - x); }
    if (ec) *ec = a; if (lc) *lc = b; return d.down(c.v[t], i, m) + a + b;
}
static const char* L = "base value plus elevation and land-fraction corrections";
SV_HARNESS(formula, "2x2 Cartesian grid, 4 fixed output locations, nearest and bilinear, point and grid outputs; symbolic values, gradients, elevations and land fractions; gradients present or omitted; one missing input or none") {
    D d; int form = sv::integer("form", 0, 2), m = sv::integer("method", 0, 1); auto M = m ? gridpp::Bilinear : gridpp::Nearest; Case c = mk(); auto g = d.grid(c.e, c.l); vec2 ge = c.he ? c.ge[0] : vec2(), gl = c.hl ? c.gl[0] : vec2(); vec r(D::N);
    if (form == 0) r = gridpp::full_gradient(g, d.points(c.oe, c.ol), c.v[0], ge, gl, M); else if (form == 1) { vec2 q = gridpp::full_gradient(g, d.block(c.oe, c.ol), c.v[0], ge, gl, M); check(dims(q, 2, 3), "output size"); for (int i = 0; i < D::N; i++) r[i] = D::at(q, i); } else { vec2 q = gridpp::full_gradient(g, d.col(c.oe, c.ol), c.v[0], ge, gl, M); check(dims(q, D::N, 1), "output size"); for (int i = 0; i < D::N; i++) r[i] = q[i][0]; }
    check(r.size() == D::N, "output size"); for (int i = 0; i < D::N; i++) check(close(r[i], ref(d, c, 0, i, m), 0.05), L);
}
SV_HARNESS(members, "the same for 2 members, point and grid outputs: each member uses its own values and gradients") {
    D d; int form = sv::integer("form", 0, 1), m = sv::integer("method", 0, 1); auto M = m ? gridpp::Bilinear : gridpp::Nearest; Case c = mk(); auto g = d.grid(c.e, c.l); bool sw = sv::flag("swap"); if (sw) { std::swap(c.v[0], c.v[1]); if (c.he) std::swap(c.ge[0], c.ge[1]); if (c.hl) std::swap(c.gl[0], c.gl[1]); }
    if (form == 0) { vec2 q = gridpp::full_gradient(g, d.points(c.oe, c.ol), c.v, c.ge, c.gl, M); check(dims(q, 2, D::N), "output size"); for (int t = 0; t < 2; t++) for (int i = 0; i < D::N; i++) check(close(q[t][i], ref(d, c, t, i, m), 0.05), L); }
    else { vec3 q = gridpp::full_gradient(g, d.block(c.oe, c.ol), c.v, c.ge, c.gl, M); check(q.size() == 2 && dims(q[0], 2, 3) && dims(q[1], 2, 3), "output size"); for (int t = 0; t < 2; t++) for (int i = 0; i < D::N; i++) check(close(D::at(q[t], i), ref(d, c, t, i, m), 0.05), L); }
}
SV_HARNESS(debug, "the debug form reports the same value and its parts") {
    D d; int m = sv::integer("method", 0, 1); auto M = m ? gridpp::Bilinear : gridpp::Nearest; Case c = mk(); vec3 q = gridpp::full_gradient_debug(d.grid(c.e, c.l), d.row(c.oe, c.ol), c.v[0], c.he ? c.ge[0] : vec2(), c.hl ? c.gl[0] : vec2(), M); check(q.size() == 1 && dims(q[0], D::N, 9), "output size");
    for (int i = 0; i < D::N; i++) { double ec, lc, r = ref(d, c, 0, i, m, &ec, &lc), b = d.down(c.v[0], i, m); double w[9] = {r, c.ol[i] - d.down(c.l, i, m), c.oe[i] - d.down(c.e, i, m), lc, ec, c.ol[i], d.down(c.l, i, m), b + lc, b + ec}; for (int k = 0; k < 9; k++) check(close(q[0][i][k], w[k], 0.05), "reported part"); }
}
SV_HARNESS(no_attributes, "grids and points without elevations or land fractions: no correction") { D d; int m = sv::integer("method", 0, 1); auto M = m ? gridpp::Bilinear : gridpp::Nearest; vec2 v = symvec2("v", 2, 2), ge = symvec2("ge", 2, 2, -0.1, 0.1), gl = symvec2("gl", 2, 2, -10, 10); gridpp::Grid g = cgrid(d.la, d.lo), o = cgrid({d.y}, {d.x}); gridpp::Points p(d.y, d.x, vec(), vec(), gridpp::Cartesian); vec a = gridpp::full_gradient(g, p, v, ge, gl, M); vec2 b = gridpp::full_gradient(g, o, v, ge, gl, M); for (int i = 0; i < D::N; i++) { check(close(a[i], d.down(v, i, m), 0.01), "no correction"); check(close(b[0][i], d.down(v, i, m), 0.01), "no correction"); } }
SV_HARNESS(reject, "value or gradient sizes 0..3 x 0..3 on a 2x2 grid; member counts 1..2 of 2") {
    D d; auto g = d.grid(vec2(2, vec(2, 0))); auto p = d.points(vec(D::N, 0)); auto o = d.row(vec(D::N, 0)); int which = sv::integer("which", 0, 2), Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 3), form = sv::integer("form", 0, 3), T = form >= 2 && which ? sv::integer("T", 1, 2) : 2; if (Y == 0 && X) return; if (which && Y == 0) return; // an empty gradient means no gradient
    vec2 ok(2, vec(2, 1)), bad(Y, vec(X, 1)); vec3 ok3(2, ok), bad3(T, bad); vec2 a = which == 0 ? bad : ok, b = which == 1 ? bad : ok, c = which == 2 ? bad : ok; vec3 a3 = which == 0 ? bad3 : ok3, b3 = which == 1 ? bad3 : ok3, c3 = which == 2 ? bad3 : ok3;
    bool t = form == 0 ? throws([&] { gridpp::full_gradient(g, p, a, b, c); }) : form == 1 ? throws([&] { gridpp::full_gradient(g, o, a, b, c); }) : form == 2 ? throws([&] { gridpp::full_gradient(g, p, a3, b3, c3); }) : throws([&] { gridpp::full_gradient(g, o, a3, b3, c3); }); check(t == (Y != 2 || X != 2 || T != 2), "size checked");
}
