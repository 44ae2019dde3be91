#include "down.h"
static float cand(int t, int form, const D& d, const gridpp::Grid& g, const vec3& v, float grad, gridpp::Downscaler m, const vec& oe, int i) {
    if (form == 0) return gridpp::simple_gradient(g, d.points(oe), v[t], grad, m)[i]; if (form == 1) { vec2 r = gridpp::simple_gradient(g, d.block(oe), v[t], grad, m); check(dims(r, 2, 3), "output size"); return D::at(r, i); } if (form == 2) { vec2 r = gridpp::simple_gradient(g, d.col(oe), v[t], grad, m); check(dims(r, D::N, 1), "output size"); return r[i][0]; }
    if (form == 3) { vec2 r = gridpp::simple_gradient(g, d.points(oe), v, grad, m); check(dims(r, v.size(), D::N), "output size"); return r[t][i]; } vec3 r = gridpp::simple_gradient(g, d.block(oe), v, grad, m); check(r.size() == v.size() && dims(r[t], 2, 3), "output size"); return D::at(r[t], i);
}
SV_HARNESS(formula, "2x2 Cartesian grid, 4 fixed output locations (node, inside, edge region, outside), nearest and bilinear, all 5 forms, up to 2 members; symbolic values, input and output elevations and gradient; missing value or elevation") {
    D d; int form = sv::integer("form", 0, 4), m = sv::integer("method", 0, 1); vec2 e = symvec2("e", 2, 2, 0, 1000), v = symvec2("v", 2, 2); int miss = sv::integer("missing", 0, 3); if (miss == 1) e[0][1] = NaN; if (miss == 2) v[1][0] = NaN; vec oe = symvec("oe", D::N, 0, 1000); if (miss == 3) oe[1] = NaN; float grad = sv::f32("gradient", -0.1, 0.1); vec3 w = {v, {{1, 2}, {3, 4}}}; auto g = d.grid(e);
    for (int i = 0; i < D::N; i++) for (int t = 0; t < (form >= 3 ? 2 : 1); t++) { double r = d.down(w[t], i, m) + (double) grad * ((double) oe[i] - d.down(e, i, m)); check(close(cand(t, form, d, g, w, grad, m ? gridpp::Bilinear : gridpp::Nearest, oe, i), r, 0.01), "base value plus gradient times elevation difference"); }
}
SV_HARNESS(neutral, "zero gradient, or equal elevations: the base downscaling is returned") {
    D d; int form = sv::integer("form", 0, 4), m = sv::integer("method", 0, 1); bool zero = sv::flag("zero_gradient"); vec2 v = symvec2("v", 2, 2), e = symvec2("e", 2, 2, 0, 1000); float c = sv::f32("c", 0, 1000); if (!zero) e = {{c, c}, {c, c}}; vec oe = zero ? symvec("oe", D::N, 0, 1000) : vec(D::N, c); float grad = zero ? 0 : sv::f32("gradient", -0.1, 0.1); auto g = d.grid(e); vec3 w = {v, v};
    for (int i = 0; i < D::N; i++) check(close(cand(0, form, d, g, w, grad, m ? gridpp::Bilinear : gridpp::Nearest, oe, i), d.down(v, i, m), 0.01), "unchanged");
}
SV_HARNESS(reject, "value sizes 0..3 x 0..3 on a 2x2 grid, all forms") { D d; auto g = d.grid(vec2(2, vec(2, 0))); vec oe(D::N, 0); int Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 3), form = sv::integer("form", 0, 3); if (Y == 0 && X) return; vec2 v(Y, vec(X, 1)); vec3 w(2, v); bool t = form == 0 ? throws([&] { gridpp::simple_gradient(g, d.points(oe), v, 0.1); }) : form == 1 ? throws([&] { gridpp::simple_gradient(g, d.row(oe), v, 0.1); }) : form == 2 ? throws([&] { gridpp::simple_gradient(g, d.points(oe), w, 0.1); }) : throws([&] { gridpp::simple_gradient(g, d.row(oe), w, 0.1); }); check(t == (Y != 2 || X != 2), "size checked"); }
