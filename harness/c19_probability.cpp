#include "common.h"
// 2x3 input grid (Cartesian), 1x3 or 3x1 output with concrete nearest inputs
static vec2 LA = {{0, 0, 0}, {2, 2, 2}}, LO = {{0, 2, 4}, {0, 2, 4}}; static vec OY = {0.2f, 1.7f, -5}, OX = {2.3f, 0, 9}; static const int NY[3] = {0, 1, 0}, NX[3] = {1, 0, 2};
static gridpp::Grid og(bool col) { if (!col) return cgrid({OY}, {OX}); return cgrid({{OY[0]}, {OY[1]}, {OY[2]}}, {{OX[0]}, {OX[1]}, {OX[2]}}); }
static const gridpp::ComparisonOperator OPS[4] = {gridpp::Leq, gridpp::Lt, gridpp::Geq, gridpp::Gt};
static bool passes(double v, double t, int op) { if (!sv::isnum(t)) return false; return sv::decide(op == 0 ? le(v, t) : op == 1 ? lt(v, t) : op == 2 ? le(t, v) : lt(t, v)); }
SV_HARNESS(fraction, "1..3 members at the nearest points, one of which may be missing; 4 operators; symbolic members and thresholds (possibly missing); both output shapes") {
    bool col = sv::flag("col"); int E = sv::integer("E", 1, 3), op = sv::integer("op", 0, 3); vec3 v(2, vec2(3, vec(E, 50))); for (int i = 0; i < 2; i++) { vec m = symvec(sv::idx("v", i).c_str(), E); v[NY[i]][NX[i]] = m; } int miss = sv::integer("missing", 0, E); if (miss) v[0][1][miss - 1] = NaN; if (miss == E) v[0][2].assign(E, NaN); vec t = {sv::f32("t0", -100, 100, sv::OPT), sv::f32("t1", -100, 100), 50}; vec2 th = col ? vec2{{t[0]}, {t[1]}, {t[2]}} : vec2{t};
    vec2 r = gridpp::downscale_probability(cgrid(LA, LO), og(col), v, th, OPS[op]); check(dims(r, col ? 3 : 1, col ? 1 : 3), "output size");
    for (int i = 0; i < 3; i++) { double out = col ? r[i][0] : r[0][i]; int n = 0, k = 0; for (float f : v[NY[i]][NX[i]]) if (sv::isnum(f)) { n++; if (passes(f, t[i], op)) k++; } if (!n) check(!sv::isnum(out), "missing without valid members"); else { check(close(out, (double) k / n, 1e-5), "fraction of valid members"); check(land(le(0, out), le(out, 1)), "between 0 and 1"); } }
}
SV_HARNESS(complement, "2 members: complementary operators sum to one, probability is monotone in the threshold") {
    vec3 v(2, vec2(3, vec(2, 50))); v[0][1] = symvec("v", 2); float a = sv::f32("a", -100, 100), b = sv::f32("b", -100, 100); sv::assume(le(a, b)); auto g = cgrid(LA, LO); auto f = [&](float t, int op) { return (double) gridpp::downscale_probability(g, og(false), v, {{t, 0, 0}}, OPS[op])[0][0]; };
    double p[4]; for (int k = 0; k < 4; k++) p[k] = f(a, k); check(close(p[0] + p[3], 1, 1e-5), "at most and above"); check(close(p[1] + p[2], 1, 1e-5), "below and at least"); check(le(p[0], f(b, 0)), "monotone"); check(le(f(b, 3), p[3]), "monotone");
}
SV_HARNESS(reject, "input sizes 0..3 x 0..4 and threshold sizes 0..2 x 0..4") { int w = sv::integer("which", 0, 1), Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 4); if (Y == 0 && X) return; vec3 v(2, vec2(3, vec(1, 1))); vec2 th(1, vec(3, 1)); if (w) th.assign(Y, vec(X, 1)); else v.assign(Y, vec2(X, vec(1, 1))); check(throws([&] { gridpp::downscale_probability(cgrid(LA, LO), og(false), v, th, gridpp::Leq); }) == (w ? !(Y == 1 && X == 3) : !(Y == 2 && X == 3)), "size checked"); }
SV_HARNESS(empty_output, "empty output grid") { check(gridpp::downscale_probability(cgrid(LA, LO), gridpp::Grid(), vec3(2, vec2(3, vec(1, 1))), vec2(), gridpp::Gt).empty(), "empty"); }
