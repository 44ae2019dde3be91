#include "common.h"
static const float LV[] = {0, 0.25, 0.5, 0.1, 0.75, 1};
SV_HARNESS(levels, "length 0..4, elements finite in [-100,100] or NaN, symbolic level in [0,1]") { sv::exact_division(true);
    int n = sv::integer("n", 0, 4); float q = sv::f32("q", 0, 1, sv::OPT); vec v = symvec("v", n, -100, 100, sv::OPT);
    double got = gridpp::calc_quantile(v, q); dvec w = valid(v);
    if (w.empty() || !sv::isnum(q)) { check(!sv::isnum(got), "missing without valid values or level"); return; }
    check(close(got, refquant(w, q), 0.01), "quantile is the linear interpolation of sorted valid values");
    dvec s = sorted(w); check(land(le(s[0] - 0.001, got), le(got, s.back() + 0.001)), "quantile within data range");
}
SV_HARNESS(fixed5, "length 5, finite elements, levels 0,0.1,0.25,0.5,0.75,1") { sv::exact_division(true);
    float q = LV[sv::integer("qi", 0, 5)]; vec v = symvec("v", 5); check(close(gridpp::calc_quantile(v, q), refquant(valid(v), q), 0.01), "quantile of five values");
}
SV_HARNESS(inf, "length 3, elements finite, NaN, +Inf or -Inf; levels 0,0.5,1") {
    float q = LV[sv::integer("qi", 0, 2) * 5 % 7 % 6]; vec v = symvec("v", 3, -100, 100, sv::ANY); check(close(gridpp::calc_quantile(v, q), refquant(valid(v), q), 0.01), "infinite and missing values ignored");
}
SV_HARNESS(monotone, "length 3 finite, two symbolic levels in [0,1]") { sv::exact_division(true);
    float a = sv::f32("a", 0, 1), b = sv::f32("b", 0, 1); sv::assume(le(a, b)); vec v = symvec("v", 3);
    check(le(gridpp::calc_quantile(v, a), gridpp::calc_quantile(v, b) + 0.001), "quantile non-decreasing in the level");
}
SV_HARNESS(reject, "level below 0 or above 1 (finite up to 10, or infinite), length 0..2") {
    int n = sv::integer("n", 0, 2); vec v = symvec("v", n); float q = sv::f32("q", -10, 10, sv::FIN | sv::PINF | sv::NINF);
    if (sv::isnum(q)) sv::assume(lor(lt(q, 0), lt(1, q)));
    check(throws([&] { gridpp::calc_quantile(v, q); }), "levels outside [0,1] are rejected");
}
SV_HARNESS(rows, "2D: rows of lengths 3,0,2; 3D: 2x2x3 with its own level per cell (levels from the fixed list or missing)") { sv::exact_division(true);
    if (sv::flag("3d")) {
        vec3 v = symvec3("v", 2, 2, 2, -100, 100, sv::FIN); int m = sv::integer("miss", 0, 4); if (m < 4) v[m / 2][m % 2][1] = NaN;
        vec2 q(2, vec(2)); int r = sv::integer("rot", 0, 5); for (int i = 0; i < 4; i++) { int k = (r + i) % 7; q[i / 2][i % 2] = k == 6 ? NaN : LV[k]; }
        vec2 got = gridpp::calc_quantile(v, q);
        for (int i = 0; i < 4; i++) check(close(got[i / 2][i % 2], refquant(valid(v[i / 2][i % 2]), q[i / 2][i % 2]), 0.01), "cell quantile uses its own level");
    } else {
        vec2 v(3); v[0] = symvec("a", 3, -100, 100, sv::OPT); v[2] = symvec("c", 2, -100, 100, sv::OPT); float q = LV[sv::integer("qi", 0, 5)];
        vec got = gridpp::calc_quantile(v, q); check(got.size() == 3, "one result per row"); for (int i = 0; i < 3; i++) check(close(got[i], refquant(valid(v[i]), q), 0.01), "row quantile");
    }
}
SV_HARNESS_FP(no_abort, "IEEE single precision: every level in [0,1], arrays 0..N-1 of length N=2..7; no internal assertion aborts and the result is within range") {
    int n = sv::integer("n", 2, 7); vec v(n); for (int i = 0; i < n; i++) v[i] = i; float q = sv::f32("q", 0, 1);
    double got = gridpp::calc_quantile(v, q); check(land(le(0, got), le(got, n - 1)), "quantile within range in IEEE arithmetic");
}
SV_HARNESS_FPT(no_abort_t, "IEEE single precision: as no_abort, N=8..20") {
    int n = sv::integer("n", 8, 20); vec v(n); for (int i = 0; i < n; i++) v[i] = i; float q = sv::f32("q", 0, 1);
    double got = gridpp::calc_quantile(v, q); check(land(le(0, got), le(got, n - 1)), "quantile within range in IEEE arithmetic");
}
