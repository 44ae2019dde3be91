#include "common.h"
static const gridpp::Metric M[] = {gridpp::Ets, gridpp::Ts, gridpp::Kss, gridpp::Pc, gridpp::Bias, gridpp::Hss};
SV_HARNESS(table, "1..4 pairs, every reference and forecast finite or NaN, two symbolic thresholds; all six metrics") {
    int N = sv::integer("N", 1, 4); auto m = M[sv::integer("m", 0, 5)]; vec r = symvec("r", N, -10, 10, N > 2 ? sv::FIN : sv::OPT), f = symvec("f", N, -10, 10, N > 3 ? sv::FIN : sv::OPT); float t = sv::f32("t", -10, 10), u = sv::f32("u", -10, 10); bool one = sv::flag("one_threshold"); if (one) u = t; int a = 0, b = 0, c = 0, d = 0;
    float got = one ? gridpp::calc_score(r, f, t, m) : gridpp::calc_score(r, f, t, u, m);
    for (int i = 0; i < N; i++) { if (!sv::isnum(r[i]) || !sv::isnum(f[i])) continue; bool er = sv::decide(lt(t, r[i])), ef = sv::decide(lt(u, f[i])); if (er && ef) a++; else if (ef) b++; else if (er) c++; else d++; }
    check(sv::same(got, gridpp::calc_score(a, b, c, d, m)), "score of the contingency table over valid pairs");
}
SV_HARNESS(formula, "every 2x2 table with symbolic non-negative real entries up to 100 (Ets: b, c integers 0..3); formulas, degenerate tables") {
    auto k = sv::integer("m", 0, 5); float a = sv::f32("a", 0, 100), b = k == 0 ? sv::integer("bi", 0, 3) : sv::f32("b", 0, 100), c = k == 0 ? sv::integer("ci", 0, 3) : sv::f32("c", 0, 100), d = sv::f32("d", 0, 100);
    float s = gridpp::calc_score(a, b, c, d, M[k]); double A = a, B = b, C = c, D = d, n = A + B + C + D;
    double num, den;
    switch (k) { case 0: num = A * n - (A + B) * (A + C); den = (A + B + C) * n - (A + B) * (A + C); break; case 1: num = A; den = A + B + C; break; case 2: num = A * D - B * C; den = (A + C) * (B + D); break; case 3: num = A + D; den = n; break;
        case 4: if (sv::decide(eq(B, C))) { check(eq(s, 1), "unbiased table has the best bias score"); return; } num = B + C - sv::dabs(B - C); den = B + C; break; default: num = 2 * (A * D - B * C); den = (A + C) * (C + D) + (A + B) * (B + D); }
    if (sv::decide(eq(den, 0))) { check(!sv::isnum(s) && !std::isinf(s), "a degenerate table is missing, not infinite"); return; }
    check(sv::isnum(s), "finite where defined"); if (!sv::isnum(s)) return; check(close(s * den, num, 1e-3), "textbook formula");
}
SV_HARNESS(range, "every 2x2 table with integer entries 0..3: documented ranges") {
    int k = sv::integer("m", 0, 5); float a = sv::integer("a", 0, 3), b = sv::integer("b", 0, 3), c = sv::integer("c", 0, 3), d = sv::integer("d", 0, 3); float s = gridpp::calc_score(a, b, c, d, M[k]); if (std::isnan(s)) return; check(!std::isinf(s), "never infinite"); check(s <= 1 + 1e-6, "at most 1"); check(s >= (k == 2 || k == 5 ? -1 : k == 0 ? -1 / 3.0 : 0) - 1e-6, "at least the lower bound");
    if (b == 0 && c == 0) check(s == 1, "a perfect table has the best score");
}
SV_HARNESS(perfect, "1..5 pairs, forecast equal to reference: best possible score or missing") { int N = sv::integer("N", 1, 5); auto m = M[sv::integer("m", 0, 5)]; vec r = symvec("r", N, -10, 10); float t = sv::f32("t", -10, 10); float s = gridpp::calc_score(r, r, t, m); check(std::isnan(s) || s == 1, "perfect forecast"); }
SV_HARNESS(reject, "lengths differ") { vec r = symvec("r", 1), f = symvec("f", 2); check(throws([&] { gridpp::calc_score(r, f, 0, gridpp::Ets); }), "lengths differ"); }
