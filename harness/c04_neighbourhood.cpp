#include "common.h"
static void run(const vec2& f, int hw, gridpp::Statistic s, bool brute) {
    int Y = f.size(), X = f[0].size();
    vec2 got = brute ? gridpp::neighbourhood_brute_force(f, hw, s) : gridpp::neighbourhood(f, hw, s);
    check(dims(got, Y, X), "output has the shape of the input");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) check_stat(got[y][x], window_values(f, y, x, hw), s, 0.05, brute ? "brute force equals the window statistic" : "optimised operator equals the window statistic");
}
static const gridpp::Statistic LIN[] = {gridpp::Mean, gridpp::Sum, gridpp::Count}, EXT[] = {gridpp::Min, gridpp::Max}, VAR[] = {gridpp::Variance, gridpp::Std};
SV_HARNESS(missing_lin, "shapes 2x3, 3x2; half-width 0..3; every cell finite in [-100,100] or NaN; mean, sum, count; optimised operator") {
    int t = sv::flag("t"), hw = sv::integer("hw", 0, 3); auto s = LIN[sv::integer("s", 0, 2)]; run(symvec2("f", t ? 3 : 2, t ? 2 : 3, -100, 100, sv::OPT), hw, s, false);
}
SV_HARNESS(missing_ext, "shapes 2x2, 3x2, half-width 0..1; every cell finite or NaN; min, max; optimised operator") {
    int t = sv::flag("t"), hw = sv::integer("hw", 0, 1); auto s = EXT[sv::flag("s")]; run(symvec2("f", t ? 3 : 2, 2, -100, 100, sv::OPT), hw, s, false);
}
SV_HARNESS(finite_lin, "shapes Y,X in 1..5; half-width 0..3; finite cells; mean, sum") {
    int Y = sv::integer("Y", 1, 5), X = sv::integer("X", 1, 5), hw = sv::integer("hw", 0, 3); auto s = LIN[sv::flag("s")]; run(symvec2("f", Y, X), hw, s, false);
}
SV_HARNESS(finite_ext, "shapes Y in 1..5, X in 1..3; half-width 1..2; finite cells; min, max") {
    int Y = sv::integer("Y", 1, 5), X = sv::integer("X", 1, 3), hw = sv::integer("hw", 1, 2); auto s = EXT[sv::flag("s")]; run(symvec2("f", Y, X), hw, s, false);
}
SV_HARNESS(one_missing, "shape 4x3, half-width 1..2; finite cells but one missing (any position); mean, sum, count, min, max") {
    int hw = sv::integer("hw", 1, 2), m = sv::integer("m", 0, 11), k = sv::integer("s", 0, 4); vec2 f = symvec2("f", 4, 3); f[m / 3][m % 3] = NaN; run(f, hw, k < 3 ? LIN[k] : EXT[k - 3], false);
}
SV_HARNESS(variance, "shape 2x2 (any cell missing) and 1x3 finite, half-width 0..1; variance, std; optimised operator") {
    int t = sv::flag("t"), hw = sv::flag("hw"); auto s = VAR[sv::flag("s")]; run(t ? symvec2("f", 1, 3, -50, 50) : symvec2("f", 2, 2, -50, 50, sv::OPT), hw, s, false);
}
SV_HARNESS(brute, "shape 2x2 with every cell finite or NaN, half-width 0..1, all statistics; brute-force operator") {
    int hw = sv::flag("hw"); auto s = symstat(); run(symvec2("f", 2, 2, -50, 50, sv::OPT), hw, s, true);
}
SV_HARNESS(brute_finite, "shapes 3x3, half-width 1; mean, sum, min, max; finite; brute-force operator") { int k = sv::integer("s", 0, 3); run(symvec2("f", 3, 3), 1, k < 2 ? LIN[k] : EXT[k - 2], true); }
SV_HARNESS(median, "shape 2x2, cells finite or NaN, half-width 0..1; median through the optimised operator") { int hw = sv::flag("hw"); run(symvec2("f", 2, 2, -50, 50, sv::OPT), hw, gridpp::Median, false); }
SV_HARNESS(inf, "shape 2x2, cells finite, NaN or infinite, half-width 1; mean, sum, count, min, max") { int k = sv::integer("s", 0, 4); run(symvec2("f", 2, 2, -50, 50, sv::ANY), 1, k < 3 ? LIN[k] : EXT[k - 3], false); }
SV_HARNESS(reject, "negative half-width, quantile statistic, empty input") {
    vec2 f = symvec2("f", 1, 2); check(throws([&] { gridpp::neighbourhood(f, -1, gridpp::Mean); }), "negative half-width rejected"); check(throws([&] { gridpp::neighbourhood_brute_force(f, -1, gridpp::Mean); }), "negative half-width rejected (brute force)");
    check(throws([&] { gridpp::neighbourhood(f, 1, gridpp::Quantile); }), "quantile statistic rejected"); check(gridpp::neighbourhood(vec2(), 1, gridpp::Mean).size() == 0, "empty input gives empty output");
}
SV_HARNESS_FP(std_is_number, "IEEE single precision: 1x2 field of finite values in [200,320], half-width 1; the standard deviation and variance are numbers, never negative") {
    vec2 f(1, symvec("f", 2, 200, 320)); vec2 v = gridpp::neighbourhood(f, 1, VAR[sv::flag("s")]);
    for (int i = 0; i < 2; i++) check(le(0, v[0][i]), "std/variance of valid values is a non-negative number (IEEE)");
}
SV_HARNESS_T(missing_lin_t, "shape 3x3 every cell finite or NaN; half-width 0..2; mean, sum, count") { int hw = sv::integer("hw", 0, 2); auto s = LIN[sv::integer("s", 0, 2)]; run(symvec2("f", 3, 3, -100, 100, sv::OPT), hw, s, false); }
SV_HARNESS_T(finite_lin_t, "shapes Y,X in 6..7; half-width 0..4; finite cells; mean, sum") { int Y = sv::integer("Y", 6, 7), X = sv::integer("X", 6, 7), hw = sv::integer("hw", 0, 4); auto s = LIN[sv::flag("s")]; run(symvec2("f", Y, X), hw, s, false); }
SV_HARNESS_T(missing_ext_t, "shape 3x3 every cell finite or NaN; half-width 1; min, max") { auto s = EXT[sv::flag("s")]; run(symvec2("f", 3, 3, -100, 100, sv::OPT), 1, s, false); }
SV_HARNESS_T(finite_ext_t, "shapes 5..6 x 4, half-width 1..3; finite; min, max") { int Y = sv::integer("Y", 5, 6), hw = sv::integer("hw", 1, 3); auto s = EXT[sv::flag("s")]; run(symvec2("f", Y, 4), hw, s, false); }
SV_HARNESS_T(variance_t, "shape 2x3 every cell finite or NaN; half-width 1; variance, std") { auto s = VAR[sv::flag("s")]; run(symvec2("f", 2, 3, -50, 50, sv::OPT), 1, s, false); }
SV_HARNESS_FP(precise_mean, "IEEE single precision: 1x5 or 5x1 field with a value of 1.1e8 to 1.3e8 in the first cell and small values elsewhere, half-width 1; mean and sum of the windows without the large value are right to 1e-3") {
    double big = sv::f32("big", 1.1e8, 1.3e8, sv::FIN); bool row = sv::flag("row"), mean = sv::flag("mean"); static const double V[] = {0, 1.5, 2.25, 0.5, 3.75, 1.25}; vec2 f = row ? vec2(1, vec(5)) : vec2(5, vec(1)); for (int i = 0; i < 5; i++) (row ? f[0][i] : f[i][0]) = i ? V[i] : big;
    vec2 o = gridpp::neighbourhood(f, 1, mean ? gridpp::Mean : gridpp::Sum); for (int i = 2; i < 5; i++) { double s = 0; int n = 0; for (int k = i - 1; k <= i + 1 && k < 5; k++) s += V[k], n++; double e = mean ? s / n : s, g = row ? o[0][i] : o[i][0]; check(land(le(e - 1e-3, g), le(g, e + 1e-3)), "mean or sum of a window is not affected by a large value outside it (IEEE)"); }
}
SV_HARNESS_FP(precise_variance, "IEEE single precision: 1x2 field of two values about 101325 within 4 of each other, half-width 1: the variance is right to 1 % or 1e-3, in spite of the large mean") {
    double x = sv::f32("x", 101321, 101325, sv::FIN); vec2 f(1, vec(2)); bool first = sv::flag("first"); f[0][!first] = x; f[0][first] = 101325; vec2 v = gridpp::neighbourhood(f, 1, gridpp::Variance); double d = (x - 101325) / 2; check(land(le(d * d * 0.99 - 1e-3, v[0][0]), le(v[0][0], d * d * 1.01 + 1e-3)), "variance of values with a large mean (IEEE)");
}
SV_HARNESS(unknown_statistic, "a statistic that is none: rejected, without ending the program") { vec2 f = symvec2("f", 1, 2, -100, 100, sv::OPT); auto s = sv::flag("other") ? (gridpp::Statistic) 1 : gridpp::Unknown; int h = sv::integer("halfwidth", 0, 1); check(throws([&] { gridpp::neighbourhood(f, h, s); }), "rejected"); check(throws([&] { gridpp::neighbourhood_brute_force(f, h, s); }), "rejected (brute force)"); }
SV_HARNESS(huge_halfwidth, "1x3, 2x2 fields, every cell finite or NaN; half-widths 2^30 to the largest integer: the window is the whole field; all statistics, both operators") { static const int H[] = {2147483647, 2147483646, 2147483645, 1073741824, 1000000}; bool t = sv::flag("t"), brute = sv::flag("brute"); vec2 f = symvec2("f", t ? 1 : 2, t ? 3 : 2, -100, 100); if (sv::flag("missing")) f[0][1] = NaN; auto s = symstat(); int h = H[sv::integer("h", 0, 4)]; auto op = [&](int w) { return brute ? gridpp::neighbourhood_brute_force(f, w, s) : gridpp::neighbourhood(f, w, s); }; vec2 a = op(h), b = op(3); check(dims(a, f.size(), f[0].size()), "shape"); for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(sv::same(a[y][x], b[y][x]), "as with a window that just covers the field"); }
