#include "common.h"
static const float DG = -11;
struct Win { dvec b, v; };
static Win win(const vec2& B, const vec2& V, int y, int x, int hw) { Win w; int Y = B.size(), X = B[0].size(); for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) if (sv::isnum(B[i][j]) && sv::isnum(V[i][j])) { w.b.push_back(B[i][j]); w.v.push_back(V[i][j]); } return w; }
static double var(const Win& w) { int n = w.b.size(); double m = dsum(w.b) / n, t = 0; for (double d : w.b) t += (d - m) * (d - m); return t / n; }
static double cov(const Win& w) { int n = w.b.size(); double m = dsum(w.b) / n, k = dsum(w.v) / n, t = 0; for (int i = 0; i < n; i++) t += (w.b[i] - m) * (w.v[i] - k); return t / n; }
static double vmin(const dvec& v) { double m = v[0]; for (double d : v) m = sv::dmin(m, d); return m; } static double vmax(const dvec& v) { double m = v[0]; for (double d : v) m = sv::dmax(m, d); return m; }
// exact linear relation: both methods return the slope, or the default
static void linear(gridpp::GradientType type, int Y, int X, int hw) {
    vec2 B = symvec2("b", Y, X, -8, 8), V = B; float a = sv::f32("slope", -4, 4), c = sv::f32("offset", -10, 10); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) V[y][x] = a * B[y][x] + c; bool has = sv::flag("range_given"); float mr = has ? 0.5f : NaN; vec2 o = gridpp::calc_gradient(B, V, type, hw, 2, mr, DG); check(dims(o, Y, X), "size");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { Win w = win(B, V, y, x, hw); double r = vmax(w.b) - vmin(w.b); sv::B wide = type == gridpp::MinMax ? lt(has ? 0.5 : 0, r) : has ? le(0.25, var(w)) : lt(0, r); sv::assume(lor(eq(r, 0), le(0.05, r))); if (has) sv::assume(type == gridpp::MinMax ? le(0.01, sv::dabs(r - 0.5)) : le(0.01, sv::dabs(var(w) - 0.25)));
        if (sv::decide(wide)) check(close(o[y][x], a, 0.1), "slope of the linear relation"); else check(eq(o[y][x], DG), "default gradient where the base range is too small"); }
}
SV_HARNESS(linear_minmax, "min-max: values linear in the base, 1x3, half-width 1, range 0.5 or none") { linear(gridpp::MinMax, 1, 3, 1); }
SV_HARNESS(linear_regression, "regression: values linear in the base, 1x2, half-width 1, range 0.5 or none") { linear(gridpp::LinearRegression, 1, 2, 1); }
// general: least-squares slope, through slope * variance = covariance
static void regression(const vec2& B, const vec2& V, int hw, int num, float mr) {
    int Y = B.size(), X = B[0].size(); vec2 o = gridpp::calc_gradient(B, V, gridpp::LinearRegression, hw, num, mr, DG); check(dims(o, Y, X), "size");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { Win w = win(B, V, y, x, hw); if ((int) w.b.size() < num || w.b.empty()) { check(eq(o[y][x], DG), "default gradient with too few valid cells"); continue; }
        double s = var(w); sv::assume(lor(eq(s, 0), le(0.01, s))); if (sv::isnum(mr)) { double m2 = (double) mr * mr; sv::assume(le(0.01, sv::dabs(s - m2))); } bool wide = sv::decide(land(lt(0, s), sv::isnum(mr) ? le((double) mr * mr, s) : sv::mk(true)));
        if (wide) check(close((double) o[y][x] * s, cov(w), 0.05), "least-squares slope"); else check(eq(o[y][x], DG), "default gradient where the base range is too small"); }
}
SV_HARNESS(regression_values, "regression: 2x2, fixed base with a missing cell or not, any values (missing included), half-width 1, minimum 0..4") { vec2 B = {{0, 1}, {3, sv::flag("missing_base") ? NaN : 5}}; regression(B, symvec2("v", 2, 2, -10, 10, sv::OPT), 1, sv::integer("num_min", 0, 4), NaN); }
SV_HARNESS(regression_base, "regression: 1x3, any base, values 1 4 2 (one may be missing), half-width 1, range none, 0 or 2") { static const float MR[] = {NaN, 0, 2}; vec2 V = {{1, sv::flag("missing_value") ? NaN : 4, 2}}; regression(symvec2("b", 1, 3, -8, 8), V, 1, 2, MR[sv::integer("range", 0, 2)]); }
SV_HARNESS(regression_33, "regression: 3x3 fixed base, any values, half-width 1 and 2") { vec2 B = {{0, 1, 4}, {2, 2, 7}, {3, 5, 1}}; regression(B, symvec2("v", 3, 3, -10, 10), sv::integer("halfwidth", 1, 2), 2, NaN); }
static void minmax(const vec2& B, const vec2& V, int hw, int num, float mr) {
    int Y = B.size(), X = B[0].size(); vec2 o = gridpp::calc_gradient(B, V, gridpp::MinMax, hw, num, mr, DG); check(dims(o, Y, X), "size");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { Win w = win(B, V, y, x, hw); if ((int) w.b.size() < num || w.b.empty()) { check(eq(o[y][x], DG), "default gradient with too few valid cells"); continue; }
        double lo = vmin(w.b), hi = vmax(w.b), r = hi - lo; sv::assume(lor(eq(r, 0), le(0.01, r))); if (sv::isnum(mr)) sv::assume(le(0.001, sv::dabs(r - mr))); if (sv::decide(le(r, sv::isnum(mr) ? mr : 0))) { check(eq(o[y][x], DG), "default gradient where the base range is too small"); continue; }
        sv::B ok = sv::mk(false); for (size_t i = 0; i < w.b.size(); i++) for (size_t j = 0; j < w.b.size(); j++) if (i != j) ok = lor(ok, land(land(eq(w.b[i], hi), eq(w.b[j], lo)), close((double) o[y][x] * r, w.v[i] - w.v[j], 0.01))); check(ok, "slope between a cell with the largest and one with the smallest base"); }
}
SV_HARNESS(minmax_line, "min-max: 1x3, any base and values, half-width 1, range none, 0 or 2") { static const float MR[] = {NaN, 0, 2}; minmax(symvec2("b", 1, 3, -8, 8), symvec2("v", 1, 3, -10, 10), 1, 2, MR[sv::integer("range", 0, 2)]); }
SV_HARNESS(minmax_missing, "min-max: 2x2, base any or missing, values any or missing, minimum 0..4") { minmax(symvec2("b", 2, 2, -8, 8, sv::OPT), {{1, 5}, {sv::f32("v", -5, 5, sv::OPT), -2}}, 1, sv::integer("num_min", 0, 4), 0); }
SV_HARNESS(minmax_wide, "min-max: 1x4, any base, fixed values, half-width 1 and 2") { minmax(symvec2("b", 1, 4, -8, 8), {{1, 4, -2, 3}}, sv::integer("halfwidth", 1, 2), 0, NaN); }
SV_HARNESS(small_range, "min-max: base ranges below 1") { vec2 B = symvec2("b", 1, 2, 0, 0.9); minmax(B, {{1, 3}}, 1, 2, sv::f32("range", 0, 0.5)); }
SV_HARNESS(errors, "invalid arguments are rejected") {
    vec2 B(2, vec(3)), V(2, vec(3)), W(3, vec(2)); gridpp::GradientType t = sv::flag("minmax") ? gridpp::MinMax : gridpp::LinearRegression; float n = sv::f32("n", -10, -0.001); int h = sv::integer("h", -2, 0), m = sv::integer("m", -2, -1);
    check(throws([&] { gridpp::calc_gradient(B, W, t, 1, 2, 0, 0); }) && throws([&] { gridpp::calc_gradient(B, V, t, h, 2, 0, 0); }) && throws([&] { gridpp::calc_gradient(B, V, t, 1, m, 0, 0); }) && throws([&] { gridpp::calc_gradient(B, V, t, 1, 2, n, 0); }) && throws([&] { gridpp::calc_gradient(vec2(), vec2(), t, 1, 2, 0, 0); }), "rejected");
}
SV_HARNESS(huge_halfwidth, "1x3 field; half-widths up to the largest integer: the window is the whole field; both methods") { static const int H[] = {2147483647, 2147483646, 2147483645, 1073741824}; int h = H[sv::integer("h", 0, 3)]; auto t = sv::flag("minmax") ? gridpp::MinMax : gridpp::LinearRegression; vec2 B = {{0, 3, 1}}, V = symvec2("v", 1, 3, -8, 8); if (sv::flag("missing")) V[0][1] = NaN; vec2 a = gridpp::calc_gradient(B, V, t, h, 1, 0.5f, DG), b = gridpp::calc_gradient(B, V, t, 3, 1, 0.5f, DG); check(dims(a, 1, 3), "size"); for (int x = 0; x < 3; x++) check(sv::same(a[0][x], b[0][x]), "as with a window that just covers the field"); }
