#include "common.h"
static void run(const vec3& f, int hw, gridpp::Statistic s, bool brute) {
    int Y = f.size(), X = f[0].size();
    vec2 got = brute ? gridpp::neighbourhood_brute_force(f, hw, s) : gridpp::neighbourhood(f, hw, s);
    check(dims(got, Y, X), "output has the shape of the input");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) check_stat(got[y][x], window_values(f, y, x, hw), s, 0.05, brute ? "brute force pools window cells and members" : "optimised operator pools window cells and members");
}
static const gridpp::Statistic LIN[] = {gridpp::Mean, gridpp::Sum, gridpp::Count, gridpp::Min, gridpp::Max};
SV_HARNESS(missing, "shape 1x2 and 2x1 with 2 members, half-width 0..2; every value finite in [-50,50] or NaN; all statistics; both operators") {
    int t = sv::flag("t"), hw = sv::integer("hw", 0, 2); bool b = sv::flag("brute"); auto s = symstat(); run(symvec3("f", t ? 1 : 2, t ? 2 : 1, 2, -50, 50, sv::OPT), hw, s, b);
}
SV_HARNESS(finite, "shapes 1x3, 3x2; 1..3 members; half-width 1; mean, sum, count, min, max; both operators") {
    int t = sv::flag("t"), E = sv::integer("E", 1, 3); auto s = LIN[sv::integer("s", 0, 4)]; bool b = sv::flag("brute"); run(symvec3("f", t ? 1 : 3, t ? 3 : 2, E), 1, s, b);
}
SV_HARNESS(some_missing, "shape 2x2, 2 members, half-width 1; two cells with any value missing, the rest finite; mean, sum, count, min, max; optimised operator") {
    auto s = LIN[sv::integer("s", 0, 4)]; vec3 f = symvec3("f", 2, 2, 2); int m = sv::integer("m", 0, 15); for (int k = 0; k < 4; k++) if (m & (1 << k)) f[k / 2][k / 2][k % 2] = NaN; run(f, 1, s, false);
}
SV_HARNESS_T(missing_t, "shape 2x2, 2 members, half-width 1; every value finite or NaN; mean, sum, count, min, max; optimised operator") { auto s = LIN[sv::integer("s", 0, 4)]; run(symvec3("f", 2, 2, 2, -50, 50, sv::OPT), 1, s, false); }
SV_HARNESS_T(finite_t, "shapes 4x3, 2 members; half-width 0..2; mean, sum, count, min, max") { int hw = sv::integer("hw", 0, 2); auto s = LIN[sv::integer("s", 0, 4)]; run(symvec3("f", 4, 3, 2), hw, s, false); }
SV_HARNESS(old_name, "1x3 field, 2 members, one value missing or not, half-width 1; mean, sum, count, min, max: the deprecated name gives the same") { auto s = LIN[sv::integer("s", 0, 4)]; vec3 f = symvec3("f", 1, 3, 2); if (sv::flag("m")) f[0][1][1] = NaN; vec2 a = gridpp::neighbourhood(f, 1, s), b = gridpp::neighbourhood_ens(f, 1, s); check(dims(b, 1, 3), "shape"); for (int x = 0; x < 3; x++) check(sv::same(a[0][x], b[0][x]), "same result"); }
SV_HARNESS(unknown_statistic, "a statistic that is none: rejected, without ending the program") { vec3 f = symvec3("f", 1, 2, 2, -100, 100); auto s = sv::flag("other") ? (gridpp::Statistic) 1 : gridpp::Unknown; int h = sv::integer("halfwidth", 0, 1); check(throws([&] { gridpp::neighbourhood(f, h, s); }), "rejected"); check(throws([&] { gridpp::neighbourhood_brute_force(f, h, s); }), "rejected (brute force)"); }
SV_HARNESS(huge_halfwidth, "1x3 field, 2 members; half-widths up to the largest integer: the window is the whole field; all statistics, both operators") { static const int H[] = {2147483647, 2147483645, 1073741824}; bool brute = sv::flag("brute"); vec3 f = symvec3("f", 1, 3, 2, -100, 100); if (sv::flag("missing")) f[0][1][0] = NaN; auto s = symstat(); int h = H[sv::integer("h", 0, 2)]; auto op = [&](int w) { return brute ? gridpp::neighbourhood_brute_force(f, w, s) : gridpp::neighbourhood(f, w, s); }; vec2 a = op(h), b = op(3); check(dims(a, 1, 3), "shape"); for (int x = 0; x < 3; x++) check(sv::same(a[0][x], b[0][x]), "as with a window that just covers the field"); }
