#include "common.h"
static const float LV[] = {0, 0.5, 1, 0.25, 0.1, 0.75};
SV_HARNESS(field, "shapes 2x2, 1x3; half-width 0..2; every cell finite or NaN; levels 0,0.1,0.25,0.5,0.75,1 or missing") { sv::exact_division(true);
    int t = sv::flag("t"), hw = sv::integer("hw", 0, 2), qi = sv::integer("qi", 0, 6); float q = qi == 6 ? NaN : LV[qi]; vec2 f = symvec2("f", t ? 1 : 2, t ? 3 : 2, -50, 50, sv::OPT);
    vec2 got = gridpp::neighbourhood_quantile(f, q, hw); check(dims(got, f.size(), f[0].size()), "shape");
    for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(close(got[y][x], refquant(window_values(f, y, x, hw), q), 0.01), "quantile of the clipped window");
}
SV_HARNESS(level, "shape 1x2, half-width 1, finite cells, symbolic level") { sv::exact_division(true);
    float q = sv::f32("q", 0, 1); vec2 f = symvec2("f", 1, 2); vec2 got = gridpp::neighbourhood_quantile(f, q, 1); for (int x = 0; x < 2; x++) check(close(got[0][x], refquant(window_values(f, 0, x, 1), q), 0.01), "quantile at a symbolic level");
}
SV_HARNESS(extremes, "shapes 3x3, 4x2; half-width 1; finite; levels 0 and 1") {
    int t = sv::flag("t"); float q = sv::flag("q"); vec2 f = symvec2("f", t ? 3 : 4, t ? 3 : 2); vec2 got = gridpp::neighbourhood_quantile(f, q, 1);
    for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(close(got[y][x], refquant(window_values(f, y, x, 1), q), 0.01), "extreme quantile of the clipped window");
}
SV_HARNESS(ensemble, "shapes 1x2, 2x1, 2 members; half-width 0..1; every value finite or NaN; six levels") { sv::exact_division(true);
    int t = sv::flag("t"), hw = sv::flag("hw"); float q = LV[sv::integer("qi", 0, 5)]; vec3 f = symvec3("f", t ? 1 : 2, t ? 2 : 1, 2, -50, 50, sv::OPT);
    vec2 got = gridpp::neighbourhood_quantile(f, q, hw); check(dims(got, f.size(), f[0].size()), "shape");
    for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(close(got[y][x], refquant(window_values(f, y, x, hw), q), 0.01), "quantile over window and members");
}
SV_HARNESS(ensemble_extremes, "shape 2x2, 1..2 members; half-width 1; finite; levels 0 and 1") {
    int E = sv::integer("E", 1, 2); float q = sv::flag("q"); vec3 f = symvec3("f", 2, 2, E); vec2 got = gridpp::neighbourhood_quantile(f, q, 1);
    for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) check(close(got[y][x], refquant(window_values(f, y, x, 1), q), 0.01), "extreme quantile over window and members");
}
SV_HARNESS(reject, "negative half-width, level above 1 or below 0") {
    vec2 f = symvec2("f", 1, 2); vec3 g = symvec3("g", 1, 1, 2); check(throws([&] { gridpp::neighbourhood_quantile(f, 0.5, -1); }), "negative half-width rejected"); check(throws([&] { gridpp::neighbourhood_quantile(g, 0.5, -1); }), "negative half-width rejected (ensemble)");
    float q = sv::f32("q", -10, 10); sv::assume(lor(lt(q, 0), lt(1, q))); check(throws([&] { gridpp::neighbourhood_quantile(f, q, 1); }), "level outside [0,1] rejected"); check(throws([&] { gridpp::neighbourhood_quantile(g, q, 1); }), "level outside [0,1] rejected (ensemble)");
}
SV_HARNESS(old_name, "1x2 field, 2 members, one value missing or not, half-width 0..1, two levels: the deprecated name gives the same") { vec3 f = symvec3("f", 1, 2, 2); if (sv::flag("m")) f[0][1][1] = NaN; int hw = sv::flag("hw"); float q = sv::flag("q") ? 0.25f : 1; vec2 a = gridpp::neighbourhood_quantile(f, q, hw), b = gridpp::neighbourhood_quantile_ens(f, q, hw); check(dims(b, 1, 2), "shape"); for (int x = 0; x < 2; x++) check(sv::same(a[0][x], b[0][x]), "same result"); }
SV_HARNESS(huge_halfwidth, "1x3 field, alone or with 2 members; half-widths up to the largest integer: the window is the whole field; six levels") { static const int H[] = {2147483647, 2147483645, 1073741824}; int h = H[sv::integer("h", 0, 2)]; float q = LV[sv::integer("q", 0, 5)]; vec3 f = symvec3("f", 1, 3, 2, -100, 100); vec2 g = {{f[0][0][0], f[0][1][0], f[0][2][0]}}; bool ens = sv::flag("ensemble"); auto op = [&](int w) { return ens ? gridpp::neighbourhood_quantile(f, q, w) : gridpp::neighbourhood_quantile(g, q, w); }; vec2 a = op(h), b = op(3); check(dims(a, 1, 3), "shape"); for (int x = 0; x < 3; x++) check(sv::same(a[0][x], b[0][x]), "as with a window that just covers the field"); }
