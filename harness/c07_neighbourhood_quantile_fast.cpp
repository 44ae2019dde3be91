#include "common.h"
static double refinterp(double q, const dvec& p, const vec& th) { // p non-decreasing, concrete after forking; q concrete or symbolic without ties
    int n = p.size(); if (q > p[n - 1]) return th[n - 1]; if (q < p[0]) return th[0];
    int f = -1, l = -1; for (int i = 0; i < n; i++) if (p[i] == q) { if (f < 0) f = i; l = i; }
    if (f >= 0) { if (f == l) return th[f]; if (f == 0 && l == n - 1) return (th[f] + th[l]) / 2; if (f == 0) return th[l]; if (l == n - 1) return th[f]; return (th[f] + th[l]) / 2; }
    int i = 0; while (p[i + 1] < q) i++; return th[i] + (th[i + 1] - th[i]) * (q - p[i]) / (p[i + 1] - p[i]);
}
// cells: per-cell lists of values; the curve is the window mean of each cell's fraction of valid members <= threshold
static double ref(const vec3& f, int y, int x, int hw, float q, const vec& th) {
    int Y = f.size(), X = f[0].size(), n = th.size(); if (!sv::isnum(q) || n == 0) return NAN; dvec p(n, 0); int cells = 0;
    for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) {
        int c = 0; std::vector<int> k(n, 0); for (float v : f[i][j]) if (sv::isnum(v)) { c++; for (int t = 0; t < n; t++) if (v <= th[t]) k[t]++; }
        if (c) { cells++; for (int t = 0; t < n; t++) p[t] += (double) k[t] / c; } }
    if (!cells) return NAN; for (double& d : p) d /= cells;
    if (q == 1 && p[0] == 1) return th[0]; if (q == 0 && p[n - 1] == 0) return th[n - 1];
    return refinterp(q, p, th);
}
static vec3 to3(const vec2& f) { vec3 r(f.size()); for (size_t i = 0; i < f.size(); i++) for (float v : f[i]) r[i].push_back(vec(1, v)); return r; }
static const float LV[] = {0, 0.3, 0.55, 0.9, 1};
SV_HARNESS(field, "shapes 2x2, 1x3; half-width 0..1; cells finite or NaN; 1..2 increasing symbolic thresholds; levels 0,0.3,0.55,0.9,1") {
    int t = sv::flag("t"), hw = sv::flag("hw"), n = sv::integer("n", 1, 2); float q = LV[sv::integer("qi", 0, 4)]; vec th = symvec("th", n); for (int i = 0; i + 1 < n; i++) sv::assume(lt(th[i], th[i + 1]));
    vec2 f = symvec2("f", t ? 1 : 2, t ? 3 : 2, -100, 100, n == 1 ? sv::OPT : sv::FIN); if (n == 2) { int m = sv::integer("m", 0, 4); if (m < 3) f[t ? 0 : m / 2][t ? m : m % 2] = NaN; }
    vec2 got = gridpp::neighbourhood_quantile_fast(f, q, hw, th); check(dims(got, f.size(), f[0].size()), "shape"); vec3 g = to3(f);
    for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(close(got[y][x], ref(g, y, x, hw, q, th), 0.01), "interpolated exceedance curve of the window");
}
SV_HARNESS(varying, "shape 1x3, half-width 0..1, one missing cell or none, 2 thresholds; each cell its own level (five levels or missing)") {
    int hw = sv::flag("hw"); vec th = symvec("th", 2); sv::assume(lt(th[0], th[1])); vec2 f = symvec2("f", 1, 3); int m = sv::integer("m", 0, 3); if (m < 3) f[0][m] = NaN;
    vec2 q(1, vec(3)); int r = sv::integer("r", 0, 5); for (int i = 0; i < 3; i++) { int k = (r + i * 2) % 6; q[0][i] = k == 5 ? NaN : LV[k]; }
    vec2 got = gridpp::neighbourhood_quantile_fast(f, q, hw, th); vec3 g = to3(f); for (int x = 0; x < 3; x++) check(close(got[0][x], ref(g, 0, x, hw, q[0][x], th), 0.01), "each cell uses its own level");
    vec2 got3 = gridpp::neighbourhood_quantile_fast(g, q, hw, th); for (int x = 0; x < 3; x++) check(close(got3[0][x], ref(g, 0, x, hw, q[0][x], th), 0.01), "each cell uses its own level (ensemble)");
}
SV_HARNESS(ensemble, "shape 1x2 and 2x1, 2 members finite or NaN, half-width 0..1, one threshold; five levels") {
    int t = sv::flag("t"), hw = sv::flag("hw"); float q = LV[sv::integer("qi", 0, 4)]; vec th = symvec("th", 1); vec3 f = symvec3("f", t ? 1 : 2, t ? 2 : 1, 2, -100, 100, sv::OPT);
    vec2 got = gridpp::neighbourhood_quantile_fast(f, q, hw, th); check(dims(got, f.size(), f[0].size()), "shape"); for (int y = 0; y < (int) f.size(); y++) for (int x = 0; x < (int) f[0].size(); x++) check(close(got[y][x], ref(f, y, x, hw, q, th), 0.01), "ensemble exceedance curve");
}
SV_HARNESS(ensemble2, "shape 1x2, 2 finite members, half-width 1, 2 thresholds; five levels") {
    float q = LV[sv::integer("qi", 0, 4)]; vec th = symvec("th", 2); sv::assume(lt(th[0], th[1])); vec3 f = symvec3("f", 1, 2, 2);
    vec2 got = gridpp::neighbourhood_quantile_fast(f, q, 1, th); for (int x = 0; x < 2; x++) check(close(got[0][x], ref(f, 0, x, 1, q, th), 0.01), "ensemble exceedance curve");
}
SV_HARNESS(ensemble_missing, "shape 1x2, 2 members of which one or two are missing (of any cell), half-width 0..1, 2 thresholds; five levels; 1 cell, 3 members with one or two missing") {
    bool one = sv::flag("one"); int hw = sv::flag("hw"), m = sv::integer("m", 0, one ? 2 : 3), m2 = sv::integer("m2", 0, one ? 2 : 3); float q = LV[sv::integer("qi", 0, 4)]; vec th = symvec("th", 2); sv::assume(lt(th[0], th[1])); vec3 f = one ? symvec3("f", 1, 1, 3) : symvec3("f", 1, 2, 2); if (one) f[0][0][m] = f[0][0][m2] = NaN; else f[0][m / 2][m % 2] = f[0][m2 / 2][m2 % 2] = NaN;
    vec2 got = gridpp::neighbourhood_quantile_fast(f, q, hw, th); for (int x = 0; x < (int) f[0].size(); x++) check(close(got[0][x], ref(f, 0, x, hw, q, th), 0.01), "ensemble exceedance curve of the valid members");
}
SV_HARNESS(reject, "levels outside [0,1] (scalar, any cell), wrong level shape, negative half-width; 2D and 3D") {
    vec2 f = symvec2("f", 2, 2); vec3 g = to3(f); vec th(1, 0); float q = sv::f32("q", -10, 10); sv::assume(lor(lt(q, 0), lt(1, q))); vec2 qs(2, vec(2, 0.5)); int k = sv::integer("k", 0, 3); qs[k / 2][k % 2] = q;
    check(throws([&] { gridpp::neighbourhood_quantile_fast(f, q, 1, th); }), "level outside [0,1] rejected"); check(throws([&] { gridpp::neighbourhood_quantile_fast(f, qs, 1, th); }), "any level outside [0,1] rejected");
    check(throws([&] { gridpp::neighbourhood_quantile_fast(g, q, 1, th); }), "level outside [0,1] rejected (ensemble)"); check(throws([&] { gridpp::neighbourhood_quantile_fast(g, qs, 1, th); }), "any level outside [0,1] rejected (ensemble)");
    vec2 w1(1, vec(2, 0.5)), w2(3, vec(2, 0.5)); for (auto& w : {w1, w2}) { check(throws([&] { gridpp::neighbourhood_quantile_fast(f, w, 1, th); }), "wrong level shape rejected"); check(throws([&] { gridpp::neighbourhood_quantile_fast(g, w, 1, th); }), "wrong level shape rejected (ensemble)"); }
    check(throws([&] { gridpp::neighbourhood_quantile_fast(f, 0.5, -1, th); }), "negative half-width rejected"); check(throws([&] { gridpp::neighbourhood_quantile_fast(g, 0.5, -1, th); }), "negative half-width rejected (ensemble)");
}
SV_HARNESS(old_name, "1x2 field, 2 members, one value missing or not, half-width 0..1, one threshold, five levels: the deprecated name gives the same") { vec3 f = symvec3("f", 1, 2, 2); if (sv::flag("m")) f[0][1][1] = NaN; int hw = sv::flag("hw"); float q = LV[sv::integer("qi", 0, 4)]; vec th = symvec("th", 1); vec2 a = gridpp::neighbourhood_quantile_fast(f, q, hw, th), b = gridpp::neighbourhood_quantile_ens_fast(f, q, hw, th); check(dims(b, 1, 2), "shape"); for (int x = 0; x < 2; x++) check(sv::same(a[0][x], b[0][x]), "same result"); }
