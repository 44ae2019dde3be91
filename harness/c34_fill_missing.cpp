#include "common.h"
// linear interpolation between the nearest valid cells of a line, or missing when not bracketed
static double line(const vec& l, int k) { int a = k, b = k, n = l.size(); while (a >= 0 && !sv::isnum(l[a])) a--; while (b < n && !sv::isnum(l[b])) b++; if (a < 0 || b >= n) return NAN; return a == b ? l[k] : l[a] + ((double) l[b] - l[a]) * (k - a) / (b - a); }
static void body(const vec2& f) {
    int Y = f.size(), X = Y ? f[0].size() : 0; vec2 r = gridpp::fill_missing(f); check(dims(r, Y, X), "size"); if (!dims(r, Y, X)) return;
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) {
        vec col(Y); for (int i = 0; i < Y; i++) col[i] = f[i][x];
        if (sv::isnum(f[y][x])) { check(eq(r[y][x], f[y][x]), "valid cells are unchanged"); continue; }
        double a = line(f[y], x), b = line(col, y); if (!sv::isnum(a) && !sv::isnum(b)) { check(std::isnan(r[y][x]), "unbracketed cells stay missing"); continue; }
        double e = !sv::isnum(a) ? b : !sv::isnum(b) ? a : (a + b) / 2; check(close(r[y][x], e, 1e-3), "linear interpolation between the bracketing cells");
    }
}
SV_HARNESS(row, "one row of 1..7 cells, any missing pattern, values within 1000") { body(symvec2("f", 1, sv::integer("X", 1, 7), -1000, 1000, sv::OPT)); }
SV_HARNESS(column, "one column of 1..7 cells, any missing pattern") { body(symvec2("f", sv::integer("Y", 1, 7), 1, -1000, 1000, sv::OPT)); }
SV_HARNESS(field23, "2x3 and 3x2 fields, any missing pattern") { bool t = sv::flag("transposed"); body(symvec2("f", t ? 3 : 2, t ? 2 : 3, -1000, 1000, sv::OPT)); }
SV_HARNESS(field33, "3x3 fields, any missing pattern") { body(symvec2("f", 3, 3, -1000, 1000, sv::OPT)); }
SV_HARNESS_T(field34, "3x4 fields, any missing pattern") { body(symvec2("f", 3, 4, -1000, 1000, sv::OPT)); }
SV_HARNESS(range, "row of 4 with 2 missing between: never outside the bracketing values; infinite values count as missing") { vec2 f = symvec2("f", 1, 4); f[0][1] = NaN; f[0][2] = sv::flag("inf") ? INFINITY : NaN; vec2 r = gridpp::fill_missing(f); for (int x = 1; x < 3; x++) check(land(le(sv::dmin(f[0][0], f[0][3]) - 1e-3, r[0][x]), le(r[0][x], sv::dmax(f[0][0], f[0][3]) + 1e-3)), "within the range of the bracketing values"); check(imp(le(f[0][0], f[0][3]), le(r[0][1], r[0][2] + 1e-3)), "monotone across the gap"); }
SV_HARNESS(empty, "empty fields") { check(gridpp::fill_missing(vec2()).empty(), "no rows"); vec2 r = gridpp::fill_missing(vec2(2)); check(dims(r, 2, 0), "no columns"); body(vec2(2, vec(2, NaN))); }
