// C47: the client's neighbourhood calibrator
#include "client.h"
static void hood(int Y, int X, int s, int rmax, bool fast, double lo, double hi, int nmiss, bool byfile = false) {
    FileFake f = cfile(Y, X, 1, 1); Variable v("v"); cvec4 a = csym(f, "v", lo, hi, FIN); int r = sv::integer("radius", 0, rmax);
    for (int k = 0; k < nmiss; k++) { int p = sv::integer(sv::idx("missing", k).c_str(), 0, Y * X - 1); a[0][p / X][p % X][0] = sv::flag(sv::idx("nan", k).c_str()) ? NaN : MV; }
    cput(f, v, a); char o[99]; snprintf(o, 99, "radius=%d stat=%s quantile=0.3 fast=%d", byfile ? 7 : r, STATN[s], fast); ParameterFileSimple par(Parameters((float) r)); run("neighbourhood", v, o, f, byfile ? &par : NULL); cvec4 g = cget(f, v);
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { dvec w; for (int i = std::max(0, y - r); i <= std::min(Y - 1, y + r); i++) for (int j = std::max(0, x - r); j <= std::min(X - 1, x + r); j++) if (ok(a[0][i][j][0])) w.push_back(a[0][i][j][0]); cstat(g[0][y][x][0], w, STATT[s], 0.3, 1e-2, "statistic of the valid values of the square"); }
}
static int shape(int& X) { static const int S[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 3}}; int k = sv::integer("shape", 0, 4); X = S[k][1]; return S[k][0]; }
SV_HARNESS(mean_sum, "fields 1x1, 1x4, 4x1, 2x3, 3x3; mean and sum, fast or not; radius 0..3; values in [-50,50]; up to 2 missing") { int X, Y = shape(X); hood(Y, X, sv::flag("sum") ? 5 : 0, 3, sv::flag("fast"), -50, 50, 2); }
SV_HARNESS(mean_sum_full, "as mean_sum without missing values, fields up to 4x4") { bool b = sv::flag("large"); hood(b ? 4 : 3, b ? 4 : 3, sv::flag("sum") ? 5 : 0, 4, sv::flag("fast"), -50, 50, 0); }
SV_HARNESS(extremes, "fields as mean_sum; minimum and maximum, fast or not; radius 0..3; values in [-50,50]; none missing") { int X, Y = shape(X); hood(Y, X, sv::flag("max") ? 3 : 1, 3, sv::flag("fast"), -50, 50, 0); }
SV_HARNESS(extremes_missing, "fields as mean_sum; minimum and maximum, fast or not; radius 0..2; one missing") { int X, Y = shape(X); hood(Y, X, sv::flag("max") ? 3 : 1, 2, sv::flag("fast"), -50, 50, 1); }
SV_HARNESS(order, "fields 2x2, 1x4, median and quantile 0.3; radius 0..2; one missing") { bool b = sv::flag("row"); hood(b ? 1 : 2, b ? 4 : 2, sv::flag("median") ? 2 : 6, 2, sv::flag("fast"), -50, 50, 1); }
SV_HARNESS(order_full, "fields 2x3, 3x1, median and quantile 0.3; radius 0..2; none missing") { bool b = sv::flag("row"); hood(b ? 3 : 2, b ? 1 : 3, sv::flag("median") ? 2 : 6, 2, true, -50, 50, 0); }
SV_HARNESS(deviation, "field 1x3, standard deviation, radius 0..1, values in [-10,10]") { hood(1, 3, 4, 1, sv::flag("fast"), -10, 10, 0); }
SV_HARNESS(radius_file, "field 3x3, mean and maximum: radius 0..2 from a parameter file takes precedence") { hood(3, 3, sv::flag("max") ? 3 : 0, 2, true, -50, 50, 0, true); }
SV_HARNESS(approximate, "field 3x3, approximate median and quantile 0, 0.3, 1: within the range of the square; exact for 0 and 1") {
    FileFake f = cfile(3, 3, 1, 1); Variable v("v"); cvec4 a = csym(f, "v", -50, 50, FIN); cput(f, v, a); int k = sv::integer("level", 0, 3), r = sv::integer("radius", 0, 1); static const char* O[] = {"stat=median", "stat=quantile quantile=0", "stat=quantile quantile=0.3", "stat=quantile quantile=1"}; char o[99]; snprintf(o, 99, "radius=%d approx=1 %s", r, O[k]); run("neighbourhood", v, o, f); cvec4 g = cget(f, v);
    for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) { double l = a[0][y][x][0], h = l, z = g[0][y][x][0]; for (int i = std::max(0, y - r); i <= std::min(2, y + r); i++) for (int j = std::max(0, x - r); j <= std::min(2, x + r); j++) { l = sv::dmin(l, a[0][i][j][0]); h = sv::dmax(h, a[0][i][j][0]); } check(land(le(l - 1e-3, z), le(z, h + 1e-3)), "within the range of the square"); if (k == 1) check(close(z, l, 1e-3), "level 0 is the minimum"); if (k == 3) check(close(z, h, 1e-3), "level 1 is the maximum"); if (r == 0) check(close(z, a[0][y][x][0], 1e-3), "radius 0 changes nothing"); }
}
SV_HARNESS(members, "2x2 cells, 2 members, 2 times, mean and maximum, radius 1: each member and time separately") {
    FileFake f = cfile(2, 2, 2, 2); Variable v("v"); cvec4 a = csym(f, "v", -50, 50, FIN); cput(f, v, a); bool mx = sv::flag("max"); run("neighbourhood", v, mx ? "radius=1 stat=max" : "radius=1 stat=mean", f); cvec4 g = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { dvec w; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) w.push_back(a[t][i][j][e]); cstat(g[t][y][x][e], w, mx ? Util::StatTypeMax : Util::StatTypeMean, 0, 1e-2, "statistic of the square in its own member and time"); });
}
SV_HARNESS_FP(precise_mean, "IEEE single precision: 1x5 or 5x1 field with a value of 1.1e8 to 1.3e8 in the first cell and small values elsewhere, radius 1; fast mean and sum of the windows without the large value are right to 1e-3") {
    double big = sv::f32("big", 1.1e8, 1.3e8, sv::FIN); bool row = sv::flag("row"), mean = sv::flag("mean"); static const double V[] = {0, 1.5, 2.25, 0.5, 3.75}; FileFake f = cfile(row ? 1 : 5, row ? 5 : 1, 1, 1); Variable v("v"); cvec4 a = cget(f, v);
    for (int i = 0; i < 5; i++) (row ? a[0][0][i][0] : a[0][i][0][0]) = i ? V[i] : big; cput(f, v, a); run("neighbourhood", v, mean ? "radius=1 stat=mean fast=1" : "radius=1 stat=sum fast=1", f, NULL); cvec4 g = cget(f, v);
    for (int i = 2; i < 5; i++) { double s = 0; int n = 0; for (int k = i - 1; k <= i + 1 && k < 5; k++) s += V[k], n++; double e = mean ? s / n : s, o = row ? g[0][0][i][0] : g[0][i][0][0]; check(land(le(e - 1e-3, o), le(o, e + 1e-3)), "mean or sum of a window is not affected by a large value outside it (IEEE)"); }
}
