// C45: the client's calibrators along the time axis (accumulate, deaccumulate, window)
#include "client.h"
SV_HARNESS(accumulate, "1x2 cells, 1 member, 4 times; values in [-100,100] or missing") {
    FileFake f = cfile(1, 2, 1, 4); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, MISS); cput(f, v, a); check(run("accumulate", v, "", f), "calibrate succeeds"); cvec4 r = cget(f, v);
    for (int x = 0; x < 2; x++) { double sum = 0; bool good = true; for (int t = 0; t < 4; t++) { if (t) { if (!ok(a[t][0][x][0])) good = false; if (good) sum += a[t][0][x][0]; }
        if (good) check(close(r[t][0][x][0], sum, 1e-3), "the sum of the increments up to the time"); else check(!ok(r[t][0][x][0]), "missing once an increment is missing"); } }
}
SV_HARNESS(deaccumulate, "1 cell, 2 members, 4 times; window 1, 2 or 5; values in [-100,100] or missing") {
    int W = 1 + sv::integer("window", 0, 2); if (W == 3) W = 5; FileFake f = cfile(1, 1, 2, 4); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, MISS); cput(f, v, a); char o[40]; snprintf(o, 40, "window=%d", W); run("deaccumulate", v, o, f); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e]; if (t < W) { check(!ok(g), "missing while there is no earlier value"); return; } double c = a[t][y][x][e], p = a[t - W][y][x][e];
        if (ok(c) && ok(p)) check(close(g, c - p, 1e-3), "difference over the window"); else check(!ok(g), "missing where either end is missing"); });
}
SV_HARNESS(accumulate_inverts, "1x1 cell, 2 members, 4 times; values in [-100,100]") {
    FileFake f = cfile(1, 1, 2, 4); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, FIN); cput(f, v, a); run("accumulate", v, "", f); run("deaccumulate", v, "window=1", f); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { if (t) check(close(r[t][y][x][e], a[t][y][x][e], 1e-3), "deaccumulate undoes accumulate"); });
}
static void window(int T, int smax) {
    int L = sv::integer("length", 1, T + 2), s = sv::integer("statistic", 0, smax); bool before = sv::flag("before"), keep = sv::flag("keepMissing"), edge = sv::flag("edge_missing");
    FileFake f = cfile(1, 1, 1, T); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, MISS); cput(f, v, a);
    char o[200]; snprintf(o, 200, "length=%d before=%d keepMissing=%d edgePolicy=%s stat=%s quantile=0.3", L, before, keep, edge ? "missing" : "compute", STATN[s]); run("window", v, o, f); cvec4 r = cget(f, v);
    for (int t = 0; t < T; t++) { int lo = before ? t - L + 1 : t - (L - 1) / 2, hi = before ? t : lo + L - 1; double g = r[t][0][0][0]; bool cut = lo < 0 || hi >= T;
        if (edge && cut) { check(!ok(g), "missing at the edges when so asked"); continue; }
        dvec w; bool miss = false; for (int k = std::max(0, lo); k <= std::min(T - 1, hi); k++) if (ok(a[k][0][0][0])) w.push_back(a[k][0][0][0]); else miss = true;
        if (keep && miss) check(!ok(g), "missing if a value of the window is missing and keepMissing is set"); else cstat(g, w, STATT[s], 0.3, 1e-2, "statistic of the valid values of the window"); }
}
SV_HARNESS(window3, "1 cell, 3 times; length 1..5, all options, all statistics; values in [-100,100] or missing") { window(3, 6); }
SV_HARNESS_T(window4, "as window3 with 4 times") { window(4, 6); }
SV_HARNESS(window_space, "2x2 cells, 2 members, 3 times; length 3, mean and max; values in [-100,100]") {
    FileFake f = cfile(2, 2, 2, 3); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, FIN); cput(f, v, a); run("window", v, "length=3 stat=mean", f); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double s = 0; int n = 0; for (int k = std::max(0, t - 1); k <= std::min(2, t + 1); k++) { s += a[k][y][x][e]; n++; } check(close(r[t][y][x][e], s / n, 1e-3), "each cell and member has its own series"); });
}
