#include "common.h"
// Reference: the statistic of the valid values among the positions covered by the window, clipped to the row. Counts are never missing.
static void run(const vec2& f, int length, gridpp::Statistic s, bool before, bool keep, bool edges) {
    vec2 got = gridpp::window(f, length, s, before, keep, edges); int Y = f.size(), X = f[0].size(); check(dims(got, Y, X), "output has the shape of the input");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) {
        int lo = before ? x - length + 1 : x - length / 2, hi = before ? x : x + length / 2; bool out = lo < 0 || hi > X - 1; dvec v; bool miss = false;
        for (int i = std::max(lo, 0); i <= std::min(hi, X - 1); i++) if (sv::isnum(f[y][i])) v.push_back(f[y][i]); else miss = true;
        if (s != gridpp::Count && ((keep && miss) || (edges && out))) check(!sv::isnum(got[y][x]), "missing where edges or missing values are to be kept missing");
        else check_stat(got[y][x], v, s, 0.02, "statistic of the clipped window");
    }
}
SV_HARNESS(missing, "one row of 1..4 values, each finite or NaN; every valid length up to 5; all statistics; every option") {
    int X = sv::integer("X", 1, 4), L = sv::integer("L", 1, 5); bool b = sv::flag("before"), k = sv::flag("keep"), e = sv::flag("edges"); auto s = symstat(); if (!b && L % 2 == 0) sv::stop_path(); sv::exact_division(true);
    run(symvec2("f", 1, X, -50, 50, sv::OPT), L, s, b, k, e);
}
SV_HARNESS(finite, "one row of 5..9 finite values; lengths 1..9 and 1001; mean, sum, min, max; every option") {
    int X = sv::integer("X", 5, 9), L = sv::integer("L", 1, 10); if (L == 10) L = 1001; bool b = sv::flag("before"), e = sv::flag("edges"); static const gridpp::Statistic st[] = {gridpp::Mean, gridpp::Sum, gridpp::Min, gridpp::Max}; auto s = st[sv::integer("s", 0, 3)]; if (!b && L % 2 == 0) sv::stop_path();
    run(symvec2("f", 1, X), L, s, b, false, e);
}
SV_HARNESS(rows, "two rows of 2 values, each finite or NaN; lengths 1..3; mean, count, max; centred or ending") {
    int L = sv::integer("L", 1, 3); bool b = sv::flag("before"); static const gridpp::Statistic st[] = {gridpp::Mean, gridpp::Count, gridpp::Max}; auto s = st[sv::integer("s", 0, 2)]; if (!b && L % 2 == 0) sv::stop_path(); run(symvec2("f", 2, 2, -50, 50, sv::OPT), L, s, b, false, false);
}
SV_HARNESS(reject, "non-positive lengths and even centred lengths; empty inputs") {
    vec2 f = symvec2("f", 1, 2); int L = sv::integer("L", -2, 8); auto s = symstat(); if (L <= 0) check(throws([&] { gridpp::window(f, L, s, true, false, false); }), "non-positive length rejected"); if (L <= 0 || L % 2 == 0) check(throws([&] { gridpp::window(f, L, s, false, false, false); }), "even centred length rejected");
    if (L > 0 && L % 2) { check(gridpp::window(vec2(), L, s).size() == 0, "no rows"); vec2 r = gridpp::window(vec2(2), L, s); check(r.size() == 2 && r[0].empty(), "empty rows"); }
}
SV_HARNESS_T(missing_t, "one row of 5..6 values, each finite or NaN; lengths 1..7; all statistics; every option") {
    int X = sv::integer("X", 5, 6), L = sv::integer("L", 1, 7); bool b = sv::flag("before"), k = sv::flag("keep"), e = sv::flag("edges"); auto s = symstat(); if (!b && L % 2 == 0) sv::stop_path(); sv::exact_division(true);
    run(symvec2("f", 1, X, -50, 50, sv::OPT), L, s, b, k, e);
}
SV_HARNESS_FP(precise, "IEEE single precision: a row with a value of 1.1e8 to 1.3e8 first and 5 small values after it, length 3, centred or ending; mean and sum of the windows without the large value are right to 1e-3") {
    double big = sv::f32("big", 1.1e8, 1.3e8, sv::FIN); bool before = sv::flag("before"), mean = sv::flag("mean"); static const double V[] = {0, 1.5, 2.25, 0.5, 3.75, 1.25}; vec2 f(1, vec(6)); for (int i = 0; i < 6; i++) f[0][i] = i ? V[i] : big;
    vec2 o = gridpp::window(f, 3, mean ? gridpp::Mean : gridpp::Sum, before, false, false); for (int i = before ? 3 : 2; i < 6; i++) { double s = 0; int n = 0; for (int k = before ? i - 2 : i - 1; k <= (before ? i : i + 1) && k < 6; k++) s += V[k], n++; double e = mean ? s / n : s, g = o[0][i]; check(land(le(e - 1e-3, g), le(g, e + 1e-3)), "mean or sum of a window is not affected by a large value outside it (IEEE)"); }
}
SV_HARNESS(unusable_statistic, "quantile, unknown and undefined statistics: rejected, without ending the program") { static const gridpp::Statistic ST[] = {gridpp::Quantile, gridpp::Unknown, (gridpp::Statistic) 1}; vec2 f = symvec2("f", 1, 2, -100, 100, sv::OPT); auto s = ST[sv::integer("statistic", 0, 2)]; int L = sv::integer("L", 1, 3); bool before = sv::flag("before"); sv::assume(sv::mk(before || L != 2)); check(throws([&] { gridpp::window(f, L, s, before, sv::flag("keep"), sv::flag("edges")); }), "rejected"); }
