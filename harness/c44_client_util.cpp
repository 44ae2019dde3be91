// C44: the client's statistics, interpolation and linear algebra utilities
#include "client.h"
static const float LEVELS[] = {0, 0.1f, 0.25f, 0.5f, 0.7f, 0.9f, 1};
static void stat(int N, double lo, double hi, bool nan) {
    vec v(N); for (int i = 0; i < N; i++) v[i] = cval(sv::idx("v", i), lo, hi, nan ? MISSN : MISS); int s = sv::integer("statistic", 0, 6); float q = s == 6 ? LEVELS[sv::integer("level", 0, 6)] : MV;
    double r = Util::calculateStat(v, STATT[s], q); dvec w; for (float x : v) if (ok(x)) w.push_back(x); cstat(r, w, STATT[s], q, 2e-2, "statistic of the valid values");
}
SV_HARNESS(statistics, "0..4 values in [-100,100] or missing (-999, up to 2 values also NaN); all statistics; quantile levels 0, 0.1, 0.25, 0.5, 0.7, 0.9, 1") { int n = sv::integer("size", 0, 4); stat(n, -100, 100, n < 3); }
SV_HARNESS_T(statistics6, "5 or 6 values, otherwise as statistics") { stat(sv::integer("size", 5, 6), -100, 100, false); }
SV_HARNESS(quantile_level, "3 values in [-100,100], any level in [0,1]") {
    vec v(3); for (int i = 0; i < 3; i++) v[i] = sv::f32(sv::idx("v", i).c_str(), -100, 100); float q = sv::f32("level", 0, 1); double r = Util::calculateStat(v, Util::StatTypeQuantile, q); dvec s = csorted(dvec(v.begin(), v.end()));
    double t = 2.0 * q; check(close(r, sv::ite(le(t, 1), s[0] + (s[1] - s[0]) * t, s[1] + (s[2] - s[1]) * (t - 1)), 1e-2), "linear interpolation between the sorted values");
}
SV_HARNESS(statname, "the seven names and two others") {
    for (int s = 0; s < 7; s++) { Util::StatType t = Util::StatTypeMean; check(Util::getStatType(STATN[s], t), "known statistic"); check(t == STATT[s], "the right statistic"); }
    Util::StatType t; check(!Util::getStatType("variance", t), "unknown name refused"); check(!Util::getStatType("", t), "empty name refused");
}
SV_HARNESS(interpolate, "curves of 1..4 points, x non-decreasing, all values in [-100,100], any x") {
    int N = sv::integer("size", 1, 4); vec X(N), Y(N); for (int i = 0; i < N; i++) { X[i] = sv::f32(sv::idx("X", i).c_str(), -100, 100); Y[i] = sv::f32(sv::idx("Y", i).c_str(), -100, 100); if (i) sv::assume(le(X[i - 1], X[i])); }
    float x = sv::f32("x", -120, 120); double r = Util::interpolate(x, X, Y); if (!ok(r)) { check(false, "a value"); return; }
    if (sv::decide(lt(x, X[0]))) { check(close(r, Y[0], 1e-3), "first value below the curve"); return; } if (sv::decide(lt(X[N - 1], x))) { check(close(r, Y[N - 1], 1e-3), "last value above the curve"); return; }
    for (int i = 0; i + 1 < N; i++) check(imp(land(lt(X[i], x), lt(x, X[i + 1])), close((r - Y[i]) * ((double) X[i + 1] - X[i]), ((double) Y[i + 1] - Y[i]) * ((double) x - X[i]), 1e-2)), "on the segment that holds x");
    double lo = 1e9, hi = -1e9; for (int i = 0; i < N; i++) { sv::B at = eq(x, X[i]); lo = sv::dmin(lo, sv::ite(at, Y[i], 1e9)); hi = sv::dmax(hi, sv::ite(at, Y[i], -1e9)); }
    check(imp(le(lo, hi), land(le(lo - 1e-3, r), le(r, hi + 1e-3))), "at a point of the curve: between the values there");
}
SV_HARNESS(indices, "0..4 non-decreasing values in [-100,100], some missing; any x") {
    int N = sv::integer("size", 0, 4); vec v(N); float x = sv::f32("x", -100, 100); dvec w; std::vector<int> id;
    for (int i = 0; i < N; i++) v[i] = cval(sv::idx("v", i), -100, 100, MISS); for (int i = 0; i < N; i++) if (ok(v[i])) { if (w.size()) sv::assume(le(w.back(), v[i])); w.push_back(v[i]); id.push_back(i); }
    int lo = Util::getLowerIndex(x, v), hi = Util::getUpperIndex(x, v);
    if (lo == (int) MV) for (double d : w) check(lt(x, d), "no lower index only if every value is above"); else { bool is = std::find(id.begin(), id.end(), lo) != id.end(); check(is, "lower index is that of a valid value"); if (is) { check(le(v[lo], x), "lower value not above"); for (double d : w) check(lor(le(d, v[lo]), lt(x, d)), "largest value not above"); } }
    if (hi == (int) MV) for (double d : w) check(lt(d, x), "no upper index only if every value is below"); else { bool is = std::find(id.begin(), id.end(), hi) != id.end(); check(is, "upper index is that of a valid value"); if (is) { check(le(x, v[hi]), "upper value not below"); for (double d : w) check(lor(le(v[hi], d), lt(d, x)), "smallest value not below"); } }
}
SV_HARNESS(inverse2, "2x2 matrices with entries in [-10,10] and |determinant| at least 0.5") {
    vec2 m(2, vec(2)); for (int i = 0; i < 4; i++) m[i / 2][i % 2] = sv::f32(sv::idx("m", i).c_str(), -10, 10); double det = (double) m[0][0] * m[1][1] - (double) m[0][1] * m[1][0]; sv::assume(le(0.5, sv::dabs(det)));
    vec2 r = Util::inverse(m); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double s = (i == j ? 1 : -1) * (double) m[i == j ? 1 - i : i][i == j ? 1 - j : j]; if (!sv::isnum(r[i][j])) check(false, "a number"); else check(close(r[i][j] * det, s, 1e-2), "adjugate over determinant"); }
}
SV_HARNESS(inverse_missing, "2x2 and 3x3 matrices with one missing entry, and the zero matrix") {
    int N = sv::integer("size", 2, 3), k = sv::integer("where", 0, 9); vec2 m(N, vec(N, 0)); if (k < N * N) { for (int i = 0; i < N; i++) m[i][i] = 2; m[k / N][k % N] = sv::flag("nan") ? NaN : MV; } else if (k < 9) return;
    vec2 r = Util::inverse(m); check((int) r.size() == N, "size"); for (auto& row : r) { check((int) row.size() == N, "size"); for (float x : row) check(!ok(x), "missing if an entry is missing or the matrix is singular"); }
    check(Util::inverse(vec2()).size() == 0, "empty");
}
SV_HARNESS(regression, "3 or 4 observations in [-50,50], fixed predictors (one or two), with and without constant") {
    static const float P[3][4] = {{1, 2, 4, -1}, {3, -1, 0.5f, 2}, {0, 1, 1, 0}}; int T = sv::integer("observations", 3, 4), n = sv::integer("predictors", 1, 2), first = sv::integer("first", 0, 2); bool c = sv::flag("constant");
    vec y(T); for (int i = 0; i < T; i++) y[i] = sv::f32(sv::idx("y", i).c_str(), -50, 50); std::vector<vec> p; for (int k = 0; k < n; k++) p.push_back(vec(P[(first + k) % 3], P[(first + k) % 3] + T));
    vec b = Util::regression(y, p, c); check((int) b.size() == n + c, "one coefficient per predictor (and the constant first)"); if ((int) b.size() != n + c) return;
    for (int k = -(int) c; k < n; k++) { double s = 0; for (int t = 0; t < T; t++) { double res = y[t]; for (int q = 0; q < n; q++) res -= (double) b[q + c] * p[q][t]; if (c) res -= b[0]; s += res * (k < 0 ? 1 : p[k][t]); } check(close(s, 0, 1e-2), "residuals orthogonal to the predictors (least squares)"); }
}
SV_HARNESS(logit, "p and x: any number or missing") {
    float p = cval("p", -2, 3, MISSN), x = cval("x", -20, 20, MISSN); double l = Util::logit(p), i = Util::invLogit(x);
    if (!ok(p)) check(!ok(l), "missing probability"); else if (sv::decide(lor(le(p, 0), le(1, p)))) check(!ok(l), "logit is missing outside (0,1)"); else check(close(l, std::log(p / (1 - p)), 1e-4), "log odds");
    if (!ok(x)) check(!ok(i), "missing value"); else { check(le(0, i), "inverse logit in [0,1]"); check(le(i, 1), "inverse logit in [0,1]"); }
}
SV_HARNESS(logit_pair, "x in [-20,20]") { sv::exp_pairs(true); float x = sv::f32("x", -20, 20); double i = Util::invLogit(x); check(close(i * (1 + std::exp(-x)), 1, 1e-3), "inverse of the log odds"); }
SV_HARNESS(distance, "any two positions of which some may be missing; the first one on a fixed latitude") {
    float a = sv::flag("pole") ? 90 : 30, b = cval("lon1", -180, 180, MISSN), c = cval("lat2", -90, 90, MISSN), d = cval("lon2", -180, 180, MISS); bool approx = sv::flag("approximate"); double r = Util::getDistance(a, b, c, d, approx);
    if (!ok(a) || !ok(b) || !ok(c) || !ok(d)) { check(!ok(r), "missing position"); return; } if (!ok(r)) { check(false, "a distance"); return; } check(le(0, r), "not negative");
}
SV_HARNESS(distance_places, "listed places: antipodes, poles, neighbours less than a metre apart") {
    static const float C[][5] = {{90, 0, -90, 0, 20037508}, {0, 0, 0, 180, 20037508}, {0, 0, 0, 90, 10018754}, {0, 0, 90, 0, 10018754}, {60, 10, 60, 10.000001f, 0}, {60.00001f, 10, 60, 10, 1}, {30.3f, 70.1f, 30.3f, 70.10001f, 1}, {45.1f, 33.3f, -45.1f, -146.7f, 20037508}, {12.7f, 5.1f, 12.7f, 5.1000004f, 0}};
    int k = sv::integer("case", 0, 8); double r = Util::getDistance(C[k][0], C[k][1], C[k][2], C[k][3]), s = Util::getDistance(C[k][2], C[k][3], C[k][0], C[k][1]); check(ok(r), "a distance"); check(close(r, C[k][4], C[k][4] > 100 ? 100 : 4), "length of the great circle"); check(close(r, s, 4), "symmetric");
}
