#include "common.h"
// reference: scan of the sorted nodes; the nodes and the query are symbolic
static vec sorted_nodes(const char* n, int N) { vec x = symvec(n, N); for (int i = 0; i + 1 < N; i++) sv::assume(le(x[i], x[i + 1])); return x; }
static double ref(float x, const vec& X, const vec& Y) {
    int N = X.size(); if (!sv::isnum(x) || N == 0) return NAN;
    if (x > X[N - 1]) return Y[N - 1]; if (x < X[0]) return Y[0];
    int f = -1, l = -1; for (int i = 0; i < N; i++) if (X[i] == x) { if (f < 0) f = i; l = i; }
    if (f >= 0) { if (f == l) return Y[f]; if (f == 0 && l == N - 1) return (Y[f] + Y[l]) / 2; if (f == 0) return Y[l]; if (l == N - 1) return Y[f]; return (Y[f] + Y[l]) / 2; }
    int i = 0; while (X[i + 1] < x) i++;
    return Y[i] + (Y[i + 1] - Y[i]) * (double) (x - X[i]) / (X[i + 1] - X[i]);
}
SV_HARNESS(scalar, "1..4 sorted nodes (ties allowed), values finite or NaN (at most 2 nodes with NaN), query finite or NaN") {
    int n = sv::integer("n", 1, 4); vec X = sorted_nodes("x", n), Y = symvec("y", n, -100, 100, n <= 2 ? sv::OPT : sv::FIN); float x = sv::f32("q", -200, 200, sv::OPT);
    double got = gridpp::interpolate(x, X, Y), r = ref(x, X, Y); check(close(got, r, 0.01), "interpolation equals the reference");
    if (sv::isnum(r)) { double lo = Y[0], hi = Y[0]; for (float y : Y) { if (!sv::isnum(y)) return; lo = sv::dmin(lo, y); hi = sv::dmax(hi, y); } check(land(le(lo - .01, got), le(got, hi + .01)), "result within the range of the nodes"); }
}
SV_HARNESS(vector, "3 queries on 2 nodes") {
    vec X = sorted_nodes("x", 2), Y = symvec("y", 2), q = symvec("q", 2, -200, 200, sv::OPT); vec got = gridpp::interpolate(q, X, Y);
    check(got.size() == q.size(), "size"); for (int i = 0; i < (int) q.size(); i++) check(close(got[i], ref(q[i], X, Y), 0.01), "array form equals scalar form");
}
SV_HARNESS(index, "1..4 sorted nodes, query inside the nodes' range") {
    int n = sv::integer("n", 1, 4); vec X = sorted_nodes("x", n); float x = sv::f32("q", -100, 100); sv::assume(land(le(X[0], x), le(x, X[n - 1])));
    int lo = gridpp::get_lower_index(x, X), hi = gridpp::get_upper_index(x, X);
    check(lo >= 0 && lo < n && hi >= 0 && hi < n, "indices in range"); check(land(le(X[lo], x), le(x, X[hi])), "indices bracket the query");
    sv::B tight = sv::mk(true); for (int i = 0; i < n; i++) tight = land(tight, land(lnot(land(lt(X[lo], X[i]), le(X[i], x))), lnot(land(lt(X[i], X[hi]), le(x, X[i])))));
    check(tight, "no node strictly between the bracketing nodes");
    check(lor(lnot(eq(X[lo], x)), lor(sv::mk(lo == 0), lt(X[lo > 0 ? lo - 1 : 0], x))), "lower index is the first of tied nodes");
    check(lor(lnot(eq(X[hi], x)), lor(sv::mk(hi == n - 1), lt(x, X[hi < n - 1 ? hi + 1 : hi]))), "upper index is the last of tied nodes");
}
SV_HARNESS(mismatch, "lengths 0..2 that differ") {
    int a = sv::integer("a", 0, 2), b = sv::integer("b", 0, 2); if (a == b) sv::stop_path(); vec X = symvec("x", a), Y = symvec("y", b); float q = sv::f32("q", -1, 1);
    check(throws([&] { gridpp::interpolate(q, X, Y); }), "scalar form rejects mismatching lengths"); check(throws([&] { gridpp::interpolate(vec(1, q), X, Y); }), "array form rejects mismatching lengths");
}
SV_HARNESS(empty, "no nodes") { vec e; check(!sv::isnum(gridpp::interpolate(sv::f32("q", -1, 1), e, e)), "empty curve gives missing"); }
SV_HARNESS_T(scalar_t, "5 sorted nodes, finite values, query finite") {
    vec X = sorted_nodes("x", 5), Y = symvec("y", 5); float x = sv::f32("q", -200, 200); check(close(gridpp::interpolate(x, X, Y), ref(x, X, Y), 0.01), "interpolation equals the reference");
}
SV_HARNESS(missing_nodes, "1..4 nodes, each finite or missing, the valid ones increasing; query finite or missing") {
    int n = sv::integer("n", 1, 4); vec X = symvec("x", n, -100, 100, sv::OPT), Y = symvec("y", n), vx, vy; for (int i = 0; i < n; i++) if (sv::isnum(X[i])) { if (vx.size()) sv::assume(lt(vx.back(), X[i])); vx.push_back(X[i]); vy.push_back(Y[i]); } if (vx.size() == (size_t) n) return;
    float x = sv::f32("q", -200, 200, sv::OPT); check(close(gridpp::interpolate(x, X, Y), ref(x, vx, vy), 0.01), "missing nodes are left out"); check(close(gridpp::interpolate(vec{x}, X, Y)[0], ref(x, vx, vy), 0.01), "the same for arrays");
}
