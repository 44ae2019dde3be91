#include "common.h"
// a point above every earlier and below every later point by more than the tolerance takes part in no loop, so it stays
static void outside_loops_stays(const vec& f, const vec& r, const vec& of, const vec& o) {
    const float tol = 0.1f; int N = f.size();
    for (int i = 0; i < N; i++) {
        sv::B out = sv::mk(true), kept = sv::mk(false); for (int j = 0; j < N; j++) { if (j < i) out = land(out, lt(f[j] + tol, f[i])); if (j > i) out = land(out, lt(f[i] + tol, f[j])); }
        for (size_t k = 0; k < o.size(); k++) kept = lor(kept, land(eq(of[k], f[i]), eq(o[k], r[i])));
        check(imp(out, kept), "a point outside every loop is kept");
    }
}
SV_HARNESS(general, "curves of 1..5 points, forecast and reference values in [-10,10]") {
    int N = sv::integer("N", 1, 5); vec f = symvec("f", N, -10, 10), r = symvec("r", N, -10, 10), of; vec o = gridpp::monotonize_curve(r, f, of); check(o.size() == of.size() && (int) o.size() <= N, "no more points than the input");
    int k = 0; for (size_t i = 0; i < o.size(); i++) { while (k < N && !(sv::symbolic() ? sv::decide(land(eq(of[i], f[k]), eq(o[i], r[k]))) : (of[i] == f[k] && o[i] == r[k]))) k++; check(k < N, "points are input points, in order"); k++; }
    outside_loops_stays(f, r, of, o);
    for (size_t i = 1; i < o.size(); i++) check(lt(of[i - 1], of[i]), "forecast values increase");
}
SV_HARNESS(missing, "curves of 1..3 points, every value finite or NaN") {
    int N = sv::integer("N", 1, 3); vec f = symvec("f", N, -10, 10, sv::OPT), r = symvec("r", N, -10, 10, sv::OPT), of; vec o = gridpp::monotonize_curve(r, f, of); vec vf, vr; for (int i = 0; i < N; i++) if (sv::isnum(f[i]) && sv::isnum(r[i])) { vf.push_back(f[i]); vr.push_back(r[i]); }
    check(o.size() == of.size(), "equal lengths"); if (vf.empty()) { check(o.empty(), "no valid point gives an empty curve"); return; }
    vec of2; vec o2 = gridpp::monotonize_curve(vr, vf, of2); check(o.size() == o2.size(), "points with a missing coordinate are dropped"); for (size_t i = 0; i < o.size() && i < o2.size(); i++) { check(sv::same(o[i], o2[i]), "points with a missing coordinate are dropped"); check(sv::same(of[i], of2[i]), "points with a missing coordinate are dropped"); }
    for (size_t i = 1; i < o.size(); i++) check(lt(of[i - 1], of[i]), "forecast values increase"); for (size_t i = 0; i < o.size(); i++) check(sv::isnum(o[i]) && sv::isnum(of[i]), "only valid points");
}
SV_HARNESS(identity, "curves of 1..6 valid points whose forecast values increase by more than the tolerance of 0.1") {
    int N = sv::integer("N", 1, 6); vec f = symvec("f", N, -10, 10), r = symvec("r", N, -10, 10), of; for (int i = 1; i < N; i++) sv::assume(lt(f[i - 1] + 0.1001, f[i])); vec o = gridpp::monotonize_curve(r, f, of); check((int) o.size() == N && (int) of.size() == N, "increasing curve keeps all its points"); for (int i = 0; i < N && i < (int) o.size(); i++) check(land(eq(o[i], r[i]), eq(of[i], f[i])), "increasing curve is unchanged");
}
SV_HARNESS(reject, "empty and mismatching curves") { vec a = symvec("a", 2), b = symvec("b", 1), n, o; check(throws([&] { gridpp::monotonize_curve(a, b, o); }), "mismatch"); check(throws([&] { gridpp::monotonize_curve(n, n, o); }), "empty"); }
SV_HARNESS_T(general_t, "curves of 6 points") {
    int N = 6; vec f = symvec("f", N, -10, 10), r = symvec("r", N, -10, 10), of; vec o = gridpp::monotonize_curve(r, f, of); outside_loops_stays(f, r, of, o); check(o.size() == of.size() && (int) o.size() <= N, "no more points than the input"); for (size_t i = 1; i < o.size(); i++) check(lt(of[i - 1], of[i]), "forecast values increase");
}
