#include "common.h"
#include "oi.h"
static const gridpp::Metric METRICS[] = {gridpp::Ets, gridpp::Ts, gridpp::Pc, gridpp::Kss, gridpp::Bias, gridpp::Hss};
static void score(const vec2& la, const vec2& lo, const gridpp::Points& p, const std::vector<int>& cell, const vec2& f, const vec& o, int hw, gridpp::Metric m, float th) {
    int Y = la.size(), X = la[0].size(); vec2 r = gridpp::neighbourhood_score(cgrid(la, lo), p, f, o, hw, m, th); check(dims(r, Y, X), "one score per cell"); if (!dims(r, Y, X)) return;
    std::vector<int> kind(Y * X, -1); for (int c = 0; c < Y * X; c++) { dvec v; for (size_t i = 0; i < o.size(); i++) if (cell[i] == c && sv::isnum(o[i])) v.push_back(o[i]); float fc = f[c / X][c % X]; if (v.empty() || !sv::isnum(fc)) continue; double n = v.size(), t = dsum(v) / n; if (v.size() > 1) sv::assume(le(1e-3, sv::dabs(t - th))); bool of = sv::decide(lt(th, t)), ff = sv::decide(lt(th, fc)); kind[c] = (ff ? 0 : 2) + (of ? 0 : 1); }
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { int n[4] = {0, 0, 0, 0}; for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) if (kind[i * X + j] >= 0) n[kind[i * X + j]]++; float e = gridpp::calc_score(n[0], n[1], n[2], n[3], m); check(close(r[y][x], e, 1e-4), "score of the contingency table of the window"); }
}
SV_HARNESS(score_values, "2x2 field with 3 observations in three of its cells, two values in each optionally missing, any threshold, all metrics, half-width 1") {
    vec2 la, lo; lattice(2, 2, 10, 10, la, lo); vec2 f = {{sv::f32("f0", -9, 9), sv::f32("f1", -9, 9, sv::OPT)}, {1, sv::f32("f3", -9, 9)}}; vec o = {sv::f32("o0", -9, 9), sv::f32("o1", -9, 9, sv::OPT), -2}; score(la, lo, gridpp::Points({1, 1, 9}, {1, 9, 12}, vec(), vec(), gridpp::Cartesian), {0, 1, 3}, f, o, 1, METRICS[sv::integer("metric", 0, 5)], sv::f32("threshold", -9, 9));
}
SV_HARNESS(score_windows, "2x4 field, 5 observations (two sharing a cell), some optionally missing, threshold 0, all metrics, half-width 1 and 2") {
    vec2 la, lo; lattice(2, 4, 10, 10, la, lo); vec2 f = {{sv::f32("f0", -9, 9), 1, -1, sv::f32("f3", -9, 9, sv::OPT)}, {-1, 1, 2, 1}}; vec o = {1, sv::f32("o1", -9, 9, sv::OPT), sv::f32("o2", -9, 9), -3, 1}; score(la, lo, gridpp::Points({1, -1, 9, 1, 12}, {1, 2, 11, 29, 18}, vec(), vec(), gridpp::Cartesian), {0, 0, 5, 3, 6}, f, o, sv::integer("half_width", 1, 2), METRICS[sv::integer("metric", 0, 5)], 0);
}
SV_HARNESS(score_errors, "mismatching sizes and half-widths below 1 are rejected; empty grid") {
    vec2 la, lo; lattice(1, 2, 10, 10, la, lo); gridpp::Grid g = cgrid(la, lo), e; gridpp::Points p = line(2); int h = sv::integer("half_width", -2, 0); vec o = {1, 2}; check(throws([&] { gridpp::neighbourhood_score(g, p, {{1, 2, 3}}, o, 1, gridpp::Ts, 0); }) && throws([&] { gridpp::neighbourhood_score(g, p, {{1, 2}}, {1}, 1, gridpp::Ts, 0); }), "sizes"); check(throws([&] { gridpp::neighbourhood_score(g, p, {{1, 2}}, o, h, gridpp::Ts, 0); }), "half-width"); vec2 r = gridpp::neighbourhood_score(e, p, vec2(), o, 1, gridpp::Ts, 0); check(r.empty(), "empty grid"); vec2 none = gridpp::neighbourhood_score(g, gridpp::Points(), {{1, 2}}, vec(), 1, gridpp::Ts, 0); check(dims(none, 1, 2), "no observations");
}
SV_HARNESS(score_unknown_metric, "a metric that is none: rejected, without ending the program") { vec2 la, lo; lattice(1, 2, 10, 10, la, lo); gridpp::Grid g = cgrid(la, lo); vec2 f = symvec2("f", 1, 2, -10, 10, sv::OPT); check(throws([&] { gridpp::neighbourhood_score(g, line(2), f, {1, 2}, 1, (gridpp::Metric) 7, sv::f32("t", -10, 10)); }), "rejected"); }
// static correlations
SV_HARNESS(static_values, "1 point and 3 knots with any correlations in [-0.5,1] (no ties within 1e-3), maximum 0..4") {
    vec G = symvec("g", 3, -0.5, 1); int mp = sv::integer("max_points", 0, 4); if (mp > 0) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) sv::assume(lor(le(G[i] + 1e-3, G[j]), le(G[j] + 1e-3, G[i]))); Table s(G, FP); vec2 r = gridpp::staticcorr_points(at({0}), line(3), s, mp); check(dims(r, 1, 3), "one row per point and one value per knot"); if (!dims(r, 1, 3)) return;
    for (int i = 0; i < 3; i++) { int better = 0; for (int j = 0; j < 3; j++) if (j != i && sv::decide(lt(G[i], G[j]))) better++; if (sv::decide(lt(0, G[i])) && (mp == 0 || better < mp)) check(sv::same(r[0][i], G[i]), "correlation of a chosen knot"); else check(sv::same(r[0][i], 0), "no correlation"); }
}
SV_HARNESS(static_background, "1 point, 2 knots: the correlation is the background correlation of the structure (cross validation leaves close knots out)") { float d = sv::f32("exclude", 0, 3); Step st(10); gridpp::CrossValidation s(st, d); for (double x : {1.0, 2.0}) sv::assume(le(0.01, sv::dabs(d - x))); vec2 r = gridpp::staticcorr_points(at({0}), line(2), s, 0); check(dims(r, 1, 2), "size"); for (int i = 0; i < 2; i++) check(sv::same(r[0][i], sv::decide(lt(i + 1, d)) ? 0 : 0.5f), "background correlation"); }
SV_HARNESS(static_range, "2 points and 2 knots anywhere on a line, correlation 0.5 within any range up to 10: rows are independent") {
    vec x = symvec("x", 2, -10, 10), k = symvec("k", 2, -10, 10); float R = sv::f32("range", 0.1, 10); Step s(R); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sv::assume(le(0.01, sv::dabs(sv::dabs((double) x[i] - k[j]) - R))); vec2 r = gridpp::staticcorr_points(at(x), at(k), s, 0); check(dims(r, 2, 2), "size"); if (!dims(r, 2, 2)) return;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) check(sv::same(r[i][j], sv::decide(lt(sv::dabs((double) x[i] - k[j]), R)) ? 0.5f : 0), "correlation within the range");
}
SV_HARNESS(static_errors, "negative maximum and different coordinate types are rejected; empty inputs") { int m = sv::integer("m", -3, -1); Step s(5); gridpp::Points p = line(2), l(vec{0, 1}, vec{0, 1}), e(vec(), vec(), vec(), vec(), gridpp::Cartesian); check(throws([&] { gridpp::staticcorr_points(p, p, s, m); }), "maximum"); check(throws([&] { gridpp::staticcorr_points(p, l, s, 0); }) && throws([&] { gridpp::staticcorr_points(l, p, s, 0); }), "coordinate types"); check(gridpp::staticcorr_points(e, p, s, 0).empty(), "no points"); vec2 r = gridpp::staticcorr_points(p, e, s, 0); check(r.size() == 2 && r[0].empty(), "no knots"); }
// optimal thresholds: the search within a bracket is done by some minimiser (engine/booststub/boost/math/tools/minima.hpp)
extern "C" double sv_stub_choice(double lo, double hi) { static int n; double x = sv::f32(("choice" + std::to_string(n++)).c_str(), -9, 9); sv::assume(land(le(lo, x), le(x, hi))); return x; }
static void optimal(const vec& ref, const vec& f, float th, gridpp::Metric m, float r) {
    int N = f.size(); float lo = f[0], hi = f[0]; for (int i = 1; i < N; i++) { if (sv::decide(lt(f[i], lo))) lo = f[i]; if (sv::decide(lt(hi, f[i]))) hi = f[i]; }
    double e0 = gridpp::calc_score(ref, f, th, lo, m), e1 = gridpp::calc_score(ref, f, th, hi, m), best = NaN; for (int b = 0; b < 10; b++) { double s = gridpp::calc_score(ref, f, th, lo + (hi - lo) / 9 * b, m); if (sv::isnum(s) && (!sv::isnum(best) || sv::decide(lt(best, s)))) best = s; }
    auto apart = [&](double s) { sv::B a = sv::mk(true); if (sv::isnum(e0)) a = land(a, le(0.00101, sv::dabs(s - e0))); if (sv::isnum(e1)) a = land(a, le(0.00101, sv::dabs(s - e1))); return a; };
    if (sv::isnum(r)) { double s = gridpp::calc_score(ref, f, th, r, m); check(land(le(lo, r), le(r, hi)), "within the range of the forecasts"); check(sv::isnum(s), "has a score"); if (!sv::isnum(s)) return; check(lt(0, s), "better than nothing"); if (sv::isnum(best)) check(le(best - 1e-4, s), "no worse than any of ten evenly spaced thresholds"); if (sv::isnum(e0)) check(lt(e0 + 1e-4, s), "better than the lowest forecast"); if (sv::isnum(e1)) check(lt(e1 + 1e-4, s), "better than the highest forecast"); }
    else if (sv::isnum(best) && sv::isnum(e0) && sv::isnum(e1)) check(lnot(land(land(lt(0.001, best), lt(e0 + 0.002, best)), lt(e1 + 0.002, best))), "a useful threshold is found when one of ten evenly spaced ones is useful");
}
SV_HARNESS(optimal_threshold, "3 forecasts of any value, 3 observations (8 combinations of events), all metrics, any minimiser within the bracket") {
    vec f = {sv::f32("f0", -8, 8), sv::f32("f1", -8, 8), 0}; int ev = sv::integer("events", 0, 7); vec ref = {ev & 1 ? 3.f : 1.f, ev & 2 ? 4.f : 2.f, ev & 4 ? 5.f : -2.f}; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) sv::assume(le(0.05, sv::dabs((double) f[i] - f[j]))); gridpp::Metric m = METRICS[sv::integer("metric", 0, 5)]; float r = gridpp::get_optimal_threshold(ref, f, 2, m); optimal(ref, f, 2, m, r);
}
SV_HARNESS(optimal_curve, "2 thresholds, 3 forecasts and observations: the curve lists the useful optimal thresholds in order; mismatching sizes are rejected") {
    vec f = {sv::f32("f0", -8, 8), 3, 0}, ref = {5, 2, 1}; for (double x : {0.0, 3.0}) sv::assume(le(0.05, sv::dabs((double) f[0] - x))); vec th = {0.5, 1.5, 6}, of = {7}; vec o = gridpp::metric_optimizer_curve(ref, f, th, gridpp::Ts, of); check(o.size() == of.size() && o.size() <= 3, "pairs"); if (o.size() != of.size()) return;
    size_t k = 0; for (size_t i = 0; i < th.size(); i++) { bool in = k < of.size() && of[k] == th[i]; optimal(ref, f, th[i], gridpp::Ts, in ? o[k] : NaN); if (in) k++; } check(k == of.size(), "thresholds in order");
    check(throws([&] { gridpp::metric_optimizer_curve(ref, {1, 2}, th, gridpp::Ts, of); }), "sizes"); check(throws([&] { gridpp::get_optimal_threshold(ref, {1, 2}, 1, gridpp::Ts); }) && throws([&] { gridpp::get_optimal_threshold({1}, f, 1, gridpp::Ts); }), "sizes");
}
SV_HARNESS(optimal_without_data, "0..3 pairs of which the forecasts are missing, all metrics, symbolic threshold: the search ends, with a missing value") {
    int n = sv::integer("pairs", 0, 3); vec f(n, NaN), ref(n), of = {7}; for (int i = 0; i < n; i++) ref[i] = sv::f32(sv::idx("ref", i).c_str(), -8, 8, sv::OPT); float t = sv::f32("t", -8, 8, sv::OPT); gridpp::Metric m = METRICS[sv::integer("metric", 0, 5)]; float r = 0; vec o = {7}; check(!throws([&] { r = gridpp::get_optimal_threshold(ref, f, t, m); o = gridpp::metric_optimizer_curve(ref, f, {t, 1}, m, of); }), "the search ends"); check(!sv::isnum(r) && o.empty() && of.empty(), "no useful threshold");
}
SV_HARNESS(optimal_infinite, "3 forecasts, one of them infinite, all metrics: the search ends") {
    vec f = {sv::f32("f0", -8, 8), sv::f32("f1", -8, 8), 0}, ref = {1, 3, 4}; f[sv::integer("which", 0, 2)] = sv::flag("negative") ? -INFINITY : INFINITY; gridpp::Metric m = METRICS[sv::integer("metric", 0, 5)]; float r = 0; check(!throws([&] { r = gridpp::get_optimal_threshold(ref, f, 2, m); }), "the search ends"); check(lor(sv::mk(!sv::isnum(r)), land(le(-8, r), le(r, 8))), "a threshold among the finite forecasts");
}
SV_HARNESS(static_two_ranges, "the range of the structure depends on the place: points at 0 and 2 with ranges of 0.1 to 6 each, observations at 1 and 4: every point as if alone") {
    TwoRanges s = two_ranges(); vec x = {0, 2}; vec2 q = gridpp::staticcorr_points(at(x), at({1, 4}), s, 0); for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) check(eq(q[i][k], sv::ite(lt(std::fabs(x[i] - (k ? 4 : 1)), s.r[i]), k ? 0.25 : 0.5, 0)), "correlation within the range of the point");
}
