#include "common.h"
#include "oi.h"
// One grid cell at x = 0, observations at x = 1, 2, 3; G[i] is the correlation of the cell with observation i
static gridpp::Grid cell() { return cgrid({{0}}, {{0}}); }
static Table tab(vec G, float range = 1000) { int n = G.size(); return Table(G, vec2(n, vec(n, 0.5f)), range); }
static double run(double f, const vec& o, const vec& b, const vec& G, float q0 = 0, float q1 = 1, int mp = 0, float range = 1000) { vec2 r = gridpp::local_distribution_correction(cell(), {{(float) f}}, line(G.size()), o, b, tab(G, range), q0, q1, mp); if (!dims(r, 1, 1)) { check(false, "one value per cell"); return 0; } return r[0][0]; }
static bool lt_(double a, double b) { return sv::decide(lt(a, b)); }
typedef std::vector<std::pair<double, double>> Pairs;
static void order(Pairs& p) { for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j + 1 < p.size() - i; j++) if (lt_(p[j + 1].first, p[j].first)) std::swap(p[j], p[j + 1]); }
static void curve(const Pairs& p, double q0, double q1, dvec& x, dvec& q) { x.assign(1, 0); q.assign(1, 0); double t = 0, c = 0; for (auto& e : p) t += e.second; for (auto& e : p) { c += e.second; x.push_back(e.first); q.push_back(q0 + c / t * (q1 - q0)); } }
static double lookup(double v, const dvec& x, const dvec& y) { int n = x.size(); for (int i = n - 2; i >= 0; i--) if (!lt_(v, x[i])) return y[i] + (y[i + 1] - y[i]) * ((v - x[i]) / (x[i + 1] - x[i])); return y[0]; }
// reference: o, b of the usable observations with their correlations
static double model(double f, const Pairs& o0, const Pairs& b0, float q0, float q1, int mp) {
    int n = o0.size(); if (n == 0 || n < mp) return f; Pairs o = o0, b = b0; order(o); order(b); double S = 0; for (auto& e : o) S += e.second;
    int d0 = n * q0, d1 = n * q1; if (d1 <= d0) return f; o = Pairs(o.begin() + d0, o.begin() + d1); b = Pairs(b.begin() + d0, b.begin() + d1);
    if (lt_(f, 0.01)) return 0; double om = o.back().first, bm = b.back().first;
    if (!lt_(0, om)) return lt_(f, 3 * bm) || lt_(f, 0.1) ? 0 : f;
    if (!lt_(f, bm)) return f + om - bm;
    dvec xo, qo, xb, qb; curve(o, q0, q1, xo, qo); curve(b, q0, q1, xb, qb); double m = lookup(lookup(f, xb, qb), qo, xo), w = 1 - std::exp(-0.01 * S); return w * m + (1 - w) * f;
}
static void distinct(const vec& v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) sv::assume(lor(le(v[i] + 0.01, v[j]), le(v[j] + 0.01, v[i]))); }
static void compare(double f, const vec& o, const vec& b, const vec& G, float q0, float q1, int mp) {
    distinct(o); distinct(b); Pairs po, pb; for (size_t i = 0; i < o.size(); i++) { po.push_back({o[i], G[i]}); pb.push_back({b[i], G[i]}); } double got = run(f, o, b, G, q0, q1, mp), e = model(f, po, pb, q0, q1, mp); check(close(got, e, 2e-3), "quantile mapping between the background and the observations in range");
}
static const float QS[3][2] = {{0, 1}, {0.1f, 0.9f}, {0, 0.7f}};
SV_HARNESS(one, "1 observation, all values in [0,9], background in [-1,30], three quantile ranges, minimum count 0..2") { vec o = symvec("o", 1, 0, 9), b = symvec("b", 1, 0, 9); int k = sv::integer("q", 0, 2); compare(sv::f32("f", -1, 30), o, b, {0.5f}, QS[k][0], QS[k][1], sv::integer("min", 0, 2)); }
SV_HARNESS(two, "2 observations with distinct values in [0,9] and correlations 0.75 and 0.25, background in [-1,30], three quantile ranges") { vec o = symvec("o", 2, 0, 9), b = symvec("b", 2, 0, 9); int k = sv::integer("q", 0, 2); compare(sv::f32("f", -1, 30), o, b, {0.75f, 0.25f}, QS[k][0], QS[k][1], 0); }
SV_HARNESS(three_observed, "3 observations with distinct values in [0,9], given background at the points in two orders, correlations 0.75, 0.5 and 0.25, background in [-1,30], three quantile ranges, minimum count 2..4") { vec o = symvec("o", 3, 0, 9), b = sv::flag("order") ? vec{1, 3, 7} : vec{4, 0, 2}; int k = sv::integer("q", 0, 2); compare(sv::f32("f", -1, 30), o, b, FG, QS[k][0], QS[k][1], sv::integer("min", 2, 4)); }
SV_HARNESS(three_background, "3 observations, background at the points distinct in [0,9], given observations in two orders, correlations 0.75, 0.5 and 0.25, background in [-1,30], three quantile ranges") { vec b = symvec("b", 3, 0, 9), o = sv::flag("order") ? vec{1, 3, 7} : vec{4, 0, 2}; int k = sv::integer("q", 0, 2); compare(sv::f32("f", -1, 30), o, b, FG, QS[k][0], QS[k][1], 0); }
SV_HARNESS(weights, "2 observations with given values, correlations anywhere in [0.05,1], background in [0,9]") { vec G = symvec("g", 2, 0.05, 1), o = {2, 6}, b = sv::flag("order") ? vec{3, 5} : vec{5, 3}; double f = sv::f32("f", 0, 9); Pairs po = {{2, G[0]}, {6, G[1]}}, pb = {{b[0], G[0]}, {b[1], G[1]}}; check(close(run(f, o, b, G), model(f, po, pb, 0, 1, 0), 2e-3), "weighted quantile mapping"); }
SV_HARNESS(unusable, "2 observations plus one that is missing, has no background, is negative, has a negative background, has no correlation (any value <= 0) or is out of range: as if it were not there; all values, minimum count 0..3") {
    vec o = symvec("o", 2, 0, 9), b = symvec("b", 2, 0, 9); double f = sv::f32("f", 0, 20); int mp = sv::integer("min", 0, 3), pos = sv::integer("position", 0, 2), why = sv::integer("why", 0, 5); bool trim = sv::flag("trim"); float q0 = trim ? 0.35f : 0, q1 = trim ? 0.9f : 1;
    float xo = sv::f32("xo", 0, 9), xb = sv::f32("xb", 0, 9), g = 0.5f; if (why == 0) xo = NaN; if (why == 1) xb = NaN; if (why == 2) xo = sv::f32("neg", -9, -0.01); if (why == 3) xb = sv::f32("neg", -9, -0.01); if (why == 4) g = sv::f32("rho", -1, 0);
    vec x = {1, 2}, G = {0.5f, 0.5f}, o3 = o, b3 = b, x3 = x, G3 = G; float px = why == 5 ? 50 : 3; o3.insert(o3.begin() + pos, xo); b3.insert(b3.begin() + pos, xb); x3.insert(x3.begin() + pos, px);
    struct By : Table { float g3; By(float g3) : Table({0.5f, 0.5f, g3}, FP, 20), g3(g3) {} using Table::corr; float corr(const gridpp::Point& p, const gridpp::Point& q) const override { int i = id(p), j = id(q); int k = i < 0 ? j : i; return k == 2 ? g3 : 0.5f; } gridpp::StructureFunctionPtr clone() const override { return gridpp::StructureFunctionPtr(new By(*this)); } };
    By s(g); vec2 r = gridpp::local_distribution_correction(cell(), {{(float) f}}, at(x), o, b, s, q0, q1, mp), r3 = gridpp::local_distribution_correction(cell(), {{(float) f}}, at(x3), o3, b3, s, q0, q1, mp); check(dims(r, 1, 1) && dims(r3, 1, 1) && r[0][0] == r3[0][0], "an observation that cannot be used has no influence");
}
SV_HARNESS(times, "2 points at 2 times, all values, some optionally missing: same as 4 points of the same correlations at one time, and the order of the times does not matter") {
    vec2 o = {{sv::f32("o00", 0, 9, sv::OPT), 3}, {1, sv::f32("o11", 0, 9)}}, b = {{2, sv::f32("b01", 0, 9, sv::OPT)}, {sv::f32("b10", 0, 9), 5}}; double f = sv::f32("f", 0, 12); int mp = sv::integer("min", 0, 4); vec G = {0.5f, 0.5f}; auto both = [&](const vec2& o, const vec2& b) { vec2 r = gridpp::local_distribution_correction(cell(), {{(float) f}}, line(2), o, b, tab(G), 0, 1, mp); return dims(r, 1, 1) ? (double) r[0][0] : NAN; };
    double r = both(o, b), s = both({o[1], o[0]}, {b[1], b[0]}), t = run(f, {o[0][0], o[0][1], o[1][0], o[1][1]}, {b[0][0], b[0][1], b[1][0], b[1][1]}, {0.5f, 0.5f, 0.5f, 0.5f}, 0, 1, mp); check(close(r, s, 1e-4), "order of the times"); check(close(r, t, 1e-4), "times are pooled");
}
SV_HARNESS(times_unusable, "2 points at 3 times, one value anywhere missing, negative or without a usable background: the other times and points count as if it were not there; all values of that point, minimum count 0..6") {
    vec2 o = {{1, 2}, {3, 4}, {5, 6}}, b = {{6, 3}, {1, 5}, {2, 4}}; int k = sv::integer("point", 0, 1), t0 = sv::integer("time", 0, 2), why = sv::integer("why", 0, 3), mp = sv::integer("min", 0, 6); double f = sv::f32("f", 0, 12); float z = sv::f32("z", -9, -0.01);
    if (why == 0) o[t0][k] = NaN; if (why == 1) b[t0][k] = NaN; if (why == 2) o[t0][k] = z; if (why == 3) b[t0][k] = z; vec po, pb, G; for (int t = 0; t < 3; t++) for (int i = 0; i < 2; i++) if (t != t0 || i != k) { po.push_back(o[t][i]); pb.push_back(b[t][i]); G.push_back(0.5f); }
    vec2 r = gridpp::local_distribution_correction(cell(), {{(float) f}}, line(2), o, b, tab({0.5f, 0.5f}), 0, 1, mp); check(dims(r, 1, 1), "size"); check(close(r[0][0], run(f, po, pb, G, 0, 1, mp), 1e-4), "an unusable value has no influence on the other times");
}
SV_HARNESS(cells, "1x3 field, one optionally missing, observations 1 and 2 m from the cells within 1.5 m: each cell uses the observations in its own range only; without any it is unchanged") {
    vec o = {sv::f32("o", 0, 9), 4}, b = {sv::f32("b", 0, 9), 3}; float f = sv::f32("f", 0, 20, sv::OPT); Step s(1.5f); vec2 r = gridpp::local_distribution_correction(cgrid({{0, 0, 0}}, {{0, 3, 10}}), {{f, f, f}}, at({1, 2}), o, b, s, 0, 1); if (!dims(r, 1, 3)) { check(false, "size"); return; }
    auto solo = [&](double x, int i) { vec2 q = gridpp::local_distribution_correction(cgrid({{0}}, {{(float) x}}), {{f}}, at({i ? 2.0f : 1.0f}), vec(1, o[i]), vec(1, b[i]), s, 0, 1); return dims(q, 1, 1) ? (double) q[0][0] : 0; };
    check(sv::same(r[0][2], f), "a cell without observations is unchanged"); check(sv::same(r[0][0], solo(0, 0)), "first cell uses the first observation"); check(sv::same(r[0][1], solo(3, 1)), "second cell uses the second observation"); if (!sv::isnum(f)) for (float v : r[0]) check(!sv::isnum(v), "missing stays missing");
}
SV_HARNESS(sane, "3 observations, any values and ties in [0,3] with some optionally missing, background in [0,30]: finite, never negative, within the range spanned by the background and the corrected curve") {
    vec o = {sv::f32("o0", 0, 3), sv::f32("o1", 0, 3, sv::OPT), 1}, b = {2, sv::f32("b1", 0, 3), sv::f32("b2", 0, 3)}; double f = sv::f32("f", 0, 30); int k = sv::integer("q", 0, 2); double r = run(f, o, b, FG, QS[k][0], QS[k][1]); check(sv::isnum(r), "finite"); if (!sv::isnum(r)) return; check(le(0, r), "never negative"); check(le(r, sv::dmax(f, 0) + 3 + 1e-4), "raised by no more than the largest observation");
    double r0 = run(f, {NaN, NaN, NaN}, b, FG, QS[k][0], QS[k][1]); check(sv::same(r0, (float) f), "no observations: unchanged"); int mp = sv::integer("min", 4, 5); check(sv::same(run(f, o, b, FG, QS[k][0], QS[k][1], mp), (float) f), "too few observations: unchanged");
}
SV_HARNESS(errors, "mismatching sizes and invalid quantile ranges are rejected; empty inputs") {
    Step s(5); gridpp::Grid g = cell(); gridpp::Points p = line(2); vec v = {1, 2}; float q = sv::f32("q", 1.001, 5, sv::OPT), m = sv::f32("m", -5, -0.001, sv::OPT), u = sv::f32("u", 0, 1), l = sv::f32("l", 0, 1); sv::assume(le(u + 0.001, l)); auto run = [&](const vec2& f, const vec2& o, const vec2& b, float q0, float q1) { return throws([&] { gridpp::local_distribution_correction(g, f, p, o, b, s, q0, q1, 0); }); };
    check(run({{1, 2}}, {v}, {v}, 0, 1) && run({{1}, {2}}, {v}, {v}, 0, 1) && run({}, {v}, {v}, 0, 1), "background of another size"); check(run({{1}}, {v, v}, {v}, 0, 1) && run({{1}}, {}, {v}, 0, 1) && run({{1}}, {v}, {}, 0, 1), "different number of times"); check(run({{1}}, {{1}}, {v}, 0, 1) && run({{1}}, {v}, {{1}}, 0, 1) && run({{1}}, {v, {}}, {v, v}, 0, 1), "too few values");
    check(run({{1}}, {v}, {v}, 0, q) && run({{1}}, {v}, {v}, m, 1) && run({{1}}, {v}, {v}, l, u), "quantile range"); check(!run({{1}}, {v}, {v}, u, l) && !run({{1}}, {}, {}, 0, 1), "valid arguments are accepted"); gridpp::Grid e; vec2 r = gridpp::local_distribution_correction(e, vec2(), p, v, v, s, 0, 1); check(r.empty(), "empty grid");
}
SV_HARNESS(two_ranges_, "the range of the structure depends on the place: points at 0 and 2 with ranges of 0.1 to 6 each, observations at 1 and 4: every point as if alone") {
    TwoRanges s = two_ranges(); float f0 = sv::f32("f0", 0, 20), f1 = sv::f32("f1", 0, 20); vec2 q = gridpp::local_distribution_correction(cgrid({{0, 0}}, {{0, 2}}), {{f0, f1}}, at({1, 4}), {2, 8}, {1, 5}, s, 0, 1, 0); for (int i = 0; i < 2; i++) { vec2 r = gridpp::local_distribution_correction(cgrid({{0}}, {{2.f * i}}), {{i ? f1 : f0}}, at({1, 4}), {2, 8}, {1, 5}, s, 0, 1, 0); check(close(q[0][i], r[0][0], 1e-4), "corrected as if alone"); }
}
