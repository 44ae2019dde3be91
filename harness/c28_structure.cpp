#include "common.h"
typedef gridpp::StructureFunctionPtr P;
static gridpp::Point pt(double y, double x, double e = NaN, double l = NaN) { return gridpp::Point(y, x, e, l, gridpp::Cartesian); }
// 0 barnes 1 cressman 2 soar 3 toar 4 powerlaw 5 linear
static P mk(int k, float h, float v, float w, float hmax = NaN) { switch (k) { case 0: return P(new gridpp::BarnesStructure(h, v, w, hmax)); case 1: return P(new gridpp::CressmanStructure(h, v, w)); case 2: return P(new gridpp::SoarStructure(h, v, w, hmax)); case 3: return P(new gridpp::ToarStructure(h, v, w, hmax)); case 4: return P(new gridpp::PowerlawStructure(h, v, w, hmax)); } return P(new gridpp::LinearStructure(h, v, w, hmax)); }
static P mks(int k, const gridpp::Grid& g, vec2 h, vec2 v, vec2 w, float rho) { switch (k) { case 0: return P(new gridpp::BarnesStructure(g, h, v, w, rho)); case 2: return P(new gridpp::SoarStructure(g, h, v, w, rho)); case 3: return P(new gridpp::ToarStructure(g, h, v, w, rho)); case 4: return P(new gridpp::PowerlawStructure(g, h, v, w, rho)); } return P(new gridpp::LinearStructure(g, h, v, w, rho)); }
static double rho(int k, double d, double len) { // documented 1D correlations; len 0 disables
    if (k == 5) { double a = sv::dmin(sv::dabs(d), 1); return len < 0 ? 1 : 1 - (1 - len) * a; } if (len == 0) return 1; double v = sv::dabs(d) / len;
    switch (k) { case 0: return std::exp(-0.5 * v * v); case 1: return sv::ite(lt(sv::dabs(d), len), (len * len - d * d) / (len * len + d * d), 0); case 2: return (1 + v) * std::exp(-v); case 3: return (1 + v + v * v / 3) * std::exp(-v); default: return 1 / (1 + 0.5 * v * v); }
}
static const float H[2] = {1, 2.5f}, VV[2] = {0, 2}, W[2] = {0, 0.5f};
// three separations: all symbolic for Barnes, Cressman and power law; one symbolic, the others fixed, for SOAR and TOAR (products of polynomials and exponentials)
static void sep(int k, float& x, float& e, float& l, double X) { bool all = k != 2 && k != 3; int which = all ? -1 : sv::integer("which", 0, 2); x = 0.75; e = 1.25; l = 0.125; if (all || which == 0) x = sv::f32("x", 0, X); if (all || which == 1) e = sv::f32("e", -10, 10); if (all || which == 2) l = sv::f32("l", -1, 1); }
static int kind(int hi = 4) { return sv::integer("kind", 0, hi); }
SV_HARNESS(range_symmetry, "5 kinds (Barnes, Cressman, SOAR, TOAR, power law) with v in {0,2}, w in {0,0.5}; points on a line with symbolic position, elevation and land fraction: range, symmetry, vector form, clone") {
    int k = kind(); float v = VV[sv::integer("v", 0, 1)], w = W[sv::integer("w", 0, 1)]; P s = mk(k, 2.5, v, w); float x, e, l; sep(k, x, e, l, 30); auto a = pt(0, 0, 0, 0), b = pt(0, x, e, l); float c = s->corr(a, b);
    check(land(le(-1e-6, c), le(c, 1 + 1e-6)), "between 0 and 1"); check(close(c, s->corr(b, a), 1e-6), "symmetric"); check(sv::same(c, s->clone()->corr(a, b)), "copy has the same values"); vec q = s->corr(a, std::vector<gridpp::Point>{b, a}); check(q.size() == 2, "one value per point"); check(sv::same(c, q[0]), "many at once equals one by one"); check(close(q[1], 1, 1e-6), "identical points"); vec qb = s->corr_background(a, std::vector<gridpp::Point>{a, b}); check(sv::same(c, qb[1]), "background form"); check(sv::same(c, s->corr_background(a, b)), "background form");
}
SV_HARNESS(formula, "5 kinds, symbolic separations one at a time and together: the documented correlation within the localisation distance") {
    int k = kind(); float x, e, l; sep(k, x, e, l, 4); P s = mk(k, 2.5, 2, 0.5); check(close(s->corr(pt(0, 0, 0, 0), pt(0, x, e, l)), rho(k, x, 2.5) * rho(k, e, 2) * rho(k, l, 0.5), 1e-5), "documented correlation");
}
SV_HARNESS(identical, "6 kinds, symbolic position and attributes (possibly missing), also with a truncation distance of 0 or 1") { int k = kind(5), hm = sv::integer("hmax", 0, 2); float v = k == 5 ? 0.5 : 2, w = 0.5; P s = mk(k, k == 5 ? 0.3 : 2.5, v, w, hm == 0 ? NaN : hm - 1); auto a = pt(sv::f32("y", -10, 10), sv::f32("x", -10, 10), sv::f32("e", -10, 10, sv::OPT), sv::f32("l", 0, 1, sv::OPT)); check(close(s->corr(a, a), 1, 1e-6), "identical points correlate perfectly"); }
SV_HARNESS(support, "6 kinds, default or symbolic truncation distance: zero beyond the localisation distance, which is the truncation distance; positive inside") {
    int k = kind(5); float x = sv::f32("x", 0, 40); bool hm = k != 1 && k != 5 && sv::flag("hmax"); int m = hm ? sv::integer("m", 0, 4) : 0; static const float M[5] = {0, 0.5f, 2.5f, 5, 10}; P s = mk(k, k == 5 ? 0.3 : 2.5, 0, 0, hm ? M[m] : NaN); auto a = pt(0, 0), b = pt(0, x); double L = s->localization_distance(a), c = s->corr(a, b);
    check(imp(lt(L + 1e-3, x), eq(c, 0)), "zero beyond the localisation distance"); if (k != 5) check(imp(lt(x, L - 1e-3), lt(0, c)), "positive within the localisation distance"); if (hm) check(std::fabs(L - M[m]) < 1e-2, "localisation distance is the truncation distance"); else if (k == 0) check(std::fabs(L - 3.64 * 2.5) < 0.02, "default truncation of Barnes"); else if (k == 1) check(std::fabs(L - 2.5) < 1e-5, "length scale of Cressman"); check(L >= 0, "localisation distance is not negative");
    if (k != 1 && k != 5 && !hm) check(std::fabs(rho(k, L, 2.5) - 0.0013) < 1e-4, "default truncation at the minimum correlation");
}
static void mono(int k, int which) {
    P s = mk(k, 2.5, 2, 0.5); float a = sv::f32("a", 0, which == 2 ? 1 : 6), b = sv::f32("b", 0, which == 2 ? 1 : 6); sv::assume(le(a, b)); float o1 = which == 0 ? 0.5 : 0.25, o2 = which == 2 ? 0.75 : 0.125; auto z = pt(0, 0, 0, 0); auto p = [&](float t) { return which == 0 ? pt(0, t, o1, o2) : which == 1 ? pt(0, o1, t, o2) : pt(0, o1, o2, t); }; check(le(s->corr(z, p(b)), (double) s->corr(z, p(a)) + 1e-6), "decreases with separation");
}
SV_HARNESS(decreasing, "Barnes, Cressman and power law: two symbolic separations (horizontal, vertical or land fraction)") { static const int K[3] = {0, 1, 4}; mono(K[sv::integer("kind", 0, 2)], sv::integer("which", 0, 2)); }
SV_HARNESS(decreasing_soar, "SOAR and TOAR at a symbolic separation against 8 larger fixed separations (horizontal, vertical or land fraction)") { // (1+v)exp(-v): compared with fixed points
    int k = sv::integer("kind", 2, 3), which = sv::integer("which", 0, 2); P s = mk(k, 1, 1, 1); float b = 0.5 * sv::integer("b", 1, 8), a = sv::f32("a", 0, 4); sv::assume(le(a, b)); if (which == 2 && b > 1) return; auto z = pt(0, 0, 0, 0); auto p = [&](float t) { return which == 0 ? pt(0, t, 0, 0) : which == 1 ? pt(0, 0, t, 0) : pt(0, 0, 0, t); }; check(le(s->corr(z, p(b)), (double) s->corr(z, p(a)) + 0.02), "decreases with separation");
}
SV_HARNESS(missing_attributes, "missing elevations or land fractions are ignored") { int k = kind(), m = sv::integer("missing", 0, 3); P s = mk(k, 2.5, 2, 0.5), t = mk(k, 2.5, 0, 0); float x, e, l; sep(k, x, e, l, 6); auto a = pt(0, 0, m == 0 ? NaN : 0, m == 1 ? NaN : 0), b = pt(0, x, m == 2 ? NaN : e, m == 3 ? NaN : l); double r = t->corr(pt(0, 0), pt(0, x)); if (m == 0 || m == 2) r *= rho(k, l, 0.5); else r *= rho(k, e, 2); check(close(s->corr(a, b), r, 1e-5), "a missing attribute does not decorrelate"); }
SV_HARNESS(many, "6 kinds, scalar scales or scale fields, first point with elevation and land fraction (or without); six points, in any rotation, one symbolic, some without elevation, land fraction or both: many at once equals one by one; a separation that is not known does not reduce the correlation") {
    int k = kind(5), form = sv::flag("fields"), rot = sv::integer("first", 0, 5), am = sv::integer("missing", 0, 2); if (form && k == 1) return; auto g = cgrid({{0, 0}}, {{0, 5}}); P s = form ? mks(k, g, {{2.5, 1.5}}, {{20, 30}}, {{0.5, 0.25}}, 0.0013) : mk(k, 2.5, 20, 0.5);
    bool all = k != 2 && k != 3; float e = all ? sv::f32("e", 80, 120) : 104; auto at = [&](double x, double z, double l) { return pt(0, x, z, l); }; auto a = at(1, am == 1 ? NaN : 100, am == 2 ? NaN : 0.75);
    std::vector<gridpp::Point> q = {at(2, e, 0.5), at(1.5, NaN, 0.625), at(0.5, 95, NaN), at(1.25, NaN, NaN), at(1, 110, 1), at(2.25, 108, 0.25)}; std::rotate(q.begin(), q.begin() + rot, q.end()); vec c = s->corr(a, q), d = s->corr_background(a, q), f = s->clone()->corr(a, q); check(c.size() == 6 && d.size() == 6 && f.size() == 6, "one value per point");
    for (int i = 0; i < 6; i++) { double o = s->corr(a, q[i]); check(close(c[i], o, 1e-6), "many at once equals one by one"); check(close(d[i], o, 1e-6), "many at once equals one by one (background)"); check(close(f[i], o, 1e-6), "copy"); auto w = q[i]; if (!sv::isnum(w.elev)) w.elev = a.elev; if (!sv::isnum(w.laf)) w.laf = a.laf; check(close(o, s->corr(a, w), 1e-6), "an unknown separation does not count"); }
}
SV_HARNESS(spatial_uniform, "4 kinds with uniform scale fields on a 1x2 grid equal the scalar form; vector form and clone agree") {
    static const int K[4] = {0, 2, 3, 4}; int k = K[sv::integer("kind", 0, 3)]; auto g = cgrid({{0, 0}}, {{0, 5}}); P s = mks(k, g, {{2.5, 2.5}}, {{2, 2}}, {{0.5, 0.5}}, 0.0013), t = mk(k, 2.5, 2, 0.5); float x, e, l; sep(k, x, e, l, 30); auto a = pt(0, 1, 0, 0), b = pt(0, x, e, l); double c = s->corr(a, b); check(close(c, t->corr(a, b), 1e-5), "uniform scales equal the scalar form"); vec q = s->corr(a, std::vector<gridpp::Point>{a, b}); check(q.size() == 2 && sv::decide(close(q[0], 1, 1e-6)), "identical points"); check(close(q[1], c, 1e-6), "many at once equals one by one"); check(close(s->clone()->corr(a, b), c, 1e-6), "copy has the same values"); check(std::fabs(s->localization_distance(a) - t->localization_distance(a)) < 1e-3, "same localisation distance");
}
SV_HARNESS(spatial_truncation, "4 kinds with minimum correlations 0.5, 0.1, 0.01 on a 1x2 grid: zero beyond the distance where the correlation reaches the minimum") {
    static const int K[4] = {0, 2, 3, 4}; int k = K[sv::integer("kind", 0, 3)]; float R[3] = {0.5f, 0.1f, 0.01f}, r = R[sv::integer("rho", 0, 2)]; P s = mks(k, cgrid({{0, 0}}, {{0, 5}}), {{2, 2}}, {{0, 0}}, {{0, 0}}, r); auto a = pt(0, 1); double L = s->localization_distance(a); check(std::fabs(rho(k, L, 2) - r) < 2e-3, "truncated at the minimum correlation"); float x = sv::f32("x", 1, 60); double c = s->corr(a, pt(0, x)); check(imp(lt(L + 1.001, x), eq(c, 0)), "zero beyond"); check(imp(lt(x, L + 0.999), lt(0, c)), "positive within");
}
SV_HARNESS(linear, "linear land-fraction correlation: symbolic difference and minimum correlation") { float m = sv::f32("min", 0, 1), l = sv::f32("l", -1, 1); gridpp::LinearStructure s(1, 1, m); double c = s.corr(pt(0, 0, 0, 0), pt(0, 0, 0, l)); check(close(c, 1 - (1 - (double) m) * sv::dabs(l), 1e-5), "linear in the land-fraction difference"); check(land(le(0, c), le(c, 1)), "between 0 and 1"); check(close(c, s.corr(pt(0, 0, 0, l), pt(0, 0, 0, 0)), 1e-6), "symmetric"); }
SV_HARNESS(reject, "negative or missing length scales and truncation distances, mismatching scale fields") {
    int k = kind(5), which = sv::integer("which", 0, 3); float bad = sv::f32("bad", -10, 10, sv::OPT); bool neg = !sv::isnum(bad) || sv::decide(lt(bad, 0)); if (which == 3 && (!sv::isnum(bad) || k == 1)) return; if (!neg && sv::decide(eq(bad, 0))) return; if (!neg && k != 1) return; // valid scales are the subject of the other harnesses
    bool t = throws([&] { mk(k, which == 0 ? bad : 1, which == 1 ? bad : 1, which == 2 ? bad : 1, which == 3 ? bad : NaN); }); check(t == neg, "scales checked");
    if (k != 1) { vec2 ok = {{1, 1}}, no = {{1, 1, 1}}; auto g = cgrid({{0, 0}}, {{0, 1}}); check(throws([&] { mks(k, g, which == 0 ? no : ok, which == 1 ? no : ok, which >= 2 ? no : ok, 0.1); }), "mismatching scale fields rejected"); vec2 n2 = {{1, 1}, {1, 1}}; check(throws([&] { mks(k, g, which == 0 ? n2 : ok, which == 1 ? n2 : ok, which >= 2 ? n2 : ok, 0.1); }), "mismatching scale fields rejected"); }
}
SV_HARNESS(copies, "6 kinds with and without a truncation distance, and 5 kinds with scale fields on a 1x2 grid: a copy, and a copy of it, has the correlations and localisation distance of the original; one symbolic separation at a time, first point in either cell") {
    int k = kind(5), form = sv::integer("form", 0, 2); if (form == 2 && k == 1) return; P s = form < 2 ? mk(k, k == 5 ? 0.3 : 2.5, k == 5 ? 0.7 : 2, 0.5, form && k != 1 ? 4 : NaN) : mks(k, cgrid({{0, 0}}, {{0, 5}}), k == 5 ? vec2{{0.3, 0.6}} : vec2{{2.5, 1}}, k == 5 ? vec2{{0.7, 0.2}} : vec2{{2, 3}}, {{0.5, 0.25}}, 0.05);
    int which = sv::integer("which", 0, 2); float x = 0.75, e = 1.25, l = 0.125; if (which == 0) x = sv::f32("x", 0, 30); if (which == 1) e = sv::f32("e", -10, 10); if (which == 2) l = sv::f32("l", -1, 1); double x0 = form == 2 && sv::flag("second") ? 5 : 0; auto a = pt(0, x0, 0, 0), b = pt(0, x0 + (double) x, e, l); P c = s->clone(), d = c->clone(); for (P q : {c, d}) { check(sv::same(q->localization_distance(a), s->localization_distance(a)), "localisation distance"); check(sv::same(q->corr(a, b), s->corr(a, b)), "correlation"); check(sv::same(q->corr_background(a, b), s->corr_background(a, b)), "background correlation"); }
}
