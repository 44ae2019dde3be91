#include "common.h"
typedef gridpp::StructureFunctionPtr P; typedef std::vector<gridpp::Point> Pts;
static gridpp::Point pt(double y, double x, double e = NaN, double l = NaN) { return gridpp::Point(y, x, e, l, gridpp::Cartesian); }
static P mk(int k, float h, float v, float w) { switch (k) { case 0: return P(new gridpp::BarnesStructure(h, v, w)); case 1: return P(new gridpp::CressmanStructure(h, v, w)); case 2: return P(new gridpp::SoarStructure(h, v, w)); case 3: return P(new gridpp::ToarStructure(h, v, w)); case 4: return P(new gridpp::PowerlawStructure(h, v, w)); } return P(new gridpp::LinearStructure(h, v, w)); }
static P mks(int k, const gridpp::Grid& g, vec2 h, vec2 v, vec2 w) { switch (k) { case 0: return P(new gridpp::BarnesStructure(g, h, v, w, 0.0013)); case 2: return P(new gridpp::SoarStructure(g, h, v, w, 0.0013)); case 3: return P(new gridpp::ToarStructure(g, h, v, w, 0.0013)); case 4: return P(new gridpp::PowerlawStructure(g, h, v, w, 0.0013)); } return P(new gridpp::LinearStructure(g, h, v, w, 0.0013)); }
static const int K3[3] = {0, 1, 4};
SV_HARNESS(cross_validation, "Barnes, Cressman, power law; point pair at a symbolic distance and elevation, symbolic cross-validation distance; scalar, many and copied forms") {
    int k = K3[sv::integer("kind", 0, 2)]; P s = mk(k, 2.5, 2, 0); float d = sv::f32("dist", 0, 12), x = sv::f32("x", 0, 12), e = sv::f32("e", -3, 3); sv::assume(lnot(sv::eq(d, x))); gridpp::CrossValidation cv_(*s, d); gridpp::StructureFunction& cv = cv_; auto a = pt(0, 0, 0, 0), b = pt(0, x, e, 0);
    double c = s->corr(a, b); check(sv::same(c, cv.corr(a, b)), "observation form equals the base"); double want = sv::decide(le(x, d)) ? 0 : c; check(close(cv.corr_background(a, b), want, 1e-6), "background form is zero within the distance, the base beyond");
    vec q = cv.corr_background(a, Pts{b, a, b}); check(q.size() == 3, "one value per point"); check(close(q[0], want, 1e-6), "many-point background form"); check(close(q[1], 0, 0), "the point itself is excluded"); check(close(q[2], want, 1e-6), "many-point background form"); vec r = cv.corr(a, Pts{b, a}); check(sv::same(c, r[0]), "many-point observation form equals the base"); check(close(r[1], 1, 1e-6), "many-point observation form equals the base");
    P cl = cv.clone(); check(close(cl->corr_background(a, b), want, 1e-6), "copy keeps the distance"); check(sv::same(c, cl->corr(a, b)), "copy equals the base"); check(std::fabs(cv.localization_distance(a) - s->localization_distance(a)) < 1e-6, "localisation distance of the base");
}
SV_HARNESS(cross_validation_distance, "straight-line distance in two dimensions, symbolic points and cross-validation distance") {
    P s = mk(1, 20, 0, 0); float d = sv::f32("dist", 0, 10), y = sv::f32("y", -6, 6), x = sv::f32("x", -6, 6); double d2 = (double) y * y + (double) x * x; sv::assume(lor(le(d2, (double) d * d - 0.01), le((double) d * d + 0.01, d2))); gridpp::CrossValidation cv_(*s, d); gridpp::StructureFunction& cv = cv_; auto a = pt(1, 2), b = pt(1 + y, 2 + x); float c = cv.corr_background(a, b); if (sv::decide(le(d2, (double) d * d))) check(eq(c, 0), "zero within the distance"); else check(lt(0.5, c), "the base beyond");
}
SV_HARNESS(cross_validation_reject, "negative or missing cross-validation distance") { P s = mk(0, 1, 0, 0); float d = sv::f32("dist", -5, 5, sv::OPT); bool bad = !sv::isnum(d) || sv::decide(lt(d, 0)); check(throws([&] { gridpp::CrossValidation cv(*s, d); }) == bad, "distance checked"); }
SV_HARNESS(multiple, "first structure horizontal, second vertical, third land fraction; all three separations symbolic; Barnes, Cressman, power law and linear parts; many-point and copied form") {
    static const int V[3][3] = {{1, 4, 5}, {4, 1, 5}, {0, 4, 1}}; int c = sv::integer("combination", 0, 2); P h = mk(V[c][0], 2.5, 1, 1), v = mk(V[c][1], 1, 2, 1), w = V[c][2] == 5 ? P(new gridpp::LinearStructure(1, 1, 0.5)) : mk(V[c][2], 1, 1, 0.5); gridpp::MultipleStructure m_(*h, *v, *w); gridpp::StructureFunction& m = m_;
    float x = sv::f32("x", 0, 12), e = sv::f32("e", -5, 5), l = sv::f32("l", -1, 1); auto a = pt(1, 2, 3, 0.25), b = pt(1, 2 + x, 3 + e, 0.25 + l); double r = (double) h->corr(pt(1, 2, 3, 0.25), pt(1, 2 + x, 3, 0.25)) * v->corr(pt(1, 2, 3, 0.25), pt(1, 2, 3 + e, 0.25)) * w->corr(pt(1, 2, 3, 0.25), pt(1, 2, 3, 0.25 + l));
    check(close(m.corr(a, b), r, 1e-5), "product of the parts"); vec q = m.corr(a, Pts{b, a}); check(q.size() == 2, "one value per point"); check(close(q[0], r, 1e-5), "many points"); check(close(q[1], 1, 1e-5), "identical points"); check(close(m.clone()->corr(a, b), r, 1e-5), "copy"); check(close(m.corr_background(a, b), r, 1e-5), "background form"); check(std::fabs(m.localization_distance(a) - h->localization_distance(a)) < 1e-6, "localisation distance of the horizontal part"); check(std::fabs(m.clone()->localization_distance(a) - h->localization_distance(a)) < 1e-6, "copied localisation distance");
}
SV_HARNESS(multiple_independent, "a part ignores the separations of the other parts: scales of the unused dimensions are symbolic") {
    float s1 = sv::f32("s1", 0.1, 10), s2 = sv::f32("s2", 0.1, 10), s3 = sv::f32("s3", 0.1, 10); int which = sv::integer("which", 0, 2); P one(new gridpp::CressmanStructure(1e6, 1e6, 1e6)); gridpp::CressmanStructure h(which == 0 ? 3 : s1, which == 1 ? 3 : s2, which == 2 ? 3 : s3); P off(new gridpp::CressmanStructure(0, 0, 0)); gridpp::MultipleStructure m(which == 0 ? (gridpp::StructureFunction&) h : *off, which == 1 ? (gridpp::StructureFunction&) h : *off, which == 2 ? (gridpp::StructureFunction&) h : *off);
    auto a = pt(0, 0, 0, 0), b = pt(0, 1, 2, 0.5); double d = which == 0 ? 1 : which == 1 ? 2 : 0.5; check(close(m.corr(a, b), (9 - d * d) / (9 + d * d), 1e-5), "only its own separation");
}
SV_HARNESS(spatial_scales, "4 kinds with different scales at the three points of a 1x3 grid; symbolic first location and fixed separations: the scale at the nearest grid point of the first location, also for many points, the localisation distance and copies") {
    static const int KK[4] = {0, 2, 3, 4}; int k = KK[sv::integer("kind", 0, 3)]; auto g = cgrid({{0, 0, 0}}, {{0, 4, 10}}); float H[3] = {1, 2, 4}, V[3] = {2, 3, 5}, W[3] = {0.5f, 0.25f, 1}; P s = mks(k, g, {{H[0], H[1], H[2]}}, {{V[0], V[1], V[2]}}, {{W[0], W[1], W[2]}}); float x = sv::f32("x", -5, 15); sv::assume(land(lnot(eq(x, 2)), lnot(eq(x, 7)))); int i = sv::decide(lt(x, 2)) ? 0 : sv::decide(lt(x, 7)) ? 1 : 2;
    P t = mk(k, H[i], V[i], W[i]); auto a = pt(0, x, 0, 0); check(std::fabs(s->localization_distance(a) - t->localization_distance(a)) < 1e-3, "localisation distance at the nearest grid point"); for (int j = 0; j < 3; j++) { auto b = pt(0, x + (j == 0 ? 1.5 : 0), j == 1 ? 1 : 0, j == 2 ? 0.25 : 0), A = pt(0, 0, 0, 0), B = pt(0, (j == 0 ? 1.5 : 0), j == 1 ? 1 : 0, j == 2 ? 0.25 : 0); double r = t->corr(A, B); check(close(s->corr(a, b), r, 1e-5), "scale at the nearest grid point of the first location"); vec q = s->corr(a, Pts{b, b}); check(close(q[1], r, 1e-5), "many points"); check(close(s->clone()->corr(a, b), r, 1e-5), "copy"); }
}
SV_HARNESS(spatial_first, "with spatially varying scales the first location decides, wherever the second is") {
    static const int KK[4] = {0, 2, 3, 4}; int k = KK[sv::integer("kind", 0, 3)]; auto g = cgrid({{0, 0}}, {{0, 4}}); P s = mks(k, g, {{4, 8}}, {{0, 0}}, {{0, 0}}), t = mk(k, 4, 0, 0), u = mk(k, 8, 0, 0); float x = sv::f32("x", 3, 6); auto a = pt(0, 0), b = pt(0, x); check(close(s->corr(a, b), t->corr(a, b), 1e-5), "scale of the first location"); check(close(s->corr(b, a), u->corr(b, a), 1e-5), "scale of the first location"); check(close(s->corr(b, Pts{a})[0], u->corr(b, a), 1e-5), "scale of the first location (many points)");
}
