// Observation points on the x axis at 1,2,3,...; a structure function whose correlations are given (possibly symbolic) numbers.
#pragma once
#include "common.h"
typedef std::vector<gridpp::Point> Pts;
struct Table : public gridpp::StructureFunction { // G[x]: correlation between the analysis point (x = 0) and observation x; P[i][j]: between observations
    vec G; vec2 P; Table(vec G, vec2 P, float range = 1000) : gridpp::StructureFunction(range), G(G), P(P) {}
    static int id(const gridpp::Point& p) { return (int) (p.y + p.x + 0.5) - 1; } // observation index, -1 for the analysis point; the axes' order does not matter
    using gridpp::StructureFunction::corr; using gridpp::StructureFunction::corr_background;
    float corr(const gridpp::Point& a, const gridpp::Point& b) const override { int i = id(a), j = id(b); if (i < 0 && j < 0) return 1; if (i < 0) return G[j]; if (j < 0) return G[i]; return P[i][j]; }
    gridpp::StructureFunctionPtr clone() const override { return gridpp::StructureFunctionPtr(new Table(*this)); }
};
static inline gridpp::Points line(int n, int first = 1) { vec y(n, 0), x; for (int i = 0; i < n; i++) x.push_back(first + i); return gridpp::Points(y, x, vec(), vec(), gridpp::Cartesian); }
static inline gridpp::Points at(vec x) { return gridpp::Points(vec(x.size(), 0), x, vec(), vec(), gridpp::Cartesian); }
static inline vec pick(const vec& v, const ivec& I) { vec r; for (int i : I) r.push_back(v[i]); return r; }
struct Res { double a, v; };
static inline Res oi1(const gridpp::Points& obs, vec o, vec r, vec b, const gridpp::StructureFunction& s, int mp = 0, bool ex = true, float bg = 0, float bv = 1, vec bvp = vec()) { vec av; if (bvp.empty()) bvp.assign(o.size(), 1); vec q = gridpp::optimal_interpolation_full(at({0}), {bg}, {bv}, obs, o, r, b, bvp, s, mp, av, ex); if (q.size() != 1 || av.size() != 1) { check(false, "one analysis and one variance per point"); return {0, 0}; } return {q[0], av[0]}; }
// fixed admissible correlations between 3 observations and the analysis point
static const vec FG = {0.75f, 0.5f, 0.25f}; static const vec2 FP = {{1, 0.5f, 0.25f}, {0.5f, 1, 0.5f}, {0.25f, 0.5f, 1}};
// correlation 0.5 within the range, 0 beyond
struct Step : public gridpp::StructureFunction { Step(float r) : gridpp::StructureFunction(r) {} using gridpp::StructureFunction::corr; using gridpp::StructureFunction::corr_background; float corr(const gridpp::Point& a, const gridpp::Point& b) const override { if (sv::decide(sv::le(gridpp::KDTree::calc_straight_distance(a, b), localization_distance(a)))) return 0.5f; return 0; } gridpp::StructureFunctionPtr clone() const override { return gridpp::StructureFunctionPtr(new Step(*this)); } };
// the range depends on the place: r[0] left of x = 1, r[1] right of it; correlation 0.5 with the observation at 1 and 0.25 with the others
struct TwoRanges : public gridpp::StructureFunction { float r[2]; TwoRanges(float a, float b) : gridpp::StructureFunction(1) { r[0] = a; r[1] = b; } using gridpp::StructureFunction::corr; using gridpp::StructureFunction::corr_background; float localization_distance(const gridpp::Point& p) const override { return r[p.lon < 1 ? 0 : 1]; } float corr(const gridpp::Point& a, const gridpp::Point& b) const override { return a.lon == b.lon ? 1 : a.lon == 1 || b.lon == 1 ? 0.5f : 0.25f; } gridpp::StructureFunctionPtr clone() const override { return gridpp::StructureFunctionPtr(new TwoRanges(*this)); } };
static inline TwoRanges two_ranges() { float a = sv::f32("range0", 0.1, 6), b = sv::f32("range1", 0.1, 6); for (double d : {1.0, 4.0}) sv::assume(le(0.01, sv::dabs(a - d))); for (double d : {1.0, 2.0}) sv::assume(le(0.01, sv::dabs(b - d))); return TwoRanges(a, b); } // points at 0 and 2, observations at 1 and 4
