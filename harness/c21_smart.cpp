#include "common.h"
// a structure with a symbolic correlation per pair of points: every ranking is explored
struct Table : gridpp::StructureFunction { vec y, x, rho; float range; Table(vec y_, vec x_, vec r, float R) : gridpp::StructureFunction(R), y(y_), x(x_), rho(r), range(R) {}
    float corr(const gridpp::Point& a, const gridpp::Point& b) const { for (size_t i = 0; i < y.size(); i++) if (b.lat == y[i] && b.lon == x[i]) return rho[i]; sv::check(false, "correlation evaluated with an input grid point"); return 0; }
    float localization_distance(const gridpp::Point&) const { return range; } gridpp::StructureFunctionPtr clone() const { return gridpp::StructureFunctionPtr(new Table(*this)); } };
static const float PY[4] = {0, 0, 3, 3.5f}, PX[4] = {1, 2, 0.5f, 4};
static void body(const vec2& oy, const vec2& ox, int num, float R, const vec2& v, const vec& rho) {
    auto ig = cgrid({{PY[0], PY[1]}, {PY[2], PY[3]}}, {{PX[0], PX[1]}, {PX[2], PX[3]}}); Table t(vec(PY, PY + 4), vec(PX, PX + 4), rho, R); vec2 out = gridpp::smart(ig, cgrid(oy, ox), v, num, t); check(dims(out, oy.size(), oy[0].size()), "output size"); vec f = {v[0][0], v[0][1], v[1][0], v[1][1]};
    for (size_t a = 0; a < oy.size(); a++) for (size_t b = 0; b < oy[0].size(); b++) {
        std::vector<int> c; for (int i = 0; i < 4; i++) { double dy = PY[i] - oy[a][b], dx = PX[i] - ox[a][b]; double d2 = dy * dy + dx * dx, R2 = (double) R * R; sv::assume(lor(lt(d2, R2 - 1e-3), lt(R2 + 1e-3, d2))); if (sv::decide(lt(d2, R2))) c.push_back(i); } // a point on the boundary may count either way
        int n = std::min<int>(num, c.size()); if (n == 0) { check(!sv::isnum(out[a][b]), "missing without candidates"); continue; }
        // some subset of size n, whose members rank at least as high as all others, has this mean
        sv::B any = sv::mk(false); for (int m = 0; m < (1 << c.size()); m++) if (__builtin_popcount(m) == n) { double s = 0; sv::B ok = sv::mk(true); for (size_t i = 0; i < c.size(); i++) if (m >> i & 1) { s += f[c[i]]; for (size_t j = 0; j < c.size(); j++) if (!(m >> j & 1)) ok = land(ok, le(rho[c[j]], rho[c[i]])); } any = lor(any, land(ok, close(out[a][b], s / n, 0.01))); }
        check(any, "average of the most correlated points in range"); double lo = f[c[0]], hi = lo; for (int i : c) { lo = sv::dmin(lo, f[i]); hi = sv::dmax(hi, f[i]); } check(land(le(lo - 0.01, out[a][b]), le(out[a][b], hi + 0.01)), "within the range of the candidates");
    }
}
SV_HARNESS(ranking, "2x2 grid, symbolic correlations (every ranking, ties included) and values, 1..5 neighbours asked for, range 4 around one location") { body({{0.2f}}, {{0.7f}}, sv::integer("num", 1, 5), 4, symvec2("v", 2, 2), symvec("rho", 4, 0, 1)); }
SV_HARNESS(range_, "symbolic localisation range, 2 output points, 2 neighbours, fixed correlations") { body({{0.2f, 3}}, {{0.7f, 3.7f}}, 2, sv::f32("range", 0, 6), symvec2("v", 2, 2), {0.3f, 0.9f, 0.5f, 0.7f}); }
SV_HARNESS(location, "symbolic output location, range 2, 1..2 neighbours, fixed correlations") { body({{sv::f32("qy", -3, 6)}}, {{sv::f32("qx", -3, 6)}}, sv::integer("num", 1, 2), 2, {{1, 5}, {-3, 9}}, {0.3f, 0.9f, 0.5f, 0.7f}); }
SV_HARNESS(real_structure, "Barnes structure with elevation scale: symbolic elevations decide which point is chosen (1 neighbour)") {
    vec2 e = symvec2("e", 2, 2, 0, 500); float oe = sv::f32("oe", 0, 500); vec2 la = {{0, 0}, {0, 0}}, lo = {{0, 1}, {-1, 1}}; lo[0][0] = -1; la[1][0] = la[1][1] = 0.25f; la[0][0] = la[0][1] = -0.25f; auto ig = cgrid(la, lo, e); auto og = cgrid({{0}}, {{0}}, {{oe}}); gridpp::BarnesStructure s(2000, 100, 0, 5000); vec2 v = {{1, 2}, {3, 4}}; double out = gridpp::smart(ig, og, v, 1, s)[0][0];
    // all four points are equally far horizontally: the smallest elevation difference wins
    sv::B any = sv::mk(false); for (int i = 0; i < 4; i++) { sv::B m = eq(out, i + 1); for (int j = 0; j < 4; j++) m = land(m, le(sv::dabs((double) e[i / 2][i % 2] - oe), sv::dabs((double) e[j / 2][j % 2] - oe) + 0.01)); any = lor(any, m); } check(any, "the point with the most similar elevation");
}
SV_HARNESS(empty, "empty output grid") { check(gridpp::smart(cgrid({{0}}, {{0}}), gridpp::Grid(), {{1}}, 1, gridpp::BarnesStructure(10)).empty(), "empty"); }
SV_HARNESS(reject, "values of size 0..3 x 0..3 on a 2x2 grid") { vec2 la, lo; lattice(2, 2, 1, 1, la, lo); int Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 3); if (Y == 0 && X) return; vec2 v(Y, vec(X, sv::f32("v", -100, 100))); check(throws([&] { gridpp::smart(cgrid(la, lo), cgrid({{0}}, {{0}}), v, 1, gridpp::BarnesStructure(10)); }) == (Y != 2 || X != 2), "size checked"); }
struct Ranges : gridpp::StructureFunction { float r[2]; Ranges(float a, float b) : gridpp::StructureFunction(1) { r[0] = a; r[1] = b; } float localization_distance(const gridpp::Point& p) const { return r[p.lon < 1 ? 0 : 1]; } float corr(const gridpp::Point& a, const gridpp::Point& b) const { return 1 / (1 + std::fabs(a.lon - b.lon)); } gridpp::StructureFunctionPtr clone() const { return gridpp::StructureFunctionPtr(new Ranges(*this)); } };
SV_HARNESS(two_ranges, "the range of the structure depends on the place: output points at 0 and 2 with ranges of 0.1 to 6 each, input points at 1 and 4, symbolic values") {
    float a = sv::f32("range0", 0.1, 6), b = sv::f32("range1", 0.1, 6); for (double d : {1.0, 4.0}) sv::assume(le(0.01, sv::dabs(a - d))); for (double d : {1.0, 2.0}) sv::assume(le(0.01, sv::dabs(b - d))); Ranges s(a, b); vec v = symvec("v", 2); vec2 q = gridpp::smart(cgrid({{0, 0}}, {{1, 4}}), cgrid({{0, 0}}, {{0, 2}}), {v}, 2, s); check(dims(q, 1, 2), "size"); for (int i = 0; i < 2; i++) { bool n = sv::decide(lt(1, i ? b : a)), f = sv::decide(lt(i ? 2 : 4, i ? b : a)); if (!n) check(!sv::isnum(q[0][i]), "no points in range"); else check(close(q[0][i], f ? ((double) v[0] + v[1]) / 2 : v[0], 1e-3), "average of the points in range of this place"); }
}
