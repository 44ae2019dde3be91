#include "common.h"
static const gridpp::Extrapolation EX[] = {gridpp::OneToOne, gridpp::MeanSlope, gridpp::NearestSlope, gridpp::Zero, gridpp::Unchanged};
// strictly increasing forecast nodes, arbitrary reference nodes
static vec inc(const char* n, int N, double lo, double hi, double gap) { vec v = symvec(n, N, lo, hi); for (int i = 1; i < N; i++) sv::assume(le(v[i - 1] + gap, v[i])); return v; }
static double ref(double x, const vec& r, const vec& f, gridpp::Extrapolation below, gridpp::Extrapolation above) {
    int C = f.size();
    if (sv::decide(lt(x, f[0]))) { switch (below) { case gridpp::Unchanged: return x; case gridpp::Zero: return r[0]; case gridpp::OneToOne: return r[0] + (x - f[0]);
        case gridpp::MeanSlope: return C == 1 ? r[0] + (x - f[0]) : (double) r[0] + ((double) r[C - 1] - r[0]) / ((double) f[C - 1] - f[0]) * ((double) x - f[0]); default: return C == 1 ? r[0] + (x - f[0]) : (double) r[0] + ((double) r[1] - r[0]) / ((double) f[1] - f[0]) * ((double) x - f[0]); } }
    if (sv::decide(lt(f[C - 1], x))) { double e = (double) x - f[C - 1]; switch (above) { case gridpp::Unchanged: return x; case gridpp::Zero: return r[C - 1]; case gridpp::OneToOne: return r[C - 1] + e;
        case gridpp::MeanSlope: return C == 1 ? r[C - 1] + e : (double) r[C - 1] + ((double) r[C - 1] - r[0]) / ((double) f[C - 1] - f[0]) * e; default: return C == 1 ? r[C - 1] + e : (double) r[C - 1] + ((double) r[C - 1] - r[C - 2]) / ((double) f[C - 1] - f[C - 2]) * e; } }
    for (int i = 0; i < C; i++) if (sv::decide(eq(x, f[i]))) return r[i];
    for (int i = 0; i + 1 < C; i++) if (sv::decide(land(lt(f[i], x), lt(x, f[i + 1])))) return (double) r[i] + ((double) r[i + 1] - r[i]) * ((double) x - f[i]) / ((double) f[i + 1] - f[i]);
    return NAN;
}
SV_HARNESS(scalar, "curves of 1..4 strictly increasing forecast nodes (gap at least 0.01) in [-20,20], reference nodes in [-20,20], input in [-40,40]; all 25 policy pairs") {
    int C = sv::integer("C", 1, 4); auto b = EX[sv::integer("below", 0, 4)], a = EX[sv::integer("above", 0, 4)]; vec f = inc("f", C, -20, 20, 0.01), r = symvec("r", C, -20, 20); float x = sv::f32("x", -40, 40);
    float got = gridpp::apply_curve(x, r, f, b, a); check(close(got, ref(x, r, f, b, a), 0.02), "interpolation inside and the requested policy outside");
}
SV_HARNESS(range, "curves of 2..4 non-decreasing forecast nodes; input inside the domain: result within the range of the reference values") {
    int C = sv::integer("C", 2, 4); vec f = inc("f", C, -20, 20, 0), r = symvec("r", C, -20, 20); float x = sv::f32("x", -20, 20); sv::assume(land(le(f[0], x), le(x, f[C - 1]))); float got = gridpp::apply_curve(x, r, f, gridpp::Zero, gridpp::Zero); double lo = r[0], hi = r[0]; for (float v : r) { lo = sv::dmin(lo, v); hi = sv::dmax(hi, v); }
    check(land(le(lo - 1e-3, got), le(got, hi + 1e-3)), "inside the range of the reference values");
}
SV_HARNESS(zero_rep, "curves of 2..3 non-decreasing forecast nodes, end-value, one-to-one and unchanged policies outside the domain") {
    int C = sv::integer("C", 2, 3), p = sv::integer("p", 0, 2); auto e = p == 0 ? gridpp::Zero : p == 1 ? gridpp::OneToOne : gridpp::Unchanged; vec f = inc("f", C, -20, 20, 0), r = symvec("r", C, -20, 20); float x = sv::f32("x", -40, 40); float got = gridpp::apply_curve(x, r, f, e, e);
    if (sv::decide(lt(x, f[0]))) check(close(got, p == 0 ? r[0] : p == 1 ? r[0] + (x - f[0]) : x, 1e-3), "policy below"); else if (sv::decide(lt(f[C - 1], x))) check(close(got, p == 0 ? r[C - 1] : p == 1 ? r[C - 1] + (x - f[C - 1]) : x, 1e-3), "policy above");
}
SV_HARNESS(missing, "missing input gives a missing result, for every policy") { auto a = EX[sv::integer("a", 0, 4)], b = EX[sv::integer("b", 0, 4)]; vec f = inc("f", 2, -20, 20, 0.01), r = symvec("r", 2, -20, 20); check(!sv::isnum(gridpp::apply_curve(NaN, r, f, a, b)), "missing input stays missing"); }
SV_HARNESS(arrays, "curves of 2 nodes; vector of 2, 1x2 grid, and grid with its own curve per cell; five policies") {
    auto p = EX[sv::integer("p", 0, 4)], q = EX[sv::integer("q", 0, 4)]; vec f = inc("f", 2, -20, 20, 0.01), r = symvec("r", 2, -20, 20), f2 = inc("g", 2, -20, 20, 0.01), r2 = symvec("s", 2, -20, 20), x = symvec("x", 2, -40, 40, sv::OPT);
    vec o = gridpp::apply_curve(x, r, f, p, q); vec2 o2 = gridpp::apply_curve(vec2(1, x), r, f, p, q); check(o.size() == 2 && dims(o2, 1, 2), "shape"); vec2 o3 = gridpp::apply_curve(vec2(1, x), vec3(1, vec2{r, r2}), vec3(1, vec2{f, f2}), p, q); check(dims(o3, 1, 2), "shape");
    for (int i = 0; i < 2; i++) { float s = gridpp::apply_curve(x[i], r, f, p, q); check(sv::same(o[i], s), "vector form equals scalar form"); check(sv::same(o2[0][i], s), "grid form equals scalar form"); check(sv::same(o3[0][i], i ? gridpp::apply_curve(x[1], r2, f2, p, q) : s), "own curve per cell"); }
}
SV_HARNESS(grids, "2x3 grid, one curve for all or one per cell (2 nodes), symbolic field with missing values; five policies: every cell by its own curve") {
    auto p = EX[sv::integer("p", 0, 4)], q = EX[sv::integer("q", 0, 4)]; vec2 x(2, vec(3)); vec3 r(2, vec2(3)), f = r; int m = sv::integer("cell", 0, 5); for (int c = 0; c < 6; c++) { f[c / 3][c % 3] = {-1.5f - c, 2.5f + c}; r[c / 3][c % 3] = {3.f * c, 3.f * c + 2 + c}; x[c / 3][c % 3] = c == m ? sv::f32("x", -40, 40, sv::OPT) : c * 1.7f - 4; }
    vec2 a = gridpp::apply_curve(x, r, f, p, q), b = gridpp::apply_curve(x, r[1][2], f[1][2], p, q); check(dims(a, 2, 3) && dims(b, 2, 3), "shape"); for (int c = 0; c < 6; c++) { int i = c / 3, j = c % 3; check(sv::same(a[i][j], gridpp::apply_curve(x[i][j], r[i][j], f[i][j], p, q)), "own curve per cell"); check(sv::same(b[i][j], gridpp::apply_curve(x[i][j], r[1][2], f[1][2], p, q)), "own value per cell"); }
}
SV_HARNESS(reject, "empty and mismatching curves are rejected in every form") {
    vec f = symvec("f", 2), r = symvec("r", 3), n; vec2 g(1, f); check(throws([&] { gridpp::apply_curve(1.0f, r, f, gridpp::Zero, gridpp::Zero); }), "mismatch"); check(throws([&] { gridpp::apply_curve(f, r, f, gridpp::Zero, gridpp::Zero); }), "mismatch vector"); check(throws([&] { gridpp::apply_curve(g, r, f, gridpp::Zero, gridpp::Zero); }), "mismatch grid");
    check(throws([&] { gridpp::apply_curve(1.0f, n, n, gridpp::Zero, gridpp::Zero); }), "empty"); check(throws([&] { gridpp::apply_curve(f, n, n, gridpp::Zero, gridpp::Zero); }), "empty vector"); check(throws([&] { gridpp::apply_curve(g, n, n, gridpp::Zero, gridpp::Zero); }), "empty grid");
    check(throws([&] { gridpp::apply_curve(g, vec3(1, vec2(2, r)), vec3(1, vec2(2, f)), gridpp::Zero, gridpp::Zero); }), "mismatch 3D"); check(throws([&] { gridpp::apply_curve(g, vec3(2, vec2(2, f)), vec3(2, vec2(2, f)), gridpp::Zero, gridpp::Zero); }), "shape mismatch 3D"); check(throws([&] { gridpp::apply_curve(g, vec3(1, vec2(2, n)), vec3(1, vec2(2, n)), gridpp::Zero, gridpp::Zero); }), "empty 3D");
}
SV_HARNESS(unknown_policy, "a policy that is none, below or above the curve: refused or without effect, in every form, without ending the program") {
    bool high = sv::flag("above"); auto z = gridpp::Zero, u = (gridpp::Extrapolation) 7; auto b = high ? z : u, a = high ? u : z; vec f = {0, 1}, r = symvec("r", 2, -20, 20), x = symvec("x", 2, -2, 3); auto in = [&](float v) { return !sv::isnum(v) || !sv::decide(high ? lt(1, v) : lt(v, 0)); }; bool good = in(x[0]) && in(x[1]);
    auto form = [&](const char* n, bool t) { check(t == !good, n); }; form("vector", throws([&] { gridpp::apply_curve(x, r, f, b, a); })); form("grid", throws([&] { gridpp::apply_curve(vec2(1, x), r, f, b, a); })); form("curve per cell", throws([&] { gridpp::apply_curve(vec2(1, x), vec3(1, vec2{r, r}), vec3(1, vec2{f, f}), b, a); })); check(throws([&] { gridpp::apply_curve(x[0], r, f, b, a); }) == !in(x[0]), "scalar");
}
SV_HARNESS(ragged_curves, "1x2 grid whose second curve has as many or more reference than forecast nodes: refused or applied, without ending the program") { vec x = symvec("x", 2, -2, 3), f = {0, 1}, r = symvec("r", 2, -20, 20), s = r; bool more = sv::flag("more"); if (more) s.push_back(4); check(throws([&] { gridpp::apply_curve(vec2(1, x), vec3(1, vec2{r, s}), vec3(1, vec2{f, f}), gridpp::Zero, gridpp::Zero); }) == more, "refused when the sizes differ"); }
