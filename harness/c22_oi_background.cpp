#include "oi.h"
SV_HARNESS(out_of_range, "1-3 background points at symbolic positions, 2 observations with symbolic values at fixed positions; Cressman structure: unchanged beyond the localisation distance") {
    int n = sv::integer("points", 1, 2); vec x = symvec("x", n, -5, 12), b = symvec("background", n), v = symvec("variance", n, 0, 10); vec o = symvec("obs", 2), y = symvec("obs_background", 2), r = symvec("obs_variance", 2, 0.25, 4); gridpp::CressmanStructure s(1.5, 0, 0); vec av, q = gridpp::optimal_interpolation_full(at(x), b, v, at({2, 5}), o, r, y, {1, 1}, s, 0, av, true); check(q.size() == b.size() && av.size() == b.size(), "one value per point");
    for (int i = 0; i < n; i++) { sv::B far = land(lor(lt(x[i], 2 - 1.5001), lt(2 + 1.5001, x[i])), lor(lt(x[i], 5 - 1.5001), lt(5 + 1.5001, x[i]))); if (sv::decide(far)) { check(sv::same(q[i], b[i]), "analysis is the background"); check(sv::same(av[i], v[i]), "variance is the background variance"); } else check(sv::isnum(q[i]), "analysis is a number"); }
}
SV_HARNESS(in_range_uses, "one observation in range with a positive correlation moves the analysis towards it (the guarantee is not vacuous)") { float x = sv::f32("x", 0.5, 1), o = sv::f32("obs", 1, 10), r = sv::f32("ratio", 0.25, 4); gridpp::CressmanStructure s(1.5, 0, 0); vec q = gridpp::optimal_interpolation(at({0}), {0}, at({x}), {o}, {r}, {0}, s, 0, true); check(lt(0.01, q[0]), "moved towards the observation"); check(lt(q[0], o), "not beyond the observation"); }
static void missing(bool grid) {
    vec o = symvec("obs", 3, -100, 100, sv::OPT), y = symvec("obs_background", 3, -100, 100, grid ? sv::FIN : sv::OPT), r = grid ? vec{1, 2, 4} : symvec("obs_variance", 3, 0.25, 4, sv::OPT); float b = sv::f32("background"); Table s(FG, FP); ivec I; for (int i = 0; i < 3; i++) if (sv::isnum(o[i]) && sv::isnum(y[i]) && sv::isnum(r[i])) I.push_back(i); if (I.size() == 3) sv::stop_path();
    Res e = oi1(line(3), o, r, y, s, 0, true, b, 2); if (I.empty()) { check(sv::same(e.a, b), "without valid observations the analysis is the background"); check(close(e.v, 2, 0), "without valid observations the variance is unchanged"); return; }
    vec xs; for (int i : I) xs.push_back(i + 1); Res f = oi1(at(xs), pick(o, I), pick(r, I), pick(y, I), s, 0, true, b, 2); check(close(e.a, f.a, 1e-5), "missing observations have no influence"); check(close(e.v, f.v, 1e-5), "missing observations do not reduce the variance");
}
SV_HARNESS(missing_observations, "3 observations in range, each with a symbolic or missing value and background, fixed variances") { missing(true); }
SV_HARNESS(missing_any, "2 observations in range, each with symbolic or missing value, background and variance") {
    vec o = symvec("obs", 2, -100, 100, sv::OPT), y = symvec("obs_background", 2, -100, 100, sv::OPT), r = symvec("obs_variance", 2, 0.25, 4, sv::OPT); float b = sv::f32("background"); bool ex = sv::flag("extrapolate"); Table s(FG, FP); ivec I; for (int i = 0; i < 2; i++) if (sv::isnum(o[i]) && sv::isnum(y[i]) && sv::isnum(r[i])) I.push_back(i);
    if (I.size() == 2) return; Res e = oi1(line(2), o, r, y, s, 0, ex, b, 2); if (I.empty()) { check(sv::same(e.a, b), "without valid observations the analysis is the background"); check(close(e.v, 2, 0), "without valid observations the variance is unchanged"); return; } Res f = oi1(at({(float) I[0] + 1}), pick(o, I), pick(r, I), pick(y, I), s, 0, ex, b, 2); check(close(e.a, f.a, 1e-5), "missing observations have no influence"); check(close(e.v, f.v, 1e-5), "missing observations do not reduce the variance");
}
SV_HARNESS(missing_background, "3 background points, symbolic or missing; one observation: missing cells stay missing, the others are analysed alone") {
    vec b = symvec("background", 3, -100, 100, sv::OPT); float o = sv::f32("obs", -100, 100), r = sv::f32("ratio", 0.25, 4), y = sv::f32("obs_background", -100, 100); gridpp::CressmanStructure s(5, 0, 0); vec x = {0, 1, 3}; vec q = gridpp::optimal_interpolation(at(x), b, at({2}), {o}, {r}, {y}, s, 0, true); for (int i = 0; i < 3; i++) { if (!sv::isnum(b[i])) check(std::isnan(q[i]), "missing background stays missing"); else check(close(q[i], gridpp::optimal_interpolation(at({x[i]}), {b[i]}, at({2}), {o}, {r}, {y}, s, 0, true)[0], 1e-5), "other points are analysed as if alone"); }
}
SV_HARNESS(no_observations, "no observations: gridded and pointwise forms return the background and its variance") {
    vec b = symvec("background", 2, -100, 100, sv::OPT), v = symvec("variance", 2, 0, 10); gridpp::Points none = at({}); gridpp::CressmanStructure s(5, 0, 0); vec av; vec q = gridpp::optimal_interpolation_full(at({0, 1}), b, v, none, {}, {}, {}, {}, s, 0, av, true); check(q.size() == 2 && av.size() == 2, "one value per point"); for (int i = 0; i < 2; i++) { check(sv::same(q[i], b[i]), "background"); check(sv::same(av[i], v[i]), "background variance"); }
    vec2 av2, q2 = gridpp::optimal_interpolation_full(cgrid({{0, 0}}, {{0, 1}}), {b}, {v}, none, {}, {}, {}, {}, s, 0, av2, true); check(dims(q2, 1, 2) && dims(av2, 1, 2), "one value per cell"); for (int i = 0; i < 2; i++) { check(sv::same(q2[0][i], b[i]), "background"); check(sv::same(av2[0][i], v[i]), "background variance"); } vec q3 = gridpp::optimal_interpolation(at({0, 1}), b, none, {}, {}, {}, s, 0, true); for (int i = 0; i < 2; i++) check(sv::same(q3[i], b[i]), "background");
}
SV_HARNESS(reject, "each input one element too short or too long or empty, negative max_points, mixed coordinate types: gridded and pointwise, simple and full forms") {
    int which = sv::integer("which", 0, 7), form = sv::integer("form", 0, 3), ch = sv::integer("change", 0, 2), d = ch == 2 ? -2 : ch ? 1 : -1; auto n = [&](int w, int k) { return vec(k + (w == which ? d : 0), 1); }; auto n2 = [&](int w) { return w == which && ch == 2 ? vec2() : vec2{n(w, 2)}; }; bool full = form & 1, grid = form & 2; if (!full && (which == 4 || which == 5)) return; gridpp::CressmanStructure s(5, 0, 0); int mp = which == 6 ? -1 : 0; gridpp::Points obs = which == 7 ? gridpp::Points(vec{0, 0}, vec{2, 3}) : at({2, 3}); vec av; vec2 av2; auto g = cgrid({{0, 0}}, {{0, 1}});
    check(throws([&] { if (!grid && !full) gridpp::optimal_interpolation(at({0, 1}), n(0, 2), obs, n(1, 2), n(2, 2), n(3, 2), s, mp, true); else if (!grid) gridpp::optimal_interpolation_full(at({0, 1}), n(0, 2), n(4, 2), obs, n(1, 2), n(2, 2), n(3, 2), n(5, 2), s, mp, av, true); else if (!full) gridpp::optimal_interpolation(g, n2(0), obs, n(1, 2), n(2, 2), n(3, 2), s, mp, true); else gridpp::optimal_interpolation_full(g, n2(0), n2(4), obs, n(1, 2), n(2, 2), n(3, 2), n(5, 2), s, mp, av2, true); }), "mismatching inputs are rejected");
}
SV_HARNESS(singular, "two collocated observations with symbolic, possibly zero, variances: an exception or an analysis, never an abort") { float r0 = sv::f32("r0", 0, 1), r1 = sv::f32("r1", 0, 1); Table s({0.5, 0.5}, {{1, 1}, {1, 1}}); bool sing = false; try { Res e = oi1(line(2), {1, 1}, {r0, r1}, {0, 0}, s); check(sv::isnum(e.a), "analysis is a number"); } catch (const std::exception&) { sing = true; } if (sing) check(lt((double) r0 + r1, 1e-6), "only a singular system is refused"); }
SV_HARNESS(empty_grid, "an empty grid and background, 0 or 2 observations: an empty analysis") {
    int k = sv::integer("observations", 0, 1) * 2; vec v(k, sv::f32("v", -100, 100)), x(k); for (int i = 0; i < k; i++) x[i] = i; gridpp::CressmanStructure s(5, 0, 0); gridpp::Grid e; gridpp::Points pe, p(x, x); vec2 av; vec av1; vec r(k, 1);
    check(gridpp::optimal_interpolation(e, vec2(), p, v, r, v, s, 0, true).empty(), "empty grid"); check(gridpp::optimal_interpolation_full(e, vec2(), vec2(), p, v, r, v, r, s, 0, av, true).empty() && av.empty(), "empty grid, variances"); check(gridpp::optimal_interpolation(pe, vec(), p, v, r, v, s, 0, true).empty(), "no points"); check(gridpp::optimal_interpolation_full(pe, vec(), vec(), p, v, r, v, r, s, 0, av1, true).empty() && av1.empty(), "no points, variances");
}
SV_HARNESS(two_ranges_, "the range of the structure depends on the place: points at 0 and 2 with ranges of 0.1 to 6 each, observations at 1 and 4: every point as if alone") {
    TwoRanges s = two_ranges(); vec b = symvec("b", 2), o = symvec("o", 2), x = {0, 2}, av; vec q = gridpp::optimal_interpolation_full(at(x), b, {1, 2}, at({1, 4}), o, {1, 0.5}, {1, 2}, {1, 1}, s, 0, av, true); for (int i = 0; i < 2; i++) { vec av1; vec e = gridpp::optimal_interpolation_full(at({x[i]}), {b[i]}, {i + 1.f}, at({1, 4}), o, {1, 0.5}, {1, 2}, {1, 1}, s, 0, av1, true); check(close(q[i], e[0], 1e-4), "analysis as if alone"); check(close(av[i], av1[0], 1e-4), "variance as if alone"); }
}
