#include "oi.h"
static void sel(int n, int mp) {
    vec g = symvec("g", n, 0.0625, 0.9375); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sv::assume(lnot(eq(g[i], g[j]))); vec2 P(n, vec(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P[i][j] = i == j ? 1 : 1.f / (1 + abs(i - j)); vec o, y, r; for (int i = 0; i < n; i++) { o.push_back(i * i + 1); y.push_back(0.5f * i); r.push_back(0.5f + i); }
    ivec rank(n); for (int i = 0; i < n; i++) rank[i] = i; for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n; j++) if (sv::decide(lt(g[rank[j]], g[rank[j + 1]]))) std::swap(rank[j], rank[j + 1]); // decreasing correlation
    o[rank[mp]] = sv::f32("unused", -100, 100); Table s(g, P); Res e = oi1(line(n), o, r, y, s, mp); ivec I(rank.begin(), rank.begin() + mp); vec x; for (int i : I) x.push_back(i + 1); Res f = oi1(at(x), pick(o, I), pick(r, I), pick(y, I), s, 0); check(close(e.a, f.a, 1e-3), "only the most correlated observations are used"); check(close(e.v, f.v, 1e-4), "variance from the most correlated observations"); Res h = oi1(line(n), o, r, y, s, n), k = oi1(line(n), o, r, y, s, 0); check(close(h.a, k.a, 1e-4), "zero means no limit");
}
SV_HARNESS(one_of_three, "3 observations with distinct symbolic correlations, limit 1; values of the others symbolic") { sel(3, 1); }
SV_HARNESS(two_of_three, "3 observations with distinct symbolic correlations, limit 2; value of the other symbolic") { sel(3, 2); }
SV_HARNESS_T(one_of_four, "4 observations with distinct symbolic correlations, limit 1") { sel(4, 1); }
SV_HARNESS_T(two_of_four, "4 observations with distinct symbolic correlations, limit 2") { sel(4, 2); }
SV_HARNESS(missing_first, "a missing observation does not use up the limit: 3 observations, the most correlated one missing, limits 1 and 2") { int mp = sv::integer("max_points", 1, 2); vec o = symvec("obs", 3, -10, 10); int m = sv::integer("missing", 0, 2); o[m] = NaN; Table s(FG, FP); Res e = oi1(line(3), o, {1, 2, 4}, {0, 0, 0}, s, mp); ivec I; for (int i = 0; i < 3; i++) if (i != m && (int) I.size() < mp) I.push_back(i); vec x; for (int i : I) x.push_back(i + 1); Res f = oi1(at(x), pick(o, I), pick({1, 2, 4}, I), pick({0, 0, 0}, I), s, 0); check(close(e.a, f.a, 1e-4), "missing observations are not counted"); check(close(e.v, f.v, 1e-5), "variance"); }
SV_HARNESS(zero_correlation, "observations with zero or negative localised correlation are not used") { float g = sv::f32("g", -1, 0), o = sv::f32("obs", -10, 10), p = sv::f32("o0", -10, 10); Table s({0.5, g}, {{1, 0.25f}, {0.25f, 1}}); Res e = oi1(line(2), {p, o}, {1, 1}, {0, 0}, s, sv::integer("max_points", 0, 2)); check(close(e.a, 0.25 * p, 1e-4), "uncorrelated observations have no influence"); check(close(e.v, 1 - 0.125, 1e-5), "uncorrelated observations do not reduce the variance"); }
SV_HARNESS(geometry, "two observations at symbolic distances, limit 1, Cressman structure: the closer one is used") { float a = sv::f32("a", 0.125, 4), b = sv::f32("b", -4, -0.125), o = sv::f32("oa", -10, 10), p = sv::f32("ob", -10, 10); sv::assume(lnot(eq(a, -b))); gridpp::CressmanStructure s(5, 0, 0); vec q = gridpp::optimal_interpolation(at({0}), {0}, at({a, b}), {o, p}, {1, 1}, {0, 0}, s, 1, true); bool first = sv::decide(lt(a, -b)); vec q1 = gridpp::optimal_interpolation(at({0}), {0}, at({first ? a : b}), {first ? o : p}, {1}, {0}, s, 0, true); check(close(q[0], q1[0], 1e-4), "the closest observation"); }
SV_HARNESS(per_point, "limit 1 with two background points: each uses its own best observation") { vec o = symvec("obs", 2, -10, 10); gridpp::CressmanStructure s(4, 0, 0); vec q = gridpp::optimal_interpolation(at({0, 3}), {0, 0}, at({1, 2}), o, {1, 1}, {0, 0}, s, 1, true); double rho = (16. - 1) / (16 + 1); check(close(q[0], rho * o[0] / 2, 1e-4), "first point"); check(close(q[1], rho * o[1] / 2, 1e-4), "second point"); }
