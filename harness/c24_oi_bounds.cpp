#include "oi.h"
SV_HARNESS(variance_one, "one observation: symbolic correlation and variances: 0 <= analysis variance <= background variance") { float g = sv::f32("g", 0, 1), r = sv::f32("r", 0.01, 10), bv = sv::f32("bv", 0, 10), o = sv::f32("obs"); Table s({g}, {{1}}); Res e = oi1(line(1), {o}, {r}, {0}, s, 0, true, 0, bv); check(le(e.v, bv), "not above the background variance"); check(le(-1e-6, e.v), "not negative"); }
SV_HARNESS(variance_two, "two observations: symbolic correlations to the analysis point with a consistent correlation matrix, symbolic variances") { vec g = symvec("g", 2, 0, 1), r = symvec("r", 2, 0.0625, 4); float p = 0.25f * sv::integer("p", 0, 3); sv::assume(le((double) g[0] * g[0] + (double) g[1] * g[1] - 2 * p * g[0] * g[1], 1 - p * p)); Table s(g, {{1, p}, {p, 1}}); Res e = oi1(line(2), {1, 2}, r, {0, 0}, s); check(le(e.v, 1 + 1e-5), "not above the background variance"); check(le(-1e-5, e.v), "not negative"); }
SV_HARNESS(variance_three, "three observations, fixed correlations, one symbolic variance") { vec r = {0.5, 0.5, 0.5}; r[sv::integer("which", 0, 2)] = sv::f32("r", 0, 4); Table s(FG, FP); Res e = oi1(line(3), {1, 2, 3}, r, {0, 0, 0}, s, 0, true, 0, 2); check(le(e.v, 2), "not above the background variance"); check(le(0, e.v), "not negative"); Res f = oi1(line(2), {1, 2}, {r[0], r[1]}, {0, 0}, s, 0, true, 0, 2); check(le(e.v, f.v + 1e-5), "an additional observation does not increase the variance"); }
static double mn(const dvec& v) { double m = v[0]; for (double d : v) m = sv::dmin(m, d); return m; } static double mx(const dvec& v) { double m = v[0]; for (double d : v) m = sv::dmax(m, d); return m; }
static void clamp(int n, const vec2& P, const vec& g) { vec o = symvec("obs", n, -10, 10), y = symvec("y", n, -10, 10); vec r = {0.125f, 0.25f, 0.0625f}; r.resize(n); float b = sv::f32("b", -10, 10); Table s(g, P); Res e = oi1(line(n), o, r, y, s, 0, false, b), f = oi1(line(n), o, r, y, s, 0, true, b); dvec d; for (int i = 0; i < n; i++) d.push_back((double) o[i] - y[i]); double lo = sv::dmin(0, mn(d)), hi = sv::dmax(0, mx(d)), inc = e.a - b, raw = f.a - b; check(land(le(lo - 1e-4, inc), le(inc, hi + 1e-4)), "increment within the range of the innovations and zero"); check(imp(land(le(lo + 1e-4, raw), le(raw, hi - 1e-4)), close(inc, raw, 1e-4)), "an increment within the range is not changed"); check(imp(lt(0, mn(d)), le(-1e-4, inc)), "no decrease when every observation is above its background"); check(imp(lt(mx(d), 0), le(inc, 1e-4)), "no increase when every observation is below its background"); check(close(e.v, f.v, 1e-6), "same variance"); }
SV_HARNESS(clamp_two, "two strongly correlated observations (extrapolating weights), symbolic observed values and backgrounds") { clamp(2, {{1, 0.9f}, {0.9f, 1}}, {0.5f, 0.9f}); }
SV_HARNESS(clamp_three, "three correlated observations, symbolic observed values and backgrounds") { clamp(3, {{1, 0.9f, 0.8f}, {0.9f, 1, 0.9f}, {0.8f, 0.9f, 1}}, {0.95f, 0.85f, 0.7f}); }
SV_HARNESS(no_clamp, "extrapolation allowed: the increment may exceed the innovations") { float o = sv::f32("o", 1, 10); Table s({0.9f, 0.5f}, {{1, 0.9f}, {0.9f, 1}}); Res e = oi1(line(2), {o, 0}, {0.0625f, 0.0625f}, {0, 0}, s); double D = 1.0625 * 1.0625 - (double) 0.9f * 0.9f; check(close(e.a * D, ((double) 0.9f * 1.0625 - 0.5 * 0.9f) * o, 1e-3), "unclamped analysis"); }
SV_HARNESS(confidence, "collocated observation: a smaller symbolic error ratio pulls the analysis closer") { float r0 = sv::f32("r0", 0, 4), r1 = sv::f32("r1", 0, 4), o = sv::f32("obs", -10, 10), b = sv::f32("b", -10, 10); sv::assume(le(r0, r1)); Table s({1}, {{1}}); Res e = oi1(line(1), {o}, {r0}, {b}, s, 0, true, b), f = oi1(line(1), {o}, {r1}, {b}, s, 0, true, b); check(le(sv::dabs(o - e.a), sv::dabs(o - f.a) + 1e-4), "closer to the observation"); check(le(e.v, f.v + 1e-5), "smaller variance"); }
SV_HARNESS(confidence_two, "with a second observation at its background value: a smaller symbolic error ratio gives a larger weight") { float r0 = sv::f32("r0", 0.125, 4), r1 = sv::f32("r1", 0.125, 4); sv::assume(le(r0, r1)); Table s({1, 0.5f}, {{1, 0.5f}, {0.5f, 1}}); Res e = oi1(line(2), {1, 0}, {r0, 1}, {0, 0}, s), f = oi1(line(2), {1, 0}, {r1, 1}, {0, 0}, s); check(le(f.a, e.a + 1e-5), "closer to the observation"); check(le(e.v, f.v + 1e-5), "smaller variance"); }
