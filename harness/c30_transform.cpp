#include "common.h"
// backward(forward(x)) = x, forward non-decreasing, missing stays missing, array forms equal the scalar form
static void roundtrip(const gridpp::Transform& t, double lo, double hi, double tol) { float x = sv::f32("x", lo, hi); double y = t.forward(x); check(sv::isnum(y), "forward of a value in the domain is a number"); check(close(t.backward(y), x, tol), "backward inverts forward"); }
static void mono(const gridpp::Transform& t, double lo, double hi) { float x = sv::f32("x", lo, hi), y = sv::f32("y", lo, hi); sv::assume(le(x, y)); check(le(t.forward(x), t.forward(y) + 1e-5), "forward never decreases"); double a = sv::f32("a", -3, 3), b = sv::f32("b", -3, 3); (void) a; (void) b; }
static void backmono(const gridpp::Transform& t, double lo, double hi) { float x = sv::f32("x", lo, hi), y = sv::f32("y", lo, hi); sv::assume(le(x, y)); check(le(t.backward(x), t.backward(y) + 1e-5), "backward never decreases"); }
static void missing(const gridpp::Transform& t) { for (float v : {NaN, (float) INFINITY, (float) -INFINITY}) { check(std::isnan(t.forward(v)), "missing stays missing (forward)"); check(std::isnan(t.backward(v)), "missing stays missing (backward)"); } }
static void arrays(const gridpp::Transform& t, double lo, double hi) {
    vec v = symvec("x", 2, lo, hi, sv::OPT); vec2 v2 = {{v[0], v[1]}, {v[1], 1.5f}, {v[0], NaN}}; gridpp::vec3 v3 = {{{v[0], 1.25f}, {v[1], v[0]}}}; bool back = sv::flag("backward"); auto s = [&](float x) { return back ? t.backward(x) : t.forward(x); };
    vec r = back ? t.backward(v) : t.forward(v); check(r.size() == 2, "size"); for (int i = 0; i < 2; i++) check(sv::same(r[i], s(v[i])), "1D form"); vec2 r2 = back ? t.backward(v2) : t.forward(v2); check(dims(r2, 3, 2), "size"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) check(sv::same(r2[i][j], s(v2[i][j])), "2D form"); gridpp::vec3 r3 = back ? t.backward(v3) : t.forward(v3); check(r3.size() == 1 && dims(r3[0], 2, 2), "size"); for (int j = 0; j < 2; j++) for (int e = 0; e < 2; e++) check(sv::same(r3[0][j][e], s(v3[0][j][e])), "3D form");
    check(t.forward(vec()).empty() && t.backward(vec()).empty() && t.forward(vec2(2))[1].empty() && t.forward(gridpp::vec3(1, vec2(2)))[0][1].empty(), "empty arrays");
}
static const float LAM[] = {0.1f, 0.25f, 0.5f, 1, 2, 3, -0.5f, -1, -2, 0}, SC[] = {0.5f, 1, 4}; static float lam(int n = 9) { sv::merge(false); return LAM[sv::integer("parameter", 0, n)]; }
SV_HARNESS(identity, "identity: any value") { gridpp::Identity t; roundtrip(t, -1e6, 1e6, 0); mono(t, -1e6, 1e6); }
SV_HARNESS(identity_arrays, "identity: arrays") { gridpp::Identity t; arrays(t, -100, 100); check(std::isnan(t.forward(NaN)) && std::isnan(t.backward(NaN)), "missing stays missing"); }
SV_HARNESS(log, "log: positive values up to 1e4") { gridpp::Log t; roundtrip(t, 1e-4, 1e4, 1e-3); mono(t, 1e-4, 1e4); missing(t); }
SV_HARNESS(log_back, "log: backward is increasing and forward inverts it, on [-10,10]") { gridpp::Log t; backmono(t, -10, 10); float y = sv::f32("v", -10, 10); check(close(t.forward(t.backward(y)), y, 1e-4), "forward inverts backward"); check(lt(0, t.backward(y)), "positive"); }
SV_HARNESS(log_arrays, "log: arrays") { gridpp::Log t; arrays(t, 0.1, 10); }
SV_HARNESS(boxcox, "Box-Cox, 10 parameters (positive, negative, zero): positive values up to 1000") { float l = lam(); gridpp::BoxCox t(l); roundtrip(t, l < 0 ? 0.1 : 0.001, l < 0 ? 20 : 1000, 1e-2); }
SV_HARNESS(boxcox_mono, "Box-Cox: non-decreasing; values at and below zero count as zero") { float l = lam(5); gridpp::BoxCox t(l); mono(t, 0, 100); float n = sv::f32("n", -10, 0); check(close(t.forward(n), t.forward(0), 1e-5), "values below zero are taken as zero"); check(close(t.backward(t.forward(n)), 0, 1e-5), "back to zero"); missing(t); }
SV_HARNESS(boxcox_mono_neg, "Box-Cox with zero or negative parameters: non-decreasing on positive values") { float l = LAM[sv::integer("parameter", 6, 9)]; gridpp::BoxCox t(l); mono(t, 0.0625, 100); missing(t); }
SV_HARNESS(boxcox_floor, "Box-Cox, 10 parameters: any value below zero is transformed like zero") { gridpp::BoxCox t(lam()); float n = sv::f32("n", -1000, 0); check(sv::same(t.forward(n), t.forward(0)), "values below zero are taken as zero"); }
SV_HARNESS(boxcox_back, "Box-Cox: backward of any value is non-negative and non-decreasing") { float l = lam(5); gridpp::BoxCox t(l); backmono(t, -20, 20); check(le(0, t.backward(sv::f32("v", -20, 20))), "never negative"); }
SV_HARNESS(boxcox_arrays, "Box-Cox: arrays, 10 parameters") { gridpp::BoxCox t(lam()); arrays(t, 0.125, 10); }
SV_HARNESS(started, "started Box-Cox, 6 parameters, 3 scales: values 0 to 1000") { gridpp::StartedBoxCox t(lam(5), SC[sv::integer("scale", 0, 2)]); roundtrip(t, 0, 1000, 1e-2); }
SV_HARNESS(started_mono, "started Box-Cox: non-decreasing both ways, continuous at the start; negative values count as zero") { float s = SC[sv::integer("scale", 0, 2)]; gridpp::StartedBoxCox t(lam(5), s); mono(t, -10, 100); float x = sv::f32("v", 0, s), y = sv::f32("n", -10, 0); check(close(t.forward(x), x, 1e-5), "unchanged below the scaling factor"); check(close(t.forward(y), 0, 1e-5), "negative values count as zero"); check(le(0, t.backward(y)), "never negative"); missing(t); float z = sv::f32("w", s, 100); check(le(s - 1e-5, t.forward(z)), "above the scaling factor"); }
SV_HARNESS(started_back, "started Box-Cox: backward is non-decreasing") { gridpp::StartedBoxCox t(lam(5), SC[sv::integer("scale", 0, 2)]); backmono(t, -10, 20); }
SV_HARNESS(started_arrays, "started Box-Cox: arrays; invalid parameters are rejected") { gridpp::StartedBoxCox t(lam(5), 1); arrays(t, 0, 10); float bad = sv::f32("bad", -10, 0, sv::ANY); check(throws([&] { gridpp::StartedBoxCox u(bad, 1); }) && throws([&] { gridpp::StartedBoxCox u(1, bad); }), "invalid parameters are rejected"); }
SV_HARNESS(gamma, "gamma (distribution functions stand-in): values 0 to 100, 3 tolerances, 3x2 shapes and scales") { static const float TO[] = {0, 0.01f, 1}; gridpp::Gamma t(1 + sv::integer("shape", 0, 2), 0.5f + sv::integer("scale", 0, 1), TO[sv::integer("tolerance", 0, 2)]); roundtrip(t, 0.0625, 100, 1e-2); missing(t); }
SV_HARNESS(gamma_mono, "gamma: non-decreasing") { gridpp::Gamma t(2, 1.5f, 0.01f); mono(t, 0, 100); backmono(t, -1, 1); }
SV_HARNESS(gamma_arrays, "gamma: arrays; invalid parameters are rejected") { gridpp::Gamma t(1, 2, 0.01f); arrays(t, 0.125, 10); float bad = sv::f32("bad", -10, 0, sv::ANY), worse = sv::f32("worse", -10, -0.01, sv::ANY); check(throws([&] { gridpp::Gamma u(bad, 1, 0.01f); }) && throws([&] { gridpp::Gamma u(1, bad, 0.01f); }) && throws([&] { gridpp::Gamma u(1, 1, worse); }), "invalid parameters are rejected"); }
SV_HARNESS(gamma_quantiles, "inverse gamma distribution (stand-in): 0..2 elements, levels in [0,1], 4 shapes and scales per element") {
    static const float SH[] = {0.5f, 1, 4, 32}; int n = sv::integer("n", 0, 2); vec l, k, s; for (int i = 0; i < n; i++) { l.push_back(sv::f32(sv::idx("level", i).c_str(), 0, 1)); k.push_back(SH[sv::integer(sv::idx("shape", i).c_str(), 0, 3)]); s.push_back(SH[sv::integer(sv::idx("scale", i).c_str(), 0, 3)]); if (sv::decide(lt(0.999, l[i]))) sv::assume(le(1, l[i])); }
    vec r = gridpp::gamma_inv(l, k, s); check((int) r.size() == n, "one quantile per level"); if ((int) r.size() != n) return;
    for (int i = 0; i < n; i++) { double m = s[i] * (k[i] + 1.0); if (sv::decide(le(1, l[i]))) check(std::isinf(r[i]) && r[i] > 0, "no upper bound"); else { check(land(le(0, r[i]), close((double) r[i] * (1 - (double) l[i]), m * l[i], 0.01 * m)), "quantile of its own shape and scale"); } }
}
SV_HARNESS(gamma_quantiles_errors, "inverse gamma distribution: any level, shape and scale, or missing, at either of two positions; mismatching sizes") {
    int p = sv::integer("position", 0, 1), w = sv::integer("which", 0, 2); vec l(2, 0.5f), k(2, 2), s(2, 3); vec& a = w == 0 ? l : w == 1 ? k : s; a[p] = sv::f32("value", -3, 3, sv::OPT); bool num = sv::isnum(a[p]); sv::B good = sv::mk(false); if (num) { sv::assume(lor(le(a[p], 0.99), lt(1, a[p]))); good = w == 0 ? land(le(0, a[p]), le(a[p], 1)) : lt(0, a[p]); } bool g = sv::decide(good);
    check(throws([&] { gridpp::gamma_inv(l, k, s); }) == !g, "invalid arguments are rejected"); vec one(1, 0.5f), three(3, 0.5f), two(2, 0.5f); check(throws([&] { gridpp::gamma_inv(one, two, two); }) && throws([&] { gridpp::gamma_inv(three, two, two); }) && throws([&] { gridpp::gamma_inv(two, one, two); }) && throws([&] { gridpp::gamma_inv(two, two, one); }) && throws([&] { gridpp::gamma_inv(two, two, three); }), "sizes");
}
SV_HARNESS(gamma_quantiles_extreme, "inverse gamma distribution with a shape the distribution functions cannot handle (stand-in: above 1e19): an exception, without ending the program") { float k = sv::f32("shape", 1, 1e20); bool first = sv::flag("first"); vec ks = {2, 2}; ks[first ? 0 : 1] = k; sv::assume(lor(le(k, 9e18), le(1.1e19, k))); bool over = sv::decide(lt(1e19, k)); check(throws([&] { gridpp::gamma_inv({0.5f, 0.25f}, ks, {1, 1}); }) == over, "an exception exactly where there is no quantile"); }
