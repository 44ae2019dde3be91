#include "common.h"
static const float BAD[] = {NaN, (float) INFINITY, (float) -INFINITY};
SV_HARNESS(same_elev, "pressure: equal elevations, temperature 200-330 K") { float e = sv::f32("e", -500, 9000), p = sv::f32("p", 0, 110000), t = sv::f32("t", 200, 330); check(close(gridpp::pressure(e, e, p, t), p, 1e-2), "unchanged between equal elevations"); }
SV_HARNESS(up_down, "pressure: any two elevations within 3000 m, temperature 200-330 K") { sv::exp_pairs(true); float a = sv::f32("a", -500, 2500), b = sv::f32("b", -500, 2500), p = sv::f32("p", 1000, 110000), t = sv::f32("t", 200, 330); check(close(gridpp::pressure(b, a, gridpp::pressure(a, b, p, t), t), p, 1), "up and back down restores the pressure"); }
SV_HARNESS(decreasing, "pressure: decreasing with output elevation") { float i = sv::f32("i", -500, 4000), a = sv::f32("a", -500, 4000), b = sv::f32("b", -500, 4000), p = sv::f32("p", 1, 110000), t = sv::f32("t", 200, 330); sv::assume(le(a, b)); float pa = gridpp::pressure(i, a, p, t), pb = gridpp::pressure(i, b, p, t); check(le(pb, pa), "not larger at a higher elevation"); check(lt(0, pb), "positive"); check(lnot(land(le(a + 100, b), le(pa, pb))), "smaller 100 m higher"); }
SV_HARNESS(elev_scale, "pressure: about 8.5 km scale height at 290 K") { float d = sv::f32("d", 90, 110), p = sv::f32("p", 90000, 105000); float r = gridpp::pressure(0, d, p, 290); check(le(r, p * 0.9905), "drops about 1.2 % per 100 m"); check(le(p * 0.985, r), "drops about 1.2 % per 100 m"); }
SV_HARNESS(warmer, "pressure: warmer air gives a smaller drop, colder a larger one") { float d = sv::f32("d", 0, 3000), p = sv::f32("p", 1000, 110000), s = sv::f32("s", 200, 330), t = sv::f32("t", 200, 330); sv::assume(le(s, t)); check(le(gridpp::pressure(0, d, p, s), gridpp::pressure(0, d, p, t) + 1e-3), "less change in warm air"); }
SV_HARNESS(slp_zero, "sea-level pressure at zero altitude: humidity given, dew point given, or neither") {
    float p = sv::f32("p", 50000, 110000), t = sv::f32("t", 230, 320), rh = sv::f32("rh", 0, 1, sv::OPT), td = sv::f32("td", 230, 320, sv::OPT); check(close(gridpp::sea_level_pressure(p, 0, t, rh, td), p, 0.1), "equals the station pressure");
}
static const float TT[] = {243.15f, 273.15f, 303.15f};
SV_HARNESS(slp_altitude_low, "sea-level pressure: non-decreasing with altitude from 0 below 50 m, 3 temperatures, humidity missing, 0, 0.1, 0.5 and 1") { float t = TT[sv::integer("temperature", 0, 2)], p = sv::f32("p", 60000, 110000), a = sv::f32("a", 0, 49.9), b = sv::f32("b", 0, 49.9); static const float RH[] = {NaN, 0, 0.1f, 0.5f, 1}; float rh = RH[sv::integer("humidity", 0, 4)]; sv::assume(le(a, b)); float x = gridpp::sea_level_pressure(p, a, t, rh, NaN), y = gridpp::sea_level_pressure(p, b, t, rh, NaN); check(le(x, y + 0.01), "not smaller at a higher altitude"); check(le(p - 0.01, x), "not below the station pressure"); check(le(y, p * 1.01), "about 12 Pa per metre"); }
SV_HARNESS(slp_altitude_high, "sea-level pressure: non-decreasing with altitude from 50 m to 3000 m, 3 temperatures") { float t = TT[sv::integer("temperature", 0, 2)], p = sv::f32("p", 60000, 110000), a = sv::f32("a", 50, 3000), b = sv::f32("b", 50, 3000), rh = sv::f32("rh", 0, 1, sv::OPT); sv::assume(le(a, b)); float x = gridpp::sea_level_pressure(p, a, t, rh, NaN), y = gridpp::sea_level_pressure(p, b, t, rh, NaN); check(le(x, y + 0.01), "not smaller at a higher altitude"); check(le(p, x), "not below the station pressure"); }
SV_HARNESS(slp_pressure, "sea-level pressure: increasing with station pressure") { float t = TT[sv::integer("temperature", 0, 2)], al = sv::flag("high") ? 500 : 20, p = sv::f32("p", 60000, 110000), q = sv::f32("q", 60000, 110000); sv::assume(le(p, q)); check(le(gridpp::sea_level_pressure(p, al, t, 0.5f, NaN), gridpp::sea_level_pressure(q, al, t, 0.5f, NaN) + 0.01), "larger station pressure, larger sea-level pressure"); }
SV_HARNESS(slp_humidity, "sea-level pressure: humidity takes precedence over dew point; without both, a dew point 3 degrees below the temperature") { float t = TT[sv::integer("temperature", 0, 2)], al = sv::flag("high") ? 500 : 20, p = sv::f32("p", 60000, 110000), rh = sv::f32("rh", 0, 1), td = sv::f32("td", 230, 300, sv::OPT); check(close(gridpp::sea_level_pressure(p, al, t, rh, td), gridpp::sea_level_pressure(p, al, t, rh, NaN), 1e-3), "humidity takes precedence"); check(close(gridpp::sea_level_pressure(p, 20, t, NaN, NaN), gridpp::sea_level_pressure(p, 20, t, NaN, t - 3), 0.5), "default dew point"); }
SV_HARNESS(slp_errors, "sea-level pressure: missing altitude or temperature and unphysical values raise an error; missing pressure gives missing") {
    float p = sv::f32("p", 60000, 110000), t = sv::f32("t", 240, 310), b = BAD[sv::integer("bad", 0, 2)], n = sv::f32("n", -100, -0.01), r = sv::f32("r", 1.001, 5); float al = sv::flag("high") ? 500 : 20; auto S = [](float a, float b2, float c, float d, float e) { return throws([&] { gridpp::sea_level_pressure(a, b2, c, d, e); }); };
    check(S(p, b, t, 0.5f, NaN) && S(p, al, b, 0.5f, NaN), "missing altitude or temperature"); check(S(n, al, t, 0.5f, NaN) && S(p, al, n, 0.5f, NaN) && S(p, al, t, n, NaN) && S(p, al, t, r, NaN) && S(p, al, t, 0.5f, n), "unphysical values"); check(std::isnan(gridpp::sea_level_pressure(NaN, al, t, 0.5f, NaN)), "missing pressure");
    vec P(2, p), A = {al, b}, TT2(2, t), R(2, 0.5f), D(2, NaN); check(throws([&] { gridpp::sea_level_pressure(P, A, TT2, R, D); }) && throws([&] { gridpp::sea_level_pressure(P, vec(2, al), vec{t, b}, R, D); }) && throws([&] { gridpp::sea_level_pressure({n, p}, vec(2, al), TT2, R, D); }), "array form raises too");
}
SV_HARNESS(qnh_zero, "QNH at zero altitude") { float p = sv::f32("p", 0, 120000); check(close(gridpp::qnh(p, 0), p, 1), "equals the pressure"); }
SV_HARNESS(qnh_mono, "QNH: increasing with pressure and altitude") { float p = sv::f32("p", 30000, 120000), q = sv::f32("q", 30000, 120000), a = sv::f32("a", -500, 4000), b = sv::f32("b", -500, 4000); sv::assume(le(p, q)); check(le(gridpp::qnh(p, a), gridpp::qnh(q, a)), "larger pressure"); sv::assume(le(a, b)); check(le(gridpp::qnh(p, a), gridpp::qnh(p, b)), "higher altitude"); check(imp(le(0, a), le(p - 1, gridpp::qnh(p, a))), "not below the pressure above sea level"); }
SV_HARNESS(qnh_size, "QNH: about 12 Pa per metre near sea level") { float a = sv::f32("a", 90, 110), p = sv::f32("p", 95000, 105000); float q = gridpp::qnh(p, a); check(le(p + 1000, q), "at least 10 Pa per metre"); check(le(q, p + 1500), "at most 15 Pa per metre"); }
SV_HARNESS(missing, "missing inputs in any position") {
    float e = sv::f32("e", -500, 3000), o = sv::f32("o", -500, 3000), p = sv::f32("p", 0, 110000), t = sv::f32("t", 200, 330), b = BAD[sv::integer("bad", 0, 2)];
    for (int m = 1; m < 16; m++) check(std::isnan(gridpp::pressure(m & 1 ? b : e, m & 2 ? b : o, m & 4 ? b : p, m & 8 ? b : t)), "pressure"); for (int m = 1; m < 4; m++) check(std::isnan(gridpp::qnh(m & 1 ? b : p, m & 2 ? b : e)), "QNH"); check(eq(gridpp::qnh(0, e), 0), "no pressure");
}
SV_HARNESS(arrays, "array forms: two elements; unequal lengths rejected") {
    vec e = symvec("e", 2, 0, 1000, sv::OPT), o = symvec("o", 2, 0, 1000), p = symvec("p", 2, 60000, 105000, sv::OPT), t = symvec("t", 2, 240, 300); vec a = gridpp::pressure(e, o, p, t), q = gridpp::qnh(p, e), s = gridpp::sea_level_pressure(p, {20, 400}, t, {0.5f, NaN}, {NaN, 260}); check(a.size() == 2 && q.size() == 2 && s.size() == 2, "size");
    for (int i = 0; i < 2; i++) { check(sv::same(a[i], gridpp::pressure(e[i], o[i], p[i], t[i])), "pressure"); check(sv::same(q[i], gridpp::qnh(p[i], e[i])), "QNH"); check(sv::same(s[i], gridpp::sea_level_pressure(p[i], i ? 400 : 20, t[i], i ? NaN : 0.5f, i ? 260 : NaN)), "sea-level pressure"); }
    vec x(1, 250), z; for (int k = 0; k < 5; k++) { vec v[5]; for (int j = 0; j < 5; j++) v[j] = j == k ? x : vec(2, j == 3 ? 0.5f : 260); check(throws([&] { gridpp::sea_level_pressure(v[0], v[1], v[2], v[3], v[4]); }), "unequal lengths"); if (k < 4) check(throws([&] { gridpp::pressure(v[0], v[1], v[2], v[3]); }), "unequal lengths"); if (k < 2) check(throws([&] { gridpp::qnh(v[0], v[1]); }), "unequal lengths"); }
    check(gridpp::pressure(z, z, z, z).empty() && gridpp::qnh(z, z).empty() && gridpp::sea_level_pressure(z, z, z, z, z).empty(), "empty");
}
