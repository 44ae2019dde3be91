#include "common.h"
// humidity diagnostics: ranges, consistency, missing values, array forms
static const float TT[] = {233.15f, 253.15f, 263.15f, 273.15f, 283.15f, 293.15f, 303.15f}; static const float BAD[] = {NaN, (float) INFINITY, (float) -INFINITY};
SV_HARNESS(dew_upper, "dew point: temperature 200-330 K, relative humidity up to 1.1") { float t = sv::f32("t", 200, 330), rh = sv::f32("rh", 0, 1.1); float td = gridpp::dewpoint(t, rh); if (!sv::isnum(td)) check(le(rh, 0), "missing only without moisture"); else { check(lt(0, rh), "no dew point without moisture"); check(le(td, t), "dew point never exceeds the temperature"); } }
SV_HARNESS(dew_saturated, "dew point at saturation and above: temperature 243-330 K, relative humidity 1 to 1.05") { float t = sv::f32("t", 243, 330), rh = sv::f32("rh", 1, 1.05); float td = gridpp::dewpoint(t, rh); check(le(t - 1, td), "saturated: dew point equals the temperature to the formula's accuracy"); check(le(td, t), "never above"); }
SV_HARNESS(dew_rh, "dew point increases with relative humidity at 7 temperatures") { float t = TT[sv::integer("temperature", 0, 6)], a = sv::f32("a", 0.01, 1), b = sv::f32("b", 0.01, 1); sv::assume(le(a + 0.01, b)); float da = gridpp::dewpoint(t, a), db = gridpp::dewpoint(t, b); check(le(da, db), "more moisture, higher dew point"); check(le(150, da), "physical"); }
SV_HARNESS(dew_half, "dew point depression: 273-303 K, relative humidity 0.4 to 0.6") { float t = sv::f32("t", 273, 303), rh = sv::f32("rh", 0.4, 0.6); float td = gridpp::dewpoint(t, rh); check(le(td, t - 5) , "well below the temperature at half saturation"); check(le(t - 15, td), "within physical depression"); }
SV_HARNESS(rh_range, "relative humidity: temperature and dew point 150-400 K") { float t = sv::f32("t", 150, 400), td = sv::f32("td", 150, 400); float rh = gridpp::relative_humidity(t, td); check(land(le(0, rh), le(rh, 1)), "in [0,1]"); check(imp(le(t, td), eq(rh, 1)), "1 at and above saturation"); }
SV_HARNESS(rh_dew, "relative humidity is non-decreasing in the dew point at 7 temperatures, dew points 230-305 K") { float t = TT[sv::integer("temperature", 0, 6)], a = sv::f32("a", 230, 305), b = sv::f32("b", 230, 305); sv::assume(le(a, b)); check(le(gridpp::relative_humidity(t, a), gridpp::relative_humidity(t, b) + 1e-6), "higher dew point, higher humidity"); }
SV_HARNESS(rh_temp, "relative humidity is non-increasing in the temperature at 7 dew points, temperatures 230-305 K") { float td = TT[sv::integer("dewpoint", 0, 6)], a = sv::f32("a", 230, 305), b = sv::f32("b", 230, 305); sv::assume(le(a, b)); check(le(gridpp::relative_humidity(b, td), gridpp::relative_humidity(a, td) + 1e-6), "warmer, lower humidity"); }
SV_HARNESS(recover, "humidity recovered from its dew point: 6 temperatures from 253 K, relative humidity 0.3 to 1") { float t = TT[sv::integer("temperature", 1, 6)], rh = sv::f32("rh", 0.3, 1); check(close(gridpp::relative_humidity(t, gridpp::dewpoint(t, rh)), rh, 0.05), "relative humidity of the dew point"); }
SV_HARNESS(wetbulb, "wet bulb: 7 temperatures, relative humidity 0.05-1, pressure 50000-105000 Pa") { float t = TT[sv::integer("temperature", 0, 6)], rh = sv::f32("rh", 0.05, 1), p = sv::f32("p", 50000, 105000); float w = gridpp::wetbulb(t, p, rh), d = gridpp::dewpoint(t, rh); check(le(d, w + 1e-3), "not below the dew point"); check(le(w, t + 0.5), "not above the temperature"); }
SV_HARNESS(wetbulb_sat, "wet bulb at saturation: 243-320 K, pressure 50000-105000 Pa") { float t = sv::f32("t", 243, 320), p = sv::f32("p", 50000, 105000); check(close(gridpp::wetbulb(t, p, 1), t, 1), "wet bulb equals the temperature at saturation"); }
SV_HARNESS(wetbulb_rh, "wet bulb without moisture or below the formula's range is missing") { float t = sv::f32("t", 200, 330), rh = sv::f32("rh", -1, 0), p = sv::f32("p", 1000, 105000); check(std::isnan(gridpp::wetbulb(t, p, rh)), "no moisture"); float c = sv::f32("c", 0, 30); check(std::isnan(gridpp::wetbulb(c, p, 0.5f)), "below the formula's range"); }
SV_HARNESS(missing, "missing and infinite inputs in any position") {
    float t = sv::f32("t", 240, 310), d = sv::f32("d", 240, 310), p = sv::f32("p", 50000, 105000), r = sv::f32("r", 0.1, 1); float b = BAD[sv::integer("bad", 0, 2)];
    for (int m = 1; m < 4; m++) { float u = m & 1 ? b : t, v = m & 2 ? b : r, w = m & 2 ? b : d; check(std::isnan(gridpp::dewpoint(u, v)), "dew point"); check(std::isnan(gridpp::relative_humidity(u, w)), "relative humidity"); }
    for (int m = 1; m < 8; m++) check(std::isnan(gridpp::wetbulb(m & 1 ? b : t, m & 2 ? b : p, m & 4 ? b : r)), "wet bulb");
}
SV_HARNESS(arrays, "array forms: two elements with missing values; unequal lengths rejected") {
    vec t = symvec("t", 2, 265, 275, sv::OPT), r = symvec("r", 2, 0.1, 1, sv::OPT), d = symvec("d", 2, 266, 268), p = symvec("p", 2, 80000, 105000); vec a = gridpp::dewpoint(t, r), b = gridpp::relative_humidity(t, d), c = gridpp::wetbulb(t, p, r); check(a.size() == 2 && b.size() == 2 && c.size() == 2, "size");
    for (int i = 0; i < 2; i++) { check(sv::same(a[i], gridpp::dewpoint(t[i], r[i])), "dew point"); check(sv::same(b[i], gridpp::relative_humidity(t[i], d[i])), "relative humidity"); check(sv::same(c[i], gridpp::wetbulb(t[i], p[i], r[i])), "wet bulb"); }
    vec s(1, 280), e; check(throws([&] { gridpp::dewpoint(t, s); }) && throws([&] { gridpp::dewpoint(s, t); }) && throws([&] { gridpp::relative_humidity(t, s); }) && throws([&] { gridpp::relative_humidity(e, s); }) && throws([&] { gridpp::wetbulb(s, p, r); }) && throws([&] { gridpp::wetbulb(t, s, r); }) && throws([&] { gridpp::wetbulb(t, p, s); }), "unequal lengths are rejected"); check(gridpp::dewpoint(e, e).empty() && gridpp::relative_humidity(e, e).empty() && gridpp::wetbulb(e, e, e).empty(), "empty");
}
