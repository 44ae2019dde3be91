#include "common.h"
static const double PI = 3.14159265358979323846;
SV_HARNESS(speed, "wind speed: any components within 200 m/s") { float x = sv::f32("x", -200, 200), y = sv::f32("y", -200, 200); double s = gridpp::wind_speed(x, y); check(le(0, s), "never negative"); check(close(s * s, (double) x * x + (double) y * y, 0.05), "norm of the components"); check(land(le(sv::dabs(x), s + 1e-4), le(sv::dabs(y), s + 1e-4)), "at least each component"); check(le(s, sv::dabs(x) + sv::dabs(y) + 1e-4), "at most their sum"); }
SV_HARNESS(direction, "wind direction: components within 200 m/s, at least 0.01 m/s") {
    sv::merge(false); float x = sv::f32("x", -200, 200), y = sv::f32("y", -200, 200); sv::assume(le(0.01, sv::dabs(x) + sv::dabs(y))); float d = gridpp::wind_direction(x, y); check(le(0, d), "not negative"); check(le(d, 360), "at most 360 degrees"); double s = gridpp::wind_speed(x, y), a = d * PI / 180;
    check(close(-s * std::sin(a), x, 0.02), "speed and direction reconstruct the x component"); check(close(-s * std::cos(a), y, 0.02), "speed and direction reconstruct the y component");
}
SV_HARNESS(quadrants, "wind direction: sign patterns and the axes") {
    sv::merge(false); static const float M[] = {0, 1, -1}; int i = sv::integer("sx", 0, 2), j = sv::integer("sy", 0, 2); float x = sv::f32("x", 0.01, 100) * M[i], y = sv::f32("y", 0.01, 100) * M[j]; float d = gridpp::wind_direction(x, y); if (!i && !j) { sv::stop_path(); }
    // the direction the wind comes from: north 0, east 90, south 180, west 270
    double lo = i == 0 ? (j == 1 ? 180 : 0) : i == 1 ? (j == 0 ? 270 : j == 1 ? 180 : 270) : (j == 0 ? 90 : j == 1 ? 90 : 0), hi = i == 0 || j == 0 ? lo : lo + 90; check(land(le(lo - 1e-4, d), le(d, hi + 1e-4)), "quadrant the wind comes from");
}
SV_HARNESS(scale, "wind direction does not depend on the wind speed; two winds are ordered by their angle") { sv::merge(false); float x = sv::f32("x", -50, 50), y = sv::f32("y", -50, 50), u = sv::f32("u", -50, 50), v = sv::f32("v", -50, 50); sv::assume(lt(0.1, x)); sv::assume(lt(0.1, y)); sv::assume(lt(0.1, u)); sv::assume(lt(0.1, v)); float a = gridpp::wind_direction(x, y), b = gridpp::wind_direction(u, v); check(imp(lt((double) x * v + 0.01, (double) u * y), le(a, b + 1e-3)), "ordered by angle"); check(close(gridpp::wind_direction(2 * x, 2 * y), a, 1e-3), "independent of the speed"); }
SV_HARNESS_FP(range_ieee, "wind speed in IEEE arithmetic: any floats below 1e15") { float x = sv::f32("x", -1e15, 1e15), y = sv::f32("y", -1e15, 1e15); float s = gridpp::wind_speed(x, y); check(le(0, s), "never negative"); }
SV_HARNESS(missing, "missing components and array forms") {
    float g = sv::f32("g", -100, 100); check(std::isnan(gridpp::wind_speed(NaN, g)) && std::isnan(gridpp::wind_speed(g, NaN)) && std::isnan(gridpp::wind_direction(NaN, g)) && std::isnan(gridpp::wind_direction(g, NaN)) && std::isnan(gridpp::wind_direction(NaN, NaN)) && std::isnan(gridpp::wind_speed(NaN, NaN)), "missing");
    vec x = symvec("x", 2, -50, 50, sv::OPT), y = symvec("y", 2, -50, 50, sv::OPT), s = gridpp::wind_speed(x, y), d = gridpp::wind_direction(x, y); check(s.size() == 2 && d.size() == 2, "size"); for (int i = 0; i < 2; i++) { check(sv::same(s[i], gridpp::wind_speed(x[i], y[i])), "speed array form"); check(sv::same(d[i], gridpp::wind_direction(x[i], y[i])), "direction array form"); }
    vec o(1, 1), e; check(throws([&] { gridpp::wind_speed(x, o); }) && throws([&] { gridpp::wind_speed(o, x); }) && throws([&] { gridpp::wind_direction(x, o); }) && throws([&] { gridpp::wind_direction(e, x); }), "unequal lengths are rejected"); check(gridpp::wind_speed(e, e).empty() && gridpp::wind_direction(e, e).empty(), "empty");
}
SV_HARNESS(known, "wind direction of concrete winds, including calm") { sv::merge(false); static const float X[] = {0, -1, 1, 0, 1, 0, -1, 1, -1}, Y[] = {0, -1, 1, 1, 0, -1, 0, -1, 1}, D[] = {180, 45, 225, 180, 270, 0, 90, 315, 135}; int i = sv::integer("wind", 0, 8); check(close(gridpp::wind_direction(X[i], Y[i]), D[i], 1e-3), "direction the wind comes from"); }
