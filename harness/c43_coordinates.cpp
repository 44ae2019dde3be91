#include "common.h"
typedef gridpp::KDTree K; static const double Rg = 6.378137e6;
static void conv(float la, float lo, float& x, float& y, float& z) { gridpp::convert_coordinates(la, lo, gridpp::Geodetic, x, y, z); }
SV_HARNESS(sphere, "any latitude and longitude: the point lies on the sphere at that latitude and longitude") {
    float la = sv::f32("lat", -90, 90), lo = sv::f32("lon", -360, 360), x, y, z; conv(la, lo, x, y, z); double R = gridpp::radius_earth, X = x / R, Y = y / R, Z = z / R; check(close(X * X + Y * Y + Z * Z, 1, 1e-5), "on the sphere"); double a = M_PI / 180 * la, b = M_PI / 180 * lo; check(close(Z, std::sin(a), 1e-5), "height above the equatorial plane"); check(le(0, Z * sv::ite(lt(la, 0), -1, 1) + 1e-7), "hemisphere");
    check(close(X, std::cos(a) * std::cos(b), 1e-5), "first axis through the Greenwich meridian"); check(close(Y, std::cos(a) * std::sin(b), 1e-5), "second axis through 90 degrees east");
}
SV_HARNESS(axes, "given latitudes and longitudes at the poles, on the equator and the date line: known places") {
    float P[7][5] = {{0, 0, 1, 0, 0}, {0, 90, 0, 1, 0}, {0, 180, -1, 0, 0}, {0, -180, -1, 0, 0}, {90, 37, 0, 0, 1}, {-90, -120, 0, 0, -1}, {0, -90, 0, -1, 0}}; int k = sv::integer("k", 0, 6); float x, y, z; conv(P[k][0], P[k][1], x, y, z); double R = gridpp::radius_earth; check(close(x, R * P[k][2], 2), "x"); check(close(y, R * P[k][3], 2), "y"); check(close(z, R * P[k][4], 2), "z");
}
SV_HARNESS(cartesian, "any coordinates: Cartesian coordinates are kept") { float la = sv::f32("y", -1e6, 1e6), lo = sv::f32("x", -1e6, 1e6), x, y, z; check(gridpp::convert_coordinates(la, lo, gridpp::Cartesian, x, y, z), "accepted"); check(sv::same(x, lo), "x"); check(sv::same(y, la), "y"); check(sv::same(z, 0), "z"); vec X, Y, Z; gridpp::convert_coordinates(vec{la, lo}, vec{lo, la}, gridpp::Cartesian, X, Y, Z); check(X.size() == 2 && Y.size() == 2 && Z.size() == 2, "size"); check(land(sv::same(X[1], la), sv::same(Y[1], lo)), "array form"); }
SV_HARNESS(invalid, "latitudes beyond 90.01, missing or infinite coordinates: rejected by the conversion, the index, points and grids; valid ones accepted") {
    int k = sv::integer("kind", 0, 2); float bad = k == 0 ? sv::f32("lat", 90.01, 1000) : k == 1 ? sv::f32("lat", -1000, -90.01) : sv::f32("lat", 0, 1, sv::NAN_ | sv::PINF | sv::NINF), nl = sv::f32("nl", 0, 1, sv::NAN_ | sv::PINF | sv::NINF), ok = sv::f32("ok", -90, 90), okl = sv::f32("okl", -360, 360), x, y, z;
    check(throws([&] { conv(bad, okl, x, y, z); }) && throws([&] { conv(ok, nl, x, y, z); }), "conversion"); check(throws([&] { K t(vec{0, bad}, vec{0, 0}); }) && throws([&] { gridpp::Points p(vec{bad, 0}, vec{0, 0}); }) && throws([&] { gridpp::Grid g(vec2{{0, bad}}, vec2{{0, 0}}); }), "construction"); check(throws([&] { gridpp::convert_coordinates(nl, okl, gridpp::Cartesian, x, y, z); }) && throws([&] { gridpp::convert_coordinates(ok, nl, gridpp::Cartesian, x, y, z); }), "Cartesian"); check(!throws([&] { conv(ok, okl, x, y, z); }), "valid coordinates are accepted");
    check(gridpp::is_valid_lat(ok, gridpp::Geodetic) && !gridpp::is_valid_lat(bad, gridpp::Geodetic) && !gridpp::is_valid_lon(nl, gridpp::Geodetic) && gridpp::is_valid_lon(okl, gridpp::Geodetic) && !gridpp::is_valid_lat(nl, gridpp::Cartesian) && !gridpp::is_valid_lon(nl, gridpp::Cartesian), "validity tests agree");
}
SV_HARNESS(straight, "any two points in space: symmetric, never negative, zero exactly for identical points, Euclidean; all forms") {
    vec p = symvec("p", 3, -100, 100), q = symvec("q", 3, -100, 100); double d = K::calc_straight_distance(p[0], p[1], p[2], q[0], q[1], q[2]), e = K::calc_straight_distance(q[0], q[1], q[2], p[0], p[1], p[2]), s = 0; for (int i = 0; i < 3; i++) s += ((double) p[i] - q[i]) * ((double) p[i] - q[i]); check(sv::same(d, e), "symmetric"); check(le(0, d), "never negative"); check(close(d * d, s, 1e-3), "Euclidean"); check(sv::same(K::calc_straight_distance(p[0], p[1], p[2], p[0], p[1], p[2]), 0), "zero to itself");
}
SV_HARNESS(triangle, "triangle inequality of straight-line distances: three points on a plane, one at the origin and one on an axis") { float a = sv::f32("a", 0, 10), x = sv::f32("x", -10, 10), y = sv::f32("y", -10, 10); double ab = K::calc_straight_distance(0, 0, 0, a, 0, 0), bc = K::calc_straight_distance(a, 0, 0, x, y, 0), ac = K::calc_straight_distance(0, 0, 0, x, y, 0); check(le(ac, ab + bc + 1e-4), "triangle inequality"); check(le(ab, ac + bc + 1e-4), "triangle inequality"); }
SV_HARNESS(plane, "Cartesian distances between any two points: Euclidean, symmetric; exact, fast and point forms agree") {
    float ay = sv::f32("ay", -100, 100), ax = sv::f32("ax", -100, 100), by = sv::f32("by", -100, 100), bx = sv::f32("bx", -100, 100); double d = K::calc_distance(ay, ax, by, bx, gridpp::Cartesian), f = K::calc_distance_fast(ay, ax, by, bx, gridpp::Cartesian), s = ((double) ay - by) * ((double) ay - by) + ((double) ax - bx) * ((double) ax - bx); check(le(0, d), "never negative"); check(close(d * d, s, 1e-3), "Euclidean"); check(sv::same(d, f), "fast form"); check(sv::same(d, K::calc_distance(by, bx, ay, ax, gridpp::Cartesian)), "symmetric");
    gridpp::Point P(ay, ax, 0, 0, gridpp::Cartesian), Q(by, bx, 0, 0, gridpp::Cartesian), L(1, 1); check(sv::same(d, K::calc_distance(P, Q)), "point form"); check(sv::same(d, K::calc_straight_distance(P, Q)), "straight form"); check(throws([&] { K::calc_distance(P, L); }), "mixed coordinate types are rejected");
}
SV_HARNESS(great_circle, "great-circle distance of any two places: never missing, never negative, at most half the circumference, symmetric, zero to itself") {
    float a = sv::f32("lat1", -90, 90), b = sv::f32("lon1", -180, 180), c = sv::f32("lat2", -90, 90), d = sv::f32("lon2", -180, 180); double r = K::calc_distance(a, b, c, d, gridpp::Geodetic); check(sv::isnum(r), "never missing"); if (!sv::isnum(r)) return; check(le(0, r), "never negative"); check(le(r, M_PI * Rg + 10), "at most half the circumference"); check(close(r, K::calc_distance(c, d, a, b, gridpp::Geodetic), 1), "symmetric"); check(sv::same(K::calc_distance(a, b, a, b, gridpp::Geodetic), 0), "zero to itself"); gridpp::Point P(a, b), Q(c, d); check(sv::same(r, K::calc_distance(P, Q)), "point form");
}
SV_HARNESS(great_circle_known, "given places: close together (rounding), antipodal, poles, across the date line, along meridians and the equator") {
    struct T { float a, b, c, d; double r; double tol; } t[] = {{2.19654369f, 31.1437187f, 2.19654369f, 31.1437206f, 0, 30}, {-89.9095001f, -110.537308f, -89.9095001f, -110.5373f, 0, 30}, {-73.6444626f, 127.428024f, -73.6444626f, 127.428032f, 0, 30}, {30, 40, -30, -140, 180, 2}, {12.3f, 45.6f, -12.3f, -134.4f, 180, 30}, {90, 10, 90, 100, 0, 30}, {90, 0, -90, 50, 180, 2}, {0, 179, 0, -179, 2, 2}, {10, 20, 35, 20, 25, 2}, {-10, 20, 35, 20, 45, 2}, {0, -30, 0, 60, 90, 2}, {80, 0, 80, 180, 20, 2}, {0, 0, 45, 90, 90, 2}};
    int k = sv::integer("k", 0, 12); double r = K::calc_distance(t[k].a, t[k].b, t[k].c, t[k].d, gridpp::Geodetic), s = K::calc_distance(t[k].c, t[k].d, t[k].a, t[k].b, gridpp::Geodetic); check(sv::isnum(r) && sv::isnum(s), "never missing"); check(close(r, t[k].r * M_PI / 180 * Rg, t[k].tol), "known distance"); check(close(r, s, 1), "symmetric");
}
SV_HARNESS(fast_meridian, "fast geodetic distance along any meridian: the arc length; symmetric, zero to itself, independent of the longitude") { float a = sv::f32("lat1", -90, 90), c = sv::f32("lat2", -90, 90); float lo[4] = {0, 33, -180, 359}; int k = sv::integer("k", 0, 3); double r = K::calc_distance_fast(a, lo[k], c, lo[k], gridpp::Geodetic), s = K::calc_distance_fast(c, lo[k], a, lo[k], gridpp::Geodetic); check(close(r, gridpp::radius_earth * M_PI / 180 * sv::dabs((double) a - c), 5), "arc length"); check(close(r, s, 0.1), "symmetric"); check(sv::same(K::calc_distance_fast(a, lo[k], a, lo[k], gridpp::Geodetic), 0), "zero to itself"); }
SV_HARNESS(fast_equator, "fast geodetic distance along the equator between any two longitudes in [-180,180]: the shorter arc, also across the date line") { float a = sv::f32("lon1", -180, 180), c = sv::f32("lon2", -180, 180); double r = K::calc_distance_fast(0, a, 0, c, gridpp::Geodetic), D = sv::dabs((double) a - c), e = sv::dmin(D, 360 - D); check(close(r, gridpp::radius_earth * M_PI / 180 * e, 5), "shorter arc"); check(close(r, K::calc_distance_fast(0, c, 0, a, gridpp::Geodetic), 0.1), "symmetric"); }
SV_HARNESS(fast_general, "fast geodetic distance at latitudes 60 and 30 south, any longitudes: never shorter than the meridian part, never longer than the sum of both parts") { float a = sv::f32("lon1", -180, 180), c = sv::f32("lon2", -180, 180); double r = K::calc_distance_fast(60, a, -30, c, gridpp::Geodetic), D = sv::dabs((double) a - c), e = sv::dmin(D, 360 - D) * 0.5 * M_PI / 180, m = 90 * M_PI / 180; check(close(r / gridpp::radius_earth * (r / gridpp::radius_earth), m * m + e * e, 1e-4), "meridian and parallel part"); }
SV_HARNESS(degrees, "degrees and radians: any angle; inverse of each other") { float a = sv::f32("a", -720, 720); check(close(K::deg2rad(a), a * M_PI / 180, 1e-4), "radians"); check(close(K::rad2deg(K::deg2rad(a)), a, 1e-3), "round trip"); }
SV_HARNESS(fast_cases, "fast geodetic distance: latitude pairs in both hemispheres (equal, mirrored, southern only), longitude pairs up to 720 degrees apart, any latitude difference on fixed pairs of longitudes") {
    float A[6][2] = {{60, 60}, {-60, -60}, {60, -60}, {-80, -30}, {-30, 20}, {0, -45}}; int k = sv::integer("k", 0, 5); float a = sv::f32("lon1", -360, 360), c = sv::f32("lon2", -360, 360); double r = K::calc_distance_fast(A[k][0], a, A[k][1], c, gridpp::Geodetic), s = K::calc_distance_fast(A[k][1], c, A[k][0], a, gridpp::Geodetic), D = sv::dabs((double) a - c); D = sv::ite(lt(360, D), D - 360, D); double la = std::max(std::fabs(A[k][0]), std::fabs(A[k][1])) * M_PI / 180, e = sv::dmin(D, 360 - D) * M_PI / 180 * std::cos(la), m = (A[k][0] - A[k][1]) * M_PI / 180; r /= gridpp::radius_earth;
    check(close(r * r, m * m + e * e, 1e-4), "meridian part and shorter parallel part at the higher latitude"); check(close(r, s / gridpp::radius_earth, 1e-5), "symmetric"); check(sv::same(K::calc_distance_fast(A[k][0], a, A[k][0], a, gridpp::Geodetic), 0), "zero to itself");
}
SV_HARNESS(distance_number, "a negative number of neighbours is rejected in every form") {
    int n = sv::integer("n", -3, 1), k = sv::integer("form", 0, 3); float y = sv::f32("y", -5, 5), x = sv::f32("x", -5, 5); gridpp::Points p({y, 1}, {x, 2}, vec(), vec(), gridpp::Cartesian); gridpp::Grid g({{0, 0}}, {{0, 1}}, vec2(), vec2(), gridpp::Cartesian); bool bad = throws([&] { if (k == 0) gridpp::distance(g, p, n); else if (k == 1) gridpp::distance(g, g, n); else if (k == 2) gridpp::distance(p, g, n); else gridpp::distance(p, p, n); }); check(bad == (n < 0), "negative numbers are rejected");
}
