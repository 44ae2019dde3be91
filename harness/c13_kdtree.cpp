#include "common.h"
struct Set { vec y, x; };
static Set pts(int N, double r = 10) { Set s; s.y = symvec("y", N, -r, r); s.x = symvec("x", N, -r, r); return s; }
static double d2(const Set& s, int i, double qy, double qx) { double dy = (double) s.y[i] - qy, dx = (double) s.x[i] - qx; return dy * dy + dx * dx; }
static bool has(const ivec& v, int i) { return std::find(v.begin(), v.end(), i) != v.end(); }
static void wellformed(const ivec& I, int N) { for (size_t i = 0; i < I.size(); i++) { check(I[i] >= 0 && I[i] < N, "index in range"); for (size_t j = 0; j < i; j++) check(I[i] != I[j], "no duplicates"); } }
static void radius_body(const Set& s, int N, double qy, double qx, double r, bool inc) {
    gridpp::Points p(s.y, s.x, vec(), vec(), gridpp::Cartesian); vec dist; ivec I = p.get_neighbours_with_distance(qy, qx, r, dist, inc);
    wellformed(I, N); check(dist.size() == I.size(), "one distance per point");
    for (int i = 0; i < N; i++) { double d = d2(s, i, qy, qx); bool in = has(I, i);
        if (in) { check(le(d, r * r + 1e-3), "a returned point is within the radius"); if (!inc) check(lt(0, d), "an excluded match is not returned"); }
        else if (inc) check(le(r * r, d + 1e-3), "a point that is not returned is outside the radius"); else check(lor(le(r * r, d + 1e-3), eq(d, 0)), "a point that is not returned is outside the radius or a match"); }
    for (size_t k = 0; k < I.size() && k < dist.size(); k++) check(land(le(0, dist[k]), close((double) dist[k] * dist[k], d2(s, I[k], qy, qx), 1e-3)), "reported distance");
}
SV_HARNESS(radius_symbolic, "1..2 points, symbolic Cartesian coordinates, query, radius in [0,20], with and without matches") { int N = sv::integer("N", 1, 2); Set s = pts(N); float qy = sv::f32("qy", -10, 10), qx = sv::f32("qx", -10, 10), r = sv::f32("r", 0, 20); radius_body(s, N, qy, qx, r, sv::flag("match")); }
SV_HARNESS(radius_boundary, "3 lattice points with integer coordinates, radius 0..2 (ties at the boundary: either answer)") { Set s; for (int i = 0; i < 3; i++) { s.y.push_back(sv::integer(sv::idx("y", i).c_str(), 0, i == 0 ? 0 : 2)); s.x.push_back(sv::integer(sv::idx("x", i).c_str(), i == 0 ? 0 : -1, i == 0 ? 2 : 1)); } float r = sv::f32("r", 0, 2); radius_body(s, 3, 0, 0, r, sv::flag("match")); }
SV_HARNESS(radius_origin, "3 points with symbolic coordinates, fixed query, radius 4") { Set s = pts(3, 6); radius_body(s, 3, 1, -1, 4, true); }
SV_HARNESS(count, "2 points, symbolic; counts equal the number returned, for points and grids") {
    Set s = pts(2, 6); float r = sv::f32("r", 0, 8); bool inc = sv::flag("match"); gridpp::Points p(s.y, s.x, vec(), vec(), gridpp::Cartesian); gridpp::KDTree t(s.y, s.x, gridpp::Cartesian);
    ivec I = p.get_neighbours(1, 2, r, inc); check((int) I.size() == p.get_num_neighbours(1, 2, r, inc), "count of points"); check(I == t.get_neighbours(1, 2, r, inc), "points agree with the index"); check(t.get_num_neighbours(1, 2, r, inc) == (int) I.size(), "count of the index");
    vec2 la(1, s.y), lo(1, s.x); gridpp::Grid g(la, lo, vec2(), vec2(), gridpp::Cartesian); ivec2 J = g.get_neighbours(1, 2, r, inc); check(J.size() == I.size() && g.get_num_neighbours(1, 2, r, inc) == (int) I.size(), "count of the grid");
    vec d1, d2_; ivec I2 = p.get_neighbours_with_distance(1, 2, r, d1, inc); ivec2 J2 = g.get_neighbours_with_distance(1, 2, r, d2_, inc); check(J == J2 && I == I2, "same points with and without distances"); for (size_t k = 0; k < I.size(); k++) { check(J[k][0] == 0 && J[k][1] == I[k], "grid indices"); if (k < d1.size() && k < d2_.size()) check(sv::same(d1[k], d2_[k]), "grid distances"); }
}
SV_HARNESS(closest, "3 points with symbolic coordinates, fixed query, k = 1..4, with and without matches") {
    Set s = pts(3); int k = sv::integer("k", 1, 4); bool inc = sv::flag("match"); gridpp::Points p(s.y, s.x, vec(), vec(), gridpp::Cartesian); ivec I = p.get_closest_neighbours(2, 1, k, inc); wellformed(I, 3);
    int elig = 0; for (int i = 0; i < 3; i++) if (inc || !sv::decide(eq(d2(s, i, 2, 1), 0))) elig++;
    check((int) I.size() == std::min(k, elig), "number of closest points");
    for (int i = 0; i < 3; i++) if (!has(I, i)) for (int j : I) { sv::B m = le(d2(s, j, 2, 1), d2(s, i, 2, 1)); check(inc ? m : lor(m, eq(d2(s, i, 2, 1), 0)), "a returned point is no further than one not returned"); }
    if (!inc) for (int j : I) check(lt(0, d2(s, j, 2, 1)), "matches are excluded");
    int n = p.get_nearest_neighbour(2, 1, inc); if (elig == 0) check(n == -1, "no neighbour"); else { check(n >= 0 && n < 3, "nearest exists"); if (n >= 0) for (int i = 0; i < 3; i++) { sv::B m = le(d2(s, n, 2, 1), d2(s, i, 2, 1)); check(inc ? m : lor(m, eq(d2(s, i, 2, 1), 0)), "nearest is at minimum distance"); } }
}
SV_HARNESS(nearest, "2 points and query all symbolic") { Set s = pts(2); float qy = sv::f32("qy", -10, 10), qx = sv::f32("qx", -10, 10); gridpp::Points p(s.y, s.x, vec(), vec(), gridpp::Cartesian); int n = p.get_nearest_neighbour(qy, qx); check(n == 0 || n == 1, "exists"); check(le(d2(s, n, qy, qx), d2(s, 1 - n, qy, qx)), "minimum distance"); gridpp::KDTree t(s.y, s.x, gridpp::Cartesian); check(t.get_nearest_neighbour(qy, qx) == n, "index agrees"); }
SV_HARNESS(grid_nearest, "2x2 grid with symbolic coordinates, fixed query") { Set s = pts(4); vec2 la = {{s.y[0], s.y[1]}, {s.y[2], s.y[3]}}, lo = {{s.x[0], s.x[1]}, {s.x[2], s.x[3]}}; gridpp::Grid g(la, lo, vec2(), vec2(), gridpp::Cartesian); ivec I = g.get_nearest_neighbour(0, 1); check(I.size() == 2 && I[0] >= 0 && I[0] < 2 && I[1] >= 0 && I[1] < 2, "indices"); for (int i = 0; i < 4; i++) check(le(d2(s, I[0] * 2 + I[1], 0, 1), d2(s, i, 0, 1)), "minimum distance"); }
SV_HARNESS(empty, "empty point set and grid") { gridpp::Points p; check(p.get_nearest_neighbour(0, 0) == -1, "no neighbour"); check(p.get_neighbours(0, 0, 1e6).empty() && p.get_num_neighbours(0, 0, 1e6) == 0 && p.get_closest_neighbours(0, 0, 3).empty(), "nothing found"); gridpp::Grid g; check(g.get_nearest_neighbour(0, 0).empty() && g.get_neighbours(0, 0, 1e6).empty() && g.get_num_neighbours(0, 0, 1e6) == 0, "nothing found in grid"); gridpp::KDTree t; int n = t.get_nearest_neighbour(0, 0); check(n == -1, "empty index has no nearest neighbour"); }
SV_HARNESS(geodetic, "5 fixed geodetic points incl. poles, date line and duplicates; symbolic radius (real angle functions are concrete)") {
    vec la = {90, 89.5, 0, 0, -45}, lo = {0, 120, 180, -180, 10}; gridpp::Points p(la, lo); float r = sv::f32("r", 0, 1.3e7); float q[3][2] = {{0, 179.9f}, {89, -60}, {-44, 10}}; int k = sv::integer("q", 0, 2); float qx, qy, qz; gridpp::convert_coordinates(q[k][0], q[k][1], gridpp::Geodetic, qx, qy, qz); vec dist; ivec I = p.get_neighbours_with_distance(q[k][0], q[k][1], r, dist, true);
    for (int i = 0; i < 5; i++) { float x, y, z; gridpp::convert_coordinates(la[i], lo[i], gridpp::Geodetic, x, y, z); double d = std::sqrt(((double) x - qx) * (x - qx) + ((double) y - qy) * (y - qy) + ((double) z - qz) * (z - qz)); if (has(I, i)) check(le(d, (double) r + 1), "returned within radius"); else check(lt((double) r - 1, d), "not returned outside radius"); }
    for (size_t j = 0; j < I.size(); j++) { float x, y, z; gridpp::convert_coordinates(la[I[j]], lo[I[j]], gridpp::Geodetic, x, y, z); double d = std::sqrt(((double) x - qx) * (x - qx) + ((double) y - qy) * (y - qy) + ((double) z - qz) * (z - qz)); check(close(dist[j], d, 2), "distance"); }
}
// A query at a point of the set: only points at the very same place may be left out when matches are excluded. Mirrored and antipodal points share one or two
// of the three coordinates, up to sign.
SV_HARNESS(geodetic_matches, "8 fixed geodetic points: mirrored in the equator, in the central meridian, antipodal, same meridian, same parallel and a duplicate; query at any of them or at the mirror image of a single one; symbolic radius, k = 1..7, matches excluded") {
    vec la = {10, -10, 10, -10, 10, 40, 0, 10}, lo = {20, 20, -20, -160, 70, 20, 0, 20}; int N = la.size(); gridpp::Points p(la, lo); int q = sv::integer("q", 0, 11);
    float qla = q < N ? la[q] : q == 8 ? -40 : q == 9 ? 40 : q == 10 ? 40 : -40, qlo = q < N ? lo[q] : q == 8 ? 20 : q == 9 ? -20 : q == 10 ? 160 : -160;
    float qx, qy, qz; gridpp::convert_coordinates(qla, qlo, gridpp::Geodetic, qx, qy, qz); std::vector<double> d(N); int elig = 0;
    for (int i = 0; i < N; i++) { float x, y, z; gridpp::convert_coordinates(la[i], lo[i], gridpp::Geodetic, x, y, z); d[i] = std::sqrt(((double) x - qx) * (x - qx) + ((double) y - qy) * (y - qy) + ((double) z - qz) * (z - qz)); if (d[i] > 1) elig++; }
    int mode = sv::integer("mode", 0, 2);
    if (mode == 0) { float r = sv::f32("r", 0, 1.4e7); ivec I = p.get_neighbours(qla, qlo, r, false); wellformed(I, N); check((int) I.size() == p.get_num_neighbours(qla, qlo, r, false), "count"); for (int i = 0; i < N; i++) if (has(I, i)) { check(d[i] > 1, "matches are excluded"); check(le(d[i], (double) r + 2), "returned within radius"); } else if (d[i] > 1) check(lt((double) r - 2, d[i]), "a point left out is outside the radius or a match"); }
    else if (mode == 1) { int k = sv::integer("k", 1, N); ivec I = p.get_closest_neighbours(qla, qlo, k, false); wellformed(I, N); check((int) I.size() == std::min(k, elig), "number of closest points"); for (int i = 0; i < N; i++) if (!has(I, i) && d[i] > 1) for (int j : I) check(d[j] <= d[i] + 4, "a returned point is no further than one not returned"); for (int j : I) check(d[j] > 1, "matches are excluded"); }
    else { int n = p.get_nearest_neighbour(qla, qlo, false); check(n >= 0 && n < N && d[n] > 1, "nearest exists"); for (int i = 0; i < N && n >= 0; i++) if (d[i] > 1) check(d[n] <= d[i] + 4, "nearest is at minimum distance"); }
}
SV_HARNESS(negative_number, "a negative number of neighbours is rejected; more than there are points gives all") {
    int n = sv::integer("n", -3, 6); float y = sv::f32("y", -5, 5), x = sv::f32("x", -5, 5); gridpp::KDTree t({0, 1, 3}, {0, 2, 1}, gridpp::Cartesian); ivec r; bool bad = throws([&] { r = t.get_closest_neighbours(y, x, n); }); check(bad == (n < 0), "negative numbers are rejected"); if (!bad) check((int) r.size() == std::min(n, 3), "as many as there are");
}
