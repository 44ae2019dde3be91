#include "common.h"
// point coordinates are concrete (so that constructing an index does not fork) unless stated; attributes are symbolic
static gridpp::CoordinateType ctype() { return sv::flag("cartesian") ? gridpp::Cartesian : gridpp::Geodetic; }
static bool eqv(const vec& a, const vec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!sv::decide(sv::same(a[i], b[i]))) return false; return true; }
static void same_points(const gridpp::Points& a, const gridpp::Points& b, double s, const char* what) {
    check(a.get_coordinate_type() == b.get_coordinate_type(), "coordinate type kept"); check(a.size() == b.size(), "size kept");
    check(eqv(a.get_lats(), b.get_lats()) && eqv(a.get_lons(), b.get_lons()) && eqv(a.get_elevs(), b.get_elevs()) && eqv(a.get_lafs(), b.get_lafs()), what);
    for (int k = 0; k < 3; k++) { float qy = k * 3 - 2, qx = 4 - 3 * k; ivec I = a.get_neighbours(qy, qx, s), J = b.get_neighbours(qy, qx, s); std::sort(I.begin(), I.end()); std::sort(J.begin(), J.end()); check(I == J, "same neighbours"); check(a.get_nearest_neighbour(qy, qx) == b.get_nearest_neighbour(qy, qx), "same nearest"); }
    for (int i = 0; i < a.size() && i < b.size(); i++) { gridpp::Point p = a.get_point(i), q = b.get_point(i); check(p.type == q.type && sv::decide(land(land(sv::same(p.lat, q.lat), sv::same(p.lon, q.lon)), land(land(sv::same(p.x, q.x), sv::same(p.y, q.y)), land(sv::same(p.z, q.z), land(sv::same(p.elev, q.elev), sv::same(p.laf, q.laf)))))), "same point"); }
}
static gridpp::Points make(gridpp::CoordinateType t, vec& e, vec& l) { e = symvec("e", 4, -10, 10, sv::OPT); l = symvec("l", 4, 0, 1); return gridpp::Points({0, 3, -2, 5}, {1, -4, 4, 5}, e, l, t); }
SV_HARNESS(points_copy, "4 points, both coordinate types, symbolic attributes and query radius; copy construction, assignment, self-assignment") {
    auto t = ctype(); vec e, l; gridpp::Points p = make(t, e, l); double s = t == gridpp::Cartesian ? sv::f32("r", 0, 8) : sv::f32("R", 0, 8e5);
    check(p.get_coordinate_type() == t, "coordinate type as given"); check(eqv(p.get_elevs(), e) && eqv(p.get_lafs(), l), "attributes as given");
    int how = sv::integer("how", 0, 3); if (how == 0) { gridpp::Points q(p); same_points(p, q, s, "attributes kept by copy"); } else if (how == 1) { gridpp::Points q; q = p; same_points(p, q, s, "attributes kept by assignment"); }
    else if (how == 2) { gridpp::Points q({9}, {9}, {1}, {1}, t == gridpp::Cartesian ? gridpp::Geodetic : gridpp::Cartesian); q = p; same_points(p, q, s, "attributes kept by assignment"); } else { std::vector<gridpp::Points> v; v.push_back(p); v.push_back(p); v.push_back(p); same_points(p, v[0], s, "attributes kept in a container"); }
}
SV_HARNESS(subset, "4 points, both coordinate types, every index list of length 0..3 (repeats allowed)") {
    auto t = ctype(); vec e, l; gridpp::Points p = make(t, e, l); int n = sv::integer("n", 0, 3); ivec I; for (int i = 0; i < n; i++) I.push_back(sv::integer(sv::idx("i", i).c_str(), 0, 3)); gridpp::Points q = p.subset(I);
    check(q.size() == n, "size of subset"); check(q.get_coordinate_type() == t, "coordinate type of subset"); vec y = p.get_lats(), x = p.get_lons(), qy = q.get_lats(), qx = q.get_lons(), qe = q.get_elevs(), ql = q.get_lafs();
    for (int i = 0; i < n; i++) check(qy[i] == y[I[i]] && qx[i] == x[I[i]] && sv::decide(land(sv::same(qe[i], e[I[i]]), sv::same(ql[i], l[I[i]]))), "selected point with attributes");
    if (n) check(q.get_neighbours(y[I[0]], x[I[0]], 0.5).size() == (size_t) std::count(I.begin(), I.end(), I[0]), "subset is searchable");
}
SV_HARNESS(subset_reject, "an index beyond the last point") { auto t = ctype(); vec e, l; gridpp::Points p = make(t, e, l); int k = sv::integer("k", 4, 6); check(throws([&] { p.subset({0, k}); }), "rejected"); }
SV_HARNESS(in_domain, "4 points against a 3x2 rectangular Cartesian or geodetic grid; two points have symbolic Cartesian coordinates") {
    auto t = ctype(); bool c = t == gridpp::Cartesian; vec e = symvec("e", 4, -10, 10), l = symvec("l", 4, 0, 1); float py = sv::f32("py", -2, 6), px = c ? sv::f32("px", -2, 4) : 0.5f; if (!c) py = 1.25; gridpp::Points p({py, 0.5, 9, 3.5}, {px, 0.25, 0.5, 1.5}, e, l, t);
    vec2 la = {{0, 0}, {2, 2}, {4, 4}}, lo = {{0, 2}, {0, 2}, {0, 2}}; gridpp::Grid g(la, lo, vec2(), vec2(), t); gridpp::Points q = p.get_in_domain(g); ivec I = p.get_in_domain_indices(g); check((int) I.size() == q.size(), "one point per index"); check(q.get_coordinate_type() == t, "coordinate type of the restriction");
    vec qy = q.get_lats(), qx = q.get_lons(), qe = q.get_elevs(), ql = q.get_lafs(), y = p.get_lats(), x = p.get_lons();
    for (size_t k = 0; k < I.size(); k++) { int i = I[k]; check(i >= 0 && i < 4 && (k == 0 || I[k - 1] < i), "indices ascend"); check(sv::decide(land(land(sv::same(qy[k], y[i]), sv::same(qx[k], x[i])), land(sv::same(qe[k], e[i]), sv::same(ql[k], l[i])))), "restricted point with attributes"); }
    for (int i = 0; i < 4; i++) { bool in = std::find(I.begin(), I.end(), i) != I.end(); sv::B inside = land(land(lt(0, y[i]), lt(y[i], 4)), land(lt(0, x[i]), lt(x[i], 2))), outside = lor(lor(lt(y[i], 0), lt(4, y[i])), lor(lt(x[i], 0), lt(2, x[i]))); if (in) check(lnot(outside), "only points inside the grid"); else check(lnot(inside), "every point inside the grid"); }
}
SV_HARNESS(kdtree_copy, "4 points, both types: copy and assignment of the index") {
    auto t = ctype(); vec y = {0, 3, -2, 5}, x = {1, -4, 4, 5}; gridpp::KDTree a(y, x, t); float r = t == gridpp::Cartesian ? sv::f32("r", 0, 8) : sv::f32("R", 0, 8e5); gridpp::KDTree b(a); gridpp::KDTree c; c = a; gridpp::KDTree d({1}, {1}, gridpp::Cartesian); d = b;
    for (auto* k : {&b, &c, &d}) { check(k->get_coordinate_type() == t && k->size() == 4 && k->get_lats() == y && k->get_lons() == x, "content"); check(k->get_x() == a.get_x() && k->get_y() == a.get_y() && k->get_z() == a.get_z(), "converted coordinates"); check(k->get_neighbours(1, 1, r) == a.get_neighbours(1, 1, r), "same neighbours"); check(k->get_closest_neighbours(2, 0, 3) == a.get_closest_neighbours(2, 0, 3), "same closest"); }
}
SV_HARNESS(grid, "1..3 x 1..3 grids, symbolic attributes: index mapping, points, copies") {
    auto t = ctype(); int Y = sv::integer("Y", 1, 3), X = sv::integer("X", 1, 3); vec2 la(Y, vec(X)), lo = la; for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { la[y][x] = y + 0.25f * x; lo[y][x] = 2 * x - 0.5f * y; } vec2 e = symvec2("e", Y, X, -10, 10), l = symvec2("l", Y, X, 0, 1); gridpp::Grid g0(la, lo, e, l, t); gridpp::Grid g1(g0), g2; g2 = g0;
    for (auto* g : {&g0, &g1, &g2}) {
        check(g->size() == ivec({Y, X}), "size"); check(g->get_coordinate_type() == t, "coordinate type"); gridpp::Points P = g->to_points(); check(P.size() == Y * X && P.get_coordinate_type() == t, "points of the grid");
        for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { check(g->get_nearest_neighbour(la[y][x], lo[y][x]) == ivec({y, x}), "a grid point is its own nearest neighbour"); gridpp::Point p = g->get_point(y, x), q = P.get_point(y * X + x); float cx, cy, cz; gridpp::convert_coordinates(la[y][x], lo[y][x], t, cx, cy, cz); check(p.lat == la[y][x] && p.lon == lo[y][x] && p.type == t && p.x == cx && p.y == cy && p.z == cz, "grid point coordinates"); check(q.lat == p.lat && q.lon == p.lon && q.x == p.x && q.y == p.y && q.z == p.z && q.type == t, "point of to_points"); check(sv::decide(land(land(sv::same(p.elev, e[y][x]), sv::same(p.laf, l[y][x])), land(sv::same(q.elev, e[y][x]), sv::same(q.laf, l[y][x])))), "attributes"); }
    }
}
SV_HARNESS(point, "a point built directly has the coordinates an index uses") { auto t = ctype(); float y, x; if (t == gridpp::Cartesian) { y = sv::f32("y", -100, 100); x = sv::f32("x", -100, 100); } else { y = sv::integer("lat", -90, 90) ; x = 37 + y; } gridpp::Point p(y, x, 1, 0.5, t); float cx, cy, cz; gridpp::convert_coordinates(y, x, t, cx, cy, cz); check(sv::same(p.x, cx), "x"); check(sv::same(p.y, cy), "y"); check(sv::same(p.z, cz), "z"); check(p.elev == 1 && p.laf == 0.5 && p.type == t, "attributes"); }
SV_HARNESS(construct, "3 points or a 2x2 grid, both coordinate types: built from lists, from an index, with attributes of sizes 0..4; sizes that do not fit are rejected") {
    auto t = ctype(); vec y = {0, 3, -2}, x = {1, -4, 4}; int ne = sv::integer("ne", 0, 4), nl = sv::integer("nl", 0, 4); vec e = symvec("e", ne, -10, 10), l = symvec("l", nl, 0, 1); bool ok = (ne == 0 || ne == 3) && (nl == 0 || nl == 3), tree = sv::flag("tree");
    gridpp::Points p; bool thrown = throws([&] { if (tree) p = gridpp::Points(gridpp::KDTree(y, x, t), e, l); else p = gridpp::Points(y, x, e, l, t); }); check(thrown == !ok, "rejected exactly when the sizes differ"); if (thrown) return;
    check(p.size() == 3 && p.get_lats() == y && p.get_lons() == x && p.get_coordinate_type() == t, "coordinates"); check(p.get_elevs().size() == 3 && p.get_lafs().size() == 3, "one attribute per point");
    for (int i = 0; i < 3; i++) { gridpp::Point q = p.get_point(i); check(sv::decide(land(sv::same(p.get_elevs()[i], ne ? e[i] : gridpp::MV), sv::same(p.get_lafs()[i], nl ? l[i] : gridpp::MV))), "attributes are the given ones, missing when none are given"); check(q.lat == y[i] && q.lon == x[i] && sv::decide(land(sv::same(q.elev, p.get_elevs()[i]), sv::same(q.laf, p.get_lafs()[i]))), "point"); check(p.get_nearest_neighbour(y[i], x[i]) == i, "searchable"); }
}
static void place(const gridpp::Point& q, float la, float lo, gridpp::CoordinateType t) { float x, y, z; gridpp::convert_coordinates(la, lo, t, x, y, z); check(q.type == t && q.lat == la && q.lon == lo, "place of the point"); check(std::fabs(q.x - x) <= 0.5f && std::fabs(q.y - y) <= 0.5f && std::fabs(q.z - z) <= 0.5f, "rectangular coordinates of the point"); }
SV_HARNESS(places, "2x3 grid, its points and the same list of points, both coordinate types, with and without attributes: every point has its own place, rectangular coordinates and attributes") {
    auto t = ctype(); bool at = sv::flag("attributes"); vec2 la, lo; lattice(2, 3, 1, 2, la, lo); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { la[i][j] += 0.25f * j; lo[i][j] += 0.5f * i; } vec2 e = symvec2("e", 2, 3, -10, 10), l = symvec2("l", 2, 3, 0, 1); gridpp::Grid g(la, lo, at ? e : vec2(), at ? l : vec2(), t); gridpp::Points p = g.to_points();
    check(dims(g.get_lats(), 2, 3) && dims(g.get_lons(), 2, 3) && dims(g.get_elevs(), 2, 3) && dims(g.get_lafs(), 2, 3) && g.size() == ivec({2, 3}) && p.size() == 6 && p.get_coordinate_type() == t, "sizes");
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { place(g.get_point(i, j), la[i][j], lo[i][j], t); gridpp::Point q = p.get_point(i * 3 + j), r = g.get_point(i, j); place(q, la[i][j], lo[i][j], t); check(g.get_lats()[i][j] == la[i][j] && g.get_lons()[i][j] == lo[i][j], "coordinates"); check(sv::decide(sv::same(q.elev, at ? e[i][j] : gridpp::MV)) && sv::decide(sv::same(q.laf, at ? l[i][j] : gridpp::MV)) && sv::decide(sv::same(r.elev, q.elev)) && sv::decide(sv::same(r.laf, q.laf)), "attributes"); check(g.get_nearest_neighbour(la[i][j], lo[i][j]) == ivec({i, j}), "its own nearest"); }
}
SV_HARNESS(construct_grid, "2 x 2 grids, both coordinate types: no attributes, or attributes; longitudes of another size are rejected") {
    auto t = ctype(); vec2 la = {{0, 0.5}, {2, 2.5}}, lo = {{0, 1}, {0, 1}}; vec2 e = symvec2("e", 2, 2, -10, 10); int k = sv::integer("k", 0, 3); gridpp::Grid g(la, lo, k & 1 ? e : vec2(), k & 2 ? e : vec2(), t);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { gridpp::Point q = g.get_point(i, j); check(sv::decide(land(sv::same(q.elev, k & 1 ? e[i][j] : gridpp::MV), sv::same(q.laf, k & 2 ? e[i][j] : gridpp::MV))), "attributes, missing when none are given"); }
    vec2 W[4] = {{{0, 1}}, {{0, 1}, {0, 1}, {0, 1}}, {{0, 1, 2}, {0, 1, 2}}, {{0}, {0}}}; check(throws([&] { gridpp::Grid h(la, W[k], vec2(), vec2(), t); }), "other size is rejected"); check(throws([&] { gridpp::Points p(vec{0, 1}, k & 1 ? vec{0} : vec{0, 1, 2}, vec(), vec(), t); }), "other number of longitudes is rejected");
}
