// C50: the client's in-memory fields and files
#include "client.h"
SV_HARNESS(field, "fields of 1..3 x 1..3 cells, 1..3 members, a value written at any position: read back there and nowhere else, also as an ensemble") {
    int Y = sv::integer("Y", 1, 3), X = sv::integer("X", 1, 3), E = sv::integer("E", 1, 3), p = sv::integer("position", 0, Y * X * E - 1), e = p % E, x = p / E % X, y = p / E / X; float fill = sv::f32("fill", -100, 100), v = sv::f32("v", -100, 100); Field f(Y, X, E, fill), g(f); f(y, x, e) = v; const Field& c = f; int k = 0;
    for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) { vec w = f(i, j); check((int) w.size() == E, "size of the ensemble"); for (int m = 0; m < E; m++, k++) { check(eq(c(i, j, m), k == p ? v : fill), "exactly the value written changes"); check(eq(w[m], k == p ? v : fill), "ensemble"); check(eq(g(i, j, m), fill), "a copy is independent"); } } check(sv::mk(c.getNumY() == Y && c.getNumX() == X && c.getNumEns() == E), "sizes"); check(sv::mk((f == g) == sv::decide(eq(v, fill))), "equal if all values are"); check(sv::mk((f != g) == !(f == g)), "unequal if not equal");
}
// an in-memory file that stores "s" only
struct Mem : File { std::vector<float> data; mutable int reads; Mem(int T, float a) : File("mem", Options("")), reads(0) { setLats(vec2(1, vec(2, 50))); setLons({{1, 2}}); mNEns = 1; std::vector<double> t; for (int i = 0; i < T; i++) { t.push_back(i); data.push_back(a + i); } setTimes(t); }
    FieldPtr getFieldCore(const Variable& v, int t) const { reads++; return getEmptyField(data[t]); } void writeCore(std::vector<Variable>, std::string) {} bool hasVariableCore(const Variable& v) const { return v.name() == "s"; } std::string name() const { return "mem"; } };
static void sequence(int T, int N) {
    float base = sv::f32("base", -50, 50); Mem f(T, base); static const char* NAME[] = {"s", "n"}; struct M { int state; double v; }; std::vector<std::vector<M> > m(2, std::vector<M>(T, M{0, 0})); bool has[2] = {true, false}; // state 0: not in memory, 1: known, 2: left open
    for (int n = 0; n < N; n++) { int op = sv::integer(sv::idx("op", n).c_str(), 0, 5), k = op == 5 ? 0 : sv::integer(sv::idx("variable", n).c_str(), 0, 1), t = op >= 4 ? 0 : sv::integer(sv::idx("time", n).c_str(), 0, T - 1); Variable v(NAME[k]); float a = sv::f32(sv::idx("a", n).c_str(), -100, 100);
        if (op == 0) { f.addField(f.getEmptyField(a), v, t); m[k][t] = M{1, a}; has[k] = true; }
        else if (op == 1 || op == 2 || op == 3) { FieldPtr p = op == 2 ? f.getField(v, t, true) : op == 3 ? f.getField(std::string(NAME[k]), t) : f.getField(v, t); check(sv::mk((bool) p), "a field"); if (m[k][t].state == 0) { if (op == 2 || k == 1) { for (int q = 0; q < T; q++) if (m[k][q].state == 0) m[k][q] = M{q == t || k == 1, MV}; else ; if (op == 2 && k == 0) for (int q = 0; q < T; q++) if (q != t && m[k][q].state == 0) m[k][q].state = 2; } else m[k][t] = M{1, base + t}; } has[k] = true;
            if (m[k][t].state == 1) { check(sv::same((*p)(0, 0, 0), m[k][t].v), "the field in memory, else the stored one, else missing"); check(sv::same((*p)(0, 1, 0), m[k][t].v), "all cells"); } if (op == 3) { (*p)(0, 0, 0) = a; (*p)(0, 1, 0) = a; m[k][t] = M{1, a}; } }
        else if (op == 4) { f.initNewVariable(v); if (!has[k]) { for (int q = 0; q < T; q++) m[k][q] = M{1, MV}; has[k] = true; } }
        else { f.clear(); for (int i = 0; i < 2; i++) for (int q = 0; q < T; q++) m[i][q] = M{0, 0}; has[1] = false; }
        for (int i = 0; i < 2; i++) check(sv::mk(f.hasVariable(Variable(NAME[i])) == has[i]), "has exactly the stored and the initialised variables"); }
    for (int k = 0; k < 2; k++) for (int t = 0; t < T; t++) { if (k == 1 && m[k][t].state == 0) m[k][t] = M{1, MV}; if (m[k][t].state == 0) m[k][t] = M{1, base + t}; if (m[k][t].state == 2) continue; FieldPtr p = f.getField(Variable(NAME[k]), t); check(sv::same((*p)(0, 0, 0), m[k][t].v), "in the end: the field in memory, else the stored one, else missing"); }
}
SV_HARNESS(cache2, "1 stored variable and 1 that is not, 2 times; any 2 of: add, get, get without reading, get by name and change, initialise, clear; any values") { sequence(2, 2); }
SV_HARNESS(cache3, "as cache2 with any 3 operations") { sequence(2, 3); }
SV_HARNESS(coordinates, "2x2 cells, any longitudes in [-360,360], any latitudes in [-90,90]: longitudes are the same places in [-180,180], latitudes are kept; a new tag exactly when they change; grids of another size are refused") {
    int k = sv::integer("which", 0, 3); FileFake f = cfile(2, 2, 1, 1); vec2 lo = {{1, 2}, {3, 4}}, la = {{50, 51}, {52, 53}}; f.setLats(la); f.setLons(lo); Uuid t0 = f.getUniqueTag(); float x = sv::f32("lon", -360, 360), y = sv::f32("lat", -90, 90); vec2 l2 = lo, a2 = la; l2[k / 2][k % 2] = x; a2[k / 2][k % 2] = y;
    check(f.setLats(a2), "accepted"); Uuid t1 = f.getUniqueTag(); check(sv::mk((t1 == t0) == sv::decide(eq(y, la[k / 2][k % 2]))), "a new tag exactly if a latitude changes"); check(f.setLons(l2), "accepted"); Uuid t2 = f.getUniqueTag(); check(sv::mk((t2 == t1) == sv::decide(eq(x, lo[k / 2][k % 2]))), "a new tag exactly if a longitude changes"); vec2 gl = f.getLons(), ga = f.getLats();
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { check(eq(ga[i][j], a2[i][j]), "latitudes are kept"); double d = (double) gl[i][j] - l2[i][j]; check(land(lor(eq(d, 0), lor(close(d, 360, 1e-3), close(d, -360, 1e-3))), land(le(-180, gl[i][j]), le(gl[i][j], 180))), "the same place in [-180,180]"); }
    vec2 other[] = {{{1, 2}}, {{1}, {2}}, {{1, 2, 3}, {4, 5, 6}}}; vec2 o = other[sv::integer("shape", 0, 2)]; check(!f.setLats(o) && !f.setLons(o) && !f.setElevs(o) && !f.setLandFractions(o), "another size is refused"); check(f.getUniqueTag() == t2, "refused: nothing changes"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) check(land(eq(f.getLats()[i][j], ga[i][j]), eq(f.getLons()[i][j], gl[i][j])), "refused: coordinates as before"); FileFake g = cfile(2, 2, 1, 1); check(sv::mk(g.getUniqueTag() != f.getUniqueTag()), "files have tags of their own");
}
SV_HARNESS(dimensions, "two files of 1..2 x 1..2 cells, 1..2 members, 1..2 times: the same dimensions exactly if all are") { int d[2][4]; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) d[i][j] = sv::integer(sv::idx("d", i, j).c_str(), 1, 2); FileFake a = cfile(d[0][0], d[0][1], d[0][2], d[0][3]), b = cfile(d[1][0], d[1][1], d[1][2], d[1][3]); bool s = true; for (int j = 0; j < 4; j++) s = s && d[0][j] == d[1][j]; check(a.hasSameDimensions(b) == s && b.hasSameDimensions(a) == s, "same if all are"); FieldPtr p = a.getEmptyField(2); check(p->getNumY() == d[0][0] && p->getNumX() == d[0][1] && p->getNumEns() == d[0][2], "empty fields have the size of the file"); vec2 e = a.getElevs(), l = a.getLandFractions(); check((int) e.size() == d[0][0] && (int) e[0].size() == d[0][1] && (int) l.size() == d[0][0] && (int) l[0].size() == d[0][1], "elevations and land fractions too"); }
static void shuf(int n) {
    vec b, a; for (int i = 0; i < n; i++) { b.push_back(cval(sv::idx("before", i).c_str(), -50, 50, i ? FIN : MISS)); a.push_back(cval(sv::idx("after", i).c_str(), -50, 50, i == 1 ? MISS : FIN)); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sv::assume(lor(lt(b[i], b[j]), lt(b[j], b[i]))); vec r = a; Calibrator::shuffle(b, r); check(r.size() == a.size(), "size"); bool miss = false; for (int i = 0; i < n; i++) miss = miss || !ok(b[i]) || !ok(a[i]); if (miss) { for (int i = 0; i < n; i++) check(sv::same(r[i], a[i]), "as it was where any value is missing"); return; }
    dvec s = csorted(dvec(a.begin(), a.end())); for (int i = 0; i < n; i++) { double rank = 0; for (int j = 0; j < n; j++) rank += sv::ite(lt(b[j], b[i]), 1.0, 0.0); double want = 0; for (int j = 0; j < n; j++) want = sv::ite(eq(rank, j), s[j], want); check(eq(r[i], want), "the ranks of the ensemble before"); }
}
SV_HARNESS(shuffle, "ensembles of 0..4 members, values in [-50,50] or missing: the values after have the ranks of the values before") { shuf(sv::integer("n", 0, 4)); }
SV_HARNESS(shuffle_sizes, "ensembles of different sizes are left alone") { int n = sv::integer("n", 0, 3), k = sv::integer("k", 0, 3); if (n == k) sv::stop_path(); vec b(n, 1), a; for (int i = 0; i < k; i++) a.push_back(sv::f32(sv::idx("a", i).c_str(), -50, 50)); vec r = a; Calibrator::shuffle(b, r); check(r.size() == a.size(), "size"); for (int i = 0; i < k; i++) check(eq(r[i], a[i]), "left alone"); }
SV_HARNESS(location, "two places of any coordinates: equality and order are consistent; the order that ignores elevation ignores it") { Location a(sv::f32("lat0", -90, 90), sv::f32("lon0", -180, 180), sv::f32("z0", -100, 5000)), b(sv::f32("lat1", -90, 90), sv::f32("lon1", -180, 180), sv::f32("z1", -100, 5000)); sv::B same = land(eq(a.lat(), b.lat()), land(eq(a.lon(), b.lon()), eq(a.elev(), b.elev()))); bool e = a == b, l = a < b, g = b < a; check(sv::mk(e == sv::decide(same)), "equal exactly if all coordinates are"); check(sv::mk((int) e + l + g == 1), "exactly one of less, equal, greater"); Location::CmpIgnoreElevation c; bool x = c(a, b), y = c(b, a); check(sv::mk(!(x && y)), "not both before each other"); check(sv::mk((!x && !y) == sv::decide(land(eq(a.lat(), b.lat()), eq(a.lon(), b.lon())))), "neither exactly if the same but for elevation"); }
SV_HARNESS(location_order, "three places of any coordinates: the order is transitive") { Location p[3]  = {Location(0, 0, 0), Location(0, 0, 0), Location(0, 0, 0)}; for (int i = 0; i < 3; i++) p[i] = Location(sv::f32(sv::idx("lat", i).c_str(), -90, 90), sv::f32(sv::idx("lon", i).c_str(), -180, 180), sv::f32(sv::idx("z", i).c_str(), -100, 5000)); if (p[0] < p[1] && p[1] < p[2]) check(sv::mk(p[0] < p[2]), "transitive"); }
SV_HARNESS(parameters, "0..4 parameters in [-50,50] or missing: valid exactly if none is missing; read as given; written singly") { int n = sv::integer("n", 0, 4); vec v; for (int i = 0; i < n; i++) v.push_back(cval(sv::idx("p", i).c_str(), -50, 50, MISS)); Parameters p(v); check(p.size() == n, "size"); sv::B all = sv::mk(true); bool a = true; for (int i = 0; i < n; i++) { check(sv::same(p[i], v[i]), "as given"); a = a && ok(v[i]); } check(p.isValid() == a, "valid exactly if none is missing"); if (n) { int k = sv::integer("k", 0, n - 1); p[k] = 3; vec w = p.getValues(); for (int i = 0; i < n; i++) check(sv::same(w[i], i == k ? 3 : v[i]), "written singly"); } }
