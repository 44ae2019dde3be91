#include "client.h"
#include "../engine/ncstub.h"
#include "ParameterFile/Netcdf.h"
enum { DT, DY, DX, DC };
static const int T = 2, Y = 2, X = 2, C = 3;
static size_t at(const nc::File& f, const nc::Var& v, int t, int y, int x, int c) { int i[4] = {t, y, x, c}; size_t k = 0; for (int d : v.dims) k = k * f.dims[d].len + i[d]; return k; }
static float lat(int y, int x) { return 50 + 2 * y + 0.25f * x; } static float lon(int y, int x) { return 10 + 3 * x + 0.5f * y; } static float alt(int y, int x) { return 100 * y + 10 * x + 5; }
static void matrix(nc::File& f, const char* n, bool swapped, float (*fn)(int, int)) { nc::def(f, n, NC_FLOAT, swapped ? std::vector<int>{DX, DY} : std::vector<int>{DY, DX}); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) f.vars.back().data[swapped ? x * Y + y : y * X + x] = fn(y, x); }
SV_HARNESS(read, "coefficients with the dimensions time, latitude, longitude and coefficient in every order (24) or without time (6 of them), sizes 2, 2, 2, 3; places as matrices in either order; names usual or given by options; symbolic, one stored as missing") {
    int perm = sv::integer("order", 0, 23), names = sv::integer("names", 0, 2); bool timed = sv::flag("timed"), sw = sv::flag("swapped"), hasalt = sv::flag("altitude"); std::vector<int> left = {DT, DY, DX, DC}, d; for (int n = 4, p = perm; n; n--) { int k = p % n; p /= n; d.push_back(left[k]); left.erase(left.begin() + k); } if (!timed) d.erase(std::find(d.begin(), d.end(), DT));
    static const char* N[3][4] = {{"time", "lat", "lon", "coeff"}, {"time", "latitude", "longitude", "coeff"}, {"time", "j", "i", "k"}}; nc::File& f = nc::files()["p"]; int S[4] = {T, Y, X, C}; for (int i = 0; i < 4; i++) nc::dim(f, N[names][i], S[i]); matrix(f, names ? "latitude" : "lat", sw, lat); matrix(f, names ? "longitude" : "lon", sw, lon); if (hasalt) matrix(f, "altitude", !sw, alt); if (timed) { nc::def(f, "time", NC_DOUBLE, {DT}); f.vars.back().data = {0, 6}; }
    nc::def(f, names == 2 ? "abc" : "coefficient", NC_FLOAT, d); nc::Var& v = f.vars.back(); for (size_t i = 0; i < v.data.size(); i++) v.data[i] = sv::f32(("c" + std::to_string(i)).c_str(), -100, 100); nc::att(v, "_FillValue", 555); v.data[4] = 555;
    ParameterFileNetcdf p(Options(names == 2 ? "file=p varName=abc dimName=k xDim=i yDim=j" : "file=p")); check(p.isTimeDependent() == timed && p.isLocationDependent() && p.getLocations().size() == 4, "kind of file"); check(p.getNumParameters() == C, "number of parameters");
    for (int t = 0; t < T; t++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { Location l(lat(y, x), lon(y, x), hasalt ? alt(y, x) : MV); bool nn = (t + y + x) % 2; Parameters q = p.getParameters(t, l, nn); check(q.size() == C, "parameters of every place and time"); if (q.size() != C) continue; for (int c = 0; c < C; c++) { double raw = v.data[at(f, v, t, y, x, c)]; if (raw == 555) check(!ok(q[c]), "missing coefficient"); else check(sv::same(q[c], raw), "the coefficient stored for this time and place"); } Location n = Location(MV, MV, MV); check(p.getNearestLocation(timed ? t : 0, Location(l.lat() + 0.01f, l.lon() - 0.01f), n) && n.lat() == l.lat() && n.lon() == l.lon() && (!hasalt || n.elev() == l.elev()), "place and altitude"); }
}
SV_HARNESS(read_vectors, "places as vectors; coefficients in 6 orders without time") {
    int perm = sv::integer("order", 0, 5); std::vector<int> left = {DY, DX, DC}, d; for (int n = 3, p = perm; n; n--) { int k = p % n; p /= n; d.push_back(left[k]); left.erase(left.begin() + k); } nc::File& f = nc::files()["p"]; int S[4] = {1, Y, 3, C}; static const char* N[] = {"time", "y", "x", "coeff"}; for (int i = 0; i < 4; i++) nc::dim(f, N[i], S[i]); nc::def(f, "lat", NC_FLOAT, {DY}); f.vars.back().data = {50, 52}; nc::def(f, "lon", NC_FLOAT, {DX}); f.vars.back().data = {10, 13, 17}; nc::def(f, "coefficient", NC_FLOAT, d); nc::Var& v = f.vars.back(); for (size_t i = 0; i < v.data.size(); i++) v.data[i] = sv::f32(("c" + std::to_string(i)).c_str(), -100, 100);
    ParameterFileNetcdf p(Options("file=p")); check(!p.isTimeDependent() && p.getLocations().size() == 6, "kind of file"); for (int y = 0; y < Y; y++) for (int x = 0; x < 3; x++) { Parameters q = p.getParameters(y, Location(f.vars[0].data[y], f.vars[1].data[x]), x == 1); check(q.size() == C, "parameters of every place"); if (q.size() == C) for (int c = 0; c < C; c++) check(sv::same(q[c], v.data[at(f, v, 0, y, x, c)]), "the coefficient stored for this place"); }
}
SV_HARNESS(write, "1..3 places, 1..3 times, 1..2 coefficients, up to one place and time (or a whole place) without parameters; names usual or given by options; symbolic: read back as written") {
    int n = sv::integer("places", 1, 3), m = sv::integer("times", 1, 3), k = sv::integer("coefficients", 1, 2), hole = sv::integer("hole", -1, n * m - 1), all = hole >= 0 && n > 1 && hole % m == 0 ? sv::flag("whole") : 0; bool opt = sv::flag("options"); const char* o = opt ? "file=q varName=abc dimName=k xDim=i yDim=j" : "file=q"; float in[3][3][2]; auto gone = [&](int i, int t) { return i * m + t == hole || (all && i == hole / m); };
    if (hole >= 0 && n * m == 1) return; auto loc = [&](int i) { return Location(50 + i, 10 - 2 * i, 100 * i); };
    { ParameterFileNetcdf p(Options(o), true); for (int i = 0; i < n; i++) for (int t = 0; t < m; t++) { std::vector<float> c(k); for (int j = 0; j < k; j++) c[j] = in[i][t][j] = sv::f32(cname("c", i, t, j, 0).c_str(), -100, 100); if (gone(i, t)) p.setParameters(Parameters(), t, loc(i)); else p.setParameters(Parameters(c), t, loc(i)); } p.recomputeTree(); p.write(); }
    ParameterFileNetcdf p(Options(o), false); check((int) p.getLocations().size() == n, "places"); check(p.isTimeDependent() == (m > 1), "times");
    for (int i = 0; i < n; i++) for (int t = 0; t < m; t++) { Parameters q = p.getParameters(t, loc(i), false); if (gone(i, t)) { check(q.size() == 0 || !q.isValid(), "no parameters"); continue; } check(q.size() == k, "parameters of every place and time"); if (q.size() == k) for (int j = 0; j < k; j++) check(sv::same(q[j], in[i][t][j]), "read back as written"); }
    for (int i = 0; i < n; i++) { Location l = Location(MV, MV, MV); int t = 0; while (t < m && gone(i, t)) t++; if (t < m) check(p.getNearestLocation(t, loc(i), l) && l.lat() == 50 + i && l.lon() == 10 - 2 * i && l.elev() == 100 * i, "place and altitude"); }
}
SV_HARNESS(altitudes, "altitudes (and coefficients) that vary in time, in 6 orders of the dimensions: those of the first time are used") {
    int perm = sv::integer("order", 0, 5); std::vector<int> left = {DT, DY, DX}, d; for (int n = 3, p = perm; n; n--) { int k = p % n; p /= n; d.push_back(left[k]); left.erase(left.begin() + k); } nc::File& f = nc::files()["p"]; int S[4] = {T, Y, 3, C}; static const char* N[] = {"time", "lat", "lon", "coeff"}; for (int i = 0; i < 4; i++) nc::dim(f, N[i], S[i]); nc::def(f, "lat", NC_FLOAT, {DY}); f.vars.back().data = {50, 52}; nc::def(f, "lon", NC_FLOAT, {DX}); f.vars.back().data = {10, 13, 17}; nc::def(f, "coefficient", NC_FLOAT, {DY, DX, DC}); nc::def(f, "altitude", NC_FLOAT, d); nc::Var& v = f.vars.back(); for (size_t i = 0; i < v.data.size(); i++) v.data[i] = 10 + 3 * i;
    ParameterFileNetcdf p(Options("file=p")); for (int y = 0; y < Y; y++) for (int x = 0; x < 3; x++) { Location l = Location(MV, MV, MV); p.getNearestLocation(0, Location(f.vars[0].data[y] + 0.1f, f.vars[1].data[x]), l); check(l.elev() == v.data[at(f, v, 0, y, x, 0)], "altitude of the place"); }
}
