#include "client.h"
#include "../engine/ncstub.h"
#include "File/Netcdf.h"
// a file with dimensions time, ensemble_member, y, x (and height) of the given sizes; latitudes and longitudes on a plain lattice
enum { DT, DE, DY, DX, DH };
static nc::File& mk(int T, int E, int Y, int X, int H = 0, bool unlimited = false) {
    nc::File& f = nc::files()["f"]; f = nc::File(); nc::dim(f, "time", unlimited ? 0 : T); f.dims[0].len = T; nc::dim(f, "ensemble_member", E); nc::dim(f, "y", Y); nc::dim(f, "x", X); if (H) nc::dim(f, "height", H);
    int la = nc::def(f, "latitude", NC_FLOAT, {DY, DX}), lo = nc::def(f, "longitude", NC_FLOAT, {DY, DX}); for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) { f.vars[la].data[i * X + j] = 50 + i; f.vars[lo].data[i * X + j] = 10 + j; }
    int ti = nc::def(f, "time", NC_DOUBLE, {DT}); for (int t = 0; t < T; t++) f.vars[ti].data[t] = 3600 * t; return f;
}
// position in the stored data of (t, e, y, x, h)
static size_t at(const nc::File& f, const nc::Var& v, int t, int e, int y, int x, int h) { int i[5] = {t, e, y, x, h}; size_t k = 0; for (int d : v.dims) k = k * f.dims[d].len + i[d]; return k; }
static std::vector<int> layout(int perm, int drop, int extra) { std::vector<int> d = {DT, DE, DY, DX}, r; std::vector<int> left = d; for (int n = 4; n; n--) { int k = perm % n; perm /= n; r.push_back(left[k]); left.erase(left.begin() + k); } if (drop >= 0) r.erase(std::find(r.begin(), r.end(), drop)); if (extra >= 0) r.insert(r.begin() + std::min<size_t>(extra, r.size()), DH); return r; }
static void fillsym(nc::Var& v, const char* n, double lo, double hi) { for (size_t i = 0; i < v.data.size(); i++) v.data[i] = sv::f32((std::string(n) + "." + std::to_string(i)).c_str(), lo, hi); }
struct Pack { double scale, offset, fill; bool hs, ho, hf; };
static Pack pack(int k) { static const Pack P[] = {{1, 0, NC_FILL_FLOAT, false, false, false}, {0.5, 2, 1250, true, true, true}, {4, 0, -999, true, false, true}, {1, 32, -999, false, true, true}, {2, -4, 0, true, true, true}, {0.25, 8, 0, true, true, true}}; Pack p = P[k]; if (k == 4) p.fill = NaN; return p; }
static void put(nc::Var& v, const Pack& p) { if (p.hs) nc::att(v, "scale_factor", p.scale); if (p.ho) nc::att(v, "add_offset", p.offset); if (p.hf) nc::att(v, "_FillValue", p.fill); }
static bool isfill(double raw, const Pack& p) { if (!sv::isnum(raw)) return !sv::isnum(p.fill); return sv::isnum(p.fill) && sv::decide(eq(raw, p.fill)); }
static void same_field(double got, double raw, const Pack& p, const char* l) { if (isfill(raw, p)) check(!ok(got), "stored missing values are missing"); else { check(ok(got), l); check(close(got, raw * p.scale + p.offset, 1e-2), l); } }
static void body_read(int perm, int drop, int extra, int level, int T, int E, int Y, int X, const Pack& p, int hole) {
    nc::File& f = mk(T, E, Y, X, 3); nc::def(f, "v", NC_FLOAT, layout(perm, drop, extra)); nc::Var& v = f.vars.back(); put(v, p); fillsym(v, "v", -100, 100); if (hole >= 0) v.data[hole % v.data.size()] = p.fill;
    FileNetcdf file("f", Options(), true); check(file.getNumTime() == T && file.getNumEns() == E && file.getNumY() == Y && file.getNumX() == X, "sizes"); Variable var("v", "", "", level < 0 ? (int) Util::MV : level);
    for (int t = T - 1; t >= 0; t--) { FieldPtr g = file.getField(var, t); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) for (int e = 0; e < E; e++) { double got = (*g)(y, x, e); if (drop == DE && e > 0) check(!ok(got), "members that are not stored are missing"); else same_field(got, v.data[at(f, v, t, e, y, x, std::max(0, level))], p, "the value stored at this time, member and place, scaled"); } }
}
SV_HARNESS(layouts, "variables with the dimensions time, member, y and x in every order (24), of sizes 2, 2, 2, 3, or without time or member; symbolic values, one stored as missing") { int perm = sv::integer("order", 0, 23), drop = sv::integer("without", -1, 1); body_read(perm, drop, -1, -1, 2, 2, 2, 3, pack(1), 5); }
SV_HARNESS(levels, "variables with a further dimension of size 3 at each of 5 positions, 4 orders; a level 0..2 is asked for, or none") { static const int P[] = {0, 7, 17, 23}; body_read(P[sv::integer("order", 0, 3)], -1, sv::integer("position", 0, 4), sv::integer("level", -1, 2), 2, 1, 2, 2, pack(0), -1); }
SV_HARNESS(packing_read, "6 combinations of scale factor, offset and fill value; any stored value") { Pack p = pack(sv::integer("pack", 0, 5)); nc::File& f = mk(1, 1, 1, 2); nc::def(f, "v", NC_FLOAT, {DT, DE, DY, DX}); nc::Var& v = f.vars.back(); put(v, p); double a = sv::f32("a", -1500, 1500, sv::OPT); v.data[0] = 3; v.data[1] = a; if (sv::isnum(a)) { sv::assume(lnot(eq(a * p.scale + p.offset, -999))); if (p.fill != -999) sv::assume(lnot(eq(a, -999))); } else sv::assume(sv::mk(true)); FileNetcdf file("f", Options(), true); FieldPtr g = file.getField(Variable("v"), 0); same_field((*g)(0, 0, 0), 3, p, "scaled value"); if (!sv::isnum(a)) check(!ok((*g)(0, 1, 0)), "not a number is missing"); else same_field((*g)(0, 1, 0), a, p, "scaled value"); }
static void body_write(int perm, int drop, int extra, int level, int T, int E, int Y, int X, const Pack& p, bool exists, int only, bool unlimited) {
    nc::File& f = mk(T, E, Y, X, extra >= 0 ? 3 : 0, unlimited); if (exists) { nc::def(f, "v", NC_FLOAT, layout(perm, drop, extra)); nc::Var& v = f.vars.back(); put(v, p); for (size_t i = 0; i < v.data.size(); i++) v.data[i] = 7 + i; } nc::def(f, "w", NC_FLOAT, {DT, DE, DY, DX}); { nc::Var& w = f.vars.back(); for (size_t i = 0; i < w.data.size(); i++) w.data[i] = 20 + i; }
    Variable var("v", "m", "height", level < 0 ? (int) Util::MV : level); std::vector<double> old; if (exists) old = nc::find(f, "v")->data; cvec4 in;
    { FileNetcdf file("f", Options(), false); in = csym(file, "v", -100, 100, FIN); if (p.hf && sv::isnum(p.fill)) for (auto& a : in) for (auto& b : a) for (auto& c : b) for (float d : c) sv::assume(lnot(eq((double) d, p.fill * p.scale + p.offset))); for (int t = 0; t < T; t++) { if (only >= 0 && t != only) continue; FieldPtr g = file.getEmptyField(); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) for (int e = 0; e < E; e++) (*g)(y, x, e) = in[t][y][x][e]; if (X > 1) (*g)(0, 1, 0) = in[t][0][1][0] = t % 2 ? MV : NaN; file.addField(g, var, t); } file.write({var}, "written"); }
    nc::Var* v = nc::find(f, "v"); check(v != 0, "the variable is in the file"); if (!v) return; if (!exists) check(v->dims == std::vector<int>({DT, DE, DY, DX}) && v->type == NC_FLOAT, "new variables have the dimensions time, member, y, x"); check(v->atts["units"].s == "m" && v->atts["standard_name"].s == "height" && v->atts["coordinates"].s == "longitude latitude", "metadata");
    for (int t = 0; t < T; t++) for (int e = 0; e < E; e++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) for (int h = 0; h < (extra >= 0 ? 3 : 1); h++) {
        if (drop == DE && e) continue; size_t k = at(f, *v, t, e, y, x, h); double raw = v->data[k]; if (extra >= 0 && h != std::max(0, level)) { check(sv::same(raw, old[k]), "other levels are left alone"); continue; }
        if (only >= 0 && t != only) { if (exists) check(close(raw, old[k], 1e-3), "times that were not changed keep their values"); else check(!ok(raw) || raw > 1e36, "times that were not given are missing"); continue; }
        double x_ = in[t][y][x][e]; if (!ok(x_)) { check(isfill(raw, p) || (!p.hf && !sv::isnum(raw)), "missing values are stored as the fill value"); } else { check(sv::isnum(raw), "a number is stored"); if (sv::isnum(raw)) check(close(raw * p.scale + p.offset, x_, 1e-2), "the value of this time, member and place, unscaled"); } }
    nc::Var* w = nc::find(f, "w"); bool same = true; for (size_t i = 0; i < w->data.size(); i++) same = same && w->data[i] == 20 + i; check(same, "other variables are left alone"); check(nc::find(f, "latitude")->data[0] == 50 && nc::find(f, "longitude")->data[0] == 10, "places are left alone");
    FileNetcdf again("f", Options(), true); for (int t = 0; t < T; t++) { if (only >= 0 && t != only) continue; FieldPtr g = again.getField(var, t); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) for (int e = 0; e < E; e++) { if (drop == DE && e) continue; double got = (*g)(y, x, e), want = in[t][y][x][e]; if (!ok(want)) check(!ok(got), "read back as missing"); else { check(ok(got), "read back"); check(close(got, want, 1e-2), "read back as written"); } } }
    for (int t = 0; t < T; t++) check(sv::same(again.getTimes()[t], 3600 * t), "times");
}
SV_HARNESS(write_layouts, "existing variable with the dimensions in every order (24), or without member; sizes 2, 2, 2, 3; symbolic values, some missing; another variable beside it") { int perm = sv::integer("order", 0, 23), drop = sv::flag("without_member") ? DE : -1; body_write(perm, drop, -1, -1, 2, 2, 2, 3, pack(1), true, -1, false); }
SV_HARNESS(write_new, "new variable, file with fixed or unlimited time; sizes 2, 2, 2, 3; all times or one of them given") { bool u = sv::flag("unlimited"); int only = sv::integer("only", -1, 1); body_write(0, -1, -1, -1, 2, 2, 2, 3, pack(0), false, only, u); }
SV_HARNESS(write_part, "existing variable, only one of 3 times changed, 4 orders, 6 packings") { static const int P[] = {0, 7, 17, 23}; int k = sv::integer("pack", 0, 5); body_write(P[sv::integer("order", 0, 3)], -1, -1, -1, 3, 1, 1, 2, pack(k), true, sv::integer("only", 0, 2), false); }
SV_HARNESS(write_levels, "existing variable with a further dimension of size 3 at each of 5 positions; level 0..2 is asked for, or none") { body_write(7, -1, sv::integer("position", 0, 4), sv::integer("level", -1, 2), 2, 1, 1, 2, pack(0), true, -1, false); }
SV_HARNESS(packing_write, "6 combinations of scale factor, offset and fill value; any value or missing") { int k = sv::integer("pack", 0, 5); body_write(0, -1, -1, -1, 2, 1, 1, 2, pack(k), true, -1, sv::flag("unlimited")); }
SV_HARNESS(places, "latitudes and longitudes as vectors or matrices in either order, altitude or geopotential in either order (with a leading time or not) or along one dimension, land fraction or not; symbolic, one altitude missing; 2x3") {
    int kind = sv::integer("kind", 0, 2), el = sv::integer("elevation", 0, 6); bool hl = sv::flag("fraction"); nc::File& f = mk(1, 1, 2, 3); f.vars.clear(); auto m = [&](const char* n, std::vector<int> d, double lo, double hi) { nc::def(f, n, NC_FLOAT, d); nc::Var& v = f.vars.back(); fillsym(v, n, lo, hi); }; std::vector<int> yx = {DY, DX}, xy = {DX, DY};
    m(kind == 1 ? "lat" : "latitude", kind == 0 ? std::vector<int>{DY} : kind == 1 ? xy : yx, -89, 89); m(kind == 1 ? "lon" : "longitude", kind == 0 ? std::vector<int>{DX} : kind == 1 ? xy : yx, 1, 179); nc::def(f, "time", NC_DOUBLE, {DT}); f.vars.back().data[0] = 5;
    if (el) { m(el == 3 ? "surface_geopotential" : "altitude", el == 2 ? xy : el == 4 ? std::vector<int>{DT, DY, DX} : el == 5 ? std::vector<int>{DX} : el == 6 ? std::vector<int>{DY} : yx, 1, 5000); nc::att(f.vars.back(), "_FillValue", 7777); f.vars.back().data[el == 6 ? 1 : 2] = 7777; } if (hl) m("land_area_fraction", xy, 0, 1);
    FileNetcdf g("f", Options(), true); vec2 la = g.getLats(), lo = g.getLons(), e = g.getElevs(), l = g.getLandFractions(); auto val = [&](const char* n, int y, int x) { nc::Var* v = nc::find(f, n); return v->data[at(f, *v, 0, 0, y, x, 0)]; };
    check(g.getNumY() == 2 && g.getNumX() == 3 && la.size() == 2 && la[0].size() == 3 && lo.size() == 2 && lo[1].size() == 3, "sizes"); const char *nla = kind == 1 ? "lat" : "latitude", *nlo = kind == 1 ? "lon" : "longitude";
    for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { check(sv::same(la[y][x], val(nla, y, x)), "latitude"); check(close(lo[y][x], val(nlo, y, x), 1e-3), "longitude"); if (!el) check(!ok(e[y][x]), "no altitude"); else { double raw = val(el == 3 ? "surface_geopotential" : "altitude", y, x); if (raw == 7777) check(!ok(e[y][x]), "missing altitude"); else check(close(e[y][x], el == 3 ? raw / 9.81 : raw, 1e-2), "altitude"); } if (hl) check(sv::same(l[y][x], val("land_area_fraction", y, x)), "land fraction"); else check(!ok(l[y][x]), "no land fraction"); }
}
SV_HARNESS(times, "1..2 times or a scalar time or none, with a reference time or not; symbolic") {
    int kind = sv::integer("kind", 0, 3); bool ref = kind == 3 || sv::flag("reference"); nc::File& f = mk(2, 1, 1, 2); if (kind == 0) f.dims[0].len = 1; f.vars.pop_back(); if (kind == 2 || kind == 3) f.dims[0].name = "other"; if (kind < 3) { nc::def(f, "time", NC_DOUBLE, kind == 2 ? std::vector<int>() : std::vector<int>{DT}); for (size_t i = 0; i < f.vars.back().data.size(); i++) f.vars.back().data[i] = sv::f32(("t" + std::to_string(i)).c_str(), 0, 1e6); } if (ref) { nc::def(f, "forecast_reference_time", NC_DOUBLE, {}); f.vars.back().data[0] = sv::f32("reference_time", 0, 1e6); }
    nc::Var* tv = nc::find(f, "time"); nc::Var* rv = nc::find(f, "forecast_reference_time"); FileNetcdf g("f", Options(), true); int n = kind == 1 ? 2 : 1; std::vector<double> t = g.getTimes(); check((int) t.size() == n && g.getNumTime() == n, "number of times"); if ((int) t.size() != n) return; for (int i = 0; i < n; i++) check(sv::same(t[i], tv ? tv->data[i] : rv->data[0]), "time"); check(sv::same(g.getReferenceTime(), rv ? rv->data[0] : tv->data[0]), "reference time: the first time when there is none");
}
SV_HARNESS(write_places_and_times, "altitudes, times and reference time set by the client and written: places as vectors or matrices in either order, altitude variable there or not; one altitude missing; symbolic; 2x3") {
    int kind = sv::integer("kind", 0, 2), there = sv::integer("altitude", 0, 2); nc::File& f = mk(2, 1, 2, 3); std::vector<int> yx = {DY, DX}, xy = {DX, DY}; f.vars.clear(); nc::def(f, "latitude", NC_FLOAT, kind == 0 ? std::vector<int>{DY} : kind == 1 ? xy : yx); f.vars.back().data.assign(f.vars.back().data.size(), 50); nc::def(f, "longitude", NC_FLOAT, kind == 0 ? std::vector<int>{DX} : kind == 1 ? xy : yx); f.vars.back().data.assign(f.vars.back().data.size(), 10); nc::def(f, "time", NC_DOUBLE, {DT}); f.vars.back().data = {1, 2}; if (there) { nc::def(f, "altitude", NC_FLOAT, there == 1 ? yx : xy); nc::att(f.vars.back(), "_FillValue", 7777); }
    vec2 e(2, vec(3)); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) e[i][j] = sv::f32(cname("e", 0, i, j, 0).c_str(), 0, 3000); e[1][0] = MV; double t0 = sv::f32("t0", 0, 1e6), t1 = sv::f32("t1", 0, 1e6), r = sv::f32("r", 0, 1e6);
    { FileNetcdf g("f", Options(), false); g.setElevs(e); g.setTimes({t0, t1}); g.setReferenceTime(r); g.write(std::vector<Variable>(), ""); } nc::Var* a = nc::find(f, "altitude"); check(a != 0, "altitudes are in the file"); if (!a) return; double fill = there ? 7777 : NC_FILL_FLOAT;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { double raw = a->data[at(f, *a, 0, 0, i, j, 0)]; check(ok(e[i][j]) ? sv::same(raw, e[i][j]) : eq(raw, fill), "altitude of this place"); } nc::Var *t = nc::find(f, "time"), *rt = nc::find(f, "forecast_reference_time"); check(rt != 0, "reference time is in the file"); if (!rt) return; check(land(sv::same(t->data[0], t0), sv::same(t->data[1], t1)), "times"); check(sv::same(rt->data[0], r), "reference time");
    FileNetcdf g("f", Options(), true); vec2 b = g.getElevs(); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) check(ok(e[i][j]) ? sv::same(b[i][j], e[i][j]) : sv::mk(!ok(b[i][j])), "altitude read back");
}
SV_HARNESS(recognised, "files with latitude/lat, longitude/lon or neither; given by an option or not") { int a = sv::integer("latitude", 0, 2), b = sv::integer("longitude", 0, 2), o = sv::integer("option", 0, 3); nc::File& f = mk(1, 1, 1, 1); f.vars.clear(); if (a) nc::def(f, a == 1 ? "latitude" : "lat", NC_FLOAT, {DY, DX}); if (b) nc::def(f, b == 1 ? "longitude" : "lon", NC_FLOAT, {DY, DX}); Options opt(o == 3 ? "latVar=a lonVar=b" : o == 2 ? "lonVar=b" : o == 1 ? "latVar=a" : ""); check(FileNetcdf::isValid("f", opt) == ((a || o & 1) && (b || o & 2)), "recognised"); check(!FileNetcdf::isValid("g", opt), "not there"); }
SV_HARNESS(made_dimensions, "file without time and member dimensions (2x2 or 1x3 places): they are made when the client has 2 times or 2 members; symbolic values") {
    bool two = sv::flag("two_members"), sq = sv::flag("square"); int Y = sq ? 2 : 1, X = sq ? 2 : 3, E = two ? 2 : 1; nc::File& f = nc::files()["f"]; f = nc::File(); nc::dim(f, "y", Y); nc::dim(f, "x", X); for (const char* n : {"latitude", "longitude"}) { int v = nc::def(f, n, NC_FLOAT, {0, 1}); for (size_t i = 0; i < f.vars[v].data.size(); i++) f.vars[v].data[i] = 10 + i; } nc::def(f, "forecast_reference_time", NC_DOUBLE, {}); f.vars.back().data[0] = 1000; cvec4 in; double t0 = sv::f32("t0", 0, 1e5), t1 = sv::f32("t1", 0, 1e5); Variable var("v");
    { FileNetcdf g("f", Options(sv::flag("named") && two ? "ensDim=member" : ""), false); check(g.getTimes() == std::vector<double>(1, 1000) && g.getNumEns() == 1, "the reference time is the time"); g.setTimes({t0, t1}); g.setNumEns(E); in = csym(g, "v", -100, 100, FIN); cput(g, var, in); g.write({var}, ""); }
    nc::Var* v = nc::find(f, "v"); check(v && f.vars.size() == 5, "variables"); if (!v) return; auto dn = [&](int d) { return f.dims[v->dims[d]].name; }; check((int) v->dims.size() == 3 + two && dn(0) == "time" && dn(1 + two) == "y" && dn(2 + two) == "x", "dimensions"); FileNetcdf g("f", Options(two ? ("ensDim=" + dn(1)) : ""), true); check(g.getNumTime() == 2 && g.getNumEns() == E, "sizes"); cvec4 out = cget(g, var); for (int t = 0; t < 2; t++) { check(sv::same(g.getTimes()[t], t ? t1 : t0), "times"); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) for (int e = 0; e < E; e++) check(sv::same(out[t][y][x][e], in[t][y][x][e]), "read back as written"); }
}
SV_HARNESS(named_dimensions, "dimensions and coordinates of any name, given by options or found by their usual names; symbolic values, 2x2x2x3") {
    int k = sv::integer("names", 0, 2); static const char* N[3][4] = {{"a", "b", "c", "d"}, {"time", "ensemble_member", "latitude", "longitude"}, {"time", "ensemble_member", "lat", "lon"}}; nc::File& f = mk(2, 2, 2, 3); for (int i = 0; i < 4; i++) f.dims[i].name = N[k][i]; if (k == 0) { nc::find(f, "latitude")->name = "p"; nc::find(f, "longitude")->name = "q"; nc::find(f, "time")->name = "r"; nc::def(f, "latitude", NC_FLOAT, {DY, DX}); } nc::def(f, "z", NC_FLOAT, {DY, DX}); fillsym(f.vars.back(), "z", 0, 3000); nc::def(f, "v", NC_FLOAT, {DT, DE, DY, DX}); fillsym(f.vars.back(), "v", -100, 100);
    FileNetcdf g("f", Options(k ? "elevVar=z" : "timeDim=a ensDim=b yDim=c xDim=d latVar=p lonVar=q timeVar=r elevVar=z"), true); check(g.getNumTime() == 2 && g.getNumEns() == 2 && g.getNumY() == 2 && g.getNumX() == 3, "sizes"); nc::Var *v = nc::find(f, "v"), *z = nc::find(f, "z"); cvec4 out = cget(g, Variable("v")); vec2 la = g.getLats(), lo = g.getLons(), el = g.getElevs(); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { check(la[y][x] == 50 + y && lo[y][x] == 10 + x, "place"); check(sv::same(el[y][x], z->data[y * 3 + x]), "altitude"); for (int t = 0; t < 2; t++) for (int e = 0; e < 2; e++) check(sv::same(out[t][y][x][e], v->data[at(f, *v, t, e, y, x, 0)]), "value"); }
}
