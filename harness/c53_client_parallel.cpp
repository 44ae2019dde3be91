// C53: the client's parallel loops: the result does not depend on the number of threads or the order they run in, and no iteration touches memory another one writes
#include "client.h"
struct Par : ParameterFile { Par(const char* o = "") : ParameterFile(Options(o), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
static void flat(dvec& o, const File& f, const Variable& v) { cvec4 r = cget(f, v); for (auto& a : r) for (auto& b : a) for (auto& c : b) for (float d : c) o.push_back(d); }
template<class F> static void par(F f) {
    sv::omp(1, false); dvec a = f(); sv::omp(3, true); dvec b = f(); sv::omp_log(true); dvec c = f(); sv::omp_log(false); sv::omp(1, false);
    check(sv::omp_conflict().empty(), "no two iterations touch the same memory, one of them writing"); check(sv::mk(a.size() == b.size() && a.size() == c.size()), "same size for every schedule"); if (a.size() != b.size() || a.size() != c.size()) return;
    sv::B e = sv::mk(true); for (size_t i = 0; i < a.size(); i++) e = land(e, land(sv::same(a[i], b[i]), sv::same(a[i], c[i]))); check(e, "same result for every schedule");
}
static void place(FileFake& f, double dy = 0) { vec2 la = f.getLats(), lo = la, el = la, lf = la; int n = 0; for (size_t i = 0; i < la.size(); i++) for (size_t j = 0; j < la[i].size(); j++, n++) { la[i][j] = 50 + 0.5 * i + dy; lo[i][j] = 0.5 * j + dy; el[i][j] = (n * 37 % 5) * 60; lf[i][j] = (n * 3 % 7) / 7.0; } f.setLats(la); f.setLons(lo); f.setElevs(el); f.setLandFractions(lf); }
static void base(Par& P, const vec& v, bool where) { for (int t = 0; t < 2; t++) { if (where) for (int i = 0; i < 3; i++) { vec w = v; w[0] += 0.1f * i + 0.05f * t; P.setParameters(Parameters(w), t, Location(50 + 0.6 * i, 0.3 + 0.1 * i, 20 * i)); } else P.setParameters(Parameters(v), t); } P.recomputeTree(); }
// a calibrator on 3x2 cells, 2 members, 2 times; one value of the variable is symbolic or missing, the others given
static void cal(const char* name, const char* opt, double lo, double hi, std::vector<std::pair<const char*, std::pair<double, double> > > others = {}, vec params = {}, bool where = false, bool spot = true, const char* in = "v") {
    FileFake g = cfile(3, 2, 2, 2); Variable v("v"), iv(in); static const int P[] = {0, 7, 16}; cvec4 a = cspot(g, "v", lo, hi, MISS, spot ? P[sv::integer("position", 0, 2)] : -1);
    par([&] { FileFake f = cfile(3, 2, 2, 2); place(f); cput(f, iv, a); for (auto& o : others) cput(f, Variable(o.first), cspot(f, o.first, o.second.first, o.second.second, FIN, -1)); Par p; if (params.size()) base(p, params, where); run(name, v, opt, f, params.size() ? &p : NULL); dvec r; flat(r, f, v); if (iv.name() != v.name()) flat(r, f, iv); for (auto& o : others) flat(r, f, Variable(o.first)); vec2 e = f.getElevs(); for (auto& q : e) for (float d : q) r.push_back(d); return r; });
}
SV_HARNESS(time, "3x2 cells, 2 members, 2 times, one value (3 positions) symbolic or missing: accumulate, deaccumulate, window") { int k = sv::integer("calibrator", 0, 3); if (k == 0) cal("accumulate", "", -50, 50); else if (k == 1) cal("deaccumulate", "window=1", -50, 50); else cal("window", k == 2 ? "length=3 stat=mean" : "length=3 stat=max keepMissing=1", -50, 50); }
SV_HARNESS(pointwise, "as time: cloud, qc, threshold, sort, phase, wind components, speed and direction, humidity, dew point, wet bulb, QNH") {
    int k = sv::integer("calibrator", 0, 9); switch (k) { case 0: cal("cloud", "precipVariable=p", 0, 1, {{"p", {0, 3}}}); break; case 1: cal("qc", "min=-5 max=5", -10, 10); break; case 2: cal("threshold", "thresholds=0,5 values=1,2,3", -10, 10); break; case 3: cal("sort", "", -10, 10); break;
        case 4: cal("phase", "temperature=t precipitation=p", 0, 1, {{"t", {270, 276}}, {"p", {0, 3}}}, {273, 275}); break; case 5: cal("diagnoseWind", "x=x y=y compute=speed", -10, 10, {{"y", {-9, 11}}}, {}, false, true, "x"); break; case 6: cal("diagnoseWind", "speed=s direction=d compute=x", 0, 10, {{"d", {10, 350}}}, {}, false, true, "s"); break;
        case 7: cal("diagnoseHumidity", "temperature=t dewpoint=d compute=rh", 270, 290, {{"d", {265, 269}}}, {}, false, true, "t"); break; case 8: cal("diagnoseWind", "x=x y=y compute=direction", 1, 10, {{"y", {-9, 11}}}, {}, false, true, "x"); break; default: cal("qnh", "pressureVariable=p", 90000, 101000, {}, {}, false, true, "p"); } }
SV_HARNESS(neighbourhood, "as time: neighbourhood mean, maximum (fast or not), quantile (also approximate), radius 1") { int k = sv::integer("kind", 0, 5); static const char* O[] = {"radius=1 stat=mean fast=1", "radius=1 stat=mean fast=0", "radius=1 stat=max fast=1", "radius=1 stat=max fast=0", "radius=1 stat=quantile quantile=0.4", "radius=1 stat=quantile quantile=0.4 approx=1"}; cal("neighbourhood", O[k], -50, 50, {}, {}, false, k < 4); }
SV_HARNESS(parameters, "as time: quantile mapping, regression, wind direction, mask, altitude, coastal, kriging (also cross-validated), override, with parameters by place and time") {
    int k = sv::integer("calibrator", 0, 8); switch (k) { case 0: cal("qq", "", -50, 50, {}, {0, -1, 10, 12}, true); break; case 1: cal("regression", "", -50, 50, {}, {1, 0.5}, true); break; case 2: cal("windDirection", "directionVariable=d", 0, 10, {{"d", {10, 350}}}, {0.1f, 0.2f, 0.3f, 0.4f, 0.5f, 0.6f, 0.7f, 0.8f, 0.9f}, true); break; case 3: cal("mask", "keep=1", -50, 50, {}, {40000}, true); break;
        case 4: cal("altitude", "", -50, 50, {}, {1}, true); break; case 5: cal("coastal", "searchRadius=1", -50, 50, {}, {1, 0.5, 0.25}, true); break; case 6: cal("kriging", "radius=150000 efoldDist=100000", -50, 50, {}, {2}, true); break; case 7: cal("kriging", "radius=150000 efoldDist=100000 crossValidate=1", -50, 50, {}, {2}, true); break; default: cal("override", "radius=1", -50, 50, {}, {2}, true); } }
SV_HARNESS(kriging_auxiliary, "as time: kriging weighted by another variable") { cal("kriging", "radius=150000 efoldDist=100000 auxVariable=u range=0,1", -50, 50, {{"u", {-1, 2}}}, {2}, true); }
SV_HARNESS(downscale, "3x2 cells to 2x3 cells, one value (3 positions) symbolic or missing: all downscaling schemes, and the search for the nearest cells") {
    static const char* N[] = {"nearestNeighbour", "bilinear", "smart", "gradient", "gradient", "pressure", "upscale"}; static const char* O[] = {"", "", "searchRadius=2 num=2", "minElevDiff=30 searchRadius=2", "minLafDiff=0.1 searchRadius=2 lafSearchRadii=1,2 lafWeights=0.5,0.5", "", "stat=mean"}; int k = sv::integer("scheme", 0, 6); FileFake g = cfile(3, 2, 2, 2); static const int P[] = {0, 7, 16}; cvec4 a = cspot(g, "v", 1, 50, MISS, P[sv::integer("position", 0, 2)]); Variable v("v"), w("w");
    par([&] { FileFake f = cfile(3, 2, 2, 2), o = cfile(2, 3, 2, 2); place(f); place(o, 0.13); cput(f, v, a); cput(o, w, cfill(o, MV)); Downscaler* d = Downscaler::getScheme(N[k], v, w, Options(O[k])); d->downscale(f, o); delete d; dvec r; flat(r, o, w); vec2Int I, J; Downscaler::getNearestNeighbour(f, o, I, J); for (auto& q : I) for (int i : q) r.push_back(i); for (auto& q : J) for (int i : q) r.push_back(i); return r; });
}
SV_HARNESS(oi, "5x4 cells, 3 members, 3 observations (one of any value): optimal interpolation in single-member and ensemble mode, with or without cross-validation") {
    int ens = sv::integer("ensemble", 0, 1), cv = sv::integer("crossValidate", 0, 1); float o = sv::f32("o", -10, 10); Variable v("v");
    par([&] { FileFake f = cfile(5, 4, 3, 1); place(f); cput(f, v, cspot(f, "v", -5, 5, FIN, -1)); Par p; static const float LA[] = {50.52, 50.98, 51.47}, LO[] = {0.49, 1.03, 0.52}; for (int i = 0; i < 3; i++) p.setParameters(Parameters(vec{i == 1 ? o : 2.0f * i, 1}), 0, Location(LA[i], LO[i], 100 + 20 * i)); p.recomputeTree(); char b[99]; snprintf(b, sizeof b, "d=40000 maxElevDiff=-999 extrapolate=1 minEns=3 useEns=%d crossValidate=%d", ens, cv); run("oi", v, b, f, &p); dvec r; flat(r, f, v); return r; });
}
SV_HARNESS(distributions, "as time: zaga (also probabilities, and a neighbourhood), gaussian (also a neighbourhood), bct, with parameters by place and time") {
    int k = sv::integer("calibrator", 0, 5); vec z = {0.25f, 0, -0.25f, 0, -1, 0, 2, 0}; switch (k) { case 0: cal("zaga", "fracThreshold=1", 0.5, 4, {}, z, true); break; case 1: cal("zaga", "fracThreshold=1 neighbourhoodSize=1", 0.5, 4, {}, z, true); break; case 2: cal("zaga", "fracThreshold=1 popVariable=p", 0.5, 4, {{"p", {0, 1}}}, z, true); break;
        case 3: cal("gaussian", "", 0.5, 4, {}, {0.25f, 0}, true); break; case 4: cal("gaussian", "neighbourhoodSize=1", 0.5, 4, {}, {0.25f, 0}, true); break; default: cal("bct", "", 0.5, 4, {}, {0.5f, 0.75f, -1.5f, 0, 1, 0, 1}, true); }
}
