// C59: the client refuses what it cannot use: options, schemes, parameter files and input files
#include "client.h"
#include <csetjmp>
#include <csignal>
static sigjmp_buf jb; static void on(int) { siglongjmp(jb, 1); }
template<class F> static bool fails(F f) { void (*old)(int) = signal(SIGABRT, on); Util::setShowError(false); Util::setShowWarning(false); bool r = true; if (sigsetjmp(jb, 1) == 0) { f(); r = false; } signal(SIGABRT, old); return r; } // the client reports errors by ending the program
typedef std::string str;
static bool refused(const str& name, const str& opt) { bool down = name == "upscale" || name == "smart" || name == "nearestNeighbour" || name == "bypass" || name == "pressure" || name == "gradient" || name == "bilinear"; return fails([&] { Variable v("v"), w("w"); if (down) Downscaler::getScheme(name, v, w, Options(opt)); else Calibrator::getScheme(name, v, Options(opt)); }); }
struct Par : ParameterFile { bool fixed; Par(bool f = true) : ParameterFile(Options(), true), fixed(f) {} bool isFixedSize() const { return fixed; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
struct Opt { const char *scheme, *opt; };
SV_HARNESS(counts, "whole numbers from -3 to 3: radius of a neighbourhood, length of a window, neighbourhood sizes") {
    static const Opt O[] = {{"neighbourhood", "radius="}, {"window", "length="}, {"gaussian", "neighbourhoodSize="}, {"zaga", "neighbourhoodSize="}}; int k = sv::integer("option", 0, 3), v = sv::integer("value", -3, 3); std::stringstream ss; ss << O[k].opt << v; check(refused(O[k].scheme, ss.str()) == (k == 1 ? v < 1 : v < 0), "exactly the numbers out of range are refused");
}
SV_HARNESS(lengths, "any number in [-5,5]: distances, elevation difference and radius of kriging, largest mean of zaga") {
    static const Opt O[] = {{"kriging", "efoldDist="}, {"kriging", "radius="}, {"kriging", "maxElevDiff="}, {"zaga", "maxEnsMean="}}; int k = sv::integer("option", 0, 3); float v = sv::f32("value", -5, 5); sv::assume(lor(eq(v, 0), le(1e-3, sv::dabs(v)))); std::stringstream ss; ss << O[k].opt << v; bool bad = sv::decide(k == 3 ? le(v, 0) : lt(v, 0)); check(refused(O[k].scheme, ss.str()) == bad, "exactly the values out of range are refused");
}
SV_HARNESS(levels, "level of a quantile: any number in [-2,3], missing, or not given; neighbourhood, window, upscaling") {
    static const char* S[] = {"neighbourhood", "window", "upscale"}; str s = S[sv::integer("scheme", 0, 2)]; int k = sv::integer("kind", 0, 2); std::stringstream ss; ss << "stat=quantile"; bool bad = k > 0; if (k == 0) { float q = sv::f32("level", -2, 3); sv::assume(lor(eq(q, 0), le(1e-3, sv::dabs(q)))); sv::assume(lor(eq(q, 1), le(1e-3, sv::dabs(q - 1.0)))); ss << " quantile=" << q; bad = sv::decide(lor(lt(q, 0), lt(1, q))); } else if (k == 1) ss << " quantile=-999"; check(refused(s, ss.str()) == bad, "exactly the levels outside [0,1] are refused");
}
SV_HARNESS(words, "listed words: statistics, edge policy, extrapolation, type, operator, transform, correlation; recognised ones are accepted, others refused") {
    static const Opt GOOD[] = {{"neighbourhood", "stat=mean"}, {"neighbourhood", "stat=min"}, {"neighbourhood", "stat=max"}, {"neighbourhood", "stat=median"}, {"neighbourhood", "stat=std"}, {"neighbourhood", "stat=sum"}, {"window", "stat=max"}, {"upscale", "stat=sum"}, {"window", "edgePolicy=compute"}, {"window", "edgePolicy=missing"}, {"qq", "extrapolation=1to1"}, {"qq", "extrapolation=meanSlope"}, {"qq", "extrapolation=nearestSlope"}, {"qq", "extrapolation=zero"}, {"kriging", "type=cressman"}, {"kriging", "type=barnes"}, {"kriging", "operator=add"}, {"kriging", "operator=subtract"}, {"kriging", "operator=multiply"}, {"kriging", "operator=divide"}, {"oi", "transform=boxcox"}, {"oi", "rhoType=gaussian"}, {"oi", "rhoType=soar"}, {"neighbourhood", ""}, {"window", ""}, {"qq", ""}, {"kriging", ""}, {"oi", ""}, {"zaga", ""}, {"gaussian", ""}, {"bct", ""}, {"upscale", ""}, {"regression", ""}, {"coastal", ""}, {"mask", ""}, {"gradient", ""}, {"smart", ""}, {"bilinear", ""}, {"nearestNeighbour", ""}, {"pressure", ""}, {"bypass", ""}, {"accumulate", ""}, {"deaccumulate", ""}, {"sort", ""}, {"qc", "min=1"}, {"qnh", "pressureVariable=v"}, {"windDirection", "directionVariable=v"}, {"override", ""}, {"altitude", ""}};
    static const Opt BAD[] = {{"neighbourhood", "stat=Mean"}, {"neighbourhood", "stat=meanx"}, {"window", "stat=quantiles"}, {"upscale", "stat=mea"}, {"window", "edgePolicy=none"}, {"window", "edgePolicy=Missing"}, {"qq", "extrapolation=one"}, {"qq", "extrapolation=zer"}, {"qq", "extrapolation=unchanged"}, {"kriging", "type=gaussian"}, {"kriging", "operator=plus"}, {"kriging", "operator=Add"}, {"oi", "transform=log"}, {"oi", "rhoType=barnes"}, {"kriging", "auxVariable=u"}, {"neighbourhoods", ""}, {"", ""}, {"Qq", ""}, {"none", ""}, {"qnh", ""}};
    const int G = sizeof GOOD / sizeof *GOOD, B = sizeof BAD / sizeof *BAD; int k = sv::integer("word", 0, G + B - 1); const Opt& o = k < G ? GOOD[k] : BAD[k - G]; check(refused(o.scheme, o.opt) == (k >= G), "recognised words are accepted, others refused");
}
SV_HARNESS(downscaler_names, "unknown names of downscalers are refused") { static const char* N[] = {"", "nearest", "Bilinear", "smartx"}; int k = sv::integer("name", 0, 3); check(fails([&] { Variable v("v"); Downscaler::getScheme(N[k], v, v, Options()); }), "refused"); }
SV_HARNESS(required, "required options: cloud, phase, threshold, humidity and wind diagnoses, each present or not; what to compute") {
    int k = sv::integer("scheme", 0, 4); bool a = sv::flag("first"), b = sv::flag("second"); str o; bool bad = !a || !b; const char* n = "";
    if (k == 0) { n = "cloud"; o = str(a ? "precipVariable=p " : "") + (b ? "" : "value=1"); bad = !a; } else if (k == 1) { n = "phase"; o = str(a ? "temperature=t " : "") + (b ? "precipitation=p" : ""); } else if (k == 2) { n = "threshold"; o = str(a ? "thresholds=1 " : "") + (b ? "values=0,1" : ""); }
    else if (k == 3) { static const char* C[] = {"x", "y", "speed", "direction", "gust", ""}; n = "diagnoseWind"; int c = sv::integer("compute", 0, 5); bool comp = sv::flag("components"); o = comp ? str(a ? "x=u " : "") + (b ? "y=v" : "") : str(a ? "speed=s " : "") + (b ? "direction=d" : ""); if (c < 5) o += str(" compute=") + C[c]; bad = c > 3 || !a || !b || comp != (c > 1); }
    else { static const char* C[] = {"dewpoint", "rh", "wetbulb", "mixing", ""}; n = "diagnoseHumidity"; int c = sv::integer("compute", 0, 4); bool dew = sv::flag("dewpoint"); o = str(a ? "temperature=t " : "") + (b ? dew ? "dewpoint=d" : "rh=r pressure=p" : ""); if (c < 4) o += str(" compute=") + C[c]; bad = c > 2 || !a || !b || dew != (c == 1); }
    check(refused(n, o) == bad, "refused exactly when something needed is missing");
}
static str list(const char* key, int n, int from = 0) { std::stringstream ss; ss << " " << key << "="; for (int i = 0; i < n; i++) ss << (i ? "," : "") << from + i; return ss.str(); }
SV_HARNESS(lists, "lists of 0 to 3 thresholds, values and equality flags; 0 to 2 extra observations and forecasts") {
    if (sv::flag("threshold")) { int n = sv::integer("thresholds", 1, 3), m = sv::integer("values", 1, 4), k = sv::integer("equals", 0, 3); check(refused("threshold", list("thresholds", n) + list("values", m) + (k ? list("equals", k) : "")) == (m != n + 1 || (k && k != n)), "lists that do not match are refused"); }
    else { int n = sv::integer("observations", 0, 2), m = sv::integer("forecasts", 0, 2); check(refused("qq", (n ? list("extraObs", n) : str()) + (m ? list("extraFcst", m) : str())) == (n != m), "extra observations and forecasts of different lengths are refused"); }
}
SV_HARNESS(range, "kriging with an auxiliary variable: range of 0 to 3 numbers, the two of a pair any in [-5,5]") {
    int n = sv::integer("n", 0, 3); std::stringstream ss; ss << "auxVariable=u"; bool bad = n != 2; if (n == 2) { float a = sv::f32("lower", -5, 5), b = sv::f32("upper", -5, 5); sv::assume(lor(eq(a, b), le(1e-3, sv::dabs((double) a - b)))); ss << " range=" << a << "," << b; bad = sv::decide(lt(b, a)); } else if (n) ss << list("range", n); check(refused("kriging", ss.str()) == bad, "refused unless an ordered pair");
}
SV_HARNESS(no_parameters, "calibration without a parameter file: refused exactly by the calibrators that take parameters") {
    static const Opt N[] = {{"zaga", ""}, {"gaussian", ""}, {"bct", ""}, {"qq", ""}, {"regression", ""}, {"kriging", ""}, {"oi", ""}, {"windDirection", "directionVariable=v"}, {"override", ""}, {"altitude", ""}, {"mask", ""}, {"coastal", ""}}, F[] = {{"accumulate", ""}, {"deaccumulate", ""}, {"neighbourhood", "radius=1"}, {"window", "length=1"}, {"qc", "min=0 max=1"}, {"qnh", "pressureVariable=v"}, {"sort", ""}, {"threshold", "thresholds=1 values=0,1"}, {"cloud", "precipVariable=v"}, {"phase", "temperature=v precipitation=v"}, {"diagnoseWind", "compute=speed x=v y=v"}, {"diagnoseHumidity", "compute=dewpoint temperature=v rh=v"}};
    int k = sv::integer("scheme", 0, 23); const Opt& o = k < 12 ? N[k] : F[k - 12]; FileFake f = cfile(1, 2, 1, 2); Variable v("v"); cvec4 a = csym(f, "v", 1, 2, FIN); cput(f, v, a); check(fails([&] { run(o.scheme, v, o.opt, f, NULL); }) == (k < 12), "a parameter file is demanded exactly where it is used"); if (k < 12) { cvec4 b = cget(f, v); cells(f, [&](int t, int y, int x, int e) { check(sv::same(b[t][y][x][e], a[t][y][x][e]), "data are untouched"); }); }
}
SV_HARNESS(parameter_files, "parameter files with 0..10 parameters for one place, two places or no place: kinds and sizes the calibrator cannot use are refused") {
    static const Opt C[] = {{"override", ""}, {"altitude", ""}, {"mask", ""}, {"kriging", ""}, {"coastal", ""}, {"windDirection", "directionVariable=v"}, {"qq", ""}, {"regression", ""}, {"regression", "variables=v,v"}, {"neighbourhood", ""}}; int k = sv::integer("scheme", 0, 9), kind = sv::integer("kind", 0, 2); static const int SZ[] = {0, 1, 2, 3, 9, 10}; int n = SZ[sv::integer("size", 0, 5)];
    Par p; vec c(n, 0.0f); for (int i = 0; i < n; i++) c[i] = 0.5f * i; if (kind == 0) p.setParameters(Parameters(c), 0); else for (int i = 0; i < kind; i++) p.setParameters(Parameters(c), 0, Location(50 + i, 1, 10));
    FileFake f = cfile(1, 2, 1, 1); f.setLats({{50, 51}}); f.setLons({{1, 1}}); f.setElevs({{10, 20}}); Variable v("v"); cvec4 a = csym(f, "v", 1, 2, FIN); cput(f, v, a); bool place = kind > 0, bad;
    switch (k) { case 0: bad = !place || n != 1; break; case 1: case 2: case 3: bad = !place; break; case 4: bad = !place || n == 0; break; case 5: bad = n != 9; break; case 6: bad = n % 2; break; case 7: bad = n == 0; break; case 8: bad = n != 2; break; default: bad = place; }
    if (!bad) { if (k == 9 || k == 2 || k == 3 || k == 1 || (k == 6 && n == 0) || (k == 4) || k == 0) return; } check(fails([&] { run(C[k].scheme, v, C[k].opt, f, &p); }) == bad, "refused exactly when the parameters cannot be used"); if (bad) { cvec4 b = cget(f, v); cells(f, [&](int t, int y, int x, int e) { check(sv::same(b[t][y][x][e], a[t][y][x][e]), "data are untouched"); }); }
}
SV_HARNESS(mask_size, "mask with a parameter file of changing size is refused") { Par p(sv::flag("fixed")); p.setParameters(Parameters(vec(1, 1000.0f)), 0, Location(50, 1, 0)); p.setParameters(Parameters(vec(1, 1000.0f)), 0, Location(51, 1, 0)); FileFake f = cfile(1, 1, 1, 1); Variable v("v"); cput(f, v, csym(f, "v", 1, 2, FIN)); check(fails([&] { run("mask", v, "", f, &p); }) == !p.fixed, "refused"); }
SV_HARNESS(latitudes, "input files with any latitude in [-200,200] at any of four cells: refused exactly beyond the poles") { int k = sv::integer("cell", 0, 3); float y = sv::f32("lat", -200, 200); vec2 la = {{50, 51}, {52, 53}}; la[k / 2][k % 2] = y; FileFake f = cfile(2, 2, 1, 1); bool bad = sv::decide(lor(lt(y, -90), lt(90, y))); check(fails([&] { f.setLats(la); }) == bad, "latitudes beyond the poles are refused"); }
