// C52: the client's kriging calibrator
#include "client.h"
struct Par : ParameterFile { Par() : ParameterFile(Options(""), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
struct Site { double lat, lon, elev; };
// reference covariance of two places
static double dist(const Site& a, const Site& b) { double d = M_PI / 180, my = (a.lat + b.lat) / 2 * d, dx = std::cos(my) * (a.lon - b.lon) * d, dy = (a.lat - b.lat) * d; return Util::radiusEarth * std::sqrt(dx * dx + dy * dy); }
static double part(double d, double L, bool barnes) { return barnes ? std::exp(-d * d / (2 * L * L)) : d > L ? 0 : (L * L - d * d) / (L * L + d * d); }
static double covar(const Site& a, const Site& b, double radius, double L, double H, bool barnes) { if (!ok(a.elev) || !ok(b.elev)) return 0; double d = dist(a, b), v = std::fabs(a.elev - b.elev); if (d >= radius || (ok(H) && v >= H)) return 0; return part(d, L, barnes) * (ok(H) ? part(v, H, barnes) : 1); }
static std::vector<dvec> inv(std::vector<dvec> m) { int n = m.size(); std::vector<dvec> r(n, dvec(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; for (int i = 0; i < n; i++) { int p = i; for (int k = i; k < n; k++) if (std::fabs(m[k][i]) > std::fabs(m[p][i])) p = k; std::swap(m[i], m[p]); std::swap(r[i], r[p]); for (int k = 0; k < n; k++) if (k != i) { double f = m[k][i] / m[i][i]; for (int j = 0; j < n; j++) { m[k][j] -= f * m[i][j]; r[k][j] -= f * r[i][j]; } } } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] /= m[i][i]; return r; }
// weight of every site at a place; when cross-validating the site of the highest covariance is left out
static dvec weights(const std::vector<Site>& S, const Site& g, double radius, double L, double H, bool barnes, bool cv) {
    int n = S.size(), out = -1; dvec c(n), w(n, 0); for (int i = 0; i < n; i++) { c[i] = covar(S[i], g, radius, L, H, barnes); if (c[i] > 0 && (out < 0 || c[i] > c[out])) out = i; } if (!cv) out = -1; std::vector<int> u; for (int i = 0; i < n; i++) if (i != out) u.push_back(i);
    std::vector<dvec> m(u.size(), dvec(u.size(), 1)); for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < u.size(); j++) if (i != j) m[i][j] = covar(S[u[i]], S[u[j]], radius, L, H, barnes) * 0.414 / 0.5; m = inv(m); for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < u.size(); j++) w[u[i]] += m[i][j] * c[u[j]]; return w;
}
static const std::vector<Site> SITES = {{50.02, 0.1, 100}, {50.13, 1.05, 40}, {50.3, 0.72, 260}, {51.6, 3, 0}};
static const char* OPS[] = {"add", "subtract", "multiply", "divide"};
struct Case { FileFake f; std::vector<Site> S; Par P; Case(int X, int E, int T) : f(cfile(1, X, E, T)) { vec2 la(1, vec(X)), lo = la, el = la; for (int j = 0; j < X; j++) { la[0][j] = 50 + 0.07 * j; lo[0][j] = j; el[0][j] = 50 + 60 * j; } f.setLats(la); f.setLons(lo); f.setElevs(el); }
    Site cell(int x) { return Site{f.getLats()[0][x], f.getLons()[0][x], f.getElevs()[0][x]}; } void set(int i, int t, const vec& v) { P.setParameters(Parameters(v), t, Location(S[i].lat, S[i].lon, S[i].elev)); } };
static void correct(int op, double raw, double b, double got, const char* label) { // b: weighted sum of the biases (fluctuations around 1 for factors)
    if (!ok(raw)) { check(!ok(got), "a missing value stays missing"); return; } if (!ok(got)) { check(false, label); return; } check(op == 0 ? close(got, raw + b, 5e-2) : op == 1 ? close(got, raw - b, 5e-2) : op == 2 ? close(got, raw * (1 + b), 5e-2) : close(got * (1 + b), raw, 5e-2), label);
}
static void krig(int op, bool barnes, bool cv, double H, int n, int nosite) {
    Case c(3, 1, 1); c.S.assign(SITES.begin(), SITES.begin() + n); bool one = op >= 2; vec b; for (int i = 0; i < n; i++) { if (nosite == i) { c.S[i].elev = MV; } b.push_back(one ? sv::f32(sv::idx("b", i).c_str(), 0.8, 1.2) : sv::f32(sv::idx("b", i).c_str(), -10, 10)); c.set(i, 0, {b[i]}); } c.P.recomputeTree();
    Variable v("v"); cvec4 a = one ? cfill(c.f, 8) : csym(c.f, "v", -50, 50, FIN); if (sv::flag("missing")) a[0][0][1][0] = MV; cput(c.f, v, a); char o[200]; snprintf(o, 200, "type=%s radius=150000 efoldDist=100000 operator=%s%s%s", barnes ? "barnes" : "cressman", OPS[op], ok(H) ? " maxElevDiff=200" : "", cv ? " crossValidate=1" : ""); check(run("kriging", v, o, c.f, &c.P), "runs"); cvec4 r = cget(c.f, v);
    for (int x = 0; x < 3; x++) { dvec w = weights(c.S, c.cell(x), 150000, 100000, H, barnes, cv); double s = 0; for (int i = 0; i < n; i++) s += w[i] * (b[i] - (one ? 1.0 : 0.0)); correct(op, a[0][0][x][0], s, r[0][0][x][0], "kriged biases applied"); }
}
SV_HARNESS(operators, "3 cells, 1 to 4 sites with any bias in [-10,10] (factors in [0.8,1.2]), 4 operators, 2 covariances, with or without a limit on elevation; values in [-50,50], one possibly missing") { int op = sv::integer("operator", 0, 3); krig(op, sv::flag("barnes"), false, sv::flag("vertical") ? 200 : MV, sv::integer("sites", 1, 4), -1); }
SV_HARNESS(cross_validation, "as operators with cross-validation (add and multiply), 1 to 4 sites: the kriging of all sites but the one of the highest covariance") { krig(2 * sv::integer("operator", 0, 1), sv::flag("barnes"), true, sv::flag("vertical") ? 200 : MV, sv::integer("sites", 1, 4), -1); }
SV_HARNESS(unknown_site, "as operators (add), one of the sites without an elevation: it has no influence") { int n = sv::integer("sites", 1, 4); krig(0, sv::flag("barnes"), false, sv::flag("vertical") ? 200 : MV, n, sv::integer("which", 0, n - 1)); }
SV_HARNESS(elevation, "1 site, 3 cells, the elevation of one of them any in [0,1000] or missing, bias 4, elevation limit 200: the weight is the product of the two Cressman functions") {
    Case c(3, 1, 1); c.S.assign(SITES.begin(), SITES.begin() + 1); c.set(0, 0, {4}); c.P.recomputeTree(); int k = sv::integer("cell", 0, 2); float z = cval("z", 0, 1000, MISS); vec2 e = c.f.getElevs(); e[0][k] = z; c.f.setElevs(e); Variable v("v"); cput(c.f, v, cfill(c.f, 5)); run("kriging", v, "radius=150000 efoldDist=100000 maxElevDiff=200", c.f, &c.P); cvec4 r = cget(c.f, v);
    for (int x = 0; x < 3; x++) { Site g = c.cell(x); double h = part(dist(g, c.S[0]), 100000, false); double got = r[0][0][x][0]; if (x == k) { if (!ok(z)) { check(eq(got, 5), "no correction without an elevation"); continue; } double d = sv::dabs((double) z - c.S[0].elev); if (sv::decide(le(200, d))) check(eq(got, 5), "no correction beyond the elevation limit"); else check(close((got - 5) * (40000 + d * d), 4 * h * (40000 - d * d), 2e2), "product of the two functions"); } else check(close(got, 5 + 4 * covar(c.S[0], g, 150000, 100000, 200, false), 1e-2), "the other cells as before"); }
}
SV_HARNESS(times, "2 sites, 2 members, 3 times; bias any in [-10,10], present or not at any one site and time; one value anywhere symbolic or missing: each time uses its own biases") {
    Case c(2, 2, 3); c.S.assign(SITES.begin(), SITES.begin() + 2); int none = sv::integer("none", -1, 5); float b[3][2]; for (int t = 0; t < 3; t++) for (int i = 0; i < 2; i++) { b[t][i] = sv::f32(sv::idx("b", t, i).c_str(), -10, 10); if (t * 2 + i == none) { b[t][i] = 0; c.set(i, t, {}); } else c.set(i, t, {b[t][i]}); } c.P.recomputeTree(); Variable v("v"); cvec4 a = cspot(c.f, "v", -50, 50, MISS, cpos(c.f)); cput(c.f, v, a); run("kriging", v, "radius=150000 efoldDist=100000", c.f, &c.P); cvec4 r = cget(c.f, v);
    cells(c.f, [&](int t, int y, int x, int e) { dvec w = weights(c.S, c.cell(x), 150000, 100000, MV, false, false); correct(0, a[t][y][x][e], w[0] * b[t][0] + w[1] * b[t][1], r[t][y][x][e], "biases of the time, each member alike"); });
}
SV_HARNESS(auxiliary, "1 site, 2 members, 3 times, window 0 or 1, operators add and subtract; auxiliary variable in [-10,10] or missing at any member and time, range [0,1]: weighted by the fraction of times within the range") {
    Case c(1, 2, 3); c.S.assign(SITES.begin(), SITES.begin() + 1); for (int t = 0; t < 3; t++) c.set(0, t, {4}); c.P.recomputeTree(); int W = sv::integer("window", 0, 1), op = sv::integer("operator", 0, 1); Variable v("v"), u("u"); cvec4 a = csym(c.f, "v", -50, 50, FIN), x = csym(c.f, "u", -10, 10, MISS); cput(c.f, v, a); cput(c.f, u, x); char o[200]; snprintf(o, 200, "radius=150000 efoldDist=100000 operator=%s auxVariable=u range=0,1 window=%d", OPS[op], W); run("kriging", v, o, c.f, &c.P); cvec4 r = cget(c.f, v); double w = weights(c.S, c.cell(0), 150000, 100000, MV, false, false)[0];
    cells(c.f, [&](int t, int, int, int e) { double in = 0, n = 0; for (int k = std::max(0, t - W); k <= std::min(2, t + W); k++) { double q = x[k][0][0][e]; if (!ok(q)) continue; n++; if (sv::decide(land(le(0, q), le(q, 1)))) in++; } correct(op, a[t][0][0][e], 4 * w * (n ? in / n : 1), r[t][0][0][e], "weight of the member's own auxiliary values"); });
}
SV_HARNESS(train, "3 pairs of any observations in [1,50] and two-member forecasts in [1,50], some missing: mean error, or ratio of the means") {
    int op = sv::integer("operator", 0, 3); std::vector<ObsEns> D; double so = 0, sf = 0; int n = 0; for (int i = 0; i < 3; i++) { float o = cval(sv::idx("o", i).c_str(), 1, 50, MISS), e = cval(sv::idx("e", i).c_str(), 1, 50, i ? FIN : MISS), g = e; if (ok(e)) g = e + 1; D.push_back(ObsEns(o, Ens({e, g}))); if (ok(o) && ok(e)) { so += o; sf += e + 0.5; n++; } }
    char b[50]; snprintf(b, 50, "operator=%s", OPS[op]); Calibrator* c = Calibrator::getScheme("kriging", Variable("v"), Options(b)); Parameters p = c->train(D); delete c; check(p.size() == 1, "one parameter"); double g = p[0]; if (!n) check(eq(g, 0), "none without data"); else check(op == 0 ? close(g * n, so - sf, 1e-2) : op == 1 ? close(g * n, sf - so, 1e-2) : op == 2 ? close(g * sf, so, 2e-2) : close(g * so, sf, 2e-2), "bias of the operator");
}
