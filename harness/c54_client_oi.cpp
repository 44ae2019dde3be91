// C54: the client's optimal interpolation calibrator
#include "client.h"
#include <functional>
struct Par : ParameterFile { Par() : ParameterFile(Options(""), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
typedef std::vector<dvec> dmat;
struct Place { double lat, lon, elev, laf; };
struct Conf { double d, h, w, wmin, eps, maxElev, grad, minRho, sigma, delta; int maxLoc; bool cv, soar, land, ex; Conf() : d(15000), h(MV), w(MV), wmin(MV), eps(0.5), maxElev(200), grad(MV), minRho(0.0013), sigma(1), delta(1), maxLoc(20), cv(false), soar(false), land(false), ex(true) {}
    std::string str() const { char b[500]; snprintf(b, sizeof b, "d=%g h=%g w=%g wmin=%g epsilon=%g maxElevDiff=%g elevGradient=%g sigma=%g delta=%g maxLocations=%d crossValidate=%d rhoType=%s landOnly=%d extrapolate=%d", d, h, w, wmin, eps, maxElev, grad, sigma, delta, maxLoc, (int) cv, soar ? "soar" : "gaussian", (int) land, (int) ex); return b; } };
static double dist(const Place& a, const Place& b) { double d = M_PI / 180, my = (a.lat + b.lat) / 2 * d, dx = std::cos(my) * (a.lon - b.lon) * d, dy = (a.lat - b.lat) * d; return Util::radiusEarth * std::sqrt(dx * dx + dy * dy); }
// correlation of two places: horizontal, vertical (none with an unknown elevation) and by land fraction
static double rho(const Conf& c, const Place& a, const Place& b) { double h = dist(a, b) / c.d, r = c.soar ? (1 + h) * std::exp(-h) : std::exp(-h * h / 2), l = ok(a.laf) && ok(b.laf) ? a.laf - b.laf : 0; if (ok(c.h)) { if (!ok(a.elev) || !ok(b.elev)) return 0; double v = (a.elev - b.elev) / c.h; r *= std::exp(-v * v / 2); } if (ok(c.wmin)) r *= 1 - (1 - c.wmin) * std::fabs(l); if (ok(c.w)) r *= std::exp(-l * l / (2 * c.w * c.w)); return r; }
static dmat inv(dmat m) { int n = m.size(); dmat r(n, dvec(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; for (int i = 0; i < n; i++) { double p = m[i][i]; for (int j = 0; j < n; j++) { m[i][j] /= p; r[i][j] /= p; } for (int k = 0; k < n; k++) if (k != i) { double f = m[k][i]; for (int j = 0; j < n; j++) { m[k][j] -= f * m[i][j]; r[k][j] -= f * r[i][j]; } } } return r; }
static dmat root(dmat a) { dmat y = a; int n = a.size(); dmat z(n, dvec(n, 0)); for (int i = 0; i < n; i++) z[i][i] = 1; for (int it = 0; it < 30; it++) { dmat iy = inv(y), iz = inv(z); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double p = y[i][j]; y[i][j] = (p + iz[i][j]) / 2; z[i][j] = (z[i][j] + iy[i][j]) / 2; } } return y; }
static const std::vector<Place> SITES = {{0.112, 0.117, 95, 1}, {0.208, 0.193, 180, 1}, {0.291, 0.306, 130, 1}, {0.005, 0.204, 110, 1}, {0.224, 0.273, 150, 1}};
struct Case { FileFake f; std::vector<Place> S; std::vector<int> Y, X; vec o, ci; Par P; Variable v; Conf c; int nY, nX;
    Case(int Y_, int X_, int E) : f(cfile(Y_, X_, E, 1)), v("v"), nY(Y_), nX(X_) { vec2 la(nY, vec(nX)), lo = la, el = la, lf = la; for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++) { la[i][j] = 0.1 * i; lo[i][j] = 0.1 * j; el[i][j] = 100 + 20 * i + 10 * j; lf[i][j] = (i + j) % 4 ? 0.25 * ((i + 2 * j) % 5) : 0; } f.setLats(la); f.setLons(lo); f.setElevs(el); f.setLandFractions(lf); }
    void grid(std::function<void(int, int, vec2&, vec2&)> fn) { vec2 e = f.getElevs(), l = f.getLandFractions(); for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++) fn(i, j, e, l); f.setElevs(e); f.setLandFractions(l); }
    Place cell(int y, int x) const { return Place{f.getLats()[y][x], f.getLons()[y][x], f.getElevs()[y][x], f.getLandFractions()[y][x]}; }
    void site(const Place& p, float obs, float cov = 1) { S.push_back(p); o.push_back(obs); ci.push_back(cov); }
    void finish() { for (size_t i = 0; i < S.size(); i++) { double b = 1e30; int by = 0, bx = 0; for (int y = 0; y < nY; y++) for (int x = 0; x < nX; x++) { double d = dist(S[i], cell(y, x)); if (d < b) { b = d; by = y; bx = x; } } Y.push_back(by); X.push_back(bx); S[i].laf = cell(by, bx).laf; P.setParameters(Parameters(vec{o[i], ci[i]}), 0, Location(S[i].lat, S[i].lon, S[i].elev)); } P.recomputeTree(); }
    // observations used at a cell
    std::vector<int> used(int y, int x) const { std::vector<int> u; Place g = cell(y, x); bool regular = nY > 1 && nX > 1; for (size_t i = 0; i < S.size(); i++) { if (!ok(o[i])) continue; Place n = cell(Y[i], X[i]); if (regular && (Y[i] == 0 || X[i] == 0 || Y[i] == nY - 1 || X[i] == nX - 1)) continue; if (ok(c.maxElev) && (!ok(S[i].elev) || !ok(n.elev) || std::fabs(S[i].elev - n.elev) >= c.maxElev)) continue; if (c.land && n.laf == 0) continue; if (rho(c, S[i], g) > c.minRho) u.push_back(i); }
        std::sort(u.begin(), u.end(), [&](int a, int b) { return rho(c, S[a], g) > rho(c, S[b], g); }); if (c.cv && u.size()) u.erase(u.begin()); if ((int) u.size() > c.maxLoc) u.resize(c.maxLoc); return u; }
    double at(const cvec4& a, int i, int e) const { double b = a[0][Y[i]][X[i]][e]; if (ok(c.grad) && ok(S[i].elev) && ok(cell(Y[i], X[i]).elev)) b += c.grad * (S[i].elev - cell(Y[i], X[i]).elev); return b; }
    double single(const cvec4& a, int y, int x, int e) const { std::vector<int> u = used(y, x); int n = u.size(); double r = a[0][y][x][e]; if (!n) return r; dmat m(n, dvec(n)); Place g = cell(y, x); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = rho(c, S[u[i]], S[u[j]]) + (i == j ? c.eps * c.eps * ci[u[i]] : 0); m = inv(m); for (int j = 0; j < n; j++) { double w = 0; for (int i = 0; i < n; i++) w += rho(c, g, S[u[i]]) * m[i][j]; r += w * ((double) o[u[j]] - at(a, u[j], e)); } return r; }
    // ensemble transform analysis from the members M; ensembles at the observations are concrete
    dvec ensemble(const cvec4& a, int y, int x, const std::vector<int>& M) const { std::vector<int> u = used(y, x); int n = M.size(), s = u.size(); dvec b(n), r(n); for (int e = 0; e < n; e++) b[e] = a[0][y][x][M[e]]; if (!s) return b; Place g = cell(y, x); dmat Yb(s, dvec(n)); dvec d(s), R(s); for (int i = 0; i < s; i++) { double m = 0; for (int e = 0; e < n; e++) m += Yb[i][e] = at(a, u[i], M[e]); m /= n; for (int e = 0; e < n; e++) Yb[i][e] -= m; d[i] = (double) o[u[i]] - m; R[i] = rho(c, S[u[i]], g) / (c.sigma * c.sigma * ci[u[i]]); }
        dmat A(n, dvec(n, 0)); for (int e = 0; e < n; e++) for (int f = 0; f < n; f++) { A[e][f] = e == f ? (n - 1) / c.delta : 0; for (int i = 0; i < s; i++) A[e][f] += Yb[i][e] * R[i] * Yb[i][f]; } dmat Pm = inv(A), Q = Pm; for (auto& q : Q) for (double& z : q) z *= n - 1; dmat W = root(Q); dvec w(n, 0); for (int e = 0; e < n; e++) for (int f = 0; f < n; f++) for (int i = 0; i < s; i++) w[e] += Pm[e][f] * Yb[i][f] * R[i] * d[i];
        double m = 0; for (double z : b) m += z; m /= n; for (int e = 0; e < n; e++) { r[e] = m; for (int k = 0; k < n; k++) r[e] += (b[k] - m) * (W[k][e] + w[k]); if (!c.ex) { double lo = 0, hi = 0; for (int i = 0; i < s; i++) { double q = d[i] - Yb[i][e]; lo = sv::dmin(lo, q); hi = sv::dmax(hi, q); } r[e] = b[e] + sv::dmin(sv::dmax(r[e] - b[e], lo), hi); } } return r; }
    cvec4 exec(const std::string& more) { check(run("oi", v, (c.str() + " " + more).c_str(), f, &P), "runs"); return cget(f, v); } };
static float obs(int i) { return sv::f32(sv::idx("o", i).c_str(), -50, 50); }
static void same_single(Case& k, const cvec4& a, const cvec4& r, const char* label) { for (int y = 0; y < k.nY; y++) for (int x = 0; x < k.nX; x++) for (size_t e = 0; e < a[0][y][x].size(); e++) check(close(r[0][y][x][e], k.single(a, y, x, e), 1e-2), label); }
static void single(Case& k, const char* label) { k.finish(); cvec4 a = csym(k.f, "v", -50, 50, FIN); cput(k.f, k.v, a); cvec4 r = k.exec("useEns=0"); same_single(k, a, r, label); }
SV_HARNESS(one, "5x5 grid, 1 observation at one of 5 places (one of them at the border), 4 length scales, 2 correlation functions; any field and observed value in [-50,50]") { Case k(5, 5, 1); static const double D[] = {6000, 9000, 15000, 40000}; k.c.d = D[sv::integer("scale", 0, 3)]; k.c.soar = sv::flag("soar"); k.site(SITES[sv::integer("site", 0, 4)], obs(0)); single(k, "background plus gain times innovation"); }
SV_HARNESS(several, "5x5 grid, 2 to 5 observations with different error variances, at most 1 to 4 of them used at a cell; any field and observed value in [-50,50]") { Case k(5, 5, 1); int n = sv::integer("sites", 2, 5); static const float C[] = {1, 0.25f, 2, 1, 0.5f}; for (int i = 0; i < n; i++) k.site(SITES[i], obs(i), C[i]); k.c.maxLoc = sv::integer("maxLocations", 1, 4); k.c.eps = 0.75; single(k, "background plus gain times innovations of the most correlated observations"); }
SV_HARNESS(cross_validation, "as several, leaving out the most correlated observation of every cell") { Case k(5, 5, 1); int n = sv::integer("sites", 1, 4); for (int i = 0; i < n; i++) k.site(SITES[i], obs(i)); k.c.cv = true; k.c.maxLoc = sv::integer("maxLocations", 1, 3); single(k, "analysis without the most correlated observation"); }
SV_HARNESS(line, "1x5 cells (no regular grid), 1 to 3 observations, 2 length scales; any field and observed value") { Case k(1, 5, 1); int n = sv::integer("sites", 1, 3); for (int i = 0; i < n; i++) k.site(SITES[i], obs(i)); k.c.maxElev = MV; k.c.d = sv::flag("short") ? 6000 : 15000; single(k, "background plus gain times innovations"); }
SV_HARNESS(narrow, "5x5 grid of cells twice as narrow in one direction as in the other, 1 observation, 3 length scales: every cell in reach is analysed") { Case k(5, 5, 1); bool tr = sv::flag("transpose"); vec2 la = k.f.getLats(), lo = la; for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) { la[y][x] = (tr ? 0.05 : 0.1) * y; lo[y][x] = (tr ? 0.1 : 0.05) * x; } k.f.setLats(la); k.f.setLons(lo); static const double D[] = {5000, 8000, 15000}; k.c.d = D[sv::integer("scale", 0, 2)]; Place p = k.cell(2, 2); p.lat += 0.002; p.elev = 120; k.site(p, obs(0)); single(k, "background plus gain times innovation"); }
SV_HARNESS(vertical, "5x5 grid, 2 observations, elevations: vertical length scale 50, 300 or none; the elevation of one observation, of the cell nearest to it or of another cell possibly missing; limit on the elevation difference 40, 200 or none") { Case k(5, 5, 1); static const double H[] = {50, 300, -999}, M[] = {40, 200, -999}; k.c.h = H[sv::integer("h", 0, 2)]; k.c.maxElev = M[sv::integer("limit", 0, 2)]; int miss = sv::integer("missing", 0, 3); k.site(SITES[0], obs(0)); k.site(SITES[2], obs(1)); if (miss == 1) k.S[0].elev = MV; if (miss > 1) k.grid([&](int y, int x, vec2& e, vec2&) { if (miss == 2 ? y == 1 && x == 1 : y == 2 && x == 1) e[y][x] = MV; }); if (sv::flag("both")) { k.S[1].elev = MV; } single(k, "correlations by elevation; observations too far from the terrain are not used"); }
SV_HARNESS(gradient, "5x5 grid, 2 observations, an elevation gradient; the elevation of one observation or of the cell nearest to it possibly missing") { Case k(5, 5, 1); k.c.grad = -0.0625; int miss = sv::integer("missing", 0, 2); k.site(SITES[1], obs(0)); k.site(SITES[2], obs(1)); if (miss == 1) k.S[0].elev = MV; if (miss == 2) k.grid([&](int y, int x, vec2& e, vec2&) { if (y == 2 && x == 2) e[y][x] = MV; }); if (miss && sv::flag("unlimited")) k.c.maxElev = MV; single(k, "the background at the observation follows the gradient"); }
SV_HARNESS(land, "5x5 grid with different land fractions, 3 observations, 4 treatments of the land fraction, observations at sea left out or not; one land fraction possibly missing") { Case k(5, 5, 1); int how = sv::integer("how", 0, 3); k.c.w = how & 1 ? 0.5 : MV; k.c.wmin = how & 2 ? 0.25 : MV; k.c.land = sv::flag("landOnly"); int miss = sv::integer("missing", 0, 2); k.grid([&](int y, int x, vec2&, vec2& l) { if (y == 3 && x == 3) l[y][x] = 0; if (miss == 1 && y == 2 && x == 2) l[y][x] = MV; if (miss == 2 && y == 2 && x == 1) l[y][x] = MV; }); for (int i = 0; i < 3; i++) k.site(SITES[i], obs(i)); single(k, "correlations by land fraction"); }
SV_HARNESS(missing_observations, "5x5 grid, 3 observations of which any may be missing, 2 members, one of them missing in one cell: missing values have no influence, and stay missing") {
    Case k(5, 5, 2); for (int i = 0; i < 3; i++) k.site(SITES[i], sv::flag(sv::idx("missing", i).c_str()) ? MV : obs(i)); k.finish(); int w = sv::integer("hole", 0, 2); cvec4 a = csym(k.f, "v", -50, 50, FIN); if (w) a[0][w == 1 ? 4 : 2][w == 1 ? 0 : 2][1] = MV; cput(k.f, k.v, a); cvec4 r = k.exec("useEns=0");
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) { check(close(r[0][y][x][0], k.single(a, y, x, 0), 1e-2), "the complete member is analysed"); if (!w) check(close(r[0][y][x][1], k.single(a, y, x, 1), 1e-2), "each member by its own innovations"); else if (!ok(a[0][y][x][1])) check(!ok(r[0][y][x][1]), "a missing value stays missing"); }
}
static cvec4 efield(Case& k, int E, bool sym, int ycell, int xcell) { cvec4 a = cfill(k.f, 0); for (int y = 0; y < k.nY; y++) for (int x = 0; x < k.nX; x++) for (int e = 0; e < E; e++) a[0][y][x][e] = ((y * 3 + x * 5 + e * 7 + e * e * (x + 1)) % 11) - 5 + 0.5f * e; if (sym) for (int e = 0; e < E; e++) a[0][ycell][xcell][e] = sv::f32(sv::idx("b", e).c_str(), -10, 10); return a; }
static void ens(Case& k, int E, const std::vector<int>& M, cvec4 a, const std::string& more) { cput(k.f, k.v, a); cvec4 r = k.exec(more); for (int y = 0; y < k.nY; y++) for (int x = 0; x < k.nX; x++) { dvec q = k.ensemble(a, y, x, M); for (size_t e = 0; e < M.size(); e++) check(close(r[0][y][x][M[e]], q[e], 2e-2), "ensemble transform analysis of each member"); } }
SV_HARNESS(ensemble, "5x5 grid, 3 fixed members (any values in one cell), 1 to 3 observations of any value with different error variances, inflation 1 or 2: ensemble transform analysis") { Case k(5, 5, 3); int n = sv::integer("sites", 1, 3); static const float C[] = {1, 0.25f, 2}; for (int i = 0; i < n; i++) k.site(SITES[i], obs(i), C[i]); k.c.sigma = 1.5; k.c.delta = sv::flag("inflate") ? 2 : 1; k.finish(); ens(k, 3, {0, 1, 2}, efield(k, 3, true, 1, 2), "minEns=3"); }
SV_HARNESS(ensemble_limits, "1x2 cells, 3 fixed members, 1 or 2 observations of any value, no extrapolation: no member moves further than its own innovations") { Case k(1, 2, 3); int n = sv::integer("sites", 1, 2); k.site(Place{0.011, 0.002, 95, 1}, obs(0)); if (n > 1) k.site(Place{-0.02, 0.093, 120, 1}, obs(1)); k.c.ex = false; k.c.maxElev = MV; k.c.d = 9000; k.finish(); ens(k, 3, {0, 1, 2}, efield(k, 3, false, 0, 0), "minEns=3"); }
SV_HARNESS(ensemble_selection, "as ensemble with 4 observations, at most 1 or 2 used, with or without cross-validation") { Case k(5, 5, 3); for (int i = 0; i < 4; i++) k.site(SITES[i], obs(i)); k.c.maxLoc = sv::integer("maxLocations", 1, 2); k.c.cv = sv::flag("crossValidate"); k.finish(); ens(k, 3, {0, 1, 2}, efield(k, 3, false, 0, 0), "minEns=3"); }
SV_HARNESS(ensemble_incomplete, "4 members of which one misses a value somewhere, 2 observations of any value: the other members are analysed without it; fewer than minEns complete members: each on its own") {
    Case k(5, 5, 4); for (int i = 0; i < 2; i++) k.site(SITES[i], obs(i)); k.finish(); int which = sv::integer("member", 0, 3), where = sv::integer("where", 0, 1); cvec4 a = efield(k, 4, false, 0, 0); a[0][where ? 1 : 4][where ? 1 : 0][which] = MV; std::vector<int> M; for (int e = 0; e < 4; e++) if (e != which) M.push_back(e); if (!sv::flag("few")) { ens(k, 4, M, a, "minEns=3"); return; }
    cput(k.f, k.v, a); cvec4 r = k.exec("minEns=4"); for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) for (int e : M) check(close(r[0][y][x][e], k.single(a, y, x, e), 2e-2), "each complete member by its own innovations");
}
