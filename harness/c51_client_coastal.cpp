// C51: the client's coastal calibrator
#include "client.h"
#include "Grid.h"
struct Par : ParameterFile { Par() : ParameterFile(Options(""), true) {} bool isFixedSize() const { return true; } bool isReadable() const { return true; } std::string name() const { return "harness"; } };
static void places(FileFake& f) { vec2 la = f.getLats(), lo = la; for (size_t i = 0; i < la.size(); i++) for (size_t j = 0; j < la[i].size(); j++) { la[i][j] = 50 + i; lo[i][j] = j; } f.setLats(la); f.setLons(lo); }
// the cells of the square that have the lowest and the highest land fraction (the first of several); -1 where none has any
static void ends(const vec2& laf, int i, int j, int r, int& lo, int& hi) {
    int Y = laf.size(), X = laf[0].size(); lo = hi = -1; for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) if (std::abs(y - i) <= r && std::abs(x - j) <= r && ok(laf[y][x])) {
        if (lo < 0 || sv::decide(lt(laf[y][x], laf[lo / X][lo % X]))) lo = y * X + x; if (hi < 0 || sv::decide(lt(laf[hi / X][hi % X], laf[y][x]))) hi = y * X + x; }
}
static void expected(const FileFake& f, const vec2& laf, const cvec4& a, const cvec4& r, int rad, double diff, bool nn, double A, double B, double C, double tol) {
    int X = f.getNumX(); cells(f, [&](int t, int y, int x, int e) { int lo, hi; ends(laf, y, x, rad, lo, hi); double got = r[t][y][x][e]; double g = 0, base = a[t][y][x][e];
        if (lo >= 0) { double l = a[t][lo / X][lo % X][e], h = a[t][hi / X][hi % X][e], ll = laf[lo / X][lo % X], lh = laf[hi / X][hi % X]; if (ok(l) && ok(h) && sv::decide(lt(diff, lh - ll))) g = (h - l) / (lh - ll); if (!nn) base = l; } else if (!nn) base = MV;
        if (!ok(base)) check(!ok(got), "missing where the forecast it is based on is missing"); else { check(sv::mk(ok(got)), "a value where the forecast it is based on is given"); if (ok(got)) check(close(got, A + B * base + C * g, tol), "constant, forecast and land-sea gradient of the input field"); } });
}
static const float LAF[][6] = {{0, 0.25, 1, 0.5, 0.75, 0.125}, {1, 0, 0, 1, 0.5, 0.5}, {0.5, 0.5, 0.5, 0.5, 0.5, 0.5}, {0.5, -999, 0, -999, 1, 0.75}, {0.875, 0.75, 0.5, 0.25, 0.125, 0}};
SV_HARNESS(field, "2x3 cells of 5 sets of land fractions (one with missing ones), any values in [-50,50], up to 2 of them missing; radius 0, 1 or 3; nearest neighbour or lowest land fraction as a basis") {
    FileFake f = cfile(2, 3, 1, 1); places(f); int s = sv::integer("fractions", 0, 4); vec2 laf(2, vec(LAF[s], LAF[s] + 3)); laf[1] = vec(LAF[s] + 3, LAF[s] + 6); f.setLandFractions(laf);
    static const int RAD[] = {1, 3, 0}; int rad = RAD[sv::integer("radius", 0, 2)]; bool nn = sv::flag("nearest"); char o[80]; snprintf(o, 80, "searchRadius=%d minLafDiff=0.3%s", rad, nn ? " useNN=1" : ""); cvec4 a = csym(f, "v", -50, 50, FIN); int m = sv::integer("missing", -1, 5); if (m >= 0) { a[0][m / 3][m % 3][0] = MV; if (sv::flag("second")) a[0][(m / 3 + 1) % 2][m % 3][0] = NaN; }
    Par P; P.setParameters(Parameters(vec({1.5, 0.5, 2})), 0, Location(50, 0, 0)); P.recomputeTree(); Variable v("v"); cput(f, v, a); check(run("coastal", v, o, f, &P), "runs"); expected(f, laf, a, cget(f, v), rad, 0.3, nn, 1.5, 0.5, 2, 2e-3);
}
SV_HARNESS(fractions, "1x3 cells of any land fractions in [0,1] at least 0.05 apart, given values, radius 1; the difference of the fractions above or below the limit of 0.3") {
    FileFake f = cfile(1, 3, 1, 1); places(f); vec2 laf(1, vec(3)); for (int i = 0; i < 3; i++) laf[0][i] = sv::f32(sv::idx("laf", i).c_str(), 0, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { double d = sv::dabs((double) laf[0][i] - laf[0][j]); sv::assume(le(0.05, d)); sv::assume(lor(le(d, 0.299), le(0.301, d))); } f.setLandFractions(laf);
    cvec4 a = cfill(f, 0); a[0][0][0][0] = 4; a[0][0][1][0] = -2; a[0][0][2][0] = 7; bool nn = sv::flag("nearest"); Par P; P.setParameters(Parameters(vec({0, 1, 1})), 0, Location(50, 0, 0)); P.recomputeTree(); Variable v("v"); cput(f, v, a); run("coastal", v, nn ? "searchRadius=1 minLafDiff=0.3 useNN=1" : "searchRadius=1 minLafDiff=0.3", f, &P); expected(f, laf, a, cget(f, v), 1, 0.3, nn, 0, 1, 1, 1e-2);
}
SV_HARNESS(coefficients, "any coefficients in [-10,10] at 2 places and 2 times, 1x3 cells, 2 members, given values: those of the nearest place at the time") {
    FileFake f = cfile(1, 3, 2, 2); places(f); vec2 laf(1, vec({0, 0.5, 1})); f.setLandFractions(laf); Par P; float c[2][2][3]; for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) { vec p; for (int k = 0; k < 3; k++) p.push_back(c[t][i][k] = sv::f32(sv::idx("c", t * 2 + i, k).c_str(), -10, 10)); P.setParameters(Parameters(p), t, Location(50, i ? 2.2 : 0.1, 0)); } P.recomputeTree();
    cvec4 a = cfill(f, 0); int k = 0; cells(f, [&](int t, int y, int x, int e) { a[t][y][x][e] = ((k++ * 5 + 3) % 12) - 4; }); Variable v("v"); cput(f, v, a); bool nn = sv::flag("nearest"); run("coastal", v, nn ? "searchRadius=1 useNN=1" : "searchRadius=1", f, &P); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { int i = x == 2, lo = std::max(0, x - 1), hi = std::min(2, x + 1); double l = a[t][y][lo][e], h = a[t][y][hi][e], g = (h - l) / (laf[0][hi] - laf[0][lo]), b = nn ? a[t][y][x][e] : l; check(close(r[t][y][x][e], c[t][i][0] + c[t][i][1] * b + c[t][i][2] * g, 1e-2), "coefficients of the nearest place at the time"); });
}
SV_HARNESS(members, "2x2 cells, 2 members, 2 times, one value anywhere symbolic or missing: only the cells that use it, at its member and time, depend on it") {
    FileFake f = cfile(2, 2, 2, 2); places(f); vec2 laf = {{0, 1}, {0.5, 0.25}}; f.setLandFractions(laf); int p = cpos(f); cvec4 a = cspot(f, "v", -50, 50, MISS, p); bool nn = sv::flag("nearest"); Par P; P.setParameters(Parameters(vec({1, 1, 0.5})), 0, Location(50, 0, 0)); P.recomputeTree(); Variable v("v"); cput(f, v, a); run("coastal", v, nn ? "useNN=1" : "", f, &P); expected(f, laf, a, cget(f, v), 3, 0.1, nn, 1, 1, 0.5, 2e-3);
}
typedef std::pair<FieldPtr, FieldPtr> OF;
SV_HARNESS(train, "training on 3 pairs of 1x3 cells, any observations in [-50,50], given forecasts, one value anywhere possibly missing; land fractions with and without contrast: minimises the squared error") {
    int s = sv::integer("contrast", 0, 1); vec2 g1 = {{50, 50, 50}}, g2 = {{0, 1, 2}}, z = {{0, 0, 0}}, laf = {{0, 0.5, s ? 1.f : 0.05f}}; if (!s) laf[0][1] = 0.02; Grid grid; grid.lats(g1); grid.lons(g2); grid.elevs(z); grid.landFractions(laf); bool nn = sv::flag("nearest"); int miss = sv::integer("missing", -1, 3); static const float F[][3] = {{2, 5, 4}, {1, -3, 6}, {-2, 4, -4}, {3, 2, 1}}; int N = 4;
    std::vector<ObsEnsField> D; dvec y, x; for (int i = 0; i < N; i++) { FieldPtr o(new Field(1, 3, 1, 0)), e(new Field(1, 3, 2, 0)); float ob = sv::f32(sv::idx("o", i).c_str(), -50, 50); if (i == 0 && miss == 3) ob = MV; (*o)(0, 1, 0) = ob; for (int c = 0; c < 3; c++) { (*e)(0, c, 0) = F[i][c] - 1; (*e)(0, c, 1) = F[i][c] + 1; if (i == 0 && miss == c) (*e)(0, c, 0) = (*e)(0, c, 1) = MV; } D.push_back(ObsEnsField(o, e));
        double base = F[i][nn ? 1 : 0]; if (i == 0 && (miss == 3 || miss == (nn ? 1 : 0) || (miss == 1))) continue; double g = (F[i][2] - F[i][0]) / (laf[0][2] - laf[0][0]); if (i == 0 && (miss == 0 || miss == 2)) g = 0; y.push_back(ob - base); x.push_back(g); }
    Calibrator* c = Calibrator::getScheme("coastal", Variable("v"), Options(nn ? "useNN=1" : "")); Parameters p = c->train(D, grid, grid, 0, 1, 0, 1); delete c; check(p.size() == 3, "three coefficients"); check(eq(p[1], 1), "the forecast is used as it is"); int n = y.size(); double sy = 0, sx = 0, sxy = 0, sxx = 0; for (int i = 0; i < n; i++) { sy += y[i]; sx += x[i]; sxy += x[i] * y[i]; sxx += x[i] * x[i]; }
    if (s) { double b = (n * sxy - sx * sy) / (n * sxx - sx * sx), a = (sy - b * sx) / n; check(land(close(p[0], a, 1e-2), close(p[2], b, 1e-2)), "least squares"); } else { check(eq(p[2], 0), "no gradient without contrast"); check(close(p[0], sy / n, 1e-3), "mean error without contrast"); }
}
