#include "client.h"
#include "Downscaler/Bilinear.h"
#include "Downscaler/Gradient.h"
#include "Downscaler/Pressure.h"
#include "Downscaler/NearestNeighbour.h"
static bool down(const char* name, const Variable& v, const char* opt, const File& in, File& out) { Downscaler* d = Downscaler::getScheme(name, v, v, Options(opt)); bool r = d->downscale(in, out); delete d; return r; }
static void place(FileFake& f, const vec2& la, const vec2& lo) { f.setLats(la); f.setLons(lo); }
// input grid 2x3 and output points 1x4: near listed cells, one outside the grid, one without a place
static const int NI[] = {0, 1, 1, -1}, NJ[] = {0, 1, 2, -1};
static void grids(FileFake& in, FileFake& out) { place(in, {{50, 50, 50}, {51, 51, 51}}, {{10, 11, 12}, {10, 11, 12}}); place(out, {{50.1f, 50.9f, 53, NaN}}, {{10.2f, 11.3f, 12.5f, 10}}); }
SV_HARNESS(nearest, "2x3 cells to 4 points (one outside, one without a place), 2 members, 2 times, one value anywhere symbolic or missing: each point has the value of its nearest cell") {
    FileFake in = cfile(2, 3, 2, 2), out = cfile(1, 4, 2, 2); grids(in, out); Variable v("v"); int pos = cpos(in); cvec4 a = cspot(in, "v", -50, 50, MISSN, pos); cput(in, v, a); if (sv::flag("existing")) cput(out, v, cfill(out, 5)); bool r = down("nearestNeighbour", v, "", in, out); check(r, "done"); cvec4 g = cget(out, v), b = cget(in, v);
    cells(out, [&](int t, int y, int x, int e) { double z = g[t][y][x][e]; if (x == 3) check(!ok(z), "no place, no value"); else { double w = a[t][NI[x]][NJ[x]][e]; if (ok(w)) check(eq(z, w), "value of the nearest cell"); else check(!ok(z), "missing stays missing"); } });
    cells(in, [&](int t, int y, int x, int e) { check(sv::same(b[t][y][x][e], a[t][y][x][e]), "the input is untouched"); });
}
SV_HARNESS(same_grid, "2x2 cells to the same grid by nearest neighbour, bilinear and smart without elevations, 2 members: the values are copied; different numbers of times are refused") {
    FileFake in = cfile(2, 2, 2, 1), out = cfile(2, 2, 2, 1); Variable v("v"); int pos = cpos(in), k = sv::integer("scheme", 0, 2); cvec4 a = cspot(in, "v", -50, 50, k == 1 ? FIN : MISSN, pos); cput(in, v, a); vec2 m(2, vec(2, MV)); out.setElevs(m); down(k == 0 ? "nearestNeighbour" : k == 1 ? "bilinear" : "smart", v, "", in, out); cvec4 g = cget(out, v);
    cells(out, [&](int t, int y, int x, int e) { if (ok(a[t][y][x][e])) check(close(g[t][y][x][e], a[t][y][x][e], 1e-3), "copied"); else check(!ok(g[t][y][x][e]), "missing stays missing"); });
    FileFake two = cfile(2, 2, 2, 2); check(!down("nearestNeighbour", v, "", in, two), "other number of times is refused");
}
SV_HARNESS(bypass, "a new variable is missing everywhere; an existing one is left alone") {
    FileFake in = cfile(2, 2, 2, 2), out = cfile(1, 2, 2, 2); Variable v("v"); cput(in, v, cfill(in, 3)); int pos = cpos(out); cvec4 a = cspot(out, "v", -50, 50, MISSN, pos); cput(out, v, a); down("bypass", v, "", in, out); cvec4 g = cget(out, v); cells(out, [&](int t, int y, int x, int e) { check(sv::same(g[t][y][x][e], a[t][y][x][e]), "left alone"); });
}
// great-circle comparison through the chord, in double precision, independent of the code
static double chord(double la, double lo, double lb, double mo) { double r = 3.14159265358979323846 / 180, x = std::cos(la * r) * std::cos(lo * r) - std::cos(lb * r) * std::cos(mo * r), y = std::cos(la * r) * std::sin(lo * r) - std::cos(lb * r) * std::sin(mo * r), z = std::sin(la * r) - std::sin(lb * r); return std::sqrt(x * x + y * y + z * z); }
SV_HARNESS(tree, "6 listed sets of cells (regular, rotated, around a pole, across the date line, on the equator, with a missing place) and 8 query points each: the nearest cell by great circle, all values symbolic") {
    static const float LA[6][6] = {{50, 50, 50, 51, 51, 51}, {60, 60.5f, 61, 60.8f, 61.3f, 61.8f}, {85, 88, 84, 89, 86, 87}, {-2, -2, -2, 3, 3, 3}, {0, 0, 0, 0, 0, 0}, {50, 50, 50, NaN, 51, 51}};
    static const float LO[6][6] = {{10, 11, 12, 10, 11, 12}, {10, 11, 12, 9, 10, 11}, {0, 90, 170, -100, -170, 40}, {178, 179.5f, -179, 178, 179.5f, -179}, {-150, -60, 0, 60, 120, 175}, {10, 11, 12, 10, 11, 12}};
    static const float QA[6][8] = {{50.1f, 50.6f, 49, 60, 51.2f, 50.2f, 0, -50}, {60.1f, 60.7f, 61, 62, 61.5f, 60.2f, 0, 89}, {85, 89.5f, 87, 80, 86, 88, 84.5f, 60}, {0, 1, 2, -3, -1, 0.2f, 3.5f, 10}, {0, 1, 5, -9, 3, 2, -1, 80}, {50.1f, 50.9f, 51.4f, 51, 50.2f, 52, 50.4f, 51}};
    static const float QO[6][8] = {{10.2f, 11.4f, 11.7f, 10.9f, 12.6f, -170, 100, 31}, {10.3f, 10.4f, 9.1f, 11.2f, 10.6f, 178, 30, 77}, {178, 60, 100, -135, 179, -60, 175, -140}, {-179.8f, 179.9f, -178, 178.9f, 179.1f, -170, 177, 3}, {-179, 178, -100, 20, 95, -10, 31, -178}, {10.1f, 10.2f, 10.1f, 10.4f, 10.6f, 11.7f, 11.4f, 12.2f}};
    int k = sv::integer("cells", 0, 5), n = k == 2 || k == 4 ? 1 : 2; FileFake in = cfile(n, 6 / n, 1, 1), out = cfile(1, 8, 1, 1); vec2 la(n, vec(6 / n)), lo = la; for (int i = 0; i < 6; i++) { la[i / (6 / n)][i % (6 / n)] = LA[k][i]; lo[i / (6 / n)][i % (6 / n)] = LO[k][i]; }
    place(in, la, lo); place(out, {vec(QA[k], QA[k] + 8)}, {vec(QO[k], QO[k] + 8)}); Variable v("v"); cvec4 a = csym(in, "v", -50, 50, FIN); cput(in, v, a); down("nearestNeighbour", v, "", in, out); cvec4 g = cget(out, v);
    for (int q = 0; q < 8; q++) { double b = 9; for (int i = 0; i < 6; i++) if (LA[k][i] == LA[k][i]) b = std::min(b, chord(QA[k][q], QO[k][q], LA[k][i], LO[k][i])); sv::B any = sv::mk(false); for (int i = 0; i < 6; i++) if (LA[k][i] == LA[k][i] && chord(QA[k][q], QO[k][q], LA[k][i], LO[k][i]) < b + 1e-5) any = lor(any, eq(g[0][0][q][0], a[0][i / (6 / n)][i % (6 / n)][0])); check(any, "value of a nearest cell"); }
}
// bilinear: grid with increasing or decreasing coordinates; a query anywhere within reach of its nearest cell
static void bil(int Y, int X, bool up, bool right, bool vector, bool missing) {
    sv::merge(false); vec2 la(Y, vec(X)), lo = la; for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) { la[i][j] = 50 + (up ? i : -i); lo[i][j] = 10 + 2 * (right ? j : -j); }
    int I = sv::integer("row", 0, Y - 1), J = sv::integer("column", 0, X - 1); float u = sv::f32("lat", -1, 1), w = sv::f32("lon", -2, 2); sv::B t1 = le(-0.5, u), t2 = le(u, 0.5); // nearest within the grid, but free beyond its edge
    int lowI = up ? 0 : Y - 1, highI = up ? Y - 1 : 0, lowJ = right ? 0 : X - 1, highJ = right ? X - 1 : 0; if (I != lowI) sv::assume(t1); if (I != highI) sv::assume(t2); if (J != lowJ) sv::assume(le(-1, w)); if (J != highJ) sv::assume(le(w, 1));
    float qa = la[I][J] + u, qo = lo[I][J] + w; vec2 v(Y, vec(X)); for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) v[i][j] = sv::f32(sv::idx("v", i * X + j).c_str(), -10, 10); int mi = missing ? sv::integer("missing", 0, X * Y - 1) : -1; if (missing) v[mi / X][mi % X] = MV;
    double g; vec2Int NI2(1, std::vector<int>(1, I)), NJ2(1, std::vector<int>(1, J)); if (vector) g = DownscalerBilinear::downscaleVec(v, la, lo, {{qa}}, {{qo}}, NI2, NJ2)[0][0]; else { Field a(Y, X, 1), b(1, 1, 1); for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) a(i, j, 0) = v[i][j]; DownscalerBilinear::downscaleField(a, b, la, lo, {{qa}}, {{qo}}, NI2, NJ2); g = b(0, 0, 0); }
    // reference: the other row and column of the box that holds the query
    bool above = sv::decide(lt(0, u)), east = sv::decide(lt(0, w)); int I2 = I + (above == up ? 1 : -1), J2 = J + (east == right ? 1 : -1); bool oI = I2 < 0 || I2 >= Y, oJ = J2 < 0 || J2 >= X; double du = sv::dabs(u), dw = sv::dabs(w) / 2;
    sv::B near = ok(v[I][J]) ? eq(g, v[I][J]) : sv::mk(!ok(g)); sv::B onr = eq(u, 0), onc = eq(w, 0);
    if (oI || oJ) { sv::B line = sv::mk(false); // on the edge itself either the edge's own interpolation or the nearest value
        if (oI && !oJ && ok(v[I][J]) && ok(v[I][J2])) line = land(onr, close(g, v[I][J] * (1 - dw) + v[I][J2] * dw, 1e-2)); if (oJ && !oI && ok(v[I][J]) && ok(v[I2][J])) line = land(onc, close(g, v[I][J] * (1 - du) + v[I2][J] * du, 1e-2)); if (oI && oJ) line = land(land(onr, onc), near);
        if (!ok(g)) check(lor(near, sv::mk(missing)), "a value"); else check(lor(near, line), "outside the grid: the nearest value"); return; }
    bool any = !ok(v[I][J]) || !ok(v[I2][J]) || !ok(v[I][J2]) || !ok(v[I2][J2]); if (any) { check(lor(sv::mk(!ok(g)), near), "with a missing corner: missing or the nearest value"); return; } if (!ok(g)) { check(lor(onr, onc) , "a value"); return; }
    double s = v[I][J] * (1 - du) * (1 - dw) + v[I2][J] * du * (1 - dw) + v[I][J2] * (1 - du) * dw + v[I2][J2] * du * dw; check(close(g, s, 1e-2), "the bilinear value of the box around the point");
}
SV_HARNESS(bilinear_2x2, "2x2 cells of increasing or decreasing coordinates, any values in [-10,10], any query within reach of its nearest cell, inside or outside; field and vector forms") { bil(2, 2, sv::flag("up"), sv::flag("right"), sv::flag("vector"), false); }
SV_HARNESS(bilinear_3x3, "as bilinear_2x2 on 3x3 cells") { bil(3, 3, sv::flag("up"), sv::flag("right"), sv::flag("vector"), false); }
SV_HARNESS(bilinear_shapes, "as bilinear_2x2 on 1x1, 1x3, 3x1, 2x3, 3x2 cells") { static const int S[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}}; int k = sv::integer("shape", 0, 4); bil(S[k][0], S[k][1], sv::flag("up"), sv::flag("right"), false, false); }
SV_HARNESS(bilinear_missing, "2x3 cells, one of them missing; field and vector forms") { bil(2, 3, true, sv::flag("right"), sv::flag("vector"), true); }
SV_HARNESS(bilinear_noplace, "a point without a place gets a missing value, the others their own; 2 members, 2 times") {
    FileFake in = cfile(2, 3, 2, 2), out = cfile(1, 4, 2, 2); grids(in, out); Variable v("v"); int pos = cpos(in); cvec4 a = cspot(in, "v", -50, 50, FIN, pos); cput(in, v, a); down("bilinear", v, "", in, out); cvec4 g = cget(out, v); static const double FU[] = {0.1, 0.9}, FW[] = {0.2, 0.3}; static const int J0[] = {0, 1};
    cells(out, [&](int t, int y, int x, int e) { double z = g[t][y][x][e]; if (x == 3) check(!ok(z), "no place, no value"); else if (x == 2) check(close(z, a[t][1][2][e], 1e-3), "outside: nearest"); else { double u = FU[x], w = FW[x]; int j = J0[x]; check(close(z, (a[t][0][j][e] * (1 - w) + a[t][0][j + 1][e] * w) * (1 - u) + (a[t][1][j][e] * (1 - w) + a[t][1][j + 1][e] * w) * u, 1e-2), "bilinear value of its time and member"); } });
}
SV_HARNESS(bilinear_quad, "parallelograms, trapezoids and a general quadrilateral (6 listed), any point inside (by its fractions; on 4 lines for the last three), values linear in the coordinates: reproduced, and any values (by unit values): between the extremes") {
    static const float Q[6][8] = {{0, 0, 1, 1, 0, 1, 0, 1}, {0, 0.25f, 2, 2.25f, 0, 1, 0.125f, 1.125f}, {0, -0.5f, 1, 0.5f, 0, 1, 0, 1}, {0, 0.25f, 2, 1.5f, 0, 1, 0, 1}, {0, 0, 2, 2, 0, 1, 0.25f, 1.5f}, {0, 0.125f, 1.25f, 1, 0, 1, 0.125f, 1.25f}}; // x0..x3, y0..y3 (point 1 above 0, 3 above 2)
    int k = sv::integer("quad", 0, 5); const float* x = Q[k]; const float* y = Q[k] + 4; float s = sv::f32("s", 0, 1), t = sv::f32("t", 0, 1); bool lin = sv::flag("linear"); int side = sv::integer("line", 0, 3); double S = s, T = t; if (k >= 3) { if (side == 0) S = 0.25; if (side == 1) T = 0.625; if (side == 2) S = 0; if (side == 3) T = 1; }
    float px = (x[0] * (1 - T) + x[1] * T) * (1 - S) + (x[2] * (1 - T) + x[3] * T) * S, py = (y[0] * (1 - T) + y[1] * T) * (1 - S) + (y[2] * (1 - T) + y[3] * T) * S; int unit = sv::integer("unit", 0, lin ? 1 : 3); float v[4], cx = unit < 0 ? sv::f32("cx", -5, 5) : unit == 0, cy = unit < 0 ? sv::f32("cy", -5, 5) : unit == 1; double lo = 99, hi = -99; // the weights do not depend on the values: unit values are enough
    for (int i = 0; i < 4; i++) { if (lin) v[i] = i == 0 ? 0 : (x[i] - x[0]) * cx + (y[i] - y[0]) * cy; else v[i] = unit < 0 ? sv::f32(sv::idx("v", i).c_str(), -10, 10) : i == unit; lo = sv::dmin(lo, v[i]); hi = sv::dmax(hi, v[i]); }
    double g = DownscalerBilinear::bilinear(px, py, x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3], v[0], v[1], v[2], v[3]); check(le(lo - 1e-3, g), "not below the lowest"); check(le(g, hi + 1e-3), "not above the highest"); if (lin) check(close(g, (px - x[0]) * cx + (py - y[0]) * cy, 5e-2), "linear fields are reproduced");
}
SV_HARNESS(pressure, "2x3 cells to 4 points, one value or elevation symbolic or missing: the standard atmosphere between the elevations") {
    FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 4, 1, 1); grids(in, out); Variable v("p"); int pos = cpos(in); cvec4 a = cspot(in, "p", 50000, 110000, MISSN, pos); cput(in, v, a); bool missing = sv::flag("elevation_missing"); vec2 ie(2, vec(3, missing ? MV : 100)), oe(1, vec(4)); int where = sv::integer("where", 0, 3); for (int i = 0; i < 4; i++) oe[0][i] = i == where ? cval("z", -400, 4000, MISSN) : 300 * i; in.setElevs(ie); out.setElevs(oe); down("pressure", v, "", in, out); cvec4 g = cget(out, v);
    for (int x = 0; x < 4; x++) { double z = g[0][0][x][0]; if (x == 3) { check(!ok(z), "no place, no value"); continue; } double p = a[0][NI[x]][NJ[x]][0]; if (!ok(p)) { check(!ok(z), "missing stays missing"); continue; } if (missing || !ok(oe[0][x])) { check(eq(z, p), "nearest value without elevations"); continue; } check(ok(z), "valid"); if (!ok(z)) continue; double h = oe[0][x]; check(lt(0, z), "positive"); check(imp(eq(h, 100), close(z, p, 1)), "the same elevation, the same pressure"); check(imp(le(101, h), lt(z, p)), "less above"); check(imp(le(h, 99), lt(p, z)), "more below"); check(imp(le(h, 4000), le(0.6 * p, z)), "not below the standard atmosphere's share"); }
}
static double weight(const dvec& d, int k, int num) { double c = 0; for (size_t i = 0; i < d.size(); i++) if ((int) i != k) c += sv::ite(lt(d[i], d[k]), 1.0, 0.0); return sv::ite(lt(c, num), 1.0, 0.0); }
SV_HARNESS(smart, "1x4 cells, any elevations in [0,1000] at least 0.1 apart in difference (one possibly missing), values in [-50,50], one possibly missing; 1 point, radius 1 or 3, 1 to 3 neighbours, with or without a minimum difference") {
    sv::merge(false); FileFake in = cfile(1, 4, 1, 1), out = cfile(1, 1, 1, 1); place(in, {{50, 50, 50, 50}}, {{10, 11, 12, 13}}); place(out, {{50}}, {{11.2f}}); Variable v("v"); int num = sv::integer("num", 1, 3); bool wide = sv::flag("wide"), mind = sv::flag("minimum"); int m = sv::integer("missing", 0, 2); vec2 el(1, vec(4)); dvec d; cvec4 a = csym(in, "v", -50, 50, FIN); if (m == 1) a[0][0][2][0] = MV; int n = wide ? 4 : 3;
    for (int i = 0; i < 4; i++) { el[0][i] = i < n ? sv::f32(sv::idx("z", i).c_str(), 0, 1000) : 500; if (m == 2 && i == 2) el[0][i] = MV; if (i < n) d.push_back(m == 2 && i == 2 ? 1e10 : sv::dabs(el[0][i] - 300)); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sv::assume(le(0.1, sv::dabs(d[i] - d[j]))); if (mind) sv::assume(le(0.1, sv::dabs(d[1] - 50)));
    cput(in, v, a); in.setElevs(el); out.setElevs({{300}}); char o[80]; snprintf(o, 80, "radius=%d num=%d%s", wide ? 3 : 1, num, mind ? " minElevDiff=50" : ""); down("smart", v, o, in, out); double g = cget(out, v)[0][0][0][0]; if (mind && sv::decide(le(d[1], 50))) { check(eq(g, a[0][0][1][0]), "the nearest cell when it is close enough"); return; }
    double s = 0, c = 0; for (int i = 0; i < n; i++) { double w = weight(d, i, num); if (!ok(a[0][0][i][0])) continue; s += sv::ite(lt(0.5, w), a[0][0][i][0], 0.0); c += w; } if (sv::decide(lt(c, 0.5))) { check(!ok(g), "missing when nothing is valid"); return; } check(ok(g), "a value"); if (!ok(g)) return; int k = sv::decide(lt(c, 1.5)) ? 1 : sv::decide(lt(c, 2.5)) ? 2 : 3; check(close(g * k, s, 1e-2), "mean of the valid values at the cells closest in elevation");
}
SV_HARNESS(smart_plain, "2x3 cells to 4 points, elevations of the points missing or one without a place: nearest neighbour; 2 members, 2 times") {
    FileFake in = cfile(2, 3, 2, 2), out = cfile(1, 4, 2, 2); grids(in, out); Variable v("v"); int pos = cpos(in); cvec4 a = cspot(in, "v", -50, 50, MISSN, pos); cput(in, v, a); bool one = sv::flag("by_elevation"); vec2 oe(1, vec(4, one ? 10 : MV)), ie(2, vec(3)); for (int i = 0; i < 6; i++) ie[i / 3][i % 3] = 100 * i; in.setElevs(ie); out.setElevs(oe); down("smart", v, "radius=2 num=1", in, out); cvec4 g = cget(out, v);
    cells(out, [&](int t, int y, int x, int e) { double z = g[t][y][x][e]; if (x == 3) { check(!ok(z), "no place, no value"); return; } double w = one ? a[t][0][0][e] : a[t][NI[x]][NJ[x]][e]; if (ok(w)) check(close(z, w, 1e-3), "value of the chosen cell"); else check(!ok(z), "missing stays missing"); });
}
// gradient
static void three(FileFake& in, FileFake& out) { place(in, {{50, 50, 50}, {51, 51, 51}}, {{10, 11, 12}, {10, 11, 12}}); place(out, {{50.2f}}, {{11.1f}}); in.setLandFractions(vec2(2, vec(3, 1))); out.setLandFractions({{1}}); } // nearest cell: 0,1
SV_HARNESS(gradient, "2x3 cells of 5 sets of elevations (some with sea level, ties, missing), any values in [-50,50], one possibly missing: the nearest value plus the least-squares gradient times the elevation difference") {
    static const float Z[5][6] = {{0, 0, 100, 0, 0, 0}, {10, 250, 400, 90, 120, 700}, {100, 100, 100, 100, 200, 200}, {50, 60, 55, 52, 58, 70}, {0, 300, MV, 200, 0, MV}}; int k = sv::integer("elevations", 0, 4), m = sv::integer("missing", 0, 6); FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 1, 1, 1); three(in, out); Variable v("v"); cvec4 a = csym(in, "v", -50, 50, FIN); if (m < 6) a[0][m / 3][m % 3][0] = MV; vec2 ie(2, vec(3)); for (int i = 0; i < 6; i++) ie[i / 3][i % 3] = Z[k][i]; in.setElevs(ie); out.setElevs({{150}}); cput(in, v, a);
    bool def = sv::flag("default"); down("gradient", v, def ? "elevRadius=1 defaultElevGradient=0.01" : "elevRadius=1", in, out); double g = cget(out, v)[0][0][0][0], b = a[0][0][1][0]; if (!ok(b)) { check(!ok(g), "missing stays missing"); return; } int n = 0; double sx = 0, lo = 1e9, hi = -1e9, sy = 0, sxy = 0, sxx = 0; for (int i = 0; i < 6; i++) { double y = a[0][i / 3][i % 3][0], x = Z[k][i]; if (!ok(y) || x == -999) continue; n++; sx += x; lo = std::min(lo, x); hi = std::max(hi, x); } for (int i = 0; i < 6; i++) { double y = a[0][i / 3][i % 3][0], x = Z[k][i]; if (!ok(y) || x == -999) continue; sy += y; sxx += (x - sx / n) * (x - sx / n); sxy += (x - sx / n) * y; }
    double slope = n >= 2 && hi - lo >= 30 ? sxy / sxx : def ? 0.01 : 0.0, base = Z[k][1]; check(close(g, b + slope * (150 - base), 5e-2), "nearest value plus gradient times elevation difference");
}
SV_HARNESS(gradient_linear, "2x3 cells of any elevations in [0,2000] (range at least 40 m), values linear in elevation: extrapolated exactly; a smaller range: the nearest value") {
    sv::merge(false); FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 1, 1, 1); three(in, out); Variable v("v"); float z0 = sv::f32("z0", 0, 2000), z1 = sv::f32("z1", 0, 2000), zo = sv::f32("zo", 0, 2000); static const float R[] = {-0.0065f, 0, 0.01f}; float r = R[sv::integer("rate", 0, 2)]; bool range = sv::decide(le(40, sv::dabs(z1 - z0))); if (!range) sv::assume(le(sv::dabs(z1 - z0), 20)); vec2 ie = {{z0, z1, z0}, {z0, z0, z1}}; cvec4 a = cfill(in, 0); for (int i = 0; i < 6; i++) a[0][i / 3][i % 3][0] = 280 + ie[i / 3][i % 3] * r; cput(in, v, a); in.setElevs(ie); out.setElevs({{zo}}); down("gradient", v, "elevRadius=1", in, out); double g = cget(out, v)[0][0][0][0];
    if (range) check(close(g, 280 + zo * r, 0.1), "linear profiles are continued"); else check(close(g, a[0][0][1][0], 0.01), "too flat: the nearest value");
}
SV_HARNESS(gradient_options, "1 point, constant gradient; limits on the gradient; limits of the variable; limit to the neighbourhood; log transform; 2x3 cells, 1 to 3 symbolic values in [-20,20], elevation of the point in [0,1000] (3 listed where the gradient is estimated or the value limited)") {
    int k = sv::integer("case", 0, 5); FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 1, 1, 1); three(in, out); Variable v = k == 3 ? Variable("v", 0, 20, "", "") : Variable("v"); static const float ZO[] = {0, 250, 1000}; bool lim = k == 1 || k == 2 || k == 4; float zo = lim ? ZO[sv::integer("zo", 0, 2)] : sv::f32("zo", 0, 1000); in.setElevs({{0, 100, 0}, {0, 0, 0}}); out.setElevs({{zo}}); cvec4 a = cfill(in, 3); a[0][0][0][0] = 1; a[0][1][2][0] = -1; a[0][0][1][0] = sv::f32("v", k == 3 ? 0 : -20, 20); if (lim) a[0][1][0][0] = sv::f32("w", -20, 20); if (k == 4) a[0][0][2][0] = sv::f32("x", -20, 20); cput(in, v, a); double b = a[0][0][1][0], d = zo - 100;
    if (k == 4) { int m = sv::integer("missing", 0, 5); if (m != 1) { a[0][m / 3][m % 3][0] = MV; cput(in, v, a); } }
    static const char* O[] = {"constantElevGradient=0.01", "elevRadius=1 minElevGradient=-0.02", "elevRadius=1 maxElevGradient=0.01", "constantElevGradient=0.02", "constantElevGradient=0.05 limit=1 elevRadius=1", "constantElevGradient=0.001 logTransform=1"}; down("gradient", v, O[k], in, out); double g = cget(out, v)[0][0][0][0]; double others = a[0][0][0][0] + a[0][0][2][0] + a[0][1][0][0] + a[0][1][1][0] + a[0][1][2][0], s = k == 4 ? 0 : (b - others / 5) / 100;
    if (k == 0) check(close(g, b + 0.01 * d, 1e-2), "constant gradient"); if (k == 1) check(close(g, b + sv::dmax(s, -0.02) * d, 0.05), "gradient not below its limit"); if (k == 2) check(close(g, b + sv::dmin(s, 0.01) * d, 0.05), "gradient not above its limit");
    if (k == 3) { double w = b + 0.02 * d; sv::assume(land(le(1e-3, sv::dabs(w)), le(1e-3, sv::dabs(w - 20)))); check(close(g, sv::ite(lor(lt(w, 0), lt(20, w)), b, w), 1e-2), "outside the variable's domain: the nearest value"); }
    if (k == 4) { double lo = 99, hi = -99; for (int i = 0; i < 6; i++) { double y = a[0][i / 3][i % 3][0]; if (ok(y)) { lo = sv::dmin(lo, y); hi = sv::dmax(hi, y); } } check(close(g, sv::dmin(hi, sv::dmax(lo, b + 0.05 * d)), 1e-2), "kept within the range of the neighbourhood"); }
    if (k == 5) { check(imp(eq(d, 0), close(g, b, 1e-2)), "no difference, no change"); check(le(0, g * b), "the sign is kept"); check(imp(land(le(1, b), le(1, d)), lt(b, g)), "grows with a positive gradient"); }
}
SV_HARNESS(gradient_members, "2x3 cells to 4 points, constant gradient, 2 members, 2 times, one value anywhere symbolic or missing; elevations missing or not; a point without a place") {
    FileFake in = cfile(2, 3, 2, 2), out = cfile(1, 4, 2, 2); grids(in, out); Variable v("v"); int pos = cpos(in); cvec4 a = cspot(in, "v", -50, 50, MISSN, pos); cput(in, v, a); int k = sv::integer("elevation", 0, 2); in.setElevs(vec2(2, vec(3, k == 1 ? MV : 10))); out.setElevs(vec2(1, vec(4, k == 2 ? MV : 110))); bool bi = sv::flag("bilinear") && false; (void) bi; down("gradient", v, "constantElevGradient=0.01", in, out); cvec4 g = cget(out, v);
    cells(out, [&](int t, int y, int x, int e) { double z = g[t][y][x][e]; if (x == 3) { check(!ok(z), "no place, no value"); return; } double w = a[t][NI[x]][NJ[x]][e]; if (!ok(w)) check(!ok(z), "missing stays missing"); else check(close(z, w + (k ? 0 : 1), 1e-2), "nearest value plus gradient times elevation difference"); });
}
SV_HARNESS(gradient_land, "2x3 cells with 4 sets of land fractions, any values in [-20,20], one possibly missing, radius 1 and 1,2; limits of the gradient: the nearest value plus the land gradient times the difference in land fraction") {
    static const float L[4][6] = {{0, 0.4f, 1, 0.2f, 0.6f, 0.8f}, {0.5f, 0.5f, 0.52f, 0.5f, 0.5f, 0.5f}, {1, 0.9f, 0.3f, 0.7f, 0.75f, 0.8f}, {0.1f, 0.8f, MV, 0.3f, 0.2f, 0.9f}}; int k = sv::integer("land", 0, 3), m = sv::integer("missing", 0, 6), o = sv::integer("options", 0, 3); FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 1, 1, 1); three(in, out); in.setElevs(vec2(2, vec(3, 10))); out.setElevs({{10}}); Variable v("v"); cvec4 a = csym(in, "v", -20, 20, FIN); if (m < 6) a[0][m / 3][m % 3][0] = MV; cput(in, v, a); vec2 il(2, vec(3)); for (int i = 0; i < 6; i++) il[i / 3][i % 3] = L[k][i]; in.setLandFractions(il); out.setLandFractions({{0.65f}});
    static const char* O[] = {"lafSearchRadii=1", "lafSearchRadii=1,2 lafWeights=1,3", "lafSearchRadii=1 minLafGradient=-5 maxLafGradient=7", "lafSearchRadii=1 minFracSeaPoints=0.5"}; down("gradient", v, O[o], in, out); double g = cget(out, v)[0][0][0][0], b = a[0][0][1][0]; if (!ok(b)) { check(!ok(g), "missing stays missing"); return; }
    int lo = -1, hi = -1, n = 0, sea = 0; for (int i = 0; i < 6; i++) { if (i == m) continue; n++; if (L[k][i] == -999) continue; sea += L[k][i] < 0.5f; if (lo < 0 || L[k][i] < L[k][lo]) lo = i; if (hi < 0 || L[k][i] > L[k][hi]) hi = i; } double w = b; if (lo >= 0 && L[k][hi] - L[k][lo] >= 0.1f && (o != 3 || sea * 2 >= n)) { double s = (a[0][hi / 3][hi % 3][0] - a[0][lo / 3][lo % 3][0]) / (L[k][hi] - L[k][lo]); if (o == 2) s = sv::dmin(7, sv::dmax(-5, s)); w = b + s * (0.65 - L[k][1]); } check(close(g, w, 2e-2), "nearest value plus land gradient times difference in land fraction");
}
SV_HARNESS(upscale, "2x3 cells of any values (up to 2 missing) to 2 cells: the statistic of the valid values at the cells nearest to each; 7 statistics") {
    FileFake in = cfile(2, 3, 1, 1), out = cfile(1, 2, 1, 1); place(in, {{50, 50, 50}, {51, 51, 51}}, {{10, 11, 12}, {10, 11, 12}}); place(out, {{50.5f, 50.5f}}, {{10.2f, 12.5f}}); Variable v("v"); int k = sv::integer("stat", 0, 6), m = sv::integer("missing", 0, 6); cvec4 a = csym(in, "v", k == 4 ? -5 : -50, k == 4 ? 5 : 50, FIN); if (m < 6) { a[0][m / 3][m % 3][0] = MV; a[0][1][2][0] = NaN; } cput(in, v, a); char o[60]; snprintf(o, 60, "stat=%s%s", STATN[k], k == 6 ? " quantile=0.3" : ""); down("upscale", v, o, in, out); cvec4 g = cget(out, v);
    for (int x = 0; x < 2; x++) { dvec w; for (int i = 0; i < 6; i++) if ((i % 3 == 2) == (x == 1) && ok(a[0][i / 3][i % 3][0])) w.push_back(a[0][i / 3][i % 3][0]); cstat(g[0][0][x][0], w, STATT[k], 0.3, 1e-2, "statistic of the cells nearest to the point"); }
}
SV_HARNESS(upscale_members, "4 cells to 3 points (one without any cell), 2 members, 2 times, one value anywhere symbolic or missing: mean of each member and time") {
    FileFake in = cfile(1, 4, 2, 2), out = cfile(1, 3, 2, 2); place(in, {{50, 50, 50, 50}}, {{10, 11, 12, 13}}); place(out, {{50, 50, 60}}, {{10.6f, 12.6f, 10}}); Variable v("v"); int pos = cpos(in); cvec4 a = cspot(in, "v", -50, 50, MISSN, pos); cput(in, v, a); down("upscale", v, "", in, out); cvec4 g = cget(out, v); cells(out, [&](int t, int y, int x, int e) { dvec w; if (x < 2) for (int i = 0; i < 2; i++) if (ok(a[t][0][2 * x + i][e])) w.push_back(a[t][0][2 * x + i][e]); cstat(g[t][y][x][e], w, Util::StatTypeMean, 0, 1e-3, "mean of its own member and time"); });
}
SV_HARNESS(bilinear_beyond, "unit square and two parallelograms, points up to 0.15 beyond an edge or a corner: the value on the nearest edge (by unit values)") {
    static const float Q[3][8] = {{0, 0, 1, 1, 0, 1, 0, 1}, {0, 0.25f, 2, 2.25f, 0, 1, 0.125f, 1.125f}, {0, -0.5f, 1, 0.5f, 0, 1, 0, 1}}; const float* x = Q[sv::integer("quad", 0, 2)]; const float* y = x + 4; double S = sv::f32("s", -0.15, 1.15), T = sv::f32("t", -0.15, 1.15); int u = sv::integer("unit", 0, 3); float v[4]; for (int i = 0; i < 4; i++) v[i] = i == u;
    float px = x[0] + (x[1] - x[0]) * T + (x[2] - x[0]) * S, py = y[0] + (y[1] - y[0]) * T + (y[2] - y[0]) * S; double c = sv::dmax(0, sv::dmin(1, S)), d = sv::dmax(0, sv::dmin(1, T)), e = (u & 2 ? c : 1 - c) * (u & 1 ? d : 1 - d); check(close(DownscalerBilinear::bilinear(px, py, x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3], v[0], v[1], v[2], v[3]), e, 1e-2), "value on the nearest edge");
}
SV_HARNESS(pressure_function, "any elevations in [-400,4000], pressure in [30000,110000], each possibly missing: valid exactly where all are, unchanged between equal elevations, decreasing with elevation, and proportional to the pressure") {
    float a = cval("from", -400, 4000, MISSN), b = cval("to", -400, 4000, MISSN), p = cval("p", 30000, 110000, MISSN); double r = DownscalerPressure::calcPressure(a, p, b); bool good = ok(a) && ok(b) && ok(p); check(good == ok(r), "valid exactly where all inputs are"); if (!good || !ok(r)) return; check(lt(0, r), "positive"); if (sv::decide(eq(a, b))) check(close(r, p, 0.05), "unchanged at the same elevation"); else if (sv::decide(le(a + 1.0, b))) check(lt(r, p), "lower above"); else if (sv::decide(le(b + 1.0, a))) check(lt(p, r), "higher below"); double half = DownscalerPressure::calcPressure(a, p / 2, b); check(close(half * 2, r, 0.5), "proportional to the pressure");
}
