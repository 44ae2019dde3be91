// C46: the client's pointwise calibrators: cloud, qc, threshold, phase, sort, diagnoseWind, qnh, diagnoseHumidity
#include "client.h"
#include "Calibrator/Phase.h"
static const char* opt(const char* fmt, ...) { static char b[500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
SV_HARNESS(cloud, "1x2 cells, 2 members, 2 times, one value anywhere symbolic; precipitation and cloud in [0,3] or missing; minimum cloud 1 (default), 0.5, 2") {
    FileFake f = cfile(1, 2, 2, 2); Variable c("cloud"), p("precip"); int pos = cpos(f); cvec4 a = cspot(f, "c", 0, 3, MISSN, pos), b = cspot(f, "p", -1, 3, MISSN, pos); cput(f, c, a); cput(f, p, b); int k = sv::integer("option", 0, 2); static const float V[] = {1, 0.5, 2}; run("cloud", c, k ? opt("precipVariable=precip value=%g", V[k]) : "precipVariable=precip", f); cvec4 r = cget(f, c), q = cget(f, p);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], o = a[t][y][x][e], w = b[t][y][x][e]; check(sv::same(q[t][y][x][e], w), "precipitation is left alone"); if (!ok(o) || !ok(w)) check(sv::same(g, o), "unchanged where either is missing"); else check(eq(g, sv::ite(land(lt(0, w), lt(o, V[k])), V[k], o)), "at least the minimum where it rains, else unchanged"); });
}
SV_HARNESS(qc, "1x2 cells, 2 members, 2 times; one value anywhere symbolic in [-100,100] or missing; lower and upper bound given or not") {
    FileFake f = cfile(1, 2, 2, 2); Variable v("v"); int pos = cpos(f); cvec4 a = cspot(f, "v", -100, 100, MISSN, pos); cput(f, v, a); bool lo = sv::flag("min"), hi = sv::flag("max"); char o[60]; snprintf(o, 60, "%s%s", lo ? "min=-7.5 " : "", hi ? "max=20" : ""); run("qc", v, o, f); cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], o = a[t][y][x][e]; if (!ok(o)) check(sv::same(g, o), "missing stays missing"); else { double w = o; if (lo) w = sv::dmax(w, -7.5); if (hi) w = sv::dmin(w, 20); check(eq(g, w), "clamped to the bounds that are given"); } });
}
SV_HARNESS(threshold, "1 cell, 2 members, 2 times; one value anywhere symbolic in [-100,100] or missing; 1 or 3 thresholds; upper edge included or not for each") {
    FileFake f = cfile(1, 1, 2, 2); Variable v("v"); int pos = cpos(f); cvec4 a = cspot(f, "v", -100, 100, MISSN, pos); cput(f, v, a); bool three = sv::flag("three"); int eq_ = sv::integer("equals", 0, 8); static const float T[] = {-3, 0.5, 11}, V[] = {7, -2, 4, 100};
    if (eq_ == 8) run("threshold", v, three ? "thresholds=-3,0.5,11 values=7,-2,4,100" : "thresholds=-3 values=7,-2", f); else run("threshold", v, three ? opt("thresholds=-3,0.5,11 values=7,-2,4,100 equals=%d,%d,%d", eq_ & 1, eq_ / 2 & 1, eq_ / 4 & 1) : opt("thresholds=-3 values=7,-2 equals=%d", eq_ & 1), f); if (eq_ == 8) eq_ = 0; cvec4 r = cget(f, v); int n = three ? 3 : 1;
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], o = a[t][y][x][e]; if (!ok(o)) { check(sv::same(g, o), "missing stays missing"); return; } double w = V[n]; for (int i = n - 1; i >= 0; i--) w = sv::ite(eq_ >> i & 1 ? le(o, T[i]) : lt(o, T[i]), V[i], w); check(eq(g, w), "the value of the range that contains the input"); });
}
SV_HARNESS(phase, "1x2 cells, 2 members, 2 times, one position symbolic; temperature in [260,290], precipitation in [0,5], either missing; default and other thresholds") {
    FileFake f = cfile(1, 2, 2, 2); Variable v("phase"), T("temp"), P("precip"); int pos = cpos(f); cvec4 t0 = cspot(f, "t", 260, 290, MISSN, pos), p0 = cspot(f, "p", 0, 5, MISSN, pos); cput(f, T, t0); cput(f, P, p0); bool d = sv::flag("default"); vec none; ParameterFileSimple par((Parameters(none))); run("phase", v, d ? "temperature=temp precipitation=precip" : "temperature=temp precipitation=precip snowThreshold=270.5 rainThreshold=275 minPrecip=0.75", f, &par); double s = d ? 273.15f : 270.5, rn = d ? 274.15f : 275, mp = d ? 0.2f : 0.75; cvec4 r = cget(f, v);
    cells(f, [&](int t, int y, int x, int e) { double g = r[t][y][x][e], a = t0[t][y][x][e], b = p0[t][y][x][e]; if (!ok(a) || !ok(b)) { check(!ok(g), "missing where temperature or precipitation is"); return; } check(eq(g, sv::ite(le(b, mp), 0, sv::ite(le(a, s), 3, sv::ite(le(a, rn), 2, 1)))), "phase of the temperature range"); });
}
SV_HARNESS(sort, "1x2 cells, 3 members, 1 time; values in [-100,100] or missing (also NaN)") {
    FileFake f = cfile(1, 2, 3, 1); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, MISSN); int x0 = sv::integer("cell", 0, 1); a[0][0][1 - x0] = {3, MV, 1}; cput(f, v, a); run("sort", v, "", f); cvec4 r = cget(f, v);
    for (int x = 0; x < 2; x++) { dvec w; for (int e = 0; e < 3; e++) if (ok(a[0][0][x][e])) w.push_back(a[0][0][x][e]); w = csorted(w); for (int e = 0; e < 3; e++) if (e < (int) w.size()) check(eq(r[0][0][x][e], w[e]), "members in increasing order"); else check(!ok(r[0][0][x][e]), "missing members are last"); }
}
SV_HARNESS(sort4, "1 cell, 4 members, one of them missing (-999 or NaN)") {
    FileFake f = cfile(1, 1, 4, 1); Variable v("v"); cvec4 a = csym(f, "v", -100, 100, FIN); int m = sv::integer("missing", 0, 3); a[0][0][0][m] = sv::flag("nan") ? NaN : MV; cput(f, v, a); run("sort", v, "", f); cvec4 r = cget(f, v); dvec w; for (int e = 0; e < 4; e++) if (e != m) w.push_back(a[0][0][0][e]); w = csorted(w); for (int e = 0; e < 3; e++) check(eq(r[0][0][0][e], w[e]), "members in increasing order"); check(!ok(r[0][0][0][3]), "missing member is last");
}
static const double PI = 3.14159265358979323846;
SV_HARNESS(wind_components, "1x2 cells, 1 member, 2 times, one position symbolic; speed 0, 10 or 50 and direction in [0,360] or missing, or speed in [0,100] or missing and direction one of 6") {
    FileFake f = cfile(1, 2, 1, 2); Variable s("speed"), d("dir"), X("x"), Y("y"); int pos = cpos(f); bool sp = sv::flag("speed_symbolic"); static const float S[] = {0, 10, 50}, D[] = {0, 45, 90, 180, 200, 330}; cvec4 a, b; if (sp) { a = cspot(f, "s", 0, 100, MISSN, pos); b = cfill(f, D[sv::integer("direction", 0, 5)]); } else { a = cfill(f, S[sv::integer("speed", 0, 2)]); b = cspot(f, "d", 0, 360, MISSN, pos); } cput(f, s, a); cput(f, d, b); cput(f, X, cfill(f, MV)); cput(f, Y, cfill(f, MV));
    run("diagnoseWind", X, "speed=speed direction=dir compute=x", f); run("diagnoseWind", Y, "speed=speed direction=dir compute=y", f); cvec4 rx = cget(f, X), ry = cget(f, Y);
    cells(f, [&](int t, int y, int x, int e) { double u = a[t][y][x][e], w = b[t][y][x][e], gx = rx[t][y][x][e], gy = ry[t][y][x][e]; if (!ok(u) || !ok(w)) { check(!ok(gx) && !ok(gy), "missing"); return; } double rad = w / 180.0 * Util::pi; check(close(gx, -u * std::sin(rad), 1e-3), "x component of a wind from the direction"); check(close(gy, -u * std::cos(rad), 1e-3), "y component of a wind from the direction"); });
}
SV_HARNESS(wind_speed, "1 cell, 2 members, 2 times, one position symbolic; components in [-100,100], either missing") {
    FileFake f = cfile(1, 1, 2, 2); Variable s("s"), X("x"), Y("y"); int pos = cpos(f); cvec4 a = cspot(f, "x", -100, 100, MISSN, pos), b = cspot(f, "y", -100, 100, MISSN, pos), m = cfill(f, MV); cput(f, X, a); cput(f, Y, b); cput(f, s, m); run("diagnoseWind", s, "x=x y=y compute=speed", f); cvec4 r = cget(f, s);
    cells(f, [&](int t, int y, int x, int e) { double u = a[t][y][x][e], w = b[t][y][x][e], g = r[t][y][x][e]; if (!ok(u) || !ok(w)) { check(!ok(g), "missing"); return; } check(le(0, g), "never negative"); check(close(g * g, u * u + w * w, 0.05), "norm of the components"); });
}
SV_HARNESS(wind_direction, "1 cell, 1 member, 1 time; components in [-100,100] of at least 0.01, either missing") {
    sv::merge(false); FileFake f = cfile(1, 1, 1, 1); Variable s("d"), X("x"), Y("y"); cvec4 a = csym(f, "x", -100, 100, MISSN), b = csym(f, "y", -100, 100, MISSN), m = a; m[0][0][0][0] = MV; cput(f, X, a); cput(f, Y, b); cput(f, s, m); run("diagnoseWind", s, "x=x y=y compute=direction", f); double u = a[0][0][0][0], w = b[0][0][0][0], g = cget(f, s)[0][0][0][0]; if (!ok(u) || !ok(w)) { check(!ok(g), "missing"); return; }
    sv::assume(le(0.01, sv::dabs(u) + sv::dabs(w))); check(land(le(0, g), le(g, 360)), "in [0,360]"); double sp = std::sqrt((float) (u * u + w * w)), an = g * PI / 180; check(close(-sp * std::sin(an), u, 0.02), "speed and direction reconstruct the x component"); check(close(-sp * std::cos(an), w, 0.02), "speed and direction reconstruct the y component");
}
SV_HARNESS(qnh, "1x2 cells, 2 members, 1 time, one position symbolic; pressure 30000-120000 Pa, elevation -500 to 4000 m, either missing") {
    FileFake f = cfile(1, 2, 2, 1); Variable q("q"), P("p"); int pos = cpos(f); cvec4 a = cspot(f, "p", 30000, 120000, MISSN, pos), m = cfill(f, MV); vec2 el = {{sv::flag("sea") ? 0.0f : cval("e0", -500, 4000, MISSN), 0}}; f.setElevs(el); cput(f, P, a); cput(f, q, m); run("qnh", q, "pressureVariable=p", f); cvec4 r = cget(f, q);
    cells(f, [&](int t, int y, int x, int e) { double p = a[t][y][x][e], z = el[y][x], g = r[t][y][x][e]; if (!ok(p) || !ok(z)) { check(!ok(g), "missing"); return; } check(ok(g), "given"); check(imp(eq(z, 0), close(g, p, 2)), "equals the pressure at sea level"); check(imp(le(0, z), le(p - 1, g)), "not below the pressure above sea level"); check(imp(le(z, 0), le(g, p + 1)), "not above the pressure below sea level"); check(imp(land(land(le(90, z), le(z, 110)), land(le(95000, p), le(p, 105000))), land(le(p + 1000, g), le(g, p + 1500))), "about 12 Pa per metre"); });
}
static const float TT[] = {253.15f, 273.15f, 283.15f, 303.15f};
SV_HARNESS(dewpoint, "1 cell, 2 members, 1 time; 4 temperatures, humidity in [0,1.05], either missing") {
    FileFake f = cfile(1, 1, 2, 1); Variable v("td"), T("t"), R("rh"); cvec4 t0 = csym(f, "z", 0, 1, FIN), m = t0, r0 = csym(f, "rh", 0, 1.05, MISSN); int k = sv::integer("temperature", 0, 4); for (int e = 0; e < 2; e++) { t0[0][0][0][e] = k == 4 ? MV : TT[k]; m[0][0][0][e] = MV; } sv::assume(le(r0[0][0][0][0], r0[0][0][0][1])); cput(f, T, t0); cput(f, R, r0); cput(f, v, m); run("diagnoseHumidity", v, "temperature=t rh=rh compute=dewpoint", f); cvec4 r = cget(f, v); double g0 = r[0][0][0][0], g1 = r[0][0][0][1], h0 = r0[0][0][0][0], h1 = r0[0][0][0][1];
    for (int e = 0; e < 2; e++) { double g = r[0][0][0][e], h = r0[0][0][0][e]; if (k == 4 || !ok(h)) { check(!ok(g), "missing"); continue; } if (!ok(g)) { check(le(h, 0), "missing only without moisture"); continue; } check(lt(0, h), "no dew point without moisture"); check(le(g, TT[k]), "never above the temperature");  }
    if (k < 4 && ok(h0) && ok(h1) && ok(g0) && ok(g1)) check(imp(lt(h0 + 0.01, h1), le(g0, g1)), "more moisture, higher dew point");
}
SV_HARNESS(dewpoint_levels, "4 temperatures, humidity either 1 to 1.05 or 0.4 to 0.6") {
    FileFake f = cfile(1, 1, 1, 1); Variable v("td"), T("t"), R("rh"); int k = sv::integer("temperature", 0, 3); bool sat = sv::flag("saturated"); cput(f, T, cfill(f, TT[k])); cput(f, R, cfill(f, sat ? sv::f32("s", 1, 1.05) : sv::f32("h", 0.4, 0.6))); cput(f, v, cfill(f, MV)); run("diagnoseHumidity", v, "temperature=t rh=rh compute=dewpoint", f); double g = cget(f, v)[0][0][0][0]; check(ok(g), "given"); check(le(g, TT[k]), "never above the temperature"); if (sat) check(le(TT[k] - 1, g), "equals the temperature at saturation"); else check(land(le(g, TT[k] - 4), le(TT[k] - 15, g)), "well below the temperature in dry air");
}
SV_HARNESS(humidity, "1 cell, 2 members, 1 time, one position symbolic; temperature and dew point 150-400 K, either missing") {
    FileFake f = cfile(1, 1, 2, 1); Variable v("rh"), T("t"), D("td"); int pos = cpos(f); cvec4 t0 = cspot(f, "t", 150, 400, MISSN, pos), d0 = cspot(f, "d", 150, 400, MISSN, pos), m = cfill(f, MV); cput(f, T, t0); cput(f, D, d0); cput(f, v, m); run("diagnoseHumidity", v, "temperature=t dewpoint=td compute=rh", f); cvec4 r = cget(f, v);
    for (int e = 0; e < 2; e++) { double g = r[0][0][0][e], t = t0[0][0][0][e], d = d0[0][0][0][e]; if (!ok(t) || !ok(d)) { check(!ok(g), "missing"); continue; } check(land(le(0, g), le(g, 1)), "in [0,1]"); check(imp(le(t, d), eq(g, 1)), "1 at and above saturation"); }
}
SV_HARNESS(humidity_mono, "4 temperatures, dew points 230-305 K: higher dew point, higher humidity; humidity of its dew point (0.3 to 1) is recovered (3 temperatures)") {
    FileFake f = cfile(1, 1, 2, 1); Variable v("rh"), T("t"), D("td"), R("r"); bool back = sv::flag("recover"); int k = sv::integer("temperature", back ? 1 : 0, 3); cvec4 t0 = csym(f, "z", 0, 1, FIN), d0 = csym(f, "d", 230, 305, FIN), h0 = csym(f, "h", 0.3, 1, FIN); for (int e = 0; e < 2; e++) t0[0][0][0][e] = TT[k]; cput(f, T, t0); cput(f, v, t0);
    if (back) { cput(f, R, h0); cput(f, D, t0); run("diagnoseHumidity", D, "temperature=t rh=r compute=dewpoint", f); run("diagnoseHumidity", v, "temperature=t dewpoint=td compute=rh", f); cvec4 r = cget(f, v); for (int e = 0; e < 2; e++) check(close(r[0][0][0][e], h0[0][0][0][e], 0.08), "humidity of the dew point"); }
    else { cput(f, D, d0); run("diagnoseHumidity", v, "temperature=t dewpoint=td compute=rh", f); cvec4 r = cget(f, v); check(imp(le(d0[0][0][0][0], d0[0][0][0][1]), le(r[0][0][0][0], r[0][0][0][1] + 1e-6)), "higher dew point, higher humidity"); }
}
SV_HARNESS(wetbulb, "1 cell, 2 members, 1 time, one position symbolic; 4 temperatures, humidity 0.05-1 or missing, pressure 50000-105000 Pa, missing, or that of the standard atmosphere at the elevation") {
    FileFake f = cfile(1, 1, 2, 1); Variable v("w"), T("t"), R("rh"), P("p"), D("td"); int k = sv::integer("temperature", 0, 3); int pos = cpos(f); cvec4 t0 = csym(f, "z", 0, 1, FIN), r0 = cspot(f, "rh", 0.05, 1, MISSN, pos), m = t0, p0 = cspot(f, "p", 50000, 105000, MISSN, pos); for (int e = 0; e < 2; e++) { t0[0][0][0][e] = TT[k]; m[0][0][0][e] = MV; } cput(f, T, t0); cput(f, R, r0); cput(f, v, m); cput(f, D, m); cput(f, P, p0); bool given = sv::flag("pressure"); run("diagnoseHumidity", v, given ? "temperature=t rh=rh pressure=p compute=wetbulb" : "temperature=t rh=rh compute=wetbulb", f); run("diagnoseHumidity", D, "temperature=t rh=rh compute=dewpoint", f); cvec4 r = cget(f, v), d = cget(f, D);
    for (int e = 0; e < 2; e++) { double g = r[0][0][0][e]; if (!ok(r0[0][0][0][e]) || (given && !ok(p0[0][0][0][e]))) { check(!ok(g), "missing"); continue; } check(ok(g), "given"); check(le(d[0][0][0][e], g + 1e-3), "not below the dew point"); check(le(g, TT[k] + 0.5), "not above the temperature"); }
}
