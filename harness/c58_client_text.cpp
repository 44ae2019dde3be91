// C58: the client's text files and options
#include "client.h"
#include <csetjmp>
#include <csignal>
#include <fstream>
#include <unistd.h>
#include "File/File.h"
static sigjmp_buf jb; static void on(int) { siglongjmp(jb, 1); }
template<class F> static bool fails(F f) { void (*old)(int) = signal(SIGABRT, on); Util::setShowError(false); bool r = true; if (sigsetjmp(jb, 1) == 0) { f(); r = false; } signal(SIGABRT, old); return r; } // the client reports errors by ending the program
struct Tmp { std::string name; pid_t owner; Tmp() { static int n = 0; owner = getpid(); name = "/tmp/sv-c58-" + std::to_string(owner) + "-" + std::to_string(n++); } ~Tmp() { if (owner == getpid()) unlink(name.c_str()); } }; // create after the choices of a harness
static double tol(double x) { return 1e-5; }
static sv::B near_(double a, double b) { double d = sv::ite(lt(b, 0), -b, b); return land(le(b - 1e-4 - 1e-4 * d, a), le(a, b + 1e-4 + 1e-4 * d)); } // native runs print six digits
struct Row { int t; int p; float v[2]; bool there; };
static const float PL[3][3] = {{60, 10, 100}, {60.5, 10, 200}, {60, 11.5, 50}};
SV_HARNESS(parameters_read, "1..2 times and 1..2 places, any of the rows absent but one, 2 parameters each; with or without columns for time and place, columns in 3 orders, with comment lines or not; every value symbolic: each row is stored at its time and place") {
    bool ht = sv::flag("time_column"), hp = sv::flag("place_columns"), comment = sv::flag("comment"); int order = sv::integer("order", 0, 2), nt = ht ? 2 : 1, np = hp ? 2 : 1, drop = nt * np > 1 ? sv::integer("absent", 0, nt * np) : 4; Tmp f; std::vector<Row> rows;
    { std::ofstream o(f.name.c_str()); auto line = [&](std::string t, std::string p, std::string a, std::string b) { std::vector<std::string> c; if (order == 0) { if (ht) c.push_back(t); if (hp) c.push_back(p); c.push_back(a); c.push_back(b); } else if (order == 1) { if (hp) c.push_back(p); c.push_back(a); if (ht) c.push_back(t); c.push_back(b); } else { c.push_back(a); c.push_back(b); if (hp) c.push_back(p); if (ht) c.push_back(t); } for (size_t i = 0; i < c.size(); i++) o << (i ? " " : "") << c[i]; o << "\n"; };
      if (comment) o << "# a comment\n"; line("time", "lat lon elev", "a", "b"); if (comment) o << "# another\n"; int k = 0;
      for (int p = 0; p < np; p++) for (int t = 0; t < nt; t++, k++) { Row r; r.t = t; r.p = p; r.there = k != drop; for (int j = 0; j < 2; j++) r.v[j] = sv::f32(sv::idx("v", k, j).c_str(), -50, 50); if (r.there) { std::string s[2]; for (int j = 0; j < 2; j++) { std::stringstream ss; ss << r.v[j]; s[j] = ss.str(); } std::stringstream q; q << PL[p][0] << " " << PL[p][1] << " " << PL[p][2]; line(std::to_string(t), q.str(), s[0], s[1]); } rows.push_back(r); } }
    ParameterFileText pf(Options("file=" + f.name)); std::vector<Location> locs = pf.getLocations(); std::set<int> ps; for (auto& r : rows) if (r.there) ps.insert(r.p); check(!hp || locs.size() == ps.size(), "as many places as in the file"); check(pf.isLocationDependent() == hp, "location dependent"); 
    for (auto& r : rows) { if (!r.there) continue; Parameters q = hp ? pf.getParameters(r.t, Location(PL[r.p][0], PL[r.p][1], PL[r.p][2]), false) : pf.getParameters(r.t); check(q.size() == 2, "two parameters"); if (q.size() != 2) continue; for (int j = 0; j < 2; j++) check(near_(q[j], r.v[j]), "parameter of its time, place and column"); }
    std::set<int> ts; for (auto& r : rows) if (r.there) ts.insert(r.t); std::vector<int> gt = pf.getTimes(); check(std::set<int>(gt.begin(), gt.end()) == ts && gt.size() == ts.size(), "times of the file");
}
SV_HARNESS(parameters_write, "0..2 places (none: the same everywhere), 1..2 times, 1..2 symbolic parameters each: written and read back the same") {
    int np = sv::integer("places", 0, 2), nt = sv::integer("times", 1, 2), n = sv::integer("parameters", 1, 2); Tmp f; ParameterFileText a(Options("file=" + f.name), true); float v[2][2][2];
    for (int p = 0; p < std::max(1, np); p++) for (int t = 0; t < nt; t++) { vec w; for (int j = 0; j < n; j++) { v[p][t][j] = sv::f32((sv::idx("v", p, t) + "." + std::to_string(j)).c_str(), -50, 50); w.push_back(v[p][t][j]); } a.setParameters(Parameters(w), t, np ? Location(PL[p][0], PL[p][1], PL[p][2]) : Location(Util::MV, Util::MV, Util::MV)); }
    a.recomputeTree(); a.write(); ParameterFileText b(Options("file=" + f.name)); check((!np || b.getLocations().size() == (size_t) np) && b.isLocationDependent() == (np > 0), "places");
    for (int p = 0; p < std::max(1, np); p++) for (int t = 0; t < nt; t++) { Parameters q = np ? b.getParameters(t, Location(PL[p][0], PL[p][1], PL[p][2]), false) : b.getParameters(t); check((int) q.size() == n, "number of parameters"); for (int j = 0; j < n && j < (int) q.size(); j++) check(near_(q[j], v[p][t][j]), "parameter read back"); }
}
SV_HARNESS(parameters_reject, "10 listed malformed or well-formed files: rows of different lengths, part of the place columns, no rows, several rows without time or place, text for a number") {
    static const struct { const char* s; bool bad; } F[] = {{"time a b\n0 1 2\n1 3\n", true}, {"time a b\n0 1 2\n1 3 4\n", false}, {"lat lon a\n60 10 1\n", true}, {"lat lon elev a\n60 10 1 5\n", false}, {"time elev a\n0 10 1\n", true}, {"time a\n", true}, {"", true}, {"a b\n1 2\n3 4\n", true}, {"a b\n1 2\n", false}, {"time a\n0 x\n", true}};
    int k = sv::integer("file", 0, 9); Tmp f; { std::ofstream o(f.name.c_str()); o << F[k].s; } check(fails([&] { ParameterFileText p(Options("file=" + f.name)); }) == F[k].bad, "malformed files are rejected, well-formed ones accepted");
}
SV_HARNESS(text_file, "2 times, 2 places, 1..2 members, any of the rows absent but one, rows in either order, comment or not; every value symbolic") {
    int E = sv::integer("members", 1, 2), drop = sv::integer("absent", 0, 4); bool rev = sv::flag("reverse"), comment = sv::flag("comment"); Tmp f; float v[2][2][2]; 
    { std::ofstream o(f.name.c_str()); if (comment) o << "# comment\n"; for (int k0 = 0; k0 < 4; k0++) { int k = rev ? 3 - k0 : k0, t = k / 2, p = k % 2; for (int e = 0; e < E; e++) v[t][p][e] = sv::f32((sv::idx("v", t, p) + "." + std::to_string(e)).c_str(), -50, 50); if (k == drop) continue; o << (t ? 3600 : 0) << " " << PL[p][0] << " " << PL[p][1] << " " << PL[p][2]; for (int e = 0; e < E; e++) o << " " << v[t][p][e]; o << "\n"; } }
    FileText g(f.name, Options()); check(g.getNumTime() == 2 && g.getNumEns() == E && g.getNumY() * g.getNumX() == 2, "sizes"); std::vector<double> ts = g.getTimes(); check(ts.size() == 2 && ts[0] == 0 && ts[1] == 3600, "times"); vec2 la = g.getLats(), lo = g.getLons(), el = g.getElevs(); cvec4 a = cget(g, Variable("x"));
    for (int p = 0; p < 2; p++) { int found = -1; for (int y = 0; y < 2; y++) if (la[y][0] == PL[p][0] && lo[y][0] == PL[p][1]) found = y; check(found >= 0, "place of the file"); if (found < 0) continue; check(el[found][0] == PL[p][2], "elevation"); for (int t = 0; t < 2; t++) for (int e = 0; e < E; e++) { if (t * 2 + p == drop) check(!ok(a[t][found][0][e]), "no row: missing"); else check(near_(a[t][found][0][e], v[t][p][e]), "value of its time, place and member"); } }
}
SV_HARNESS(point_file, "a point file of 1..2 times (indices or UNIX times), 1..2 members, comment or not; every value symbolic") {
    int E = sv::integer("members", 1, 2), T = sv::integer("times", 1, 2), unix_ = sv::integer("unix", 0, 1); bool comment = sv::flag("comment"); Tmp f; float v[2][2]; static const int U[2][2] = {{0, 1}, {1400000000, 1400003600}};
    { std::ofstream o(f.name.c_str()); if (comment) o << "# comment\n"; for (int t = 0; t < T; t++) { o << U[unix_][t]; for (int e = 0; e < E; e++) { v[t][e] = sv::f32(sv::idx("v", t, e).c_str(), -50, 50); o << " " << v[t][e]; } o << "\n"; } }
    FilePoint g(f.name, Options("lat=60 lon=10 elev=100")); check(g.getNumTime() == T && g.getNumEns() == E && g.getNumY() == 1 && g.getNumX() == 1, "sizes"); check(g.getLats()[0][0] == 60 && g.getLons()[0][0] == 10 && g.getElevs()[0][0] == 100, "place"); cvec4 a = cget(g, Variable("x")); std::vector<double> ts = g.getTimes(); for (int t = 0; t < T; t++) { check(ts[t] == U[unix_][t], "time"); for (int e = 0; e < E; e++) check(near_(a[t][0][0][e], v[t][e]), "value of its time and member"); }
}
SV_HARNESS(point_write, "a point file of 1..2 times and 1..2 members made from options, symbolic values in [-50,50], written and read again") {
    int E = sv::integer("members", 1, 2), T = sv::integer("times", 1, 2); Tmp f; float v[2][2]; Options o("lat=60 lon=10 elev=100 ens=" + std::to_string(E) + " time=" + std::to_string(T)); Variable var("x");
    { FilePoint g(f.name, o); check(g.getNumTime() == T && g.getNumEns() == E, "sizes"); for (int t = 0; t < T; t++) { FieldPtr p = g.getEmptyField(); for (int e = 0; e < E; e++) { v[t][e] = sv::f32(sv::idx("v", t, e).c_str(), -50, 50); (*p)(0, 0, e) = v[t][e]; } g.addField(p, var, t); } g.write(std::vector<Variable>(1, var)); }
    FilePoint h(f.name, Options("lat=60 lon=10 elev=100")); check(h.getNumTime() == T && h.getNumEns() == E, "sizes read"); cvec4 a = cget(h, var); for (int t = 0; t < T; t++) for (int e = 0; e < E; e++) check(land(le(v[t][e] - 0.006, a[t][0][0][e]), le(a[t][0][0][e], v[t][e] + 0.006)), "value read back to two decimals");
}
SV_HARNESS(point_reject, "point files without a place, with a latitude beyond the pole, without times or members; latitude symbolic") {
    int k = sv::integer("kind", 0, 6); static const char* O[] = {"lon=10 elev=1 time=1 ens=1", "lat=60 elev=1 time=1 ens=1", "lat=60 lon=10 time=1 ens=1", "lat=60 lon=10 elev=1 ens=1", "lat=60 lon=10 elev=1 time=1", "lat=60 lon=10 elev=1 time=1 ens=1", ""}; Tmp f; std::string s = O[k]; bool bad = k < 5;
    if (k == 6) { float la = sv::f32("lat", -200, 200); std::stringstream ss; ss << "lat=" << la << " lon=10 elev=1 time=1 ens=1"; s = ss.str(); bad = sv::decide(lor(lt(la, -90), lt(90, la))); } check(fails([&] { FilePoint g(f.name, Options(s)); }) == bad, "incomplete descriptions are rejected");
}
SV_HARNESS(options, "1..2 options of three keys, one of them possibly given twice or as a list of 3, with keys that contain them before or not; every value symbolic") {
    float a = sv::f32("a", -1000, 1000), b = sv::f32("b", -1000, 1000), c = sv::f32("c", -1000, 1000); bool twice = sv::flag("twice"), added = sv::flag("added"); int longer = sv::integer("longer", 0, 2); std::stringstream ss; if (longer == 1) ss << "xx=" << b << " "; if (longer == 2) ss << "z2=5 yx=3 "; ss << "x=" << a << " y=" << b << "," << c << "," << a << " flag"; if (twice) ss << " x=" << c; Options o; if (added) { if (twice) o.addOption("x", a); o.addOption("x", twice ? c : a); std::stringstream s2; s2 << "y=" << b << "," << c << "," << a << " flag"; o.addOptions(s2.str()); } else o = Options(ss.str());
    float x = 7, z = 7; double xd = 7; bool hx = o.getValue("x", x), hz = o.getValue("z", z), hd = o.getValue("x", xd), fl = false; check(hx && hd && !hz && z == 7, "an option is there exactly if given"); check(near_(x, twice ? c : a), "the value given last"); check(near_(xd, twice ? c : a), "the same in double precision"); check(o.getValue("flag", fl) && fl && o.hasValue("flag") && !o.hasValue("z"), "an option without a value is on");
    vec y(1, 5); check(o.getValues("y", y) && y.size() == 3, "list of three"); if (y.size() == 3) { check(near_(y[0], b), "first of the list"); check(near_(y[1], c), "second of the list"); check(near_(y[2], a), "third of the list"); } vec none(1, 5); check(!o.getValues("z", none) && none.empty(), "no list");
    check(!fails([&] { float q; o.getRequiredValue("x", q); }) && fails([&] { float q; o.getRequiredValue("z", q); }), "a required option has to be there"); Options p = o; check(p == o && !(p != o), "a copy is equal"); p.addOption("w", "1"); check(p != o && o != p, "one more option: not equal"); p = o; p.addOption("x", "abc"); check(p != o, "another value: not equal"); Options u; check(u.check() && (u.addOption("k", "1"), !u.check()), "options never asked for are reported"); std::string kk; u.getValue("k", kk); check(u.check(), "options asked for are not reported");
}
