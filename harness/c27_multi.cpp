#include "oi.h"
// The three multi-source variants behind one interface: 0 member by member, 1 member by member with static correlations, 2 ensemble mean
struct In { vec x; vec br; vec2 b, bc; vec ox; vec2 o; vec r; vec2 pb, pc; }; // o: perturbed observations (variant 2 uses the first column)
static vec col0(const vec2& o) { vec r; for (auto& v : o) r.push_back(v[0]); return r; }
static vec2 run(int v, const In& i, const gridpp::StructureFunction& s, int mp = 0, bool ex = true) {
    if (v == 0) return gridpp::optimal_interpolation_ensi_multi_ebe(at(i.x), i.br, i.b, i.bc, at(i.ox), i.o, i.r, i.pb, i.pc, s, mp, ex);
    if (v == 1) return gridpp::optimal_interpolation_ensi_multi_ebesc(at(i.x), i.br, i.b, at(i.ox), i.o, i.r, i.pb, s, mp, ex);
    return gridpp::optimal_interpolation_ensi_multi_utem(at(i.x), i.br, i.b, i.bc, at(i.ox), col0(i.o), i.r, i.pb, i.pc, s, mp, ex);
}
static const vec2 PC = {{1, 2, 4}, {0.5f, -1, 1.5f}, {3, 2.5f, -2}}, BC = {{1, 3, 2}, {-1, 0, 4}, {2, 1, -2}}; static const vec RT = {0.5f, 1, 2};
static vec2 cut(const vec2& v, int n) { return vec2(v.begin(), v.begin() + n); } static vec cut(const vec& v, int n) { return vec(v.begin(), v.begin() + n); }
static vec2 rows(const vec2& v, const ivec& I) { vec2 r; for (int i : I) r.push_back(v[i]); return r; } static vec2 cols(const vec2& v, const ivec& I) { vec2 r; for (auto& w : v) r.push_back(pick(w, I)); return r; }
static In sub(const In& i, const ivec& I) { In j = i; j.ox = pick(i.ox, I); j.o = rows(i.o, I); j.r = pick(i.r, I); j.pb = rows(i.pb, I); j.pc = rows(i.pc, I); return j; } // only the observations I
static In members(const In& i, const ivec& I, int v) { In j = i; j.b = cols(i.b, I); j.bc = cols(i.bc, I); if (v < 2) j.o = cols(i.o, I); j.pb = cols(i.pb, I); j.pc = cols(i.pc, I); return j; }
static In base(int P, int S) { In i; i.x = vec(P, 0); i.br = vec(P, 1); for (int k = 0; k < P; k++) i.br[k] = 1 + 0.5f * k; i.b = symvec2("b", P, 3); i.bc = cut(BC, P); for (int k = 0; k < S; k++) i.ox.push_back(k + 1); i.o = symvec2("o", S, 3); i.r = cut(RT, S); i.pb = symvec2("pb", S, 3); i.pc = cut(PC, S); return i; }
static bool has(const ivec& I, int k) { return std::find(I.begin(), I.end(), k) != I.end(); }
static ivec subset(const char* nm, int n) { ivec I; for (int i = 0; i < n; i++) if (!sv::flag(sv::idx(nm, i).c_str())) I.push_back(i); return I; }
static void oor(int v) {
    int n = sv::integer("points", 1, 2); In i = base(n, 2); i.x = symvec("x", n, -5, 12); i.ox = {2, 5}; Step s(1.5); vec2 q = run(v, i, s, sv::integer("max_points", 0, 1), true); if (!dims(q, n, 3)) { check(false, "one value per member"); return; }
    for (int k = 0; k < n; k++) { sv::B far = land(lor(lt(i.x[k], 0.4999), lt(3.5001, i.x[k])), lor(lt(i.x[k], 3.4999), lt(6.5001, i.x[k]))); if (sv::decide(far)) for (int e = 0; e < 3; e++) check(sv::same(q[k][e], i.b[k][e]), "every member is unchanged"); else for (int e = 0; e < 3; e++) check(sv::isnum(q[k][e]), "a number"); }
}
SV_HARNESS(out_of_range_ebe, "1-2 background points at symbolic positions, 2 observations, 3 members, step structure; limits 0 and 1") { oor(0); }
SV_HARNESS(out_of_range_ebesc, "the same, static correlations") { oor(1); }
SV_HARNESS(out_of_range_utem, "the same, ensemble-mean variant") { oor(2); }
static void miss(int v) {
    In i = base(1, 3); int how = sv::integer("how", 0, v < 2 ? 1 : 0) , mp = sv::integer("max_points", 0, 2); if (v == 2) how = sv::integer("how2", 1, 2); ivec I = subset("missing", 3); if (I.size() == 3) return; In f = i; for (int k = 0; k < 3; k++) if (!has(I, k)) { if (how == 1) i.r[k] = NaN; else if (v == 2) i.o[k][0] = NaN; else i.o[k][(k + 1) % 3] = NaN; }
    Table s(FG, FP); vec2 q = run(v, i, s, mp); if (!dims(q, 1, 3)) { check(false, "one value per member"); return; } if (I.empty()) { for (int e = 0; e < 3; e++) check(sv::same(q[0][e], i.b[0][e]), "unchanged without valid observations"); return; }
    vec2 r = run(v, sub(f, I), s, mp); for (int e = 0; e < 3; e++) check(close(q[0][e], r[0][e], 1e-3), "missing observations have no influence");
}
SV_HARNESS(missing_ebe, "3 observations, any subset misses one member's value or its ratio; limits 0-2") { miss(0); }
SV_HARNESS(missing_ebesc, "the same, static correlations") { miss(1); }
SV_HARNESS(missing_utem, "the same, ensemble-mean variant") { miss(2); }
static void memb(int v) {
    In i = base(2, 2); ivec I = subset("missing", 3); if (I.size() == 3) return; int where = sv::integer("where", 0, v == 1 ? 1 : 3); In f = i; for (int e = 0; e < 3; e++) if (!has(I, e)) { if (where == 0) i.b[e % 2][e] = NaN; else if (where == 1) i.pb[1][e] = NaN; else if (where == 2) i.bc[1][e] = NaN; else i.pc[0][e] = NaN; }
    Table s(FG, FP); vec2 q = run(v, i, s); if (!dims(q, 2, 3)) { check(false, "one value per member"); return; } for (int e = 0; e < 3; e++) if (!has(I, e)) for (int k = 0; k < 2; k++) check(sv::same(q[k][e], i.b[k][e]), "a missing member is left as it is"); if (I.empty()) return;
    vec2 r = run(v, members(f, I, v), s); for (int k = 0; k < 2; k++) for (size_t m = 0; m < I.size(); m++) check(close(q[k][I[m]], r[k][m], 1e-3), "the other members are analysed without it");
}
SV_HARNESS(members_ebe, "2 points, 2 observations, any subset of the 3 members missing in the background, its correlation ensemble, or at an observation") { memb(0); }
SV_HARNESS(members_ebesc, "the same, static correlations") { memb(1); }
SV_HARNESS(members_utem, "the same, ensemble-mean variant") { memb(2); }
static void ord(int v) { static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int k = sv::integer("order", 1, 5), mp = sv::integer("max_points", 0, 3); In i = base(1, 3); ivec I = {PM[k][0], PM[k][1], PM[k][2]}; Table s(FG, FP); vec2 q = run(v, i, s, mp), r = run(v, sub(i, I), s, mp); for (int e = 0; e < 3; e++) check(close(q[0][e], r[0][e], 1e-3), "independent of the order of the observations"); if (mp == 1 || mp == 2) { ivec J; for (int a = 0; a < mp; a++) J.push_back(a); vec2 t = run(v, sub(i, J), s, 0); for (int e = 0; e < 3; e++) check(close(q[0][e], t[0][e], 1e-3), "the most correlated observations are used"); } }
SV_HARNESS(order_ebe, "3 observations in any order, limits 0-3") { ord(0); }
SV_HARNESS(order_ebesc, "the same, static correlations") { ord(1); }
SV_HARNESS(order_utem, "the same, ensemble-mean variant") { ord(2); }
SV_HARNESS(static_is_oi, "static correlations: every member equals the optimal interpolation of that member with its own observations, increment scaled by the background ratio; 3 observations, symbolic values") {
    In i = base(1, 3); i.br = {sv::integer("double", 1, 2) == 2 ? 2.f : 1.f}; bool ex = sv::flag("extrapolate"); Table s(FG, FP); if (!ex) { i.o[0] = {5, -5, 1}; i.o[1] = {1, 2, -3}; for (int k = 0; k < 3; k++) i.pb[k] = vec(3, 0); i.o[2][0] = -1; i.o[2][1] = 4; i.br = {1}; } vec2 q = run(1, i, s, 0, ex); for (int e = 0; e < 3; e++) { vec o, y; for (int k = 0; k < 3; k++) { o.push_back(i.o[k][e]); y.push_back(i.pb[k][e]); } vec a = gridpp::optimal_interpolation(at({0}), {i.b[0][e]}, line(3), o, i.r, y, s, 0, ex); check(close((double) q[0][e] - i.b[0][e], i.br[0] * ((double) a[0] - i.b[0][e]), 1e-2), "optimal interpolation of each member"); }
}
static void gain(int v) { // the increments are linear in each member's innovations, with a gain common to all members
    In i = base(2, 2); i.bc = BC; i.bc.resize(2); Table s(FG, FP); vec2 q = run(v, i, s); In u = i; u.o = vec2(2, vec(3, 0)); u.pb = vec2(2, vec(3, 0)); u.b = vec2(2, vec(3, 0)); double K[2][2]; for (int k = 0; k < 2; k++) { In w = u; w.o[k] = vec(3, 1); vec2 r = run(v, w, s); for (int p = 0; p < 2; p++) { K[p][k] = r[p][0]; for (int e = 1; e < 3; e++) check(close(r[p][e], r[p][0], 1e-5), "the same gain for every member"); } }
    for (int p = 0; p < 2; p++) for (int e = 0; e < 3; e++) check(close((double) q[p][e] - i.b[p][e], K[p][0] * ((double) i.o[0][e] - i.pb[0][e]) + K[p][1] * ((double) i.o[1][e] - i.pb[1][e]), 1e-2), "increment is the gain times the member's own innovations"); In h = i; h.br = vec(2, 0); vec2 z = run(v, h, s); for (int p = 0; p < 2; p++) for (int e = 0; e < 3; e++) check(close(z[p][e], i.b[p][e], 1e-4), "a zero background ratio leaves the background"); h.br = {2 * i.br[0], 2 * i.br[1]}; vec2 t = run(v, h, s); for (int p = 0; p < 2; p++) for (int e = 0; e < 3; e++) check(close((double) t[p][e] - i.b[p][e], 2 * ((double) q[p][e] - i.b[p][e]), 1e-2), "increments are proportional to the background ratio");
}
SV_HARNESS(gain_ebe, "2 points, 2 observations, 3 members, symbolic values: linear in the innovations, common gain, proportional to the background ratio") { gain(0); }
SV_HARNESS(gain_ebesc, "the same, static correlations") { gain(1); }
SV_HARNESS(uncorrelated_ebe, "the correlation ensemble at the point is uncorrelated with that at the observation: no increment; correlated positively: towards the observation") { In i = base(1, 1); i.bc = {{1, -2, 1}}; i.pc = {{1, 0, -1}}; Table s({0.5f}, {{1}}); vec2 q = run(0, i, s); for (int e = 0; e < 3; e++) check(close(q[0][e], i.b[0][e], 1e-3), "uncorrelated: unchanged"); i.pc = {{3, -6, 3}}; q = run(0, i, s); for (int e = 0; e < 3; e++) { double d = (double) i.o[0][e] - i.pb[0][e], inc = (double) q[0][e] - i.b[0][e]; check(imp(lt(0.01, d), lt(0, inc)), "correlated: towards the observation"); check(imp(lt(d, -0.01), lt(inc, 0)), "correlated: towards the observation"); } i.pc = {{-1, 2, -1}}; q = run(0, i, s); for (int e = 0; e < 3; e++) { double d = (double) i.o[0][e] - i.pb[0][e], inc = (double) q[0][e] - i.b[0][e]; check(imp(lt(0.01, d), lt(inc, 0)), "anticorrelated: away"); } }
static void constant(int v) { // an observation, or the point, at which the correlation ensemble has no spread: correlation zero with everything
    In i = base(1, 2); int which = sv::integer("constant", 0, 2), mp = sv::integer("max_points", 0, 2); if (which < 2) i.pc[which] = vec(3, 1.5f); else i.bc[0] = vec(3, 1.5f); if (v == 2) i.b = {{3, 1, 2}}; Table s(FG, FP); vec2 q = run(v, i, s, mp); if (!dims(q, 1, 3)) { check(false, "one value per member"); return; }
    if (which == 2 && v == 2) { check(close(((double) q[0][0] + q[0][1] + q[0][2]) / 3, 2, 1e-3), "no spread at the point: the mean is unchanged"); return; }
    if (which == 2) { for (int e = 0; e < 3; e++) check(close(q[0][e], i.b[0][e], 1e-3), "no spread at the point: unchanged"); return; }
    if (mp == 1) return; In j = i; j.ox = {1}; j.o = {i.o[!which]}; j.r = {i.r[!which]}; j.pb = {i.pb[!which]}; j.pc = {i.pc[!which]}; Table t({FG[!which]}, {{1}}); vec2 r = run(v, j, t, 0); for (int e = 0; e < 3; e++) check(close(q[0][e], r[0][e], 1e-3), "an observation without spread has no influence");
}
SV_HARNESS(constant_ebe, "one of 2 observations, or the point, has a correlation ensemble without spread; limits 0-2; symbolic values") { constant(0); }
SV_HARNESS(constant_utem, "the same, ensemble-mean variant") { constant(2); }
SV_HARNESS(mean_utem, "ensemble-mean variant: the mean increment is linear in the innovations of the mean and proportional to the background ratio; symbolic observations and backgrounds at the observations, fixed background") {
    In i = base(1, 2); i.b = {{3, 1, 2}}; Table s(FG, FP); In u = i; u.pb = vec2(2, vec(3, 0)); auto inc = [&](const In& j) { vec2 q = run(2, j, s); return (((double) q[0][0] - j.b[0][0]) + ((double) q[0][1] - j.b[0][1]) + ((double) q[0][2] - j.b[0][2])) / 3; }; double K[2]; u.o = vec2(2, vec(3, 0)); double z = inc(u); for (int k = 0; k < 2; k++) { In w = u; w.o[k] = vec(3, 1); K[k] = inc(w) - z; } double d[2]; for (int k = 0; k < 2; k++) d[k] = (double) i.o[k][0] - ((double) i.pb[k][0] + i.pb[k][1] + i.pb[k][2]) / 3; check(close(inc(i) - z, K[0] * d[0] + K[1] * d[1], 1e-2), "linear in the innovations of the mean"); check(K[0] * K[0] + K[1] * K[1] > 0.0001, "observations are used"); check(close(z, 0, 1e-3), "no mean increment without innovations"); i.br = {2}; check(close(inc(i), 2 * (K[0] * d[0] + K[1] * d[1]), 2e-2), "proportional to the background ratio");
}
static void clampm(int v) { In i = base(1, 2); i.b = {{3, 1, sv::f32("b2", -10, 10)}}; if (v == 2) i.b[0][2] = 2; i.o = symvec2("ob", 2, 3, -10, 10); i.pb = {{1, 2, 0}, {2, 1, 3}}; if (v < 2) for (int k = 0; k < 2; k++) { i.o[k][1] = k; i.o[k][2] = -k; } i.br = {3}; Table s(FG, FP); vec2 q = run(v, i, s, 0, false), f = run(v, i, s, 0, true); for (int e = 0; e < 3; e++) { double lo = 0, hi = 0, inc = (double) q[0][e] - i.b[0][e], raw = (double) f[0][e] - i.b[0][e]; for (int k = 0; k < 2; k++) { double d = (double) i.o[k][v == 2 ? 0 : e] - i.pb[k][e]; lo = sv::dmin(lo, d); hi = sv::dmax(hi, d); } check(land(le(lo - 1e-3, inc), le(inc, hi + 1e-3)), "the increment stays within the member's innovations and zero"); check(imp(land(le(lo + 1e-3, raw), le(raw, hi - 1e-3)), close(inc, raw, 1e-3)), "an increment within the range is not changed"); } }
SV_HARNESS(clamp_ebe, "extrapolation disallowed, 2 observations, 3 members, one with symbolic innovations") { clampm(0); }
SV_HARNESS(clamp_ebesc, "the same, static correlations") { clampm(1); }
SV_HARNESS(clamp_utem, "the same, ensemble-mean variant, symbolic observations") { clampm(2); }
static gridpp::vec3 run3(int v, const gridpp::Grid& g, const vec2& br, const vec3& b, const vec3& bc, const gridpp::Points& op, const vec2& o, const vec& r, const vec2& pb, const vec2& pc, const gridpp::StructureFunction& s, int mp, bool ex) { if (v == 0) return gridpp::optimal_interpolation_ensi_multi_ebe(g, br, b, bc, op, o, r, pb, pc, s, mp, ex); if (v == 1) return gridpp::optimal_interpolation_ensi_multi_ebesc(g, br, b, op, o, r, pb, s, mp, ex); return gridpp::optimal_interpolation_ensi_multi_utem(g, br, b, bc, op, col0(o), r, pb, pc, s, mp, ex); }
SV_HARNESS(grid, "1x2 and 2x1 grids and the same points, every variant, symbolic members and observations, also without observations") {
    int v = sv::integer("variant", 0, 2), tall = sv::integer("tall", 0, 1); bool none = sv::flag("no_observations"); In i = base(2, 2); i.x = {0, 1}; i.ox = {0.5, 1.75}; gridpp::CressmanStructure s(2.2, 0, 0); if (none) i = sub(i, {}); vec2 q = run(v, i, s, sv::integer("max_points", 0, 1)); int mp = sv::integer("max_points", 0, 1); q = run(v, i, s, mp); auto g = tall ? cgrid({{0}, {0}}, {{0}, {1}}) : cgrid({{0, 0}}, {{0, 1}}); vec2 br = tall ? vec2{{i.br[0]}, {i.br[1]}} : vec2{i.br}; auto f = [&](const vec2& w) { return tall ? vec3{{w[0]}, {w[1]}} : vec3{w}; }; vec3 r = run3(v, g, br, f(i.b), f(i.bc), at(i.ox), i.o, i.r, i.pb, i.pc, s, mp, true);
    check(dims(q, 2, 3) && (int) r.size() == 1 + tall, "sizes"); for (int k = 0; k < 2; k++) for (int e = 0; e < 3; e++) { double x = tall ? r[k][0][e] : r[0][k][e]; if (none) check(sv::same(x, i.b[k][e]), "background without observations"); check(close(x, q[k][e], 1e-4), "gridded equals pointwise"); }
}
SV_HARNESS(more_observations, "1 background point and 1-4 observations, every variant: no memory error, every member a number") { int v = sv::integer("variant", 0, 2), S = sv::integer("observations", 1, 4); In i = base(1, std::min(S, 3)); if (S == 4) { i.ox.push_back(4); i.o.push_back({1, 2, 3}); i.r.push_back(1); i.pb.push_back({1, 1, 1}); i.pc.push_back({1, 0, 2}); } i.b = {{1, 2, 3}}; gridpp::CressmanStructure s(10, 0, 0); vec2 q = run(v, i, s); check(dims(q, 1, 3), "one value per member"); for (int e = 0; e < 3; e++) check(sv::isnum(q[0][e]), "a number"); }
SV_HARNESS(reject, "each input one element too short or too long or empty (points, members), negative limit, mixed coordinate types; grid and points, every variant") {
    int v = sv::integer("variant", 0, 2), which = sv::integer("which", 0, 12); bool grid = sv::flag("grid"); int ch = sv::integer("change", 0, 2), d = ch == 2 ? -2 : ch ? 1 : -1; auto k = [&](int w, int n) { return n + (w == which ? d : 0); }; if (v == 1 && (which == 2 || which == 6 || which == 8 || which == 12)) return; if (v == 2 && which == 10) return; 
    vec br(k(0, 2), 1), r(k(4, 2), 1); vec2 b(k(1, 2), vec(3, 1)), bc(k(2, 2), vec(k(8, 3), 1)), o(k(3, 2), vec(k(10, 3), 1)), pb(k(5, 2), vec(k(11, 3), 1)), pc(k(6, 2), vec(k(12, 3), 1)); for (auto* m : {&b, &bc, &pb, &pc}) for (auto& row : *m) for (size_t e = 0; e < row.size(); e++) row[e] = e; gridpp::Points op = which == 9 ? gridpp::Points(vec{0, 0}, vec{2, 3}) : at({2, 3}); int mp = which == 7 ? -1 : 0; gridpp::CressmanStructure s(5, 0, 0);
    check(throws([&] { if (grid) run3(v, cgrid({{0, 0}}, {{0, 1}}), br.empty() ? vec2() : vec2{br}, b.empty() ? vec3() : vec3{b}, bc.empty() ? vec3() : vec3{bc}, op, o, r, pb, pc, s, mp, true); else if (v == 0) gridpp::optimal_interpolation_ensi_multi_ebe(at({0, 1}), br, b, bc, op, o, r, pb, pc, s, mp, true); else if (v == 1) gridpp::optimal_interpolation_ensi_multi_ebesc(at({0, 1}), br, b, op, o, r, pb, s, mp, true); else gridpp::optimal_interpolation_ensi_multi_utem(at({0, 1}), br, b, bc, op, col0(o), r, pb, pc, s, mp, true); }), "mismatching inputs are rejected");
}
SV_HARNESS(two_ranges_, "the range of the structure depends on the place: points at 0 and 2 with ranges of 0.1 to 6 each, observations at 1 and 4: every point as if alone") {
    TwoRanges s = two_ranges(); int v = sv::integer("variant", 0, 2); In i = base(2, 2); i.x = {0, 2}; i.ox = {1, 4}; vec2 q = run(v, i, s); for (int k = 0; k < 2; k++) { In j = i; j.x = {i.x[k]}; j.br = {i.br[k]}; j.b = {i.b[k]}; j.bc = {i.bc[k]}; vec2 r = run(v, j, s); for (int e = 0; e < 3; e++) check(close(q[k][e], r[0][e], 1e-3), "analysis as if alone"); }
}
