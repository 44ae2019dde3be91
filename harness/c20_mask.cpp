#include "common.h"
static vec2 LA = {{0, 0, 0}, {2, 2, 2}}, LO = {{0, 2, 4}, {0, 2, 4}}; static vec OY = {0.2f, 1.7f}, OX = {2.3f, 0}; static const int NY[2] = {0, 1}, NX[2] = {1, 0};
static gridpp::Grid og(bool col) { if (!col) return cgrid({OY}, {OX}); return cgrid({{OY[0]}, {OY[1]}}, {{OX[0]}, {OX[1]}}); }
static const gridpp::ComparisonOperator OPS[4] = {gridpp::Leq, gridpp::Lt, gridpp::Geq, gridpp::Gt};
struct In { vec3 t, f, m; vec th; int E, op; bool col; vec2 thr() const { return col ? vec2{{th[0]}, {th[1]}} : vec2{th}; } };
static In mk(int E, int miss) { In c; c.E = E; c.col = sv::flag("col"); c.op = sv::integer("op", 0, 3); c.t.assign(2, vec2(3, vec(E, 1))); c.f = c.m = c.t; c.t[0][1] = symvec("true", E); c.f[0][1] = symvec("false", E); c.m[0][1] = symvec("mask", E); c.t[1][0] = symvec("true1", E); c.th = {sv::f32("threshold", -100, 100), 1}; if (miss == 1) c.t[0][1][0] = NaN; if (miss == 2) c.f[0][1][E - 1] = NaN; if (miss == 3) c.m[0][1][0] = NaN; if (miss == 4) c.m[0][1].assign(E, NaN); if (miss == 5) c.th[0] = NaN; if (miss == 6) c.m[1][0][E - 1] = NaN; if (miss == 7) c.t[1][0][0] = c.f[1][0][0] = NaN; if (miss == 8) c.th[1] = NaN; return c; }
static dvec ref(const In& c, int i) { dvec r; for (int k = 0; k < c.E; k++) { double m = c.m[NY[i]][NX[i]][k], t = c.th[i]; if (!sv::isnum(m)) continue; bool p = sv::isnum(t) && sv::decide(c.op == 0 ? le(m, t) : c.op == 1 ? lt(m, t) : c.op == 2 ? le(t, m) : lt(t, m)); double v = p ? c.t[NY[i]][NX[i]][k] : c.f[NY[i]][NX[i]][k]; if (sv::isnum(v)) r.push_back(v); } return r; }
static void body(int E, gridpp::Statistic s) { In c = mk(E, sv::integer("missing", 0, 8)); vec2 r = gridpp::mask_threshold_downscale_consensus(cgrid(LA, LO), og(c.col), c.t, c.f, c.m, c.thr(), OPS[c.op], s); check(dims(r, c.col ? 2 : 1, c.col ? 1 : 2), "output size"); for (int i = 0; i < 2; i++) check_stat(c.col ? r[i][0] : r[0][i], ref(c, i), s, 0.05, "statistic of the selected members"); }
SV_HARNESS(mean, "1..3 members, 4 operators, symbolic values and threshold, one kind of missing input or none") { body(sv::integer("E", 1, 3), gridpp::Mean); }
SV_HARNESS(statistics, "2 members, every statistic") { body(2, symstat()); }
SV_HARNESS(quantile, "1..3 members, levels 0, 0.3, 0.5, 1") { In c = mk(sv::integer("E", 1, 3), sv::integer("missing", 0, 8)); const float L[4] = {0, 0.3f, 0.5f, 1}; float q = L[sv::integer("level", 0, 3)]; vec2 r = gridpp::mask_threshold_downscale_quantile(cgrid(LA, LO), og(c.col), c.t, c.f, c.m, c.thr(), OPS[c.op], q); check(dims(r, c.col ? 2 : 1, c.col ? 1 : 2), "output size"); for (int i = 0; i < 2; i++) check(close(c.col ? r[i][0] : r[0][i], refquant(ref(c, i), q), 0.01), "quantile of the selected members"); }
SV_HARNESS(reject_level, "symbolic or infinite level outside [0,1]") { vec3 v(2, vec2(3, vec(2, 1))); int k = sv::integer("infinite", 0, 2); float q = k == 0 ? sv::f32("level", -5, 5) : k == 1 ? INFINITY : -INFINITY; bool bad = k || sv::decide(lor(lt(q, 0), lt(1, q))); check(throws([&] { gridpp::mask_threshold_downscale_quantile(cgrid(LA, LO), og(false), v, v, v, {{0, 0}}, gridpp::Leq, q); }) == bad, "level checked"); }
SV_HARNESS(reject, "each input with sizes 0..3 x 0..4 instead of 2x3 (thresholds 1x2)") { int w = sv::integer("which", 0, 3), Y = sv::integer("Y", 0, 3), X = sv::integer("X", 0, 4); if (Y == 0 && X) return; vec3 a(2, vec2(3, vec(2, 1))), b = a, c = a, bad(Y, vec2(X, vec(2, 1))); vec2 th(1, vec(2, 1)); if (w == 0) a = bad; if (w == 1) b = bad; if (w == 2) c = bad; if (w == 3) th.assign(Y, vec(X, 1)); check(throws([&] { gridpp::mask_threshold_downscale_consensus(cgrid(LA, LO), og(false), a, b, c, th, gridpp::Leq, gridpp::Mean); }) == (w == 3 ? !(Y == 1 && X == 2) : !(Y == 2 && X == 3)), "size checked"); }
SV_HARNESS(empty_output, "empty output grid") { vec3 v(2, vec2(3, vec(1, 1))); check(gridpp::mask_threshold_downscale_consensus(cgrid(LA, LO), gridpp::Grid(), v, v, v, vec2(), gridpp::Gt, gridpp::Mean).empty(), "empty"); }
SV_HARNESS(unknown_statistic, "a statistic that is none: rejected, without ending the program") { vec3 v(2, vec2(3, vec(2, sv::f32("v", -5, 5)))); auto s = sv::flag("other") ? (gridpp::Statistic) 1 : gridpp::Unknown; check(throws([&] { gridpp::mask_threshold_downscale_consensus(cgrid(LA, LO), og(false), v, v, v, {{0, 0}}, gridpp::Leq, s); }), "rejected"); }
