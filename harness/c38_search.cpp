#include "common.h"
// reference: mean of the valid neighbours in the target range; otherwise the value of the neighbour, among those whose search value
// differs by at least delta, whose search value is closest to the range; otherwise unchanged
static void body(const vec2& A, const vec2& S, int hw, double tmin, double tmax, double delta, const ivec2& ap) {
    int Y = A.size(), X = A[0].size(); vec2 o = gridpp::neighbourhood_search(A, S, hw, tmin, tmax, delta, ap); hw = std::min(hw, 100); check(dims(o, Y, X), "size");
    for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) {
        if (!sv::isnum(S[y][x]) || (!ap.empty() && ap[y][x] == 0)) { check(sv::same(o[y][x], A[y][x]), "cells without a search value or not selected are unchanged"); continue; }
        dvec in; std::vector<std::pair<int, int>> out; for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) { if (!sv::isnum(S[i][j]) || !sv::isnum(A[i][j])) continue; if (sv::decide(land(le(tmin, S[i][j]), le(S[i][j], tmax)))) in.push_back(A[i][j]); else out.push_back({i, j}); }
        if (!in.empty()) { check(close(o[y][x], dsum(in) / in.size(), 1e-3), "average of the valid neighbours in the target range"); continue; }
        std::vector<std::pair<int, int>> q; for (auto& p : out) { double d = sv::dabs((double) S[p.first][p.second] - S[y][x]); sv::assume(le(1e-3, sv::dabs(d - delta))); if (sv::decide(le(delta, d))) q.push_back(p); }
        if (q.empty()) { check(sv::same(o[y][x], A[y][x]), "unchanged when no neighbour qualifies"); continue; }
        auto dist = [&](const std::pair<int, int>& p) { double s = S[p.first][p.second]; return sv::dmin(sv::dabs(s - tmin), sv::dabs(s - tmax)); }; sv::B ok = sv::mk(false); for (auto& p : q) { sv::B best = sv::mk(true); for (auto& r : q) if (r != p) best = land(best, le(dist(p), dist(r) + 1e-4)); ok = lor(ok, land(best, eq(o[y][x], A[p.first][p.second]))); } check(ok, "value of the neighbour closest to the target range");
    }
}
SV_HARNESS(line, "1x3, any values and search values, target range [0.7,1], delta 0.1, half-width 0..2") { body(symvec2("a", 1, 3), symvec2("s", 1, 3, 0, 1.5), sv::integer("halfwidth", 0, 2), 0.7f, 1, 0.1f, {}); }
SV_HARNESS(missing, "1x3 with missing values and search values, half-width 1") { body(symvec2("a", 1, 3, -100, 100, sv::OPT), symvec2("s", 1, 3, 0, 1.5, sv::OPT), 1, 0.5f, 1, 0.2f, {}); }
SV_HARNESS(square, "2x2, any values, search values symbolic in two cells, half-width 1, target and delta symbolic") { float t = sv::f32("min", 0, 1), w = sv::f32("max", 0, 1); sv::assume(le(t, w)); vec2 S = {{0.2f, sv::f32("s0", 0, 1)}, {0.9f, 0.6f}}; body(symvec2("a", 2, 2), S, 1, t, w, sv::f32("delta", 0, 0.5), {}); }
SV_HARNESS(selected, "2x2 and 1x2 and 2x1, any selection of cells to change") { int k = sv::integer("shape", 0, 2), Y = k == 2 ? 1 : 2, X = k == 1 ? 1 : 2; ivec2 ap(Y, ivec(X)); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) ap[y][x] = sv::flag(sv::idx("apply", y, x).c_str()); vec2 S = {{0.2f, 0.4f}, {0.8f, sv::f32("s", 0, 1)}}; S.resize(Y); for (auto& r : S) r.resize(X); body(symvec2("a", Y, X, -100, 100, sv::OPT), S, 1, 0.7f, 1, 0.1f, ap); }
SV_HARNESS(range, "2x3 fixed search values, any values: never outside the range of the window") { vec2 A = symvec2("a", 2, 3), S = {{0.1f, 0.9f, 0.3f}, {0.5f, 0.2f, 0.8f}}; int c = sv::integer("case", 0, 2); static const float LO[] = {0.7f, 0.45f, 2}, HI[] = {1, 0.6f, 3}; vec2 o = gridpp::neighbourhood_search(A, S, 1, LO[c], HI[c], 0.1f); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) { dvec w = window_values(A, y, x, 1); double lo = w[0], hi = w[0]; for (double d : w) { lo = sv::dmin(lo, d); hi = sv::dmax(hi, d); } check(land(le(lo - 1e-3, o[y][x]), le(o[y][x], hi + 1e-3)), "within the values of the window"); } }
SV_HARNESS(errors, "invalid arguments are rejected") {
    vec2 A(2, vec(2)), S(2, vec(2)), W(2, vec(3)), Z(3, vec(2)); ivec2 ap(2, ivec(3)), ap1(1, ivec(2)); float t = sv::f32("t", 1.01, 5); int h = sv::integer("h", -3, -1);
    check(throws([&] { gridpp::neighbourhood_search(A, S, 1, t, 1, 0.1f); }) && throws([&] { gridpp::neighbourhood_search(A, S, h, 0, 1, 0.1f); }) && throws([&] { gridpp::neighbourhood_search(A, W, 1, 0, 1, 0.1f); }) && throws([&] { gridpp::neighbourhood_search(A, Z, 1, 0, 1, 0.1f); }) && throws([&] { gridpp::neighbourhood_search(A, S, 1, 0, 1, 0.1f, ap); }) && throws([&] { gridpp::neighbourhood_search(A, S, 1, 0, 1, 0.1f, ap1); }), "rejected");
    check(gridpp::neighbourhood_search(vec2(), vec2(), 1, 0, 1, 0.1f).empty(), "empty");
}
SV_HARNESS(huge_halfwidth, "1x3, half-widths up to the largest integer: the window is the whole field") { static const int H[] = {2147483647, 2147483646, 2147483645, 1073741824}; body(symvec2("a", 1, 3), {{0.2f, sv::f32("s", 0, 1.5), 0.9f}}, H[sv::integer("h", 0, 3)] , 0.7f, 1, 0.1f, ivec2()); }
