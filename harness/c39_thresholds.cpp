#include "common.h"
static void props(const vec& o, const vec& v, int num) {
    int N = v.size(); if (N == 0) { check(o.empty(), "no valid value, no thresholds"); return; } dvec s = sorted(valid(v)); check((int) o.size() <= num, "at most the requested number"); check(!o.empty(), "at least one"); if (o.empty()) return;
    check(close(o[0], s[0], 0), "starts at the minimum"); for (size_t i = 1; i < o.size(); i++) check(lt(o[i - 1], o[i]), "strictly increasing");
    for (float q : o) { sv::B in = sv::mk(false); for (float x : v) in = lor(in, eq(x, q)); check(in, "drawn from the data"); }
    if (num > 1) check(close(o.back(), s[N - 1], 0), "ends at the maximum");
    if (num >= N) for (float x : v) { sv::B in = sv::mk(false); for (float q : o) in = lor(in, eq(x, q)); check(in, "all distinct values when enough are requested"); }
}
SV_HARNESS(even, "1..5 finite values, 1..6 thresholds") { int N = sv::integer("N", 1, 5), k = sv::integer("num", 1, 6); vec v = symvec("v", N); props(gridpp::calc_even_quantiles(v, k), v, k); }
SV_HARNESS(field, "2D field 1x3 and 3D field 1x2x2, each value finite or NaN, 1..4 thresholds: only valid values are used") { int k = sv::integer("num", 1, 4); if (sv::flag("three")) { vec3 f = symvec3("g", 1, 2, 2, -50, 50, sv::OPT); vec v; for (auto& c : f[0]) for (float x : c) if (sv::isnum(x)) v.push_back(x); props(gridpp::get_neighbourhood_thresholds(f, k), v, k); } else { vec2 f = symvec2("f", 1, 3, -50, 50, sv::OPT); vec v; for (float x : f[0]) if (sv::isnum(x)) v.push_back(x); props(gridpp::get_neighbourhood_thresholds(f, k), v, k); } }
SV_HARNESS(reject, "non-positive numbers of thresholds; empty fields") { int k = sv::integer("k", -2, 0); check(throws([&] { gridpp::get_neighbourhood_thresholds(vec2(1, vec(1, 1)), k); }), "non-positive number rejected"); check(throws([&] { gridpp::get_neighbourhood_thresholds(vec3(1, vec2(1, vec(1, 1))), k); }), "non-positive number rejected (3D)"); check(gridpp::get_neighbourhood_thresholds(vec2(), 3).empty() && gridpp::get_neighbourhood_thresholds(vec3(), 3).empty() && gridpp::calc_even_quantiles(vec(), 3).empty(), "empty field"); }
SV_HARNESS_T(even_t, "6..7 finite values, 1..7 thresholds") { int N = sv::integer("N", 6, 7), k = sv::integer("num", 1, 7); vec v = symvec("v", N); props(gridpp::calc_even_quantiles(v, k), v, k); }
