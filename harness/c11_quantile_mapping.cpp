#include "common.h"
SV_HARNESS(all, "2..6 finite values each, no levels: sorted values") { int N = sv::integer("N", 1, 6); vec r = symvec("r", N), f = symvec("f", N), of; vec o = gridpp::quantile_mapping_curve(r, f, of); check((int) o.size() == N && (int) of.size() == N, "all values"); dvec sr = sorted(valid(r)), sf = sorted(valid(f)); for (int i = 0; i < N; i++) { check(close(o[i], sr[i], 1e-4), "sorted reference"); check(close(of[i], sf[i], 1e-4), "sorted forecast"); if (i) check(land(le(o[i - 1], o[i]), le(of[i - 1], of[i])), "non-decreasing"); } }
SV_HARNESS(levels, "2..5 finite values each, one or two symbolic levels in [0,1]") { int N = sv::integer("N", 2, 5), Q = sv::integer("Q", 1, 2); vec r = symvec("r", N), f = symvec("f", N), q = symvec("q", Q, 0, 1), of; vec o = gridpp::quantile_mapping_curve(r, f, of, q); check((int) o.size() == Q && (int) of.size() == Q, "one pair per level"); dvec sr = sorted(valid(r)), sf = sorted(valid(f));
    for (int i = 0; i < Q; i++) { int k = 0; while (k + 1 < N && sv::decide(le(k + 1, (double) q[i] * (N - 1)))) k++; check(close(o[i], sr[k], 1e-4), "reference order statistic of the level"); check(close(of[i], sf[k], 1e-4), "forecast order statistic of the level"); }
    if (Q == 2) check(imp(le(q[0], q[1]), land(le(o[0], o[1]), le(of[0], of[1]))), "non-decreasing in the level"); }
SV_HARNESS(reject, "unequal lengths, levels outside [0,1] or missing") { vec r = symvec("r", 2), f = symvec("f", 3), f2 = symvec("g", 2), of; check(throws([&] { gridpp::quantile_mapping_curve(r, f, of); }), "unequal lengths"); float q = sv::f32("q", -5, 5, sv::OPT); if (sv::isnum(q)) sv::assume(lor(lt(q, 0), lt(1, q))); check(throws([&] { gridpp::quantile_mapping_curve(r, f2, of, vec{0.5, q}); }), "level outside [0,1] rejected"); }
SV_HARNESS_T(all_t, "7..8 finite values each") { int N = sv::integer("N", 7, 8); vec r = symvec("r", N), f = symvec("f", N), of; vec o = gridpp::quantile_mapping_curve(r, f, of); dvec sr = sorted(valid(r)), sf = sorted(valid(f)); for (int i = 0; i < N; i++) { check(close(o[i], sr[i], 1e-4), "sorted reference"); check(close(of[i], sf[i], 1e-4), "sorted forecast"); } }
