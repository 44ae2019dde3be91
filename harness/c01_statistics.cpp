#include "common.h"
static void run(int n, int kinds) {
    gridpp::Statistic s = symstat(); vec v = symvec("v", n, -100, 100, kinds);
    double got = gridpp::calc_statistic(v, s);
    check_stat(got, valid(v), s, 0.05, "statistic equals definition over valid values");
}
SV_HARNESS(missing, "length 0..4, each element finite in [-100,100], NaN, +Inf or -Inf; statistics mean,min,median,max,std,variance,sum,count") { run(sv::integer("n", 0, 4), sv::ANY); }
SV_HARNESS(finite, "length 5, finite in [-100,100]") { run(5, sv::FIN); }
SV_HARNESS_T(finite_t, "length 6, finite in [-100,100]") { run(6, sv::FIN); }
SV_HARNESS_T(missing_t, "length 5, finite in [-100,100] or NaN") { run(5, sv::OPT); }
SV_HARNESS(rows, "3 ragged rows of lengths 2,0,3, elements finite or NaN; every statistic") {
    gridpp::Statistic s = symstat(); vec2 v(3); v[0] = symvec("a", 2, -100, 100, sv::OPT); v[2] = symvec("c", 3, -100, 100, sv::OPT);
    vec got = gridpp::calc_statistic(v, s); check(got.size() == 3, "one result per row");
    for (int i = 0; i < 3; i++) check_stat(got[i], valid(v[i]), s, 0.05, "row statistic equals definition");
}
SV_HARNESS(number_missing, "2 ragged rows of lengths 2 and 3, each element finite, NaN, +Inf or -Inf; empty arrays") { vec2 v = {symvec("a", 2, -100, 100, sv::ANY), symvec("b", 3, -100, 100, sv::ANY), vec()}; int n = 0; for (auto& r : v) for (float f : r) n += !sv::isnum(f); check(gridpp::num_missing_values(v) == n && gridpp::num_missing_values(vec2()) == 0, "number of missing values"); }
SV_HARNESS(names, "all names of statistics, and unknown names") { static const struct { const char* n; gridpp::Statistic s; } N[] = {{"mean", gridpp::Mean}, {"min", gridpp::Min}, {"max", gridpp::Max}, {"median", gridpp::Median}, {"quantile", gridpp::Quantile}, {"std", gridpp::Std}, {"sum", gridpp::Sum}, {"count", gridpp::Count}, {"randomchoice", gridpp::RandomChoice}, {"", gridpp::Unknown}, {"Mean", gridpp::Unknown}, {"average", gridpp::Unknown}}; int i = sv::integer("name", 0, 11); check(gridpp::get_statistic(N[i].n) == N[i].s, "named statistic"); }
SV_HARNESS_FP(stable, "IEEE single precision: two values about 101325 within 4 of each other, with a missing one or not: the variance is right to 1 % or 1e-3, in spite of the large mean") {
    float x = sv::f32("x", 101321, 101325, sv::FIN); vec a; if (sv::flag("missing")) a.push_back(NaN); if (sv::flag("first")) { a.push_back(x); a.push_back(101325); } else { a.push_back(101325); a.push_back(x); }
    double d = ((double) x - 101325) / 2, v = gridpp::calc_statistic(a, gridpp::Variance); check(land(le(d * d * 0.99 - 1e-3, v), le(v, d * d * 1.01 + 1e-3)), "variance of values with a large mean (IEEE)");
}
