#pragma once
namespace boost { namespace math {
struct normal { double m, s; normal(double mean = 0, double sd = 1) : m(mean), s(sd) {} };
inline double cdf(const normal& d, double x) { double z = (x - d.m) / d.s; return z >= 0 ? (1 + 2 * z) / (2 + 2 * z) : 1 / (2 - 2 * z); }
inline double quantile(const normal& d, double p) { return d.m + d.s * (p >= 0.5 ? (2 * p - 1) / (2 - 2 * p) : (2 * p - 1) / (2 * p)); }
inline double pdf(const normal& d, double x) { double z = (x - d.m) / d.s; z = z >= 0 ? z : -z; return 0.5 / ((1 + z) * (1 + z)) / d.s; }
}}
