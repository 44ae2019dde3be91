#pragma once
#include <cmath>
namespace boost { namespace math {
// scaled with the degrees of freedom, so that they matter
template<class T = double> struct students_t_distribution { T n; students_t_distribution(T df) : n(df) {} double w() const { return 1 + 1 / (double) n; } };
template<class T> inline double cdf(const students_t_distribution<T>& d, double x) { if (std::isinf(x)) return x > 0 ? 1 : 0; double z = x / d.w(); return z >= 0 ? (1 + 2 * z) / (2 + 2 * z) : 1 / (2 - 2 * z); }
template<class T> inline double quantile(const students_t_distribution<T>& d, double p) { return d.w() * (p >= 0.5 ? (2 * p - 1) / (2 - 2 * p) : (2 * p - 1) / (2 * p)); }
}}
