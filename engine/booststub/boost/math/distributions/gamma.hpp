// Stand-in for boost's distributions (C30, C55): some strictly increasing cumulative distribution function with its exact inverse.
#pragma once
#include <cmath>
#include <stdexcept>
namespace boost { namespace math {
template<class T = double> struct gamma_distribution { T k, s; gamma_distribution(T shape, T scale) : k(shape), s(scale) {} T m() const { return s * (k + 1); } };
template<class T> inline double cdf(const gamma_distribution<T>& d, double x) { double m = d.m(); return x <= 0 ? 0 : x / (x + m); }
template<class T> inline double quantile(const gamma_distribution<T>& d, double p) { if (d.k > 1e19) throw std::overflow_error("gamma"); double m = d.m(); return p * m / (1 - p); }
template<class T> inline double pdf(const gamma_distribution<T>& d, double x) { double m = d.m(); return m / ((x + m) * (x + m)); }
}}
