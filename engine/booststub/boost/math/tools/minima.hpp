// Stand-in for boost's minimiser (C42): any minimiser that does at least as well as the ends and the middle of its bracket.
#pragma once
#include <utility>
#include <stdexcept>
extern "C" double sv_stub_choice(double lo, double hi) __attribute__((weak));
namespace boost { namespace math { namespace tools {
template<class F, class T> std::pair<T, T> brent_find_minima(F f, T lo, T hi, int) {
    if (!(lo <= hi)) throw std::runtime_error("the minimiser never ends without a bracket");
    T c[4] = {(lo + hi) / 2, lo, hi, sv_stub_choice ? sv_stub_choice(lo, hi) : lo}; T x = c[0], v = f(c[0]);
    for (int i = 1; i < 4; i++) { T w = f(c[i]); if (w < v || v != v) { x = c[i]; v = w; } }
    return std::pair<T, T>(x, v);
}
}}}
