// Reference models shared by the harnesses. Kept short and independent of the code under test.
#pragma once
#include "gridpp.h"
#include "sv.h"
#include <algorithm>
#include <stdexcept>
using sv::check; using sv::close; using sv::le; using sv::lt; using sv::eq; using sv::land; using sv::lor; using sv::lnot; using sv::imp;
typedef std::vector<double> dvec;
using gridpp::vec; using gridpp::vec2; using gridpp::vec3; using gridpp::ivec; using gridpp::ivec2;
static const float NaN = std::nanf("");

static inline vec symvec(const char* n, int N, double lo = -100, double hi = 100, int kinds = sv::FIN) { vec v(N); for (int i = 0; i < N; i++) v[i] = sv::f32(sv::idx(n, i).c_str(), lo, hi, kinds); return v; }
static inline vec2 symvec2(const char* n, int Y, int X, double lo = -100, double hi = 100, int kinds = sv::FIN) { vec2 v(Y); for (int y = 0; y < Y; y++) { v[y].resize(X); for (int x = 0; x < X; x++) v[y][x] = sv::f32(sv::idx(n, y, x).c_str(), lo, hi, kinds); } return v; }
static inline vec3 symvec3(const char* n, int Y, int X, int E, double lo = -100, double hi = 100, int kinds = sv::FIN) { vec3 v(Y); for (int y = 0; y < Y; y++) { v[y].resize(X); for (int x = 0; x < X; x++) { v[y][x].resize(E); for (int e = 0; e < E; e++) v[y][x][e] = sv::f32(sv::idx(n, y, x, e).c_str(), lo, hi, kinds); } } return v; }
static inline dvec valid(const vec& v) { dvec r; for (float f : v) if (sv::isnum(f)) r.push_back(f); return r; }
// sorting network on terms: no forking
static inline dvec sorted(dvec v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j + 1 < v.size() - i; j++) { double a = sv::dmin(v[j], v[j + 1]), b = sv::dmax(v[j], v[j + 1]); v[j] = a; v[j + 1] = b; } return v; }
static inline double dsum(const dvec& v) { double s = 0; for (double d : v) s += d; return s; }
static inline double refquant(const dvec& v0, double level) { // level must be concrete or pinned by the path
    if (v0.empty() || !sv::isnum(level)) return NAN; dvec v = sorted(v0); double r = level * (v.size() - 1); int l = (int) std::floor(r), u = (int) std::ceil(r); if (l == u) return v[l]; return v[l] + (v[u] - v[l]) * (r - l);
}
static inline double refstat(const dvec& v, gridpp::Statistic s) {
    int n = v.size(); if (s == gridpp::Count) return n; if (n == 0) return NAN;
    double sum = dsum(v);
    switch (s) {
        case gridpp::Sum: return sum; case gridpp::Mean: return sum / n;
        case gridpp::Min: { double m = v[0]; for (double d : v) m = sv::dmin(m, d); return m; }
        case gridpp::Max: { double m = v[0]; for (double d : v) m = sv::dmax(m, d); return m; }
        case gridpp::Median: return refquant(v, 0.5);
        case gridpp::Variance: case gridpp::Std: { double t = 0, m = sum / n; for (double d : v) t += (d - m) * (d - m); return t / n; } // Std: the variance (compare squares)
        default: return NAN;
    }
}
// compares a result with the reference statistic; Std is compared through its square
static inline void check_stat(double got, const dvec& v, gridpp::Statistic s, double tol, const char* label) {
    double r = refstat(v, s);
    if (s == gridpp::Std) { if (!sv::isnum(r)) check(close(got, r, 0), label); else if (!sv::isnum(got)) check(false, label); else { check(le(0, got), label); check(close(got * got, r, tol), label); } }
    else { check(close(got, r, tol), label); if (s == gridpp::Variance && sv::isnum(got)) check(le(0, got), label); }
}
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static const gridpp::Statistic STATS[] = {gridpp::Mean, gridpp::Min, gridpp::Median, gridpp::Max, gridpp::Std, gridpp::Variance, gridpp::Sum, gridpp::Count};
static inline gridpp::Statistic symstat() { return STATS[sv::integer("statistic", 0, 7)]; }
// 1-coordinate Cartesian layouts
static inline gridpp::Grid cgrid(const vec2& y, const vec2& x, const vec2& e = vec2(), const vec2& l = vec2()) { return gridpp::Grid(y, x, e, l, gridpp::Cartesian); }
static inline void lattice(int Y, int X, double dy, double dx, vec2& lat, vec2& lon) { lat.assign(Y, vec(X)); lon = lat; for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { lat[y][x] = y * dy; lon[y][x] = x * dx; } }
// valid values in the clipped square window around (y,x)
static inline dvec window_values(const vec2& f, int y, int x, int hw) { dvec r; int Y = f.size(), X = f[0].size(); for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) if (sv::isnum(f[i][j])) r.push_back(f[i][j]); return r; }
static inline dvec window_values(const vec3& f, int y, int x, int hw) { dvec r; int Y = f.size(), X = f[0].size(); for (int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for (int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) for (float v : f[i][j]) if (sv::isnum(v)) r.push_back(v); return r; }
static inline bool dims(const vec2& a, int Y, int X) { if ((int) a.size() != Y) return false; for (auto& r : a) if ((int) r.size() != X) return false; return true; }
