// Helpers for the harnesses of the command-line client (src/client). Kept independent of the code under test.
#pragma once
#include "Util.h"
#include "Options.h"
#include "KDTree.h"
#include "Calibrator/Calibrator.h"
#include "Downscaler/Downscaler.h"
#include "File/File.h"
#include "ParameterFile/ParameterFile.h"
#include "sv.h"
#include <algorithm>
#include <stdexcept>
#include <cstdarg>
using sv::check; using sv::close; using sv::le; using sv::lt; using sv::eq; using sv::land; using sv::lor; using sv::lnot; using sv::imp;
typedef std::vector<double> dvec;
typedef std::vector<float> vec;
typedef std::vector<vec2> cvec3;
static const float MV = -999;
static const float NaN = std::nanf("");
// the client's missing values are -999, NaN and infinity
static inline bool ok(double v) { if (!sv::isnum(v)) return false; return v != -999; }
enum { FIN = 0, MISS = 1, MISSN = 2 }; // MISS: the value may also be -999; MISSN: or NaN
static inline float cval(const std::string& n, double lo, double hi, int kinds) {
    float f = sv::f32(n.c_str(), lo, hi, kinds == MISSN ? sv::OPT : sv::FIN); if (!kinds) return f;
    float m = sv::f32((n + "_missing").c_str(), 0, 1); return sv::ite(lt(0.5, m), -999.0, f);
}
static inline FileFake cfile(int Y, int X, int E, int T) { char b[99]; snprintf(b, sizeof b, "nLat=%d nLon=%d nEns=%d nTime=%d", Y, X, E, T); return FileFake(Options(b)); }
static inline std::string cname(const char* n, int t, int y, int x, int e) { char b[99]; snprintf(b, sizeof b, "%s.%d.%d.%d.%d", n, t, y, x, e); return b; }
typedef std::vector<std::vector<std::vector<std::vector<float> > > > cvec4; // t, y, x, e
static inline cvec4 csym(const File& f, const char* n, double lo, double hi, int kinds) { cvec4 v(f.getNumTime(), cvec3(f.getNumY(), vec2(f.getNumX(), vec(f.getNumEns()))));
    for (size_t t = 0; t < v.size(); t++) for (size_t y = 0; y < v[t].size(); y++) for (size_t x = 0; x < v[t][y].size(); x++) for (size_t e = 0; e < v[t][y][x].size(); e++) v[t][y][x][e] = cval(cname(n, t, y, x, e), lo, hi, kinds); return v; }
static inline void cput(File& f, const Variable& var, const cvec4& v) { for (size_t t = 0; t < v.size(); t++) { FieldPtr p = f.getEmptyField(); for (size_t y = 0; y < v[t].size(); y++) for (size_t x = 0; x < v[t][y].size(); x++) for (size_t e = 0; e < v[t][y][x].size(); e++) (*p)(y, x, e) = v[t][y][x][e]; f.addField(p, var, t); } }
static inline cvec4 cget(const File& f, const Variable& var) { cvec4 v(f.getNumTime(), cvec3(f.getNumY(), vec2(f.getNumX(), vec(f.getNumEns()))));
    for (size_t t = 0; t < v.size(); t++) { FieldPtr p = f.getField(var, t); for (size_t y = 0; y < v[t].size(); y++) for (size_t x = 0; x < v[t][y].size(); x++) for (size_t e = 0; e < v[t][y][x].size(); e++) v[t][y][x][e] = (*p)(y, x, e); } return v; }
static inline bool run(const char* name, const Variable& var, const char* opt, File& f, const ParameterFile* p = NULL) { Calibrator* c = Calibrator::getScheme(name, var, Options(opt)); bool r = c->calibrate(f, p); delete c; return r; }
// one position p (cpos: every one in turn) holds a symbolic value, the others fixed and distinct values lo < v < hi
static inline int csize(const File& f) { return f.getNumTime() * f.getNumY() * f.getNumX() * f.getNumEns(); }
static inline int cpos(const File& f) { int N = csize(f); return N > 1 ? sv::integer("position", 0, N - 1) : 0; }
static inline cvec4 cspot(const File& f, const char* n, double lo, double hi, int kinds, int p) { int T = f.getNumTime(), Y = f.getNumY(), X = f.getNumX(), E = f.getNumEns(), N = csize(f), k = 0; cvec4 v(T, cvec3(Y, vec2(X, vec(E))));
    for (auto& a : v) for (auto& b : a) for (auto& c : b) for (auto& d : c) { d = k == p ? cval(n, lo, hi, kinds) : (float) (lo + (hi - lo) * (((k * 7 + 3) % N) + 0.5) / N); k++; } return v; }
static inline cvec4 cfill(const File& f, float x) { return cvec4(f.getNumTime(), cvec3(f.getNumY(), vec2(f.getNumX(), vec(f.getNumEns(), x)))); }
// every cell of the file
template<class F> static void cells(const File& f, F fn) { for (int t = 0; t < f.getNumTime(); t++) for (int y = 0; y < f.getNumY(); y++) for (int x = 0; x < f.getNumX(); x++) for (int e = 0; e < f.getNumEns(); e++) fn(t, y, x, e); }
static inline dvec csorted(dvec v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j + 1 < v.size() - i; j++) { double a = sv::dmin(v[j], v[j + 1]), b = sv::dmax(v[j], v[j + 1]); v[j] = a; v[j + 1] = b; } return v; }
static inline double cquant(const dvec& v0, double level) { if (v0.empty()) return MV; dvec v = csorted(v0); double r = level * (v.size() - 1); int l = (int) std::floor(r), u = (int) std::ceil(r); if (l == u) return v[l]; return v[l] + (v[u] - v[l]) * (r - l); }
// compares a result with the reference statistic of the valid values; Std through its square
static inline void cstat(double got, const dvec& v, Util::StatType s, double level, double tol, const char* label) {
    if (v.empty()) { check(!ok(got), label); return; } if (!ok(got)) { check(false, label); return; }
    double sum = 0; for (double d : v) sum += d; int n = v.size();
    switch (s) {
        case Util::StatTypeSum: check(close(got, sum, tol), label); break; case Util::StatTypeMean: check(close(got, sum / n, tol), label); break;
        case Util::StatTypeMin: { double m = v[0]; for (double d : v) m = sv::dmin(m, d); check(close(got, m, tol), label); break; }
        case Util::StatTypeMax: { double m = v[0]; for (double d : v) m = sv::dmax(m, d); check(close(got, m, tol), label); break; }
        case Util::StatTypeMedian: check(close(got, cquant(v, 0.5), tol), label); break;
        case Util::StatTypeQuantile: check(close(got, cquant(v, level), tol), label); break;
        case Util::StatTypeStd: { double t = 0, m = sum / n; for (double d : v) t += (d - m) * (d - m); check(le(0, got), label); check(close(got * got, t / n, tol), label); break; }
    }
}
static const char* STATN[] = {"mean", "min", "median", "max", "std", "sum", "quantile"};
static const Util::StatType STATT[] = {Util::StatTypeMean, Util::StatTypeMin, Util::StatTypeMedian, Util::StatTypeMax, Util::StatTypeStd, Util::StatTypeSum, Util::StatTypeQuantile};
