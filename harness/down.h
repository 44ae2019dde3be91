// fixed geometry for the gradient downscalers: a 2x2 rectangular grid and 4 output locations with known weights
#pragma once
#include "common.h"
struct D {
    enum { N = 4 }; vec y = {0, 1.5f, 0.4f, 9}, x = {0, 1, 3.2f, 9}; // node, interior, interior near another corner, outside
    vec2 la = {{0, 0}, {2, 2}}, lo = {{0, 4}, {0, 4}};
    gridpp::Grid grid(const vec2& e, const vec2& l = vec2()) const { return cgrid(la, lo, e, l); }
    gridpp::Points points(const vec& e, const vec& l = vec()) const { return gridpp::Points(y, x, e, l, gridpp::Cartesian); }
    gridpp::Grid row(const vec& e, const vec& l = vec()) const { return cgrid({y}, {x}, {e}, l.size() ? vec2{l} : vec2()); }
    gridpp::Grid col(const vec& e, const vec& l = vec()) const { vec2 a(N, vec(1)), b = a, c = a, f = a; for (int i = 0; i < N; i++) { a[i][0] = y[i]; b[i][0] = x[i]; c[i][0] = e[i]; if (l.size()) f[i][0] = l[i]; } return cgrid(a, b, c, l.size() ? f : vec2()); }
    // 2x3 output grid: location i is cell (i % 2, 2 * (i / 2)), the middle column repeats two of the locations
    gridpp::Grid block(const vec& e, const vec& l = vec()) const { static const int w[2][3] = {{0, 3, 2}, {1, 2, 3}}; vec2 a(2, vec(3)), b = a, c = a, f = a; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { int k = w[i][j]; a[i][j] = y[k]; b[i][j] = x[k]; c[i][j] = e[k]; if (l.size()) f[i][j] = l[k]; } return cgrid(a, b, c, l.size() ? f : vec2()); }
    static float at(const vec2& r, int i) { return r[i % 2][i / 2 * 2]; }
    double down(const vec2& f, int i, int bilinear) const {
        static const int ny[N] = {0, 1, 0, 1}, nx[N] = {0, 0, 1, 1}; bool ok = bilinear && i < 3; for (auto& r : f) for (float a : r) ok = ok && sv::isnum(a); if (!ok) return f[ny[i]][nx[i]];
        double u = y[i] / 2., w = x[i] / 4.; return f[0][0] * (1 - u) * (1 - w) + f[1][0] * u * (1 - w) + f[0][1] * (1 - u) * w + f[1][1] * u * w;
    }
};
