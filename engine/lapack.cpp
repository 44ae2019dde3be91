// Reference BLAS/LAPACK (column major), compiled with the instrumentation, in place of the machine-code library: the few
// routines armadillo calls. Written for small matrices; works on symbolic entries (eigenvalues: 1x1, 2x2 or concrete).
#include <cmath>
#include <vector>
#include <algorithm>
#include "sv.h"
typedef int I; typedef double D;
static bool tr(const char* t) { return *t != 'N' && *t != 'n'; }
extern "C" {
D wrapper2_ddot_(const I* n, const D* x, const I* ix, const D* y, const I* iy) { D s = 0; for (I i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy]; return s; }
void wrapper2_dgemm_(const char* ta, const char* tb, const I* m, const I* n, const I* k, const D* al, const D* a, const I* lda, const D* b, const I* ldb, const D* be, D* c, const I* ldc) {
    for (I j = 0; j < *n; j++) for (I i = 0; i < *m; i++) { D s = 0; for (I l = 0; l < *k; l++) s += (tr(ta) ? a[l + i * *lda] : a[i + l * *lda]) * (tr(tb) ? b[j + l * *ldb] : b[l + j * *ldb]); c[i + j * *ldc] = *al * s + (*be == 0 ? 0 : *be * c[i + j * *ldc]); }
}
void wrapper2_dgemv_(const char* t, const I* m, const I* n, const D* al, const D* a, const I* lda, const D* x, const I* ix, const D* be, D* y, const I* iy) {
    I R = tr(t) ? *n : *m, K = tr(t) ? *m : *n; for (I i = 0; i < R; i++) { D s = 0; for (I l = 0; l < K; l++) s += (tr(t) ? a[l + i * *lda] : a[i + l * *lda]) * x[l * *ix]; y[i * *iy] = *al * s + (*be == 0 ? 0 : *be * y[i * *iy]); }
}
void wrapper2_dsyrk_(const char* ul, const char* t, const I* n, const I* k, const D* al, const D* a, const I* lda, const D* be, D* c, const I* ldc) {
    bool up = *ul == 'U' || *ul == 'u'; for (I j = 0; j < *n; j++) for (I i = 0; i < *n; i++) if (up ? i <= j : i >= j) { D s = 0; for (I l = 0; l < *k; l++) s += tr(t) ? a[l + i * *lda] * a[l + j * *lda] : a[i + l * *lda] * a[j + l * *lda]; c[i + j * *ldc] = *al * s + (*be == 0 ? 0 : *be * c[i + j * *ldc]); }
}
void wrapper2_dgetrf_(const I* m, const I* n, D* a, const I* lda, I* piv, I* info) {
    I N = *n, L = *lda; *info = 0; for (I k = 0; k < std::min(N, *m); k++) { I p = k; for (I i = k + 1; i < *m; i++) if (std::fabs(a[i + k * L]) > std::fabs(a[p + k * L])) p = i; piv[k] = p + 1; if (a[p + k * L] == 0) { if (!*info) *info = k + 1; continue; }
        if (p != k) for (I j = 0; j < N; j++) std::swap(a[k + j * L], a[p + j * L]); for (I i = k + 1; i < *m; i++) { a[i + k * L] /= a[k + k * L]; for (I j = k + 1; j < N; j++) a[i + j * L] -= a[i + k * L] * a[k + j * L]; } }
}
static void lusolve(I N, const D* a, I L, const I* piv, D* b) { for (I k = 0; k < N; k++) if (piv[k] - 1 != k) std::swap(b[k], b[piv[k] - 1]); for (I i = 0; i < N; i++) for (I j = 0; j < i; j++) b[i] -= a[i + j * L] * b[j]; for (I i = N - 1; i >= 0; i--) { for (I j = i + 1; j < N; j++) b[i] -= a[i + j * L] * b[j]; b[i] /= a[i + i * L]; } }
void wrapper2_dgetri_(const I* n, D* a, const I* lda, const I* piv, D* work, const I* lw, I* info) {
    *info = 0; if (*lw == -1) { work[0] = *n; return; } I N = *n; for (I i = 0; i < N; i++) if (a[i + i * *lda] == 0) { *info = i + 1; return; }
    std::vector<D> r(N * N, 0); for (I j = 0; j < N; j++) { r[j + j * N] = 1; lusolve(N, a, *lda, piv, &r[j * N]); } for (I j = 0; j < N; j++) for (I i = 0; i < N; i++) a[i + j * *lda] = r[i + j * N];
}
void wrapper2_dpotrf_(const char* ul, const I* n, D* a, const I* lda, I* info) {
    bool up = *ul == 'U' || *ul == 'u'; I N = *n, L = *lda; *info = 0; auto at = [&](I i, I j) -> D& { return up ? a[j + i * L] : a[i + j * L]; }; // lower (i>=j)
    for (I j = 0; j < N; j++) { D s = at(j, j); for (I k = 0; k < j; k++) s -= at(j, k) * at(j, k); if (!(s > 0)) { *info = j + 1; return; } at(j, j) = std::sqrt(s); for (I i = j + 1; i < N; i++) { D t = at(i, j); for (I k = 0; k < j; k++) t -= at(i, k) * at(j, k); at(i, j) = t / at(j, j); } }
}
static std::vector<D> cholinv(bool up, I N, const D* a, I L) { auto at = [&](I i, I j) { return up ? a[j + i * L] : a[i + j * L]; }; std::vector<D> r(N * N, 0); for (I c = 0; c < N; c++) { D* b = &r[c * N]; b[c] = 1; for (I i = 0; i < N; i++) { for (I j = 0; j < i; j++) b[i] -= at(i, j) * b[j]; b[i] /= at(i, i); } for (I i = N - 1; i >= 0; i--) { for (I j = i + 1; j < N; j++) b[i] -= at(j, i) * b[j]; b[i] /= at(i, i); } } return r; }
void wrapper2_dpotri_(const char* ul, const I* n, D* a, const I* lda, I* info) { bool up = *ul == 'U' || *ul == 'u'; I N = *n; *info = 0; auto r = cholinv(up, N, a, *lda); for (I j = 0; j < N; j++) for (I i = 0; i < N; i++) if (up ? i <= j : i >= j) a[i + j * *lda] = r[i + j * N]; }
void wrapper2_dtrtri_(const char* ul, const char* dg, const I* n, D* a, const I* lda, I* info) {
    bool up = *ul == 'U' || *ul == 'u', unit = *dg == 'U'; I N = *n, L = *lda; *info = 0; auto at = [&](I i, I j) -> D& { return up ? a[(N - 1 - i) + (N - 1 - j) * L] : a[i + j * L]; }; if (!unit) for (I i = 0; i < N; i++) if (a[i + i * L] == 0) { *info = i + 1; return; }
    std::vector<D> r(N * N, 0); for (I c = 0; c < N; c++) for (I i = c; i < N; i++) { D s = i == c ? 1 : 0; for (I k = c; k < i; k++) s -= at(i, k) * r[k + c * N]; r[i + c * N] = unit ? s : s / at(i, i); } for (I c = 0; c < N; c++) for (I i = c; i < N; i++) at(i, c) = r[i + c * N];
}
static D norm1(I m, I n, const D* a, I L) { D r = 0; for (I j = 0; j < n; j++) { D s = 0; for (I i = 0; i < m; i++) s += std::fabs(a[i + j * L]); r = s > r ? s : r; } return r; }
D wrapper2_dlange_(const char* w, const I* m, const I* n, const D* a, const I* lda, D*) { if (*w != '1' && *w != 'O' && *w != 'o') sv::stop_path(); return norm1(*m, *n, a, *lda); }
D wrapper2_dlansy_(const char* w, const char* ul, const I* n, const D* a, const I* lda, D*) { bool up = *ul == 'U' || *ul == 'u'; I N = *n; std::vector<D> f(N * N); for (I j = 0; j < N; j++) for (I i = 0; i < N; i++) f[i + j * N] = (up ? i <= j : i >= j) ? a[i + j * *lda] : a[j + i * *lda]; return norm1(N, N, f.data(), N); }
static D rc(D an, D in) { if (an == 0 || in == 0) return 0; return 1 / an / in; }
void wrapper2_dgecon_(const char*, const I* n, const D* a, const I* lda, const D* an, D* rcond, D*, I*, I* info) { // a: the LU factors without their permutation, which does not change the 1-norm of the inverse up to column order
    I N = *n; *info = 0; *rcond = 0; for (I i = 0; i < N; i++) if (a[i + i * *lda] == 0) return; std::vector<I> id(N); for (I i = 0; i < N; i++) id[i] = i + 1; std::vector<D> r(N * N, 0); for (I j = 0; j < N; j++) { r[j + j * N] = 1; lusolve(N, a, *lda, id.data(), &r[j * N]); } *rcond = rc(*an, norm1(N, N, r.data(), N));
}
void wrapper2_dpocon_(const char* ul, const I* n, const D* a, const I* lda, const D* an, D* rcond, D*, I*, I* info) { *info = 0; I N = *n; auto r = cholinv(*ul == 'U' || *ul == 'u', N, a, *lda); *rcond = rc(*an, norm1(N, N, r.data(), N)); }
void wrapper2_dtrcon_(const char*, const char* ul, const char* dg, const I* n, const D* a, const I* lda, D* rcond, D*, I*, I* info) { I N = *n; std::vector<D> f(N * N, 0); bool up = *ul == 'U' || *ul == 'u'; for (I j = 0; j < N; j++) for (I i = 0; i < N; i++) if (up ? i <= j : i >= j) f[i + j * N] = a[i + j * *lda]; D an = norm1(N, N, f.data(), N); *rcond = 0; *info = 0; wrapper2_dtrtri_(ul, dg, n, f.data(), n, info); if (*info) { *info = 0; return; } *rcond = rc(an, norm1(N, N, f.data(), N)); }
static void syev(const char* jz, const char* ul, const I* n, D* a, const I* lda, D* w) {
    I N = *n, L = *lda; bool up = *ul == 'U' || *ul == 'u'; std::vector<D> A(N * N), Q(N * N, 0); for (I j = 0; j < N; j++) { Q[j + j * N] = 1; for (I i = 0; i < N; i++) A[i + j * N] = (up ? i <= j : i >= j) ? a[i + j * L] : a[j + i * L]; }
    bool conc = true; for (D d : A) if (sv::symbolic(d)) conc = false; if (!conc && N > 2) sv::stop_path();
    for (int sweep = 0; sweep < (conc ? 60 : 1); sweep++) for (I p = 0; p < N; p++) for (I q = p + 1; q < N; q++) { // Jacobi rotations: exact after one for 2x2
        D b = A[p + q * N]; if (b == 0) continue; D th = (A[q + q * N] - A[p + p * N]) / (2 * b), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (I k = 0; k < N; k++) { D x = A[k + p * N], y = A[k + q * N]; A[k + p * N] = c * x - s * y; A[k + q * N] = s * x + c * y; } for (I k = 0; k < N; k++) { D x = A[p + k * N], y = A[q + k * N]; A[p + k * N] = c * x - s * y; A[q + k * N] = s * x + c * y; } for (I k = 0; k < N; k++) { D x = Q[k + p * N], y = Q[k + q * N]; Q[k + p * N] = c * x - s * y; Q[k + q * N] = s * x + c * y; } }
    std::vector<I> o(N); for (I i = 0; i < N; i++) o[i] = i; for (I i = 0; i < N; i++) for (I j = 0; j + 1 < N - i; j++) if (A[o[j] + o[j] * N] > A[o[j + 1] + o[j + 1] * N]) std::swap(o[j], o[j + 1]);
    for (I j = 0; j < N; j++) { w[j] = A[o[j] + o[j] * N]; if (*jz == 'V') for (I i = 0; i < N; i++) a[i + j * L] = Q[i + o[j] * N]; }
}
void wrapper2_dsyev_(const char* jz, const char* ul, const I* n, D* a, const I* lda, D* w, D* work, const I* lw, I* info) { *info = 0; if (*lw == -1) { work[0] = 64; return; } syev(jz, ul, n, a, lda, w); }
void wrapper2_dsyevd_(const char* jz, const char* ul, const I* n, D* a, const I* lda, D* w, D* work, const I* lw, I* iw, const I* liw, I* info) { *info = 0; if (*lw == -1 || *liw == -1) { work[0] = 1024; iw[0] = 1024; return; } syev(jz, ul, n, a, lda, w); }
}
