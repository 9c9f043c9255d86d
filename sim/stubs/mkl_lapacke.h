// A stand-in for the few functions of MKL that LeanVec calls.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <vector>
enum { LAPACK_ROW_MAJOR = 101 };
enum { CblasRowMajor = 101, CblasNoTrans = 111 };

inline void cblas_sgemm(
    int, int, int, int64_t m, int64_t n, int64_t k, float alpha, const float* a, int64_t lda,
    const float* b, int64_t ldb, float beta, float* c, int64_t ldc
) {
    for (int64_t i = 0; i < m; ++i) {
        for (int64_t j = 0; j < n; ++j) {
            float s = 0;
            for (int64_t l = 0; l < k; ++l) {
                s += a[i * lda + l] * b[l * ldb + j];
            }
            c[i * ldc + j] = beta == 0 ? alpha * s : alpha * s + beta * c[i * ldc + j];
        }
    }
}

// Singular values and right singular vectors (all of them, as rows) of an m x n matrix: the
// eigenvectors of its Gram matrix, by Jacobi rotations.
inline int LAPACKE_dgesvd(
    int, char, char, int64_t m, int64_t n, double* a, int64_t lda, double* s, double*, int64_t,
    double* vt, int64_t ldvt, double*
) {
    std::vector<double> g(n * n, 0.0), v(n * n, 0.0);
    for (int64_t i = 0; i < m; ++i) {
        for (int64_t p = 0; p < n; ++p) {
            for (int64_t q = 0; q < n; ++q) {
                g[p * n + q] += a[i * lda + p] * a[i * lda + q];
            }
        }
    }
    for (int64_t i = 0; i < n; ++i) {
        v[i * n + i] = 1;
    }
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0, all = 0;
        for (int64_t p = 0; p < n; ++p) {
            for (int64_t q = 0; q < n; ++q) {
                (p == q ? all : off) += g[p * n + q] * g[p * n + q];
            }
        }
        if (off <= 1e-24 * all) {
            break;
        }
        for (int64_t p = 0; p < n; ++p) {
            for (int64_t q = p + 1; q < n; ++q) {
                if (g[p * n + q] == 0) {
                    continue;
                }
                double th = (g[q * n + q] - g[p * n + p]) / (2 * g[p * n + q]);
                double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
                double c = 1 / std::sqrt(t * t + 1), d = t * c;
                for (int64_t i = 0; i < n; ++i) {
                    double x = g[i * n + p], y = g[i * n + q];
                    g[i * n + p] = c * x - d * y;
                    g[i * n + q] = d * x + c * y;
                }
                for (int64_t i = 0; i < n; ++i) {
                    double x = g[p * n + i], y = g[q * n + i];
                    g[p * n + i] = c * x - d * y;
                    g[q * n + i] = d * x + c * y;
                }
                for (int64_t i = 0; i < n; ++i) {
                    double x = v[i * n + p], y = v[i * n + q];
                    v[i * n + p] = c * x - d * y;
                    v[i * n + q] = d * x + c * y;
                }
            }
        }
    }
    std::vector<bool> used(n, false);
    for (int64_t r = 0; r < n; ++r) {
        int64_t best = -1;
        for (int64_t i = 0; i < n; ++i) {
            if (!used[i] && (best < 0 || g[i * n + i] > g[best * n + best])) {
                best = i;
            }
        }
        used[best] = true;
        double e = g[best * n + best];
        s[r] = e > 0 ? std::sqrt(e) : 0;
        for (int64_t i = 0; i < n; ++i) {
            vt[r * ldvt + i] = v[i * n + best];
        }
    }
    return 0;
}

inline void mkl_dimatcopy(
    char, char, size_t rows, size_t cols, double alpha, double* m, size_t lda, size_t
) {
    for (size_t i = 0; i < rows; ++i) {
        for (size_t j = i; j < cols; ++j) {
            double x = m[i * lda + j], y = m[j * lda + i];
            m[i * lda + j] = alpha * y;
            m[j * lda + i] = alpha * x;
        }
    }
}
