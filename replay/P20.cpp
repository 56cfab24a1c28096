#include "exact.hpp"
static void pw(Z n, Z N, int which)
{
    Mo<double> A = rmo<double>(n, n, -3, 3);
    Mo<double> W = toM(ipow(im(A), N), n, n);
    cforms<double>(A, [&](const MatrixBase<double> &a, const std::string &f) {
        tc("powm " + str(N) + " " + f + " " + show(A), n > 1 && N > 1);
        same(linalg::powm(a, N), W, "powm");
    }, which);
}
static void co(Z n, Z q, int which)
{
    Mo<double> A = rmo<double>(n, n, -3, 3), B = rmo<double>(n, q, -3, 3), C = rmo<double>(q, n, -3, 3), W(n, n * q), O(n * q, n);
    for (Z k = 0; k < n; ++k) {
        IM x = imul(ipow(im(A), k), im(B)), y = imul(im(C), ipow(im(A), k));
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < q; ++j) W(i, k * q + j) = (double)x[i][j], O(k * q + j, i) = (double)y[j][i];
    }
    cforms<double>(A, [&](const MatrixBase<double> &a, const std::string &f) {
        cforms<double>(B, [&](const MatrixBase<double> &b, const std::string &g) {
            tc("ctrb " + f + " " + g + " " + show(A) + " " + show(B), n > 1);
            same(control::ctrb(a, b), W, "ctrb");
        }, which);
        cforms<double>(C, [&](const MatrixBase<double> &c, const std::string &g) {
            tc("obsv " + f + " " + g + " " + show(A) + " " + show(C), n > 1);
            same(control::obsv(a, c), O, "obsv");
        }, which);
    }, which);
}
GROUP(powm_) { for (Z n = 1; n <= 5; ++n) for (Z N = 0; N <= 7; ++N) for (int k = 0; k < scale; ++k) pw(n, N, 7); pw(2, 20, 1); pw(9, 4, 1); }
GROUP(powm_int) { for (Z n = 1; n <= 4; ++n) for (Z N = 0; N <= 5; ++N) { Mo<int> A = rmo<int>(n, n, -3, 3); Mo<double> D(n, n); for (Z i = 0; i < D.v.size(); ++i) D.v[i] = A.v[i]; Mo<double> W = toM(ipow(im(D), N), n, n); Mo<int> WI(n, n); for (Z i = 0; i < W.v.size(); ++i) WI.v[i] = (int)W.v[i]; cforms<int>(A, [&](const MatrixBase<int> &a, const std::string &f) { tc("powm int " + str(N) + " " + f + " " + show(A)); same(linalg::powm(a, N), WI, "powm"); }); } }
GROUP(ctrb_obsv) { for (Z n = 1; n <= 5; ++n) for (Z q = 1; q <= 4; ++q) for (int k = 0; k < scale; ++k) co(n, q, 7); co(7, 2, 1); co(1, 9, 7); }

GROUP(long_powers)
{
    // powers of a signed permutation stay exact
    for (Z n = 1; n <= 4; ++n) for (Z N : { 63, 64, 65, 127, 128, 255, 256, 257, 300, 512, 1000, 65535, 65536, 65537 }) {
        if (n > 2 && N > 1000) continue;
        Mo<double> A(n, n), W(n, n);
        for (Z i = 0; i < n; ++i) A(i, (i + 1) % n) = ri(0, 1) ? 1 : -1;
        for (Z i = 0; i < n; ++i) { Z p = i; double s = 1; for (Z k = 0; k < N; ++k) s *= A(p, (p + 1) % n), p = (p + 1) % n; W(i, p) = s; }
        tc("powm " + str(N) + " " + show(A));
        same(linalg::powm(mk(A), N), W, "powm");
    }
    for (Z n : { 1, 2, 5, 12 }) {          // ctrb of a shift: every block of B moves on
        Mo<double> A(n, n), B(n, 1), W(n, n);
        for (Z i = 0; i + 1 < n; ++i) A(i + 1, i) = 1;
        B(0, 0) = 1;
        for (Z i = 0; i < n; ++i) W(i, i) = 1;
        tc("ctrb of a shift " + str(n), n > 1);
        same(control::ctrb(mk(A), mk(B)), W, "ctrb");
    }
}
