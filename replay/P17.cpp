#include "exact.hpp"
static void one(const Mo<double> &m, int which = 7)
{
    if (!stable(m)) return;
    double w = (double)idet(im(m));
    cforms<double>(m, [&](const MatrixBase<double> &a, const std::string &f) {
        tc("determinant " + f + " " + show(m), m.r > 1);
        double d = linalg::determinant(a);
        shm->checks++;
        if (!(std::abs(d - w) <= 1e-11 * hada(m))) fail("determinant: got " + str(d) + " expected " + str(w));
    }, which);
}
GROUP(small) { for (Z n = 1; n <= 4; ++n) for (auto &m : squares(n, 12 * scale)) one(m); }
GROUP(elimination) { for (Z n = 5; n <= 7; ++n) for (auto &m : squares(n, 8 * scale)) one(m); }
GROUP(large) { for (int k = 0; k < 3 * scale; ++k) for (Z n : { 8, 9, 10, 12 }) for (auto &m : squares(n, 1)) one(m, 1 << ri(0, 2)); }
GROUP(unit)
{
    // every single non-zero pattern of a permutation of size 5: sign of every swap sequence
    std::vector<Z> p = { 0, 1, 2, 3, 4 };
    do {
        Mo<double> a(5, 5);
        for (Z i = 0; i < 5; ++i) a(i, p[i]) = 2;
        one(a, 1);
        a(4, 4) += 1, a(0, 4) += 1, a(3, 0) += 1;
        one(a, 1);
    } while (std::next_permutation(p.begin(), p.end()));
}
GROUP(scaled)
{
    // tiny and huge pivots that are not zero; powers of two keep the result exact
    for (Z n = 2; n <= 7; ++n) for (int k = 0; k < 6 * scale; ++k) {
        Mo<double> a(n, n);
        double w = 1;
        for (Z i = 0; i < n; ++i) { int e = ri(-60, 60); a(i, i) = std::ldexp(1.0, e); w *= a(i, i); for (Z j = i + 1; j < n; ++j) a(i, j) = ri(-3, 3); }
        cforms<double>(a, [&](const MatrixBase<double> &x, const std::string &f) {
            tc("determinant of a triangular matrix " + f + " " + show(a));
            double d = linalg::determinant(x);
            if (!(std::abs(d - w) <= 1e-9 * std::abs(w)) && n > 4) fail("determinant: got " + str(d) + " expected " + str(w));
        }, 1);
    }
}
GROUP(ints) { for (Z n = 1; n <= 4; ++n) for (auto &m : squares(n, 8)) { Mo<int> q(n, n); for (Z i = 0; i < q.v.size(); ++i) q.v[i] = (int)m.v[i]; cforms<int>(q, [&](const MatrixBase<int> &a, const std::string &f) { tc("determinant int " + f + " " + show(q)); eqs<int>(linalg::determinant(a), (int)idet(im(m)), "determinant"); }); } }
GROUP(complex_)
{
    // det of i^k * real matrix
    for (Z n = 1; n <= 6; ++n) for (auto &m : squares(n, 3)) {
        if (!stable(m)) continue;
        Mo<cd> q(n, n);
        cd w = (double)idet(im(m));
        for (Z i = 0; i < n; ++i) { cd u[] = { 1, cd(0, 1), -1, cd(0, -1) }; cd z = u[ri(0, 3)]; w *= z; for (Z j = 0; j < n; ++j) q(i, j) = z * m(i, j); }
        cforms<cd>(q, [&](const MatrixBase<cd> &a, const std::string &f) {
            tc("determinant complex " + f + " " + show(q));
            cd d = linalg::determinant(a);
            if (!(std::abs(d - w) <= 1e-11 * hada(m))) fail("determinant: got " + str(d) + " expected " + str(w));
        }, 1 << ri(0, 2));
    }
}
GROUP(const_view) { for (Z n = 1; n <= 6; ++n) for (auto &m : squares(n, 2)) { if (!stable(m)) continue; const Matrix<double> a = mk(m); tc("determinant of a constant view " + show(m)); View<const Matrix<double>> v(&a, 0, n, 0, n); double d = linalg::determinant(v), w = (double)idet(im(m)); if (!(std::abs(d - w) <= 1e-11 * hada(m))) fail("determinant: got " + str(d) + " expected " + str(w)); } }

GROUP(powers_of_two)
{
    // scaling rows and columns by powers of two is exact: the determinant scales with them
    for (Z n = 1; n <= 7; ++n) for (auto &m : squares(n, 4 * scale)) {
        if (!stable(m)) continue;
        Mo<double> q = m;
        double w = (double)idet(im(m)), h = hada(m);
        for (Z i = 0; i < n; ++i) {
            int e = ri(-45, 45), f = ri(-45, 45);
            w = std::ldexp(w, e + f), h = std::ldexp(h, e + f);
            for (Z j = 0; j < n; ++j) q(i, j) = std::ldexp(q(i, j), e), q(j, i) = std::ldexp(q(j, i), f);
        }
        cforms<double>(q, [&](const MatrixBase<double> &a, const std::string &f) {
            tc("determinant of rows and columns scaled by powers of two " + f + " " + show(q));
            double d = linalg::determinant(a);
            if (!(std::abs(d - w) <= 1e-11 * h)) fail("determinant: got " + str(d) + " expected " + str(w));
        }, 1 << ri(0, 2));
    }
}
