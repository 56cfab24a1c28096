#include "exact.hpp"
static void one(const Mo<double> &m, int which, bool exactzero, bool noise = false)
{
    if (!stable(m, true)) return;
    IM x = im(m);
    I d = idet(x);
    Mo<double> adj = m.r == 1 ? Mo<double>(1, 1, 1.0) : iadj(x);
    double h = hada(m);
    cforms<double>(m, [&](const MatrixBase<double> &a, const std::string &f) {
        tc("adjoint " + f + " " + show(m), m.r > 1);
        auto g = mo(linalg::adjoint(a));
        ck(g.r == m.r && g.c == m.c, "adjoint shape");
        for (Z i = 0; i < g.v.size(); ++i) if (!(std::abs(g.v[i] - adj.v[i]) <= 1e-10 * h)) fail("adjoint: got " + show(g) + " expected " + show(adj));
        if (d != 0) {
            tc("inverse " + f + " " + show(m), m.r > 1);
            auto q = mo(linalg::inverse(a));
            Mo<double> w(m.r, m.c);
            for (Z i = 0; i < w.v.size(); ++i) w.v[i] = adj.v[i] / (double)d;
            ck(q.r == m.r && q.c == m.c, "inverse shape: got " + show(q) + " expected " + show(w));
            for (Z i = 0; i < w.v.size(); ++i) if (!(std::abs(q.v[i] - w.v[i]) <= 1e-9 * h / std::abs((double)d) * std::max(1.0, h / std::abs((double)d)))) fail("inverse: got " + show(q) + " expected " + show(w));
        } else if (exactzero) {
            tc("inverse of a singular matrix " + f + " " + show(m));
            auto q = linalg::inverse(a);
            ck((q.rows() == 0 && q.cols() == 0) || (noise && linalg::determinant(a) != 0), "inverse of a singular matrix is empty: got " + show(mo(q)));
        }
    }, which);
}
GROUP(small) { for (Z n = 1; n <= 4; ++n) for (auto &m : squares(n, 10 * scale)) one(m, 7, true); }
GROUP(middle) { for (Z n = 5; n <= 6; ++n) for (auto &m : squares(n, 8 * scale)) one(m, 1 << ri(0, 2), true, true); }
GROUP(large) { for (Z n = 7; n <= 9; ++n) for (auto &m : squares(n, 6 * scale)) one(m, 1, true, true); }
GROUP(singular)
{
    // singular without any rounding: a zero row or column
    for (Z n = 1; n <= 7; ++n) for (Z k = 0; k < n; ++k) {
        Mo<double> m(n, n);
        for (Z i = 0; i < n; ++i) m(i, i) = i == k ? 0 : 2;
        one(m, 7, true);
        if (n > 1) { m(k, (k + 1) % n) = 1; one(m, 7, true); }
    }
}
GROUP(ints)
{
    for (Z n = 1; n <= 4; ++n) for (auto &m : squares(n, 6)) {
        Mo<int> q(n, n);
        for (Z i = 0; i < q.v.size(); ++i) q.v[i] = (int)m.v[i];
        Mo<double> adj = n == 1 ? Mo<double>(1, 1, 1.0) : iadj(im(m));
        Mo<int> ai(n, n);
        for (Z i = 0; i < ai.v.size(); ++i) ai.v[i] = (int)adj.v[i];
        double d = (double)idet(im(m));
        cforms<int>(q, [&](const MatrixBase<int> &a, const std::string &f) {
            tc("adjoint int " + f + " " + show(q));
            same(linalg::adjoint(a), ai, "adjoint");
            Mo<double> w = d ? Mo<double>(n, n) : Mo<double>();
            for (Z i = 0; i < w.v.size(); ++i) w.v[i] = adj.v[i] / d;
            tc("inverse int " + f + " " + show(q));
            same(linalg::inverse(a), w, "inverse", 1e-12);
        }, 1 << ri(0, 2));
    }
}
GROUP(complex_)
{
    for (Z n = 1; n <= 5; ++n) for (int k = 0; k < 4; ++k) {
        Mo<cd> q = rmo<cd>(n, n, -3, 3);
        Matrix<cd> a = mk(q);
        cd d = linalg::determinant(a);
        if (std::abs(d) < 0.5) continue;
        tc("inverse complex " + show(q));
        auto w = linalg::inverse(a);
        auto adj = linalg::adjoint(a);
        ck(w.rows() == n && w.cols() == n && adj.rows() == n && adj.cols() == n, "shape");
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) {
            cd s = 0, t = 0;
            for (Z l = 0; l < n; ++l) s += q(i, l) * w(l, j), t += q(i, l) * adj(l, j);
            if (std::abs(s - (i == j ? 1.0 : 0.0)) > 1e-7) fail("A*inverse(A) is not the identity: " + show(q));
            if (std::abs(t - (i == j ? d : cd(0))) > 1e-8 * std::max(1.0, std::abs(d)) * 100) fail("A*adjoint(A) is not det(A)*I: " + show(q));
        }
        same(a, q, "operand unchanged");
    }
}

GROUP(powers_of_two)
{
    // the inverse of 2^k * A is 2^-k * inverse(A); nothing is singular for being small or large
    for (Z n = 1; n <= 5; ++n) for (auto &m : squares(n, 3 * scale)) {
        if (!stable(m, true)) continue;
        I d = idet(im(m));
        if (d == 0) continue;
        Mo<double> adj = n == 1 ? Mo<double>(1, 1, 1.0) : iadj(im(m));
        double c = hada(m) / std::abs((double)d);
        for (int e : { -60, -35, -20, 20, 60 }) {
            Mo<double> q = m;
            for (auto &x : q.v) x = std::ldexp(x, e);
            tc("inverse of a scaled matrix 2^" + str(e) + " " + show(m), n > 1);
            auto g = mo(linalg::inverse(mk(q)));
            ck(g.r == n && g.c == n, "inverse shape: got " + show(g));
            for (Z i = 0; i < g.v.size(); ++i) if (!(std::abs(std::ldexp(g.v[i], e) - adj.v[i] / (double)d) <= 1e-9 * c * std::max(1.0, c))) fail("inverse: got " + show(g));
        }
    }
}
