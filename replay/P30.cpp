#include "common.hpp"
// matrix exponential and discretisation, against a long double reference (scaled Taylor series, partial pivoting)
typedef long double L;
typedef Mo<L> RM;
static RM lm(const Mo<double> &a) { RM r(a.r, a.c); for (Z i = 0; i < a.v.size(); ++i) r.v[i] = a.v[i]; return r; }
static RM mul(const RM &a, const RM &b) { RM r(a.r, b.c, 0); for (Z i = 0; i < a.r; ++i) for (Z j = 0; j < b.c; ++j) for (Z k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j); return r; }
static RM refexp(RM a)
{
    Z n = a.r;
    L nm = 0;
    for (Z i = 0; i < n; ++i) { L s = 0; for (Z j = 0; j < n; ++j) s += fabsl(a(i, j)); nm = std::max(nm, s); }
    int m = 0;
    while (nm > 0.01L) nm /= 2, ++m;
    for (L &x : a.v) x = ldexpl(x, -m);
    RM s(n, n, 0), t(n, n, 0);
    for (Z i = 0; i < n; ++i) s(i, i) = t(i, i) = 1;
    for (int k = 1; k < 24; ++k) { t = mul(t, a); for (L &x : t.v) x /= k; for (Z i = 0; i < n * n; ++i) s.v[i] += t.v[i]; }
    while (m--) s = mul(s, s);
    return s;
}
// x with a*x = b
static RM solve(RM a, RM b)
{
    Z n = a.r;
    for (Z k = 0; k < n; ++k) {
        Z p = k;
        for (Z i = k; i < n; ++i) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
        for (Z j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
        for (Z j = 0; j < b.c; ++j) std::swap(b(k, j), b(p, j));
        for (Z i = 0; i < n; ++i) if (i != k) { L f = a(i, k) / a(k, k); for (Z j = 0; j < n; ++j) a(i, j) -= f * a(k, j); for (Z j = 0; j < b.c; ++j) b(i, j) -= f * b(k, j); }
    }
    for (Z i = 0; i < n; ++i) for (Z j = 0; j < b.c; ++j) b(i, j) /= a(i, i);
    return b;
}
static L top(const RM &a) { L m = 0; for (L x : a.v) m = std::max(m, fabsl(x)); return m; }
static void near(const Mo<double> &have, const RM &want, L tol, const std::string &what)
{
    ck(have.r == want.r && have.c == want.c, what + ": shape " + str(have.r) + "x" + str(have.c));
    for (Z i = 0; i < have.r; ++i) for (Z j = 0; j < have.c; ++j)
        ck(fabsl(have(i, j) - want(i, j)) <= tol, what + ": element (" + str(i) + "," + str(j) + ") is " + str(have(i, j)) + ", expected " + str((double)want(i, j)) + " +- " + str((double)tol));
}
// ten times the accuracy asked for, relative to the largest element, and rounding errors
static L allowed(const RM &a, const RM &e, double acc)
{
    L nm = 0;
    for (Z i = 0; i < a.r; ++i) { L s = 0; for (Z j = 0; j < a.c; ++j) s += fabsl(a(i, j)); nm = std::max(nm, s); }
    return 10 * acc * top(e) + 1e-13L * (a.r + 1) * std::max(top(e), (L)1) * (1 + nm);
}
static void one(const Mo<double> &a, double acc)
{
    tc("expm " + show(a) + " accuracy=" + str(acc), a.r > 0);
    Matrix<double> A = mk(a);
    RM want = refexp(lm(a));
    Mo<double> got = mo(linalg::expm(A, acc));
    near(got, want, allowed(lm(a), want, acc), "exponential");
    same(A, a, "argument unchanged");
}
static const double accs[] = { 1e-3, 1e-5, 1e-8, 1e-12 };
GROUP(expm_random)
{
    for (double acc : accs) for (Z n = 1; n <= 5; ++n) for (int k = 0; k < 12 * scale; ++k) {
        double mag = std::pow(10., ri(0, 3) - 2);
        Mo<double> a(n, n);
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) a(i, j) = k % 4 == 0 ? mag * ri(-1, 1) : k % 8 == 1 && i <= j ? 0 : mag * ri(-10000, 10000) / 1e4;
        one(a, acc);
    }
}
GROUP(expm_scalar) { for (double acc : accs) for (int i = -60; i <= 60; ++i) one(Mo<double>(1, 1, i / 8.), acc); }
GROUP(expm_special)
{
    for (double acc : accs) for (Z n = 1; n <= 4; ++n) {
        one(Mo<double>(n, n, 0), acc);
        for (int p = -3; p <= 5; ++p) {        // row sums at powers of two
            Mo<double> d(n, n, 0), u(n, n, 0);
            for (Z i = 0; i < n; ++i) d(i, i) = std::ldexp(i % 2 ? -1. : 1., p);
            for (Z i = 0; i + 1 < n; ++i) u(i, i + 1) = std::ldexp(1., p);
            if (p <= 3) one(d, acc);
            one(u, acc);
            Mo<double> l(n, n, 0);
            for (Z i = 1; i < n; ++i) l(i, 0) = -std::ldexp(1., p);
            one(l, acc);
            if (n == 2) { Mo<double> r(2, 2, 0); r(0, 1) = std::ldexp(1., p); r(1, 0) = -r(0, 1); one(r, acc); }
        }
    }
}
GROUP(expm_refused)
{
    for (Z r = 0; r <= 3; ++r) for (Z c = 0; c <= 3; ++c) if (r != c || !r) {
        Mo<double> a = rmo<double>(r, c, -2, 2);
        tc("expm refuses " + show(a));
        Matrix<double> A = mk(a);
        ck(throws([&] { linalg::expm(A, 1e-5); }), "a matrix that is not square, or has no element, is refused");
        same(A, a, "argument unchanged");
    }
}
GROUP(halvings)
{
    for (Z r = 0; r <= 3; ++r) for (Z c = 0; c <= 3; ++c) for (int k = 0; k < 8; ++k) {
        Mo<double> a = rmo<double>(r, c, -9, 9);
        double f = std::ldexp(1., ri(-3, 3)), nm = 0;
        for (double &x : a.v) x *= f;
        tc("log2_ceil " + show(a), r && c);
        for (Z i = 0; i < r; ++i) { double s = 0; for (Z j = 0; j < c; ++j) s += std::abs(a(i, j)); nm = std::max(nm, s); }
        Z m = 0;
        double h = 1;
        while (nm * h > 1) h /= 2, ++m;
        auto [n, s] = log2_ceil(mk(a));
        eqs<Z>(n, m, "number of halvings");
        eqs<double>(s, h, "scale");
    }
}
static void sampled(const Mo<double> &a, Z m, Z p, double Ts)
{
    Z n = a.r;
    Mo<double> b = rmo<double>(n, m, -3, 3), c = rmo<double>(p, n, -3, 3), d = rmo<double>(p, m, -3, 3);
    tc("c2d A=" + show(a) + " B=" + show(b) + " C=" + show(c) + " D=" + show(d) + " Ts=" + str(Ts));
    control::StateSpace<double> s(mk(a), mk(b), mk(c), mk(d));
    auto q = control::c2d(s, Ts);
    RM x = lm(a);
    for (L &e : x.v) e *= Ts;
    RM e = refexp(x);
    near(mo(q.A), e, allowed(x, e, 1e-5), "system matrix");
    RM g = lm(mo(q.A));                        // the identities below hold for whatever approximation was found
    for (Z i = 0; i < n; ++i) g(i, i) -= 1;
    RM inv(n, n, 0);
    for (Z i = 0; i < n; ++i) inv(i, i) = 1;
    inv = solve(lm(a), inv);
    RM bd = mul(mul(inv, g), lm(b));
    near(mo(q.B), bd, 1e-10L * n * std::max((L)1, top(inv)) * std::max((L)1, top(g)) * 10, "input matrix");
    same(q.C, c, "output matrix"), same(q.D, d, "feedforward matrix");
    eqs<double>(q.sample_time, Ts, "sample time");
    same(s.A, a, "A unchanged"), same(s.B, b, "B unchanged"), same(s.C, c, "C unchanged"), same(s.D, d, "D unchanged");
}
GROUP(c2d)
{
    for (Z n = 1; n <= 4; ++n) for (Z m = 1; m <= 3; ++m) for (Z p = 1; p <= 2; ++p) for (int k = 0; k < 3 * scale; ++k) {
        Mo<double> a = rmo<double>(n, n, -2, 2);
        for (Z i = 0; i < n; ++i) a(i, i) = (k % 2 ? -1 : 1) * (9 + (int)i);       // diagonally dominant
        sampled(a, m, p, std::ldexp(1., -ri(1, 6)));
    }
    sampled(Mo<double>(1, 1, -0.5), 2, 3, 1.0);
    sampled(Mo<double>(1, 1, 2), 1, 1, 2.0);
}
GROUP(c2d_refused)
{
    for (Z n = 1; n <= 3; ++n) for (int k = 0; k < 3; ++k) {
        Mo<double> a = rmo<double>(n, n, -2, 2), b = rmo<double>(n, 2, -3, 3), c = rmo<double>(1, n, -3, 3), d = rmo<double>(1, 2, -3, 3);
        for (Z i = 0; i < n; ++i) a(i, i) = 9;
        if (k == 0) for (Z j = 0; j < n; ++j) a(n - 1, j) = 0;                      // no inverse
        if (k == 1) b = rmo<double>(n + 1, 2, -3, 3);
        if (k == 2) a = rmo<double>(n, n + 1, -2, 2);
        tc("c2d refuses A=" + show(a) + " B=" + show(b));
        control::StateSpace<double> s(mk(a), mk(b), mk(c), mk(d));
        ck(throws([&] { control::c2d(s, 0.5); }), "a system matrix that is not square or has no inverse, and an input matrix of other height, are refused");
        same(s.A, a, "A unchanged"), same(s.B, b, "B unchanged"), same(s.C, c, "C unchanged"), same(s.D, d, "D unchanged");
    }
}
