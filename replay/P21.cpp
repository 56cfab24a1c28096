#include "exact.hpp"
template <class T> static Ve<T> expand(const Ve<T> &a)
{
    // multiply out (x - a_0)(x - a_1)...: independent of the library's recursion
    Ve<T> p{ T(1) };
    for (auto &x : a) {
        Ve<T> q(p.size() + 1, T(0));
        for (Z i = 0; i < p.size(); ++i) q[i] += p[i], q[i + 1] -= x * p[i];
        p = q;
    }
    return p;
}
template <class T> static void roots()
{
    for (Z n = 0; n <= 8; ++n) for (int k = 0; k < 4 * scale; ++k) {
        Ve<T> a = rve<T>(n, -4, 4);
        if (k == 1) for (auto &x : a) x = T(0);
        Ve<T> w = expand(a);
        Vector<T> v = mkv(a);
        tc(std::string("poly ") + tn<T>() + " roots " + show(a), n > 0);
        same(control::poly(v), w, "poly of a vector");
        same(v, a, "operand unchanged");
        if (n) {
            Mo<T> r(1, n), c(n, 1);
            r.v = c.v = a;
            cforms<T>(r, [&](const MatrixBase<T> &m, const std::string &f) { tc(std::string("poly ") + tn<T>() + " row " + f + show(a)); same(control::poly(m), w, "poly of a row"); });
            cforms<T>(c, [&](const MatrixBase<T> &m, const std::string &f) { tc(std::string("poly ") + tn<T>() + " column " + f + show(a)); same(control::poly(m), w, "poly of a column"); });
        }
    }
}
template <class T> static void red()
{
    for (Z n = 1; n <= 7; ++n) for (Z z = 0; z <= n; ++z) for (int k = 0; k < 3 * scale; ++k) {
        Ve<T> a = rve<T>(n, -2, 2);
        for (Z i = 0; i < z; ++i) a[i] = T(0);
        Ve<T> w;
        for (Z i = 0; i < n; ++i) if (!w.empty() || a[i] != T(0)) w.push_back(a[i]);
        if (w.empty()) w.push_back(T(0));
        Vector<T> v = mkv(a);
        tc(std::string("polyreduce ") + tn<T>() + " " + show(a), n > 1);
        same(control::polyreduce(v), w, "polyreduce");
        same(v, a, "operand unchanged");
    }
    tc("polyreduce of an empty vector", false);
    Vector<T> e;
    same(control::polyreduce(e), Ve<T>(1, T(0)), "polyreduce of an empty vector");
}
GROUP(roots_double) { roots<double>(); }
GROUP(roots_int) { roots<int>(); }
GROUP(roots_complex) { roots<cd>(); }
GROUP(reduce_double) { red<double>(); Vector<double> v({ 1e-300, 0., 2. }); tc("polyreduce tiny leading"); same(control::polyreduce(v), Ve<double>{ 1e-300, 0., 2. }, "polyreduce keeps a tiny leading coefficient"); }
GROUP(reduce_int) { red<int>(); }
GROUP(charpoly)
{
    for (Z n = 2; n <= 6; ++n) for (int k = 0; k < 8 * scale; ++k) {
        Mo<double> A = k == 0 ? Mo<double>(n, n) : rmo<double>(n, n, -3, 3);
        if (k == 1) for (Z i = 0; i < n; ++i) for (Z j = 0; j < i; ++j) A(i, j) = 0;
        // coefficient of x^(n-m): (-1)^m times the sum of the principal m x m minors
        Ve<double> w(n + 1, 0.0);
        for (unsigned s = 0; s < (1u << n); ++s) {
            std::vector<Z> ix;
            for (Z i = 0; i < n; ++i) if (s >> i & 1) ix.push_back(i);
            IM m(ix.size(), std::vector<I>(ix.size()));
            for (Z i = 0; i < ix.size(); ++i) for (Z j = 0; j < ix.size(); ++j) m[i][j] = (I)(long long)A(ix[i], ix[j]);
            w[ix.size()] += (ix.size() % 2 ? -1.0 : 1.0) * (double)idet(m);
        }
        cforms<double>(A, [&](const MatrixBase<double> &a, const std::string &f) {
            tc("poly of a square matrix " + f + " " + show(A));
            same(control::poly(a), w, "characteristic polynomial", 1e-8);
        });
    }
}
GROUP(empty_matrix) { Matrix<double> e; tc("poly of an empty matrix", false); same(control::poly(e), Ve<double>{ 1.0 }, "poly of an empty matrix"); }
