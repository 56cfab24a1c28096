#include "common.hpp"
template <class T, class U> static auto mul(const Mo<T> &a, const Mo<U> &b)
{
    using R = decltype(T() * U());
    Mo<R> m(a.r, b.c);
    for (Z i = 0; i < a.r; ++i) for (Z j = 0; j < b.c; ++j) { R s(0); for (Z k = 0; k < a.c; ++k) s = s + a(i, k) * b(k, j); m(i, j) = s; }
    return m;
}
template <class T, class U> static void prod(int lim)
{
    for (Z m = 0; m <= (Z)lim; ++m) for (Z k = 0; k <= (Z)lim; ++k) for (Z n = 0; n <= (Z)lim; ++n) {
        Mo<T> A = rmo<T>(m, k);
        Mo<U> B = rmo<U>(k, n);
        auto P = mul(A, B);
        std::string w = std::string(tn<T>()) + "/" + tn<U>() + " A=" + show(A) + " B=" + show(B);
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &fa) {
            cforms<U>(B, [&](const MatrixBase<U> &b, const std::string &fb) {
                tc("A*B " + fa + " " + fb + " " + w, m && k && n);
                same(a * b, P, "A*B");
            });
        });
        if constexpr (std::is_same_v<decltype(T() * U()), T>) {
            Mo<U> Q = rmo<U>(k, k);
            auto P2 = mul(A, Q);
            cforms<U>(Q, [&](const MatrixBase<U> &b, const std::string &fb) {
                forms<T>(A, [&](MatrixBase<T> &a, const std::string &fa) {
                    tc("A*=B " + fa + " " + fb + " " + w + " Q=" + show(Q), m && k);
                    auto &x = (a *= b);
                    ck((void *)&x == (void *)&a, "*= returns its left operand");
                    same(a, P2, "A*=B");
                });
            });
        }
        if (n == 0) {
            auto X = rve<U>(k);
            Ve<decltype(T() * U())> Y(m);
            for (Z i = 0; i < m; ++i) { decltype(T() * U()) s(0); for (Z j = 0; j < k; ++j) s = s + A(i, j) * X[j]; Y[i] = s; }
            Vector<U> x = mkv(X);
            cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &fa) {
                tc("A*x " + fa + " " + show(A) + " x=" + show(X), m && k);
                same(a * x, Y, "A*x");
                same(dot(a, x), Y, "dot(A,x)");
                same(x, X, "vector operand unchanged");
            });
        }
    }
}
template <class T, class U> static void dots()
{
    for (Z n : lens(9)) for (int it = 0; it < 5 * scale; ++it) {
        auto A = rve<T>(n);
        auto B = rve<U>(n);
        tc(std::string("dot ") + tn<T>() + " " + show(A) + " " + show(B), n > 0);
        decltype(T() * U()) s(0);
        for (Z i = 0; i < n; ++i) s = s + A[i] * B[i];
        Vector<T> a = mkv(A);
        Vector<U> b = mkv(B);
        eqs<decltype(T() * U())>(dot(a, b), s, "dot(a,b)");
        same(a, A, "operand unchanged");
        same(b, B, "operand unchanged");
        if constexpr (std::is_same_v<T, U>) {
            T i0 = A.empty() ? T(2) : A[0], w = i0;
            for (Z i = 0; i < n; ++i) w = w + A[i] * B[i];
            eqs<T>(malg::utility::inner_product(a.begin(), a.end(), b.begin(), i0), w, "inner_product");
        }
    }
}
template <class T> static void alias()
{
    for (Z n = 0; n <= 5; ++n) {
        Mo<T> A = rmo<T>(n, n);
        auto P = mul(A, A);
        forms<T>(A, [&](MatrixBase<T> &a, const std::string &f) {
            tc("A*=A " + f + " " + show(A), n > 0);
            const MatrixBase<T> &b = a;
            same(a * b, P, "A*A");
            a *= b;
            same(a, P, "A*=A");
        });
    }
}
GROUP(product_double) { prod<double, double>(3); }
GROUP(product_int) { prod<int, int>(3); }
GROUP(product_complex) { prod<cd, cd>(2); }
GROUP(product_mixed) { prod<double, int>(2); prod<int, double>(2); }
GROUP(large)
{
    for (int it = 0; it < 6 * scale; ++it) {
        Z m = ri(4, 24), k = ri(4, 24), n = ri(4, 24);
        Mo<double> A = rmo<double>(m, k), B = rmo<double>(k, n);
        tc("large " + str(m) + " " + str(k) + " " + str(n));
        same(mk(A) * mk(B), mul(A, B), "A*B");
    }
}
GROUP(dot_) { dots<double, double>(); dots<int, int>(); dots<cd, cd>(); dots<int, double>(); }
GROUP(alias) { alias<double>(); alias<int>(); }
