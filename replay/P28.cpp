#include "common.hpp"
#include <cmath>
template <class T> static void un()
{
    for (auto [r, c] : shapes(3, 4)) {
        Mo<T> A = rmo<T>(r, c);
        int calls = 0;
        auto f = [&](const T &x) { ++calls; return x * T(2) + T(1); };
        Mo<T> E(r, c);
        for (Z i = 0; i < A.v.size(); ++i) E.v[i] = A.v[i] * T(2) + T(1);
        Mo<T> AB(r, c);
        Mo<double> D(r, c);
        for (Z i = 0; i < A.v.size(); ++i) D.v[i] = std::abs(A.v[i]);
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &w) {
            tc(std::string(tn<T>()) + " function " + w + " " + show(A), r && c);
            same(element_wise_function(a, f), E, "element_wise_function");
            auto ab = mo(malg::abs(a));
            Mo<double> h(ab.r, ab.c);
            for (Z i = 0; i < h.v.size(); ++i) { h.v[i] = std::real(ab.v[i]); ck(std::imag(ab.v[i]) == 0, "abs is real"); }
            eqm(h, D, "abs", 1e-12);
            same(element_wise_function(a, [](const T &) { return 2.5; }), Mo<decltype(T() + 2.5)>(r, c, decltype(T() + 2.5)(2.5)), "function of another type");
            if constexpr (!malg::is_complex_v<T>) {
                Mo<double> S(r, c);
                for (Z i = 0; i < A.v.size(); ++i) S.v[i] = A.v[i] > 0 ? 1 : -1;
                same(malg::sign(a), S, "sign");
            } else {
                Mo<cd> S(r, c);
                for (Z i = 0; i < A.v.size(); ++i) S.v[i] = cd(A.v[i].real() > 0 ? 1 : -1, A.v[i].imag() > 0 ? 1 : -1);
                same(malg::sign(a), S, "sign");
            }
        });
        ck(calls == int(A.v.size()) * (r && c ? 3 : 1), "the function is applied once per element");
        if constexpr (std::is_floating_point_v<T>) {
            Mo<T> X(r, c);
            for (Z i = 0; i < A.v.size(); ++i) X.v[i] = std::exp(A.v[i]);
            cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &w) { tc("exp " + w + show(A), r && c); same(linalg::exp(a), X, "element-wise exp", 1e-12); });
        }
    }
    for (Z n : lens(8)) {
        Ve<T> A = rve<T>(n), E(n);
        Ve<double> D(n), S(n);
        for (Z i = 0; i < n; ++i) { E[i] = A[i] * T(2) + T(1); D[i] = std::abs(A[i]); }
        tc(std::string("vector function ") + tn<T>() + " " + show(A), n > 0);
        Vector<T> a = mkv(A);
        same(element_wise_function(a, [](const T &x) { return x * T(2) + T(1); }), E, "element_wise_function");
        auto ab = malg::abs(a);
        Ve<double> h(ab.size());
        for (Z i = 0; i < h.size(); ++i) h[i] = std::abs(ab[i]);
        eqv(h, D, "abs", 1e-12);
        if constexpr (!malg::is_complex_v<T>) {
            Ve<T> s(n);
            for (Z i = 0; i < n; ++i) s[i] = A[i] > 0 ? T(1) : T(-1);
            auto q = malg::sign(a);
            Ve<T> h2(q.size());
            for (Z i = 0; i < h2.size(); ++i) h2[i] = T(q[i]);
            eqv(h2, s, "sign");
        } else {
            Ve<T> s(n);
            for (Z i = 0; i < n; ++i) s[i] = T(A[i].real() > 0 ? 1 : -1, A[i].imag() > 0 ? 1 : -1);
            same(malg::sign(a), s, "sign");
        }
        same(a, A, "operand unchanged");
    }
}
template <class T, class U> static void bi()
{
    using R = decltype(T() * U());
    for (auto [r, c] : shapes(2, 3)) {
        Mo<T> A = rmo<T>(r, c);
        Mo<U> B = rmo<U>(r, c);
        Mo<R> P(r, c), L(r, c), F(r, c);
        T s = rnd<T>(-3, 3);
        U t = rnd<U>(-3, 3);
        for (Z i = 0; i < A.v.size(); ++i) { P.v[i] = A.v[i] * B.v[i]; L.v[i] = A.v[i] * s + B.v[i] * t; F.v[i] = A.v[i] - B.v[i]; }
        std::string w0 = std::string(tn<T>()) + "/" + tn<U>() + " A=" + show(A) + " B=" + show(B) + " a=" + str(s) + " b=" + str(t);
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &fa) {
            cforms<U>(B, [&](const MatrixBase<U> &b, const std::string &fb) {
                tc("binary " + fa + " " + fb + " " + w0, r && c);
                same(element_wise_product(a, b), P, "element_wise_product");
                same(linear_combination(a, s, b, t), L, "linear_combination");
                same(element_wise_binary_function(a, b, [](const T &x, const U &y) { return x - y; }), F, "element_wise_binary_function");
            });
        });
    }
    for (Z n : lens(7)) {
        Ve<T> A = rve<T>(n);
        Ve<U> B = rve<U>(n);
        Ve<R> F(n);
        for (Z i = 0; i < n; ++i) F[i] = A[i] - B[i];
        tc(std::string("vector binary ") + tn<T>() + " " + show(A) + " " + show(B), n > 0);
        Vector<T> a = mkv(A);
        Vector<U> b = mkv(B);
        same(element_wise_binary_function(a, b, [](const T &x, const U &y) { return x - y; }), F, "element_wise_binary_function");
        same(a, A, "operand unchanged");
        same(b, B, "operand unchanged");
    }
}
GROUP(unary_double) { un<double>(); }
GROUP(unary_int) { un<int>(); }
GROUP(unary_complex) { un<cd>(); }
GROUP(binary) { bi<double, double>(); bi<int, int>(); bi<int, double>(); bi<double, int>(); bi<cd, cd>(); }
GROUP(parts)
{
    for (auto [r, c] : shapes(3, 3)) {
        Mo<cd> A = rmo<cd>(r, c);
        Mo<double> R(r, c), Im(r, c);
        for (Z i = 0; i < A.v.size(); ++i) { R.v[i] = A.v[i].real(); Im.v[i] = A.v[i].imag(); }
        cforms<cd>(A, [&](const MatrixBase<cd> &a, const std::string &w) {
            tc("real/imag " + w + " " + show(A), r && c);
            auto x = malg::real(a);
            auto y = malg::imag(a);
            Mo<double> hx(x.rows(), x.cols()), hy(y.rows(), y.cols());
            for (Z i = 0; i < hx.v.size(); ++i) hx.v[i] = std::real(x[i]);
            for (Z i = 0; i < hy.v.size(); ++i) hy.v[i] = std::real(y[i]);
            eqm(hx, R, "real");
            eqm(hy, Im, "imag");
        });
        Vector<cd> v = mkv(A.v);
        auto x = malg::real(v);
        auto y = malg::imag(v);
        Ve<double> hx(x.size()), hy(y.size());
        for (Z i = 0; i < hx.size(); ++i) { hx[i] = std::real(x[i]); hy[i] = std::real(y[i]); }
        eqv(hx, R.v, "real of a vector");
        eqv(hy, Im.v, "imag of a vector");
    }
}
GROUP(projection_)
{
    for (Z n = 1; n <= 6; ++n) for (int it = 0; it < 20 * scale; ++it) {
        Ve<double> A = rve<double>(n), B = rve<double>(n);
        double ab = 0, bb = 0;
        for (Z i = 0; i < n; ++i) { ab += A[i] * B[i]; bb += B[i] * B[i]; }
        if (bb == 0) continue;
        Ve<double> P(n);
        for (Z i = 0; i < n; ++i) P[i] = B[i] * ab / bb;
        tc("projection of " + show(A) + " on " + show(B));
        Vector<double> a = mkv(A), b = mkv(B);
        same(projection(a, b), P, "projection", 1e-9);
        same(a, A, "operand unchanged");
        same(b, B, "operand unchanged");
    }
}
