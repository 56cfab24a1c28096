#include "common.hpp"
template <class T, class U, class F> static auto map2(const Mo<T> &a, const Mo<U> &b, F f)
{
    using R = decltype(f(a.v[0], b.v[0]));
    Mo<R> m(a.r, a.c);
    for (Z i = 0; i < m.v.size(); ++i) m.v[i] = f(T(a.v[i]), U(b.v[i]));
    return m;
}
template <class T, class F> static auto map1(const Mo<T> &a, F f)
{
    using R = decltype(f(a.v[0]));
    Mo<R> m(a.r, a.c);
    for (Z i = 0; i < m.v.size(); ++i) m.v[i] = f(T(a.v[i]));
    return m;
}
template <class T, class U> static void mm(int lim = 3, int extra = 4)
{
    for (auto [r, c] : shapes(lim, extra)) for (int it = 0; it < scale; ++it) {
        Mo<T> A = rmo<T>(r, c);
        Mo<U> B = rmo<U>(r, c);
        auto S = map2(A, B, [](T x, U y) { return x + y; });
        auto D = map2(A, B, [](T x, U y) { return x - y; });
        std::string w0 = std::string(tn<T>()) + "/" + tn<U>() + " A=" + show(A) + " B=" + show(B);
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &fa) {
            cforms<U>(B, [&](const MatrixBase<U> &b, const std::string &fb) {
                tc("A+B, A-B " + fa + " " + fb + " " + w0, r && c);
                same(a + b, S, "A+B");
                same(a - b, D, "A-B");
            });
        });
        if constexpr (std::is_same_v<decltype(T() + U()), T>) {
            forms<T>(A, [&](MatrixBase<T> &a, const std::string &fa) {
                cforms<U>(B, [&](const MatrixBase<U> &b, const std::string &fb) {
                    tc("A+=B, A-=B " + fa + " " + fb + " " + w0, r && c);
                    auto &q = (a += b);
                    ck((void *)&q == (void *)&a, "+= returns its left operand");
                    same(a, S, "A+=B");
                    a -= b;
                    same(a, A, "A+=B; A-=B");
                    a -= b;
                    same(a, D, "A-=B");
                    a += b;
                });
            });
        }
    }
}
template <class T> static void alias()
{
    for (auto [r, c] : shapes(3, 4)) {
        Mo<T> A = rmo<T>(r, c);
        forms<T>(A, [&](MatrixBase<T> &a, const std::string &f) {
            tc(std::string("A+=A ") + f + " " + show(A), r && c);
            const MatrixBase<T> &b = a;
            same(a + b, map1(A, [](T x) { return x + x; }), "A+A");
            same(a - b, map1(A, [](T x) { return x - x; }), "A-A");
            a += b;
            same(a, map1(A, [](T x) { return x + x; }), "A+=A");
            a -= b;
            same(a, Mo<T>(r, c), "A-=A");
        });
        if (!A.v.empty()) forms<T>(A, [&](MatrixBase<T> &a, const std::string &f) {
            T x = A.v[0];
            tc(std::string("A+=A(0,0) ") + f + " " + show(A));
            a += a(0, 0);
            same(a, map1(A, [&](T y) { return y + x; }), "A+=A(0,0)");
            x = a(0, 0);
            auto B = mo(a);
            a -= a(0, 0);
            same(a, map1(B, [&](T y) { return y - x; }), "A-=A(0,0)");
            a += T(3);
            B = mo(a);
            x = a(0, 0);
            a *= a(0, 0);
            same(a, map1(B, [&](T y) { return y * x; }), "A*=A(0,0)");
        }, 1);
    }
}
template <class T, class U> static void ms()
{
    const double tol = 1e-12;
    for (auto [r, c] : shapes(3, 4)) for (int it = 0; it < 2 * scale; ++it) {
        Mo<T> A = rmo<T>(r, c);
        U s = rnd<U>(-5, 5), d = rnd<U>(1, 5);
        if (it == 0) s = U(0);
        std::string w = std::string(tn<T>()) + "/" + tn<U>() + " A=" + show(A) + " s=" + str(s) + " d=" + str(d);
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &f) {
            tc("A op s " + f + " " + w, r && c);
            same(a + s, map1(A, [&](T x) { return x + s; }), "A+s");
            same(a - s, map1(A, [&](T x) { return x - s; }), "A-s");
            same(a * s, map1(A, [&](T x) { return x * s; }), "A*s");
            same(s * a, map1(A, [&](T x) { return x * s; }), "s*A");
            same(a / d, map1(A, [&](T x) { return x / d; }), "A/s", tol);
        });
        if constexpr (std::is_same_v<decltype(T() + U()), T>)
            for (int k = 0; k < 4; ++k)
                forms<T>(A, [&](MatrixBase<T> &a, const std::string &f) {
                    tc("A op= s " + str(k) + " " + f + " " + w, r && c);
                    if (k == 0) { auto &q = (a += s); ck((void *)&q == (void *)&a, "returns its left operand"); same(a, map1(A, [&](T x) { return T(x + s); }), "A+=s"); }
                    if (k == 1) { auto &q = (a -= s); ck((void *)&q == (void *)&a, "returns its left operand"); same(a, map1(A, [&](T x) { return T(x - s); }), "A-=s"); }
                    if (k == 2) { auto &q = (a *= s); ck((void *)&q == (void *)&a, "returns its left operand"); same(a, map1(A, [&](T x) { return T(x * s); }), "A*=s"); }
                    if (k == 3) { auto &q = (a /= d); ck((void *)&q == (void *)&a, "returns its left operand"); same(a, map1(A, [&](T x) { return T(x / d); }), "A/=s", tol); }
                });
    }
}
// in-place forms through a view change only the selected block
template <class T> static void inplace()
{
    for (int it = 0; it < 60 * scale; ++it) {
        Z r = ri(1, 5), c = ri(1, 5), r0 = ri(0, r - 1), c0 = ri(0, c - 1), r1 = ri(r0 + 1, r), c1 = ri(c0 + 1, c);
        Mo<T> A = rmo<T>(r, c), B = rmo<T>(r1 - r0, c1 - c0), E = A;
        int op = ri(0, 4);
        T s = rnd<T>(1, 5);
        tc("in-place through a view, op " + str(op) + " [" + str(r0) + ":" + str(r1) + "," + str(c0) + ":" + str(c1) + "] of " + show(A) + " B=" + show(B) + " s=" + str(s));
        Matrix<T> a = mk(A), b = mk(B);
        auto v = utility::view(a, r0, r1, c0, c1);
        if (op == 0) v += b; else if (op == 1) v -= b; else if (op == 2) v += s; else if (op == 3) v -= s; else v *= s;
        for (Z i = 0; i < B.r; ++i) for (Z j = 0; j < B.c; ++j) {
            T x = A(r0 + i, c0 + j), y = B(i, j);
            E(r0 + i, c0 + j) = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x + s : op == 3 ? x - s : x * s;
        }
        same(a, E, "matrix after the in-place operation through a view");
        same(b, B, "right operand");
    }
}
GROUP(matrix_double) { mm<double, double>(); }
GROUP(matrix_int) { mm<int, int>(); }
GROUP(matrix_complex) { mm<cd, cd>(2, 2); }
GROUP(matrix_mixed) { mm<double, int>(2, 2); mm<int, double>(2, 2); }
GROUP(scalar_double) { ms<double, double>(); }
GROUP(scalar_int) { ms<int, int>(); }
GROUP(scalar_mixed) { ms<double, int>(); ms<int, double>(); ms<cd, double>(); ms<cd, cd>(); }
GROUP(alias) { alias<double>(); alias<int>(); alias<cd>(); }
GROUP(inplace) { inplace<double>(); inplace<int>(); }
