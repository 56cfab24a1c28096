#include "common.hpp"
template <class T, class U, class F> static auto map2(const Ve<T> &a, const Ve<U> &b, F f)
{
    Ve<decltype(f(T(), U()))> m(a.size());
    for (Z i = 0; i < m.size(); ++i) m[i] = f(T(a[i]), U(b[i]));
    return m;
}
template <class T, class F> static auto map1(const Ve<T> &a, F f)
{
    Ve<decltype(f(T()))> m(a.size());
    for (Z i = 0; i < m.size(); ++i) m[i] = f(T(a[i]));
    return m;
}
template <class T, class U> static void run()
{
    const double tol = 1e-12;
    for (Z n : lens(10)) for (int it = 0; it < 4 * scale; ++it) {
        auto A = rve<T>(n);
        auto B = rve<U>(n);
        U s = rnd<U>(-5, 5), d = rnd<U>(1, 5);
        if (it == 0) s = U(0);
        tc(std::string(tn<T>()) + "/" + tn<U>() + " a=" + show(A) + " b=" + show(B) + " s=" + str(s) + " d=" + str(d), n > 0);
        Vector<T> a = mkv(A);
        Vector<U> b = mkv(B);
        const Vector<T> &ca = a;
        const Vector<U> &cb = b;
        same(ca + cb, map2(A, B, [](T x, U y) { return x + y; }), "a+b");
        same(ca - cb, map2(A, B, [](T x, U y) { return x - y; }), "a-b");
        same(ca * cb, map2(A, B, [](T x, U y) { return x * y; }), "a*b");
        same(ca + s, map1(A, [&](T x) { return x + s; }), "a+s");
        same(ca - s, map1(A, [&](T x) { return x - s; }), "a-s");
        same(ca * s, map1(A, [&](T x) { return x * s; }), "a*s");
        if constexpr (!malg::is_complex_v<U>) same(s * ca, map1(A, [&](T x) { return x * s; }), "s*a");
        same(ca / d, map1(A, [&](T x) { return x / d; }), "a/s", tol);
        same(a, A, "left operand unchanged");
        same(b, B, "right operand unchanged");
        if constexpr (std::is_same_v<decltype(T() + U()), T>) {
            auto chk = [&](auto f, const Ve<T> &w, const char *nm, double t = 0) {
                Vector<T> x = mkv(A);
                auto &q = f(x);
                ck((void *)&q == (void *)&x, std::string(nm) + " returns its left operand");
                same(x, w, nm, t);
                same(b, B, "right operand unchanged");
            };
            chk([&](Vector<T> &x) -> auto & { return x += cb; }, map2(A, B, [](T x, U y) { return T(x + y); }), "a+=b");
            chk([&](Vector<T> &x) -> auto & { return x -= cb; }, map2(A, B, [](T x, U y) { return T(x - y); }), "a-=b");
            chk([&](Vector<T> &x) -> auto & { return x += s; }, map1(A, [&](T x) { return T(x + s); }), "a+=s");
            chk([&](Vector<T> &x) -> auto & { return x -= s; }, map1(A, [&](T x) { return T(x - s); }), "a-=s");
            chk([&](Vector<T> &x) -> auto & { return x *= s; }, map1(A, [&](T x) { return T(x * s); }), "a*=s");
            chk([&](Vector<T> &x) -> auto & { return x /= d; }, map1(A, [&](T x) { return T(x / d); }), "a/=s", tol);
        }
        if constexpr (std::is_same_v<T, U>) {
            Vector<T> x = mkv(A);
            same(x + x, map1(A, [](T y) { return y + y; }), "a+a");
            same(x * x, map1(A, [](T y) { return y * y; }), "a*a");
            x += x;
            same(x, map1(A, [](T y) { return y + y; }), "a+=a");
            x -= x;
            same(x, Ve<T>(n, T(0)), "a-=a");
            if (n) {
                x = mkv(A);
                T y = x[0];
                x += x[0];
                same(x, map1(A, [&](T z) { return z + y; }), "a+=a[0]");
                x = mkv(A);
                x *= x[0];
                same(x, map1(A, [&](T z) { return z * y; }), "a*=a[0]");
            }
        }
    }
}
GROUP(double_) { run<double, double>(); }
GROUP(int_) { run<int, int>(); }
GROUP(complex_) { run<cd, cd>(); }
GROUP(mixed) { run<double, int>(); run<int, double>(); run<cd, double>(); }
