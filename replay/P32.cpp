#include "common.hpp"
#include <cmath>
template <class A, class B> using ct = std::complex<std::common_type_t<A, B>>;
template <class T> static std::string nm() { return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, long double> ? "long double" : "int"; }
template <class T, class U> static bool near(const T &a, const U &b)
{
    std::complex<double> x(a.real(), a.imag()), y(b.real(), b.imag());
    return x == y || std::abs(x - y) <= 1e-5 * (std::abs(x) + std::abs(y));
}
template <class A, class B> static void cc()
{
    using C = ct<A, B>;
    for (int k = 0; k < 20; ++k) {
        std::complex<A> x(A(ri(-9, 9)) / A(4), A(ri(-9, 9)) / A(4));
        std::complex<B> y(B(ri(1, 9)) / B(8), B(ri(-9, 9)) / B(2));
        C u(x.real(), x.imag()), v(y.real(), y.imag());
        tc("complex<" + nm<A>() + "> op complex<" + nm<B>() + "> " + str(u) + " " + str(v));
        auto s = ::operator+(x, y);
        auto d = ::operator-(x, y);
        auto p = ::operator*(x, y);
        auto q = ::operator/(x, y);
        static_assert(std::is_same_v<decltype(s), C> && std::is_same_v<decltype(d), C> && std::is_same_v<decltype(p), C> && std::is_same_v<decltype(q), C>);
        ck(near(s, u + v), "sum");
        ck(near(d, u - v), "difference");
        ck(near(p, u * v), "product");
        ck(near(q, u / v), "quotient");
        ck(x == std::complex<A>(x) && C(y.real(), y.imag()) == v, "operands unchanged");
    }
}
template <class A, class B> static void cr()
{
    using C = ct<A, B>;
    for (int k = 0; k < 20; ++k) {
        std::complex<A> x(A(ri(1, 9)) / A(4), A(ri(-9, 9)) / A(4));
        B y = B(ri(1, 9)) * (k % 2 ? B(1) : B(-1));
        if (!std::is_integral_v<B>) y = y / B(8);
        C u(x.real(), x.imag()), v(y, 0);
        tc("complex<" + nm<A>() + "> op " + nm<B>() + " " + str(u) + " " + str(double(y)));
        auto s = ::operator+(x, y);
        auto d = ::operator-(x, y);
        auto p = ::operator*(x, y);
        auto q = ::operator/(x, y);
        auto s2 = ::operator+(y, x);
        auto d2 = ::operator-(y, x);
        auto p2 = ::operator*(y, x);
        auto q2 = ::operator/(y, x);
        static_assert(std::is_same_v<decltype(s), C> && std::is_same_v<decltype(d2), C>);
        ck(near(s, u + v), "complex + real");
        ck(near(d, u - v), "complex - real");
        ck(near(p, u * v), "complex * real");
        ck(near(q, u / v), "complex / real");
        ck(near(s2, v + u), "real + complex");
        ck(near(d2, v - u), "real - complex");
        ck(near(p2, v * u), "real * complex");
        ck(near(q2, v / u), "real / complex");
    }
}
GROUP(complex_operators)
{
    cc<double, float>(); cc<float, double>(); cc<double, double>(); cc<float, float>();
    cr<double, int>(); cr<double, float>(); cr<float, double>(); cr<float, int>(); cr<double, double>(); cr<double, unsigned char>();
}
template <class A, class B> static void cmp(A a, B b)
{
    double tol = feq::tolerance(), d = std::abs(double(a) - double(b)), m = std::max(std::abs(double(a)), std::abs(double(b)));
    if (std::abs(d - tol * m) < 1e-3 * tol * m && d != 0) return;                // the boundary itself depends on rounding
    bool e = d <= tol * m;
    char buf[160];
    snprintf(buf, sizeof buf, "%s %.17g against %s %.17g, tolerance %g", nm<A>().c_str(), double(a), nm<B>().c_str(), double(b), tol);
    tc(buf);
    ck(feq::approximately_equal(a, b) == e, "approximately_equal");
    ck(feq::approximately_lesser_than_equal(a, b) == (a < b || e), "approximately_lesser_than_equal");
    ck(feq::approximately_greater_than_equal(a, b) == (a > b || e), "approximately_greater_than_equal");
}
static void comparisons_at(double tol)
{
    feq::tolerance() = tol;
    for (double x : {0.0, 1e-12, -1e-12, 0.25, 1.0, -1.0, 3.5, -17.0, 1e6, -1e6, 1e12})
        for (double f : {0.0, 0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 100.0})
            for (int s : {-1, 1}) {
                double y = x + s * f * tol * std::abs(x);
                cmp(x, y);
                cmp(y, x);
                cmp(x, -y);
                cmp(std::complex<double>(x).real(), 0.0);
                cmp(0.0, y);
            }
    for (int i : {0, 1, -1, 2, 7, -7, 1000000, -1000000, 1000001, 2000003, 999999})
        for (int j : {0, 1, -1, 3, 7, -8, 1000000, -1000001, 1000002, 2000000, 1000001}) {
            cmp(i, j);
            cmp(i, double(j));
            cmp(double(i), j);
            cmp(i, j + 1e-7 * j);
            cmp(i + 1e-3 * i, j);
        }
    for (double x : {0.25, 1.0, 3.5, 1e6})
        for (double f : {0.5, 0.9, 1.1, 2.0})
            for (int k = 0; k < 8; ++k) {
                cd a = std::polar(x, k * 0.785), d = std::polar(f * tol * x, k * 1.3), b = a + d;
                double m = std::max(std::abs(a), std::abs(b));
                if (std::abs(std::abs(a - b) - tol * m) < 1e-3 * tol * m) continue;
                bool e = std::abs(a - b) <= tol * m;
                tc("complex " + str(a) + " against " + str(b) + " moved by " + std::to_string(f) + " tolerances");
                ck(feq::approximately_equal(a, b) == e, "approximately_equal of complex values");
                ck(feq::approximately_equal(b, a) == e, "approximately_equal of complex values, exchanged");
                ck(!feq::approximately_equal(a, std::conj(a) * 2.0), "far apart");
            }
}
GROUP(comparisons)
{
    comparisons_at(1e-6);
    comparisons_at(1e-3);
    feq::tolerance() = 1e-6;
}
GROUP(zero)
{
    for (double x : {0.0, -0.0, 1e-300, -1e-300, 1e-9, -1e-7, 1.0, -5.0, 1e9}) {
        tc("zero test of " + std::to_string(x));
        ck(feq::approximately_equal_to_zero(x) == (x == 0), "approximately_equal_to_zero");
        ck(feq::approximately_equal_to_zero(cd(x, 0)) == (x == 0), "approximately_equal_to_zero of a complex value");
        ck(feq::approximately_equal_to_zero(cd(0, x)) == (x == 0), "approximately_equal_to_zero of an imaginary value");
    }
    for (int i = -5; i <= 5; ++i) ck(feq::approximately_equal_to_zero(i) == (i == 0), "approximately_equal_to_zero of an int");
}
GROUP(fact)
{
    int p = 1;
    for (int n = 0; n <= 12; ++n) {
        if (n) p *= n;
        tc("factorial of " + std::to_string(n));
        ck(linalg::factorial<int>(n) == p, "factorial<int>");
        ck(linalg::factorial<double>(n) == double(p), "factorial<double>");
        ck(linalg::factorial<long>(n) == long(p), "factorial<long>");
        ck(linalg::factorial<unsigned>(unsigned(n)) == unsigned(p), "factorial<unsigned>");
    }
}
