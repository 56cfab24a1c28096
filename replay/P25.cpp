#include "common.hpp"
#include <cmath>
template <class T> static void one(T a, T b, unsigned n)
{
    std::string w = std::string(tn<T>()) + " " + str(a) + ".." + str(b) + " n=" + str(n);
    bool eq = std::is_floating_point_v<T> ? feq::approximately_equal(a, b) : a == b;
    double lo = (double)a, hi = (double)b, tol = std::is_same_v<T, float> ? 1e-4 : 1e-11;
    double sc = std::max({ 1.0, std::abs(lo), std::abs(hi) });
    {
        tc("linspace " + w, n > 1);
        auto v = utility::linspace<T>(a, b, n);
        eqs<Z>(v.size(), n, "number of elements");
        for (unsigned i = 0; i < n; ++i) {
            double e = n == 1 || eq ? hi : lo + (double)i * (hi - lo) / (double)(n - 1);
            if (!(std::abs((double)v[i] - e) <= tol * sc)) fail("linspace element " + str(i) + ": got " + str(v[i]) + " expected " + str(e));
        }
        shm->checks += n;
    }
    if constexpr (std::is_floating_point_v<T>) if (std::abs(lo) < 20 && std::abs(hi) < 20) for (T base : { T(10), T(2), T(0.5) }) {
        tc("logspace base " + str(base) + " " + w, n > 1);
        auto v = utility::logspace<T>(a, b, n, base);
        eqs<Z>(v.size(), n, "number of elements");
        for (unsigned i = 0; i < n; ++i) {
            double e = std::pow((double)base, n == 1 || eq ? hi : lo + (double)i * (hi - lo) / (double)(n - 1));
            if (!(std::abs((double)v[i] - e) <= (std::is_same_v<T, float> ? 1e-3 : 1e-9) * std::abs(e))) fail("logspace element " + str(i) + ": got " + str(v[i]) + " expected " + str(e));
        }
        shm->checks += n;
        if (base == T(10)) { auto q = utility::logspace<T>(a, b, n); ck(q.size() == n, "default base"); for (unsigned i = 0; i < n; ++i) ck(q[i] == v[i], "the default base is 10"); }
    }
}
template <class T> static void run()
{
    for (unsigned n : { 0u, 1u, 2u, 3u, 4u, 5u, 7u, 10u, 33u, 100u }) {
        for (int k = 0; k < 6 * scale; ++k) one<T>(T(ri(-9, 9)) / T(2), T(ri(-9, 9)) / T(2), n);
        one<T>(0, 1, n), one<T>(1, 0, n), one<T>(-3, 3, n), one<T>(3, -3, n), one<T>(2, 2, n), one<T>(0, 0, n), one<T>(-5, -5, n), one<T>(0, -4, n), one<T>(-4, 0, n);
        one<T>(T(1), T(1) + T(1e-9), n), one<T>(T(5), T(5.5), n), one<T>(T(5.5), T(5), n), one<T>(T(-1.25), T(-1.5), n);
        if (std::is_same_v<T, double>) one<T>(T(1e6), T(1e6) + 3, n), one<T>(T(1e6) + 3, T(1e6), n), one<T>(T(1.0), T(1.001), n), one<T>(T(1.001), T(1.0), n);
    }
}
GROUP(double_) { run<double>(); }
GROUP(float_) { run<float>(); }
GROUP(defaults) { tc("linspace default count"); auto v = utility::linspace<double>(0., 99.); eqs<Z>(v.size(), 100, "default count"); for (int i = 0; i < 100; ++i) ck(std::abs(v[i] - i) < 1e-9, "default elements"); auto q = utility::logspace<double>(0., 49.); eqs<Z>(q.size(), 50, "default count"); }
GROUP(ints) { for (int s = -3; s <= 3; ++s) for (int st = -3; st <= 3; ++st) for (unsigned n = 1; n < 6; ++n) { int a = s * 10, b = a + st * (int)(n > 1 ? n - 1 : 1); one<int>(a, b, n); } }
