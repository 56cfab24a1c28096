#include "common.hpp"
template <class T> static void run(Z r, Z c)
{
    std::string n = tn<T>();
    for (int k = 0; k < 3; ++k) {
        T v = k == 0 ? T(1) : k == 1 ? rnd<T>(2, 9) : rnd<T>(-9, 0);
        Mo<T> e(r, c), id(r, r);
        for (Z i = 0; i < std::min(r, c); ++i) e(i, i) = v;
        for (Z i = 0; i < r; ++i) id(i, i) = v;
        tc("eye " + n + " " + str(r) + "x" + str(c) + " " + str(v));
        same(utility::eye<T>(r, c, v), e, "eye");
        tc("identity " + n + " " + str(r) + " " + str(v));
        same(utility::identity<T>(r, v), id, "identity");
    }
    tc("zeros/ones " + n + " " + str(r) + "x" + str(c));
    same(utility::zeros<T>(r, c), Mo<T>(r, c, T(0)), "zeros");
    same(utility::ones<T>(r, c), Mo<T>(r, c, T(1)), "ones");
    same(utility::zeros<T>(r), Ve<T>(r, T(0)), "zeros vector");
    same(utility::ones<T>(r), Ve<T>(r, T(1)), "ones vector");
}
template <class T> static void all() { for (auto [r, c] : shapes(6, 8, 1)) run<T>(r, c); for (int k = 0; k < 6 * scale; ++k) run<T>(ri(1, 60), ri(1, 60)); run<T>(1, 300); run<T>(300, 1); }
GROUP(double_) { all<double>(); }
GROUP(int_) { all<int>(); }
GROUP(float_) { all<float>(); }
GROUP(unsigned_) { all<unsigned>(); }
GROUP(complex_)
{
    for (auto [r, c] : shapes(4, 6, 1)) {
        Mo<cd> e(r, c);
        cd v(ri(-5, 5), ri(-5, 5));
        for (Z i = 0; i < std::min(r, c); ++i) e(i, i) = v;
        tc("eye complex " + str(r) + "x" + str(c));
        same(utility::eye<cd>(r, c, v), e, "eye");
        same(utility::zeros<cd>(r, c), Mo<cd>(r, c, cd(0)), "zeros");
        same(utility::ones<cd>(r, c), Mo<cd>(r, c, cd(1)), "ones");
    }
}
