#include "common.hpp"
template <class T> static bool inside(T x, double lo, double hi)
{
    if constexpr (malg::is_complex_v<T>) return inside(x.real(), lo, hi) && inside(x.imag(), lo, hi);
    else return x >= lo && x <= hi;
}
template <class T, class L> static void run(Z r, Z c, L lo, L hi)
{
    tc(std::string("rand_matrix ") + tn<T>() + " " + str(r) + "x" + str(c) + " [" + str(lo) + ", " + str(hi) + "]", r && c);
    auto m = utility::rand_matrix<T>(r, c, lo, hi);
    static_assert(std::is_same_v<decltype(m), Matrix<T>>);
    ck(m.rows() == r && m.cols() == c && m.size() == r * c, "the matrix has the requested shape");
    for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) ck(inside<T>(m(i, j), lo, hi), "element (" + str(i) + ", " + str(j) + ") = " + str(m(i, j)) + " is inside the limits");
    tc(std::string("rand_vector ") + tn<T>() + " " + str(r) + " [" + str(lo) + ", " + str(hi) + "]", r > 0);
    auto v = utility::rand_vector<T>(r, lo, hi);
    static_assert(std::is_same_v<decltype(v), Vector<T>>);
    ck(v.size() == r, "the vector has the requested length");
    for (Z i = 0; i < r; ++i) ck(inside<T>(v[i], lo, hi), "element " + str(i) + " = " + str(v[i]) + " is inside the limits");
}
template <class T, class L> static void all()
{
    const L lims[][2] = { { L(1), L(2) }, { L(-10), L(10) }, { L(-9), L(-8) }, { L(5), L(5) }, { L(0), L(1) }, { L(100), L(1000) } };
    for (auto [r, c] : shapes(4, 5)) for (auto &l : lims) run<T, L>(r, c, l[0], l[1]);
    for (int k = 0; k < 4 * scale; ++k) { Z r = ri(1, 40), c = ri(1, 40); L a = L(ri(-50, 50)); run<T, L>(r, c, a, L(a + L(ri(0, 9)))); }
}
GROUP(double_) { all<double, double>(); }
GROUP(double_int) { all<double, int>(); }
GROUP(float_) { all<float, float>(); }
GROUP(int_) { all<int, int>(); }
GROUP(complex_) { all<cd, double>(); all<cd, int>(); }
