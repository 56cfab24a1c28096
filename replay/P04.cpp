#include "common.hpp"
template <class T> static void run()
{
    for (auto [r, c] : shapes(4, 5)) for (auto [p, q] : shapes(4, 5)) for (int h = 0; h < 2; ++h) {
        Mo<T> m = rmo<T>(r, c, 1, 9);
        tc(std::string(h ? "utility::" : "") + "resize " + tn<T>() + show(m) + " to " + str(p) + "x" + str(q), r * c && p * q);
        Matrix<T> a = mk(m);
        auto &ref = h ? utility::resize(a, p, q) : a.resize(p, q);
        ck(&ref == &a, "resize returns its matrix");
        Mo<T> w(p, q);
        for (Z i = 0; i < p && i < r; ++i) for (Z j = 0; j < q && j < c; ++j) w(i, j) = m(i, j);
        same(a, w, "resize");
        a.resize(r, c);
        Mo<T> w2(r, c);
        for (Z i = 0; i < p && i < r; ++i) for (Z j = 0; j < q && j < c; ++j) w2(i, j) = m(i, j);
        same(a, w2, "resize back");
        tc(std::string(h ? "utility::" : "") + "reshape " + tn<T>() + show(m) + " to " + str(p) + "x" + str(q), r * c && p * q);
        Matrix<T> b = mk(m);
        bool t = throws([&] { auto &rr = h ? utility::reshape(b, p, q) : b.reshape(p, q); ck(&rr == &b, "reshape returns its matrix"); });
        ck(t == (p * q != r * c), t ? "reshape threw" : "reshape did not throw");
        Mo<T> v = m;
        if (!t) { v.r = p; v.c = q; }
        same(b, v, "reshape");
    }
}
GROUP(double_) { run<double>(); }
GROUP(int_) { run<int>(); }
GROUP(complex_) { run<cd>(); }
GROUP(large)
{
    for (int it = 0; it < 60 * scale; ++it) {
        Z r = ri(1, 40), c = ri(1, 40), p = ri(1, 40), q = ri(1, 40);
        Mo<double> m = rmo<double>(r, c, 1, 9);
        tc("resize " + str(r) + "x" + str(c) + " to " + str(p) + "x" + str(q));
        Matrix<double> a = mk(m);
        a.resize(p, q);
        Mo<double> w(p, q);
        for (Z i = 0; i < p && i < r; ++i) for (Z j = 0; j < q && j < c; ++j) w(i, j) = m(i, j);
        same(a, w, "resize");
    }
}
