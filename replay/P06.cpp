#include "common.hpp"
template <class M, class V> static void checkcof(M &a, Z r, Z c, V &v, Z p, Z q, const std::string &w)
{
    ck(v.rows() == r - 1 && v.cols() == c - 1 && v.size() == (r - 1) * (c - 1) && v.empty() == (v.size() == 0), w + ": shape");
    const V &cv = v;
    for (Z i = 0; i + 1 < r; ++i) for (Z j = 0; j + 1 < c; ++j) {
        auto *e = &a(i + (i >= p), j + (j >= q));
        ck(&v(i, j) == e && &v.at(i, j) == e && &v[i * (c - 1) + j] == e, w + ": element (" + str(i) + "," + str(j) + ")");
        ck(&cv(i, j) == e && &cv.at(i, j) == e && &cv[i * (c - 1) + j] == e, w + ": const element (" + str(i) + "," + str(j) + ")");
    }
}
template <class T> static void run()
{
    for (auto [r, c] : shapes(4, 5, 1)) for (Z p = 0; p < r; ++p) for (Z q = 0; q < c; ++q) {
        Mo<T> m = rmo<T>(r, c), w(r - 1, c - 1);
        for (Z i = 0; i + 1 < r; ++i) for (Z j = 0; j + 1 < c; ++j) w(i, j) = m(i + (i >= p), j + (j >= q));
        tc(std::string("cofactor ") + tn<T>() + " " + str(p) + "," + str(q) + " of " + show(m), w.v.size());
        Matrix<T> a = mk(m);
        CofactorView<Matrix<T>> v(&a, p, q);
        checkcof(a, r, c, v, p, q, "CofactorView");
        same(v, w, "CofactorView");
        const Matrix<T> &ca = a;
        CofactorView<const Matrix<T>> vc(&ca, p, q);
        checkcof(ca, r, c, vc, p, q, "CofactorView<const>");
        if (w.v.size()) {
            for (int k = 0; k < 3; ++k) {
                a = mk(m);
                Z i = ri(0, r - 2), j = ri(0, c - 2);
                (k == 0 ? v(i, j) : k == 1 ? v.at(i, j) : v[i * (c - 1) + j]) = T(55);
                Mo<T> e = m;
                e(i + (i >= p), j + (j >= q)) = T(55);
                same(a, e, "write through the cofactor view");
            }
            Mo<T> s = rmo<T>(r - 1, c - 1), e = m;
            for (Z i = 0; i + 1 < r; ++i) for (Z j = 0; j + 1 < c; ++j) e(i + (i >= p), j + (j >= q)) = s(i, j);
            cforms<T>(s, [&](const MatrixBase<T> &b, const std::string &f) {
                a = mk(m);
                v = b;
                same(a, e, "assignment from " + f);
            });
            Z p2 = ri(0, r - 2), q2 = ri(0, c - 2);
            a = mk(m);
            CofactorView<CofactorView<Matrix<T>>> vv(&v, p2, q2);
            for (Z i = 0; i + 2 < r; ++i) for (Z j = 0; j + 2 < c; ++j) {
                Z y = i + (i >= p2), x = j + (j >= q2);
                ck(&vv(i, j) == &a(y + (y >= p), x + (x >= q)), "cofactor of a cofactor");
            }
        }
        cforms<T>(m, [&](const MatrixBase<T> &b, const std::string &f) {
            auto o = linalg::cofactor(b, p, q);
            same(o, w, "cofactor() of " + f);
            CofactorView<const MatrixBase<T>> x(&b, p, q);
            same(x, w, "CofactorView of " + f);
        });
    }
}
GROUP(double_) { run<double>(); }
GROUP(int_) { run<int>(); }
GROUP(complex_) { run<cd>(); }
