#include "common.hpp"
template <class T> static void run()
{
    for (auto [r, c] : shapes(4, 8)) {
        Mo<T> m(r, c);
        for (Z i = 0; i < m.v.size(); ++i) m.v[i] = T(int(i) + 1);
        tc(std::string(tn<T>()) + " " + show(m), r && c);
        Matrix<T> a = mk(m);
        const Matrix<T> &ca = a;
        ck(a.rows() == r && a.cols() == c && a.size() == r * c && a.empty() == (r * c == 0), "rows/cols/size/empty");
        Z k = 0;
        for (auto &x : a) { ck(k < r * c && &x == &a(k / c, k % c), "iteration visits row by row"); ++k; }
        ck(k == r * c, "iteration visits every element once");
        k = 0;
        for (auto &x : ca) { ck(k < r * c && &x == &ca(k / c, k % c), "const iteration visits row by row"); ++k; }
        ck(k == r * c, "const iteration visits every element once");
        if (r * c) ck(a.data() == &a(0, 0) && ca.data() == &ca(0, 0), "data is the first element");
        std::unordered_set<const void *> addr;
        for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) {
            T *p = &a(i, j);
            ck(p == &a.at(i, j) && p == &a[i * c + j] && p == &ca(i, j) && p == &ca.at(i, j) && p == &ca[i * c + j] && p == a.data() + i * c + j, "one address per element (" + str(i) + "," + str(j) + ")");
            ck(addr.insert(p).second, "distinct elements have distinct addresses");
            MatrixBase<T> &b = a;
            ck(p == &b(i, j) && p == &b.at(i, j) && p == &b[i * c + j], "one address through the base class");
            for (int w = 0; w < 3; ++w) {
                Matrix<T> q = mk(m);
                (w == 0 ? q(i, j) : w == 1 ? q.at(i, j) : q[i * c + j]) = T(99);
                Mo<T> n = m;
                n(i, j) = T(99);
                same(q, n, "write of (" + str(i) + "," + str(j) + ")");
            }
        }
    }
}
template <class T> static void sizes()
{
    for (auto [r, c] : shapes(3, 5)) {
        Mo<T> m = rmo<T>(r, c);
        cforms<T>(m, [&](const MatrixBase<T> &a, const std::string &f) {
            tc(std::string(tn<T>()) + " " + f + " " + show(m), r && c);
            ck(a.rows() == r && a.cols() == c, "shape");
            ck(a.size() == r * c, "size is rows*cols");
            ck(a.empty() == (a.size() == 0), "empty iff size 0");
            for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) ck(&a(i, j) == &a.at(i, j) && &a(i, j) == &a[i * c + j], "one address per element");
        });
    }
    Matrix<T> d;
    ck(d.rows() == 0 && d.cols() == 0 && d.size() == 0 && d.empty(), "default matrix is empty");
}
GROUP(addr_double) { run<double>(); }
GROUP(addr_int) { run<int>(); }
GROUP(addr_complex) { run<cd>(); }
GROUP(sizes) { sizes<double>(); sizes<int>(); sizes<cd>(); }
GROUP(large)
{
    for (auto [r, c] : { std::pair<Z, Z>{ 300, 300 }, { 70000, 1 }, { 1, 70000 }, { 1000, 129 }, { 65537, 2 } }) {
        tc("large " + str(r) + "x" + str(c));
        Matrix<float> a(r, c, 0.f);
        const Matrix<float> &ca = a;
        for (int k = 0; k < 400; ++k) {
            Z i = k < 2 ? (k ? r - 1 : 0) : (Z)ri(0, (int)r - 1), j = k < 2 ? (k ? c - 1 : 0) : (Z)ri(0, (int)c - 1);
            const float *p = a.data() + (i * c + j);
            ck(p == &a(i, j) && p == &a.at(i, j) && p == &a[i * c + j] && p == &ca(i, j) && p == &ca.at(i, j) && p == &ca[i * c + j], "one address per element (" + str(i) + "," + str(j) + ")");
        }
        ck((Z)(a.end() - a.begin()) == r * c && a.size() == r * c, "size");
    }
}
