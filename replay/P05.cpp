#include "common.hpp"
// a block [r0,r1)x[c0,c1) of the matrix, clipped
template <class M, class V> static void checkview(M &a, const Mo<typename M::value_type> &m, V &v, Z r0, Z r1, Z c0, Z c1, const std::string &w)
{
    Z R = std::min(r1, m.r) - r0, C = std::min(c1, m.c) - c0;
    ck(v.rows() == R && v.cols() == C, w + ": shape " + str(v.rows()) + "x" + str(v.cols()));
    ck(v.size() == R * C, w + ": size");
    ck(v.empty() == (R * C == 0), w + ": empty");
    const V &cv = v;
    for (Z i = 0; i < R; ++i) for (Z j = 0; j < C; ++j) {
        auto *p = &a(r0 + i, c0 + j);
        ck(&v(i, j) == p && &v.at(i, j) == p && &v[i * C + j] == p, w + ": element (" + str(i) + "," + str(j) + ") aliases the matrix");
        ck(&cv(i, j) == p && &cv.at(i, j) == p && &cv[i * C + j] == p, w + ": const element (" + str(i) + "," + str(j) + ") aliases the matrix");
    }
}
template <class T> static void views()
{
    const Z ALL = std::numeric_limits<Z>::max();
    for (auto [r, c] : shapes(4, 4, 1)) {
        for (int it = 0; it < 12 * scale; ++it) {
            Z r0 = ri(0, r - 1), c0 = ri(0, c - 1), r1 = ri(0, 4) ? (Z)ri(r0 + 1, r + 2) : ALL, c1 = ri(0, 4) ? (Z)ri(c0 + 1, c + 2) : ALL;
            Mo<T> m = rmo<T>(r, c);
            std::string w = std::string(tn<T>()) + " [" + str(r0) + ":" + str(r1) + "," + str(c0) + ":" + str(c1) + "] of " + show(m);
            tc("view " + w);
            Matrix<T> a = mk(m);
            const Matrix<T> &ca = a;
            View<Matrix<T>> v(&a, r0, r1, c0, c1);
            checkview(a, m, v, r0, r1, c0, c1, "View");
            auto v2 = utility::view(a, r0, r1, c0, c1);
            checkview(a, m, v2, r0, r1, c0, c1, "utility::view");
            auto v3 = a(Range{ r0, r1 }, Range{ c0, c1 });
            checkview(a, m, v3, r0, r1, c0, c1, "range call");
            auto v4 = ca(Range{ r0, r1 }, Range{ c0, c1 });
            checkview(ca, m, v4, r0, r1, c0, c1, "const range call");
            auto v5 = utility::row(a, r0, c0, c1);
            checkview(a, m, v5, r0, r0 + 1, c0, c1, "row");
            auto v6 = utility::col(a, c0, r0, r1);
            checkview(a, m, v6, r0, r1, c0, c0 + 1, "col");
            auto v7 = utility::row(a, r0);
            checkview(a, m, v7, r0, r0 + 1, 0, c, "whole row");
            auto v8 = utility::col(a, c0);
            checkview(a, m, v8, 0, r, c0, c0 + 1, "whole col");
            auto v9 = utility::view(a);
            checkview(a, m, v9, 0, r, 0, c, "whole view");
            View<Matrix<T>> va(&a, Range{ r0, r1 }, Range{ c0, c1 });
            checkview(a, m, va, r0, r1, c0, c1, "View(Range)");
            View<Matrix<T>> vb(&a, Range{ r0, r1 });
            checkview(a, m, vb, r0, r1, 0, c, "View(Range rows)");
            View<Matrix<T>> d1(&a, r0), d2(&a, r0, r1), d3(&a, r0, r1, c0);
            checkview(a, m, d1, r0, r, 0, c, "View(row)");
            checkview(a, m, d2, r0, r1, 0, c, "View(row, row)");
            checkview(a, m, d3, r0, r1, c0, c, "View(row, row, col)");
            auto u1 = utility::view(a, r0);
            auto u2 = utility::view(a, r0, r1);
            auto u3 = utility::view(a, r0, r1, c0);
            auto u4 = utility::row(a, r0, c0);
            auto u5 = utility::col(a, c0, r0);
            checkview(a, m, u1, r0, r, 0, c, "view(row)");
            checkview(a, m, u2, r0, r1, 0, c, "view(row, row)");
            checkview(a, m, u3, r0, r1, c0, c, "view(row, row, col)");
            checkview(a, m, u4, r0, r0 + 1, c0, c, "row(row, col)");
            checkview(a, m, u5, r0, r, c0, c0 + 1, "col(col, row)");
            View<const Matrix<T>> vc(&ca, r0, r1, c0, c1);
            checkview(ca, m, vc, r0, r1, c0, c1, "View<const>");
            // view of a view
            Z R = v.rows(), C = v.cols();
            Z p0 = ri(0, R - 1), q0 = ri(0, C - 1), p1 = ri(p0 + 1, R + 1), q1 = ri(q0 + 1, C + 1);
            View<View<Matrix<T>>> vv(&v, p0, p1, q0, q1);
            checkview(a, m, vv, r0 + p0, r0 + std::min(p1, R), c0 + q0, c0 + std::min(q1, C), "view of a view");
            // writes
            auto target = [&](auto &view, Z y, Z x, Z R2, Z C2, const std::string &n) {
                for (int k = 0; k < 3; ++k) {
                    a = mk(m);
                    Z i = ri(0, R2 - 1), j = ri(0, C2 - 1);
                    (k == 0 ? view(i, j) : k == 1 ? view.at(i, j) : view[i * C2 + j]) = T(55);
                    Mo<T> e = m;
                    e(y + i, x + j) = T(55);
                    same(a, e, n + ": write of one element");
                }
                Mo<T> s = rmo<T>(R2, C2), e = m;
                for (Z i = 0; i < R2; ++i) for (Z j = 0; j < C2; ++j) e(y + i, x + j) = s(i, j);
                cforms<T>(s, [&](const MatrixBase<T> &b, const std::string &f) {
                    a = mk(m);
                    view = b;
                    same(a, e, n + ": assignment from " + f);
                });
                a = mk(m);
                view = mk(s);
                same(a, e, n + ": assignment from a matrix");
            };
            target(v, r0, c0, R, C, "View");
            target(v3, r0, c0, R, C, "range call");
            target(v5, r0, c0, 1, C, "row");
            target(v6, r0, c0, R, 1, "col");
            target(vv, r0 + p0, c0 + q0, vv.rows(), vv.cols(), "view of a view");
            // assignment from another view (not overlapping)
            {
                a = mk(m);
                Mo<T> o = rmo<T>(R + 2, C + 1), e = m;
                Matrix<T> b = mk(o);
                View<Matrix<T>> vo(&b, 1, 1 + R, 1, 1 + C);
                for (Z i = 0; i < R; ++i) for (Z j = 0; j < C; ++j) e(r0 + i, c0 + j) = o(1 + i, 1 + j);
                v = vo;
                same(a, e, "assignment from a view");
                same(b, o, "source of the assignment from a view");
                a = mk(m);
                const Matrix<T> &cb = b;
                View<const Matrix<T>> vco(&cb, 1, 1 + R, 1, 1 + C);
                v = vco;
                same(a, e, "assignment from a const view");
                // a view keeps designating its own block afterwards
                v(0, 0) = T(44);
                e(r0, c0) = T(44);
                same(a, e, "a view still designates its block after an assignment");
                same(b, o, "source of the assignment from a view");
            }
        }
        // row and column of one matrix assigned to each other
        if (r >= 2) {
            Mo<T> m = rmo<T>(r, c);
            tc(std::string(tn<T>()) + " row to row " + show(m));
            Matrix<T> a = mk(m);
            utility::row(a, 0) = utility::row(a, r - 1);
            Mo<T> e = m;
            for (Z j = 0; j < c; ++j) e(0, j) = m(r - 1, j);
            same(a, e, "row assigned to another row");
        }
    }
}
GROUP(double_) { views<double>(); }
GROUP(int_) { views<int>(); }
GROUP(complex_) { views<cd>(); }
GROUP(lists)
{
    Mo<double> m = rmo<double>(4, 4);
    Matrix<double> a = mk(m);
    tc("view assigned a nested list");
    utility::view(a, 1, 3, 1, 4) = { { 1., 2., 3. }, { 4., 5., 6. } };
    Mo<double> e = m;
    for (Z i = 0; i < 2; ++i) for (Z j = 0; j < 3; ++j) e(1 + i, 1 + j) = double(1 + i * 3 + j);
    same(a, e, "view assigned a nested list");
    utility::row(a, 0) = { { 7., 8., 9., 10. } };
    for (Z j = 0; j < 4; ++j) e(0, j) = 7. + j;
    same(a, e, "row assigned a nested list");
    utility::col(a, 2) = { { 1. }, { 2. }, { 3. }, { 4. } };
    for (Z i = 0; i < 4; ++i) e(i, 2) = 1. + i;
    same(a, e, "column assigned a nested list");
    auto v = utility::view(a, 1, 3, 1, 4);
    // lists of another shape are refused: nothing changes
    try { v = { { 1., 2. }, { 4., 5. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list");
    try { v = { { 1., 2., 3. }, { 4., 5. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list");
    try { v = { { 1., 2., 3. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list");
    try { v = { { 1., 2., 3. }, { 4., 5., 6., 7. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list with a longer row");
    try { v = { { 1., 2., 3., 4. }, { 4., 5., 6. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list with a longer row");
    try { v = { { 1., 2., 3. }, { 4., 5., 6. }, { 7., 8., 9. } }; } catch (const std::exception &) {}
    same(a, e, "unchanged after a refused list with a further row");
}
template <class T> static void follows()
{
    // a view designates [r0,r1) x [c0,c1) of the matrix as it is now, clipped to the current shape
    const Z ALL = std::numeric_limits<Z>::max();
    for (int it = 0; it < 150 * scale; ++it) {
        Z r = ri(1, 4), c = ri(1, 4), r0 = ri(0, r - 1), c0 = ri(0, c - 1), r1 = ri(0, 2) ? (Z)ri(r0 + 1, r + 3) : ALL, c1 = ri(0, 2) ? (Z)ri(c0 + 1, c + 3) : ALL;
        Mo<T> m = rmo<T>(r, c);
        Matrix<T> a = mk(m);
        const Matrix<T> &ca = a;
        View<Matrix<T>> v(&a, Range{ r0, r1 }, Range{ c0, c1 });
        auto v2 = utility::view(a, r0, r1, c0, c1);
        auto v3 = a(Range{ r0, r1 }, Range{ c0, c1 });
        View<const Matrix<T>> v4(&ca, r0, r1, c0, c1);
        auto v5 = utility::view(a);
        auto v6 = utility::col(a, c0);
        auto v7 = utility::row(a, r0);
        for (int k = 0; k < 3; ++k) {
            Z nr = ri(r0 + 1, r0 + 5), nc = ri(c0 + 1, c0 + 5);
            Mo<T> n = rmo<T>(nr, nc);
            tc(std::string(tn<T>()) + " view [" + str(r0) + ":" + str(r1) + "," + str(c0) + ":" + str(c1) + "] of " + show(m) + " after the matrix became " + show(n));
            if (k == 1) { a.resize(nr, nc); n = mo(a); } else a = mk(n);
            checkview(a, n, v, r0, r1, c0, c1, "View");
            checkview(a, n, v2, r0, r1, c0, c1, "utility::view");
            checkview(a, n, v3, r0, r1, c0, c1, "range call");
            checkview(ca, n, v4, r0, r1, c0, c1, "View<const>");
            checkview(a, n, v5, 0, nr, 0, nc, "whole view");
            checkview(a, n, v6, 0, nr, c0, c0 + 1, "whole col");
            checkview(a, n, v7, r0, r0 + 1, 0, nc, "whole row");
        }
    }
}
GROUP(follows_double) { follows<double>(); }
GROUP(follows_int) { follows<int>(); }
