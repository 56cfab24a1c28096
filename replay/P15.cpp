#include "common.hpp"
template <class T> static void swaps(Z r, Z c)
{
    Mo<T> m = rmo<T>(r, c);
    const Z MX = std::numeric_limits<Z>::max();
    for (int k = 0; k < 8 * scale; ++k) {
        Z i = ri(0, (int)r - 1), j = ri(0, (int)r - 1), p = ri(0, (int)c - 1), q = ri(0, (int)c - 1);
        Z s = ri(0, (int)c), e = ri(0, (int)c + 2), s2 = ri(0, (int)r), e2 = ri(0, (int)r + 2);
        if (k % 3 == 0) s = s2 = 0, e = e2 = MX;
        if (k == 1) i = 0, j = r - 1, p = 0, q = c - 1;
        Mo<T> a = m, b = m;
        for (Z x = s; x < std::min(e, c); ++x) { a(i, x) = m(j, x); a(j, x) = m(i, x); }
        for (Z x = s2; x < std::min(e2, r); ++x) { b(x, p) = m(x, q); b(x, q) = m(x, p); }
        forms<T>(m, [&](MatrixBase<T> &A, const std::string &w) {
            tc("swap_rows " + std::string(tn<T>()) + " " + str(i) + "," + str(j) + " [" + str(s) + ":" + str(e) + "] " + w + " " + show(m), i != j);
            if (k % 3) utility::swap_rows(A, i, j, s, e); else utility::swap_rows(A, i, j);
            same(A, a, "swap_rows");
        });
        forms<T>(m, [&](MatrixBase<T> &A, const std::string &w) {
            tc("swap_cols " + std::string(tn<T>()) + " " + str(p) + "," + str(q) + " [" + str(s2) + ":" + str(e2) + "] " + w + " " + show(m), p != q);
            if (k % 3) utility::swap_cols(A, p, q, s2, e2); else utility::swap_cols(A, p, q);
            same(A, b, "swap_cols");
        });
        // a view changes nothing outside itself
        Mo<T> big = rmo<T>(r + 2, c + 2);
        Matrix<T> B = mk(big);
        View<Matrix<T>> v(&B, 1, r + 1, 1, c + 1);
        Mo<T> wnt = big;
        for (Z x = s; x < std::min(e, c); ++x) std::swap(wnt.v[(i + 1) * (c + 2) + x + 1], wnt.v[(j + 1) * (c + 2) + x + 1]);
        tc("swap_rows through a view " + str(i) + "," + str(j) + " [" + str(s) + ":" + str(e) + "] " + show(big), i != j);
        utility::swap_rows(v, i, j, s, e);
        same(B, wnt, "swap_rows through a view");
    }
}
template <class T> static void rem(Z r, Z c)
{
    Mo<T> m = rmo<T>(r, c);
    for (Z i = 0; i < r; ++i) {
        Mo<T> w(r - 1, c);
        for (Z x = 0; x + 1 < r; ++x) for (Z y = 0; y < c; ++y) w(x, y) = m(x + (x >= i), y);
        Matrix<T> a = mk(m);
        tc("remove_row " + std::string(tn<T>()) + " " + str(i) + " " + show(m), c > 0);
        auto &ret = utility::remove_row(a, i);
        ck(&ret == &a, "remove_row returns its argument");
        same(a, w, "remove_row");
    }
    for (Z j = 0; j < c; ++j) {
        Mo<T> w(r, c - 1);
        for (Z x = 0; x < r; ++x) for (Z y = 0; y + 1 < c; ++y) w(x, y) = m(x, y + (y >= j));
        Matrix<T> a = mk(m);
        tc("remove_column " + std::string(tn<T>()) + " " + str(j) + " " + show(m), r > 0);
        auto &ret = utility::remove_column(a, j);
        ck(&ret == &a, "remove_column returns its argument");
        same(a, w, "remove_column");
    }
    // histories of removals
    Matrix<T> a = mk(m);
    Mo<T> w = m;
    std::string h;
    while (w.r && w.c) {
        Mo<T> n;
        if (ri(0, 1)) {
            Z i = ri(0, (int)w.r - 1);
            h += " r" + str(i);
            n = Mo<T>(w.r - 1, w.c);
            for (Z x = 0; x < n.r; ++x) for (Z y = 0; y < n.c; ++y) n(x, y) = w(x + (x >= i), y);
            tc("removals" + h + " " + show(m));
            utility::remove_row(a, i);
        } else {
            Z j = ri(0, (int)w.c - 1);
            h += " c" + str(j);
            n = Mo<T>(w.r, w.c - 1);
            for (Z x = 0; x < n.r; ++x) for (Z y = 0; y < n.c; ++y) n(x, y) = w(x, y + (y >= j));
            tc("removals" + h + " " + show(m));
            utility::remove_column(a, j);
        }
        w = n;
        same(a, w, "after removals" + h);
    }
}
GROUP(swap_double) { for (auto [r, c] : shapes(4, 8, 1)) swaps<double>(r, c); }
GROUP(swap_int) { for (auto [r, c] : shapes(3, 4, 1)) swaps<int>(r, c); }
GROUP(swap_complex) { for (auto [r, c] : shapes(3, 4, 1)) swaps<cd>(r, c); }
GROUP(remove_double) { for (auto [r, c] : shapes(5, 8)) rem<double>(r, c); }
GROUP(remove_int) { for (auto [r, c] : shapes(4, 8)) rem<int>(r, c); }
GROUP(remove_complex) { for (auto [r, c] : shapes(3, 6)) rem<cd>(r, c); }
GROUP(large) { for (int k = 0; k < 3 * scale; ++k) { swaps<double>(ri(8, 30), ri(8, 30)); rem<double>(ri(8, 20), ri(8, 20)); } }
