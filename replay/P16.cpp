#include "common.hpp"
template <class T> static T tiny() { if constexpr (std::is_floating_point_v<T>) return T(1e-200); else return T(1); }
template <class T> static void pred(const Mo<T> &m)
{
    Z r = m.r, c = m.c;
    bool sq = r == c, sy = sq, sk = sq, di = sq, lo = sq, up = sq;
    if (sq) for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) {
        if (m(i, j) != m(j, i)) sy = false;
        if (m(i, j) != -m(j, i)) sk = false;
        if (i != j && m(i, j) != T(0)) di = false;
        if (i < j && m(i, j) != T(0)) lo = false;
        if (i > j && m(i, j) != T(0)) up = false;
    }
    cforms<T>(m, [&](const MatrixBase<T> &a, const std::string &w) {
        tc(std::string(tn<T>()) + " " + w + " " + show(m), r * c > 1);
        eqs<bool>(utility::is_square(a), sq, "is_square");
        eqs<bool>(utility::is_row_vector(a), r == 1, "is_row_vector");
        eqs<bool>(utility::is_column_vector(a), c == 1, "is_column_vector");
        eqs<bool>(utility::is_symmetric(a), sy, "is_symmetric");
        eqs<bool>(utility::is_skew_symmetric(a), sk, "is_skew_symmetric");
        eqs<bool>(utility::is_diagonal(a), di, "is_diagonal");
        eqs<bool>(utility::is_lower_triangular(a), lo, "is_lower_triangular");
        eqs<bool>(utility::is_upper_triangular(a), up, "is_upper_triangular");
    });
}
template <class T> static void preds()
{
    for (auto [r, c] : shapes(5, 8)) {
        pred(rmo<T>(r, c));
        pred(Mo<T>(r, c));
        pred(rmo<T>(r, c, 0, 1));
        if (r != c) {
            // non-square but structured
            Mo<T> d(r, c);
            for (Z i = 0; i < std::min(r, c); ++i) d(i, i) = T(2);
            pred(d);
            continue;
        }
        // one structured matrix per predicate, and every single-element disturbance of it
        Mo<T> s = rmo<T>(r, r, 1, 9), k = s, d(r, r), l = s, u = s;
        for (Z i = 0; i < r; ++i) for (Z j = 0; j < r; ++j) {
            if (i > j) s(i, j) = s(j, i), k(i, j) = -k(j, i), u(i, j) = 0;
            if (i < j) l(i, j) = 0;
            if (i == j) k(i, i) = 0, d(i, i) = T(ri(0, 5));
        }
        for (auto *m : { &s, &k, &d, &l, &u }) {
            pred(*m);
            for (Z i = 0; i < r; ++i) for (Z j = 0; j < r; ++j) {
                Mo<T> n = *m;
                n(i, j) += tiny<T>() * (std::is_floating_point_v<T> && ri(0, 1) ? T(1e200) : T(1));
                pred(n);
            }
        }
    }
}
template <class T> static void close_(const Mo<T> &a, const Mo<T> &b, double tol)
{
    bool w = true;
    for (Z i = 0; i < a.v.size(); ++i) if (std::abs(a.v[i] - b.v[i]) > tol) w = false;
    cforms<T>(a, [&](const MatrixBase<T> &A, const std::string &f) {
        cforms<T>(b, [&](const MatrixBase<T> &B, const std::string &g) {
            tc("all_close " + std::string(tn<T>()) + " " + f + " " + g + " " + show(a) + " " + show(b) + " " + str(tol), a.v.size() > 0);
            eqs<bool>(utility::all_close(A, B, tol), w, "all_close");
            if (tol == 0.0001) eqs<bool>(utility::all_close(A, B), w, "all_close default");
        }, 1 << ri(0, 2));
    }, 1 << ri(0, 2));
    Vector<T> x = mkv(a.v), y = mkv(b.v);
    tc("all_close vectors " + show(a.v) + " " + show(b.v));
    eqs<bool>(utility::all_close(x, y, tol), w, "all_close vectors");
    if (tol == 0.0001) eqs<bool>(utility::all_close(x, y), w, "all_close vectors default");
    same(x, a.v, "all_close vector operand 1");
    same(y, b.v, "all_close vector operand 2");
    if constexpr (!malg::is_complex_v<T>) {
        int64_t k = 0;
        for (Z i = 0; i < a.v.size() && !k; ++i) k = a.v[i] < b.v[i] ? -int64_t(i + 1) : a.v[i] > b.v[i] ? int64_t(i + 1) : 0;
        cforms<T>(a, [&](const MatrixBase<T> &A, const std::string &f) {
            cforms<T>(b, [&](const MatrixBase<T> &B, const std::string &g) {
                tc("compare " + std::string(tn<T>()) + " " + f + " " + g + " " + show(a) + " " + show(b), a.v.size() > 0);
                eqs<int64_t>(utility::compare(A, B), k, "compare");
            }, 1 << ri(0, 2));
        }, 1 << ri(0, 2));
        tc("compare vectors " + show(a.v) + " " + show(b.v), a.v.size() > 0);
        eqs<int64_t>(utility::compare(x, y), k, "compare vectors");
    }
}
template <class T> static void closes()
{
    for (auto [r, c] : shapes(3, 8)) {
        Mo<T> a = rmo<T>(r, c);
        for (double tol : { 0.0001, 0.5, 1.0, 2.0 }) {
            close_(a, a, tol);
            for (Z i = 0; i < a.v.size(); ++i) {
                Mo<T> b = a;
                b.v[i] += T(ri(0, 1) ? 1 : -1) * T(ri(1, 2));
                close_(a, b, tol);
                if constexpr (std::is_floating_point_v<T>) { b = a; b.v[i] += T(tol * (ri(0, 1) ? 0.75 : -0.75)); close_(a, b, tol); b.v[i] = a.v[i] - T(tol * 1.25); close_(a, b, tol); }
                // a second, opposite difference further on must not matter for compare
                if (i + 1 < a.v.size()) { b = a; b.v[i] += T(3); b.v[i + 1] -= T(5); close_(a, b, tol); }
            }
        }
        close_(a, rmo<T>(r, c), 3.0);
    }
}
GROUP(pred_double) { preds<double>(); }
GROUP(pred_int) { preds<int>(); }
GROUP(pred_large) { for (int k = 0; k < 2 * scale; ++k) { Z n = ri(8, 20); Mo<double> s = rmo<double>(n, n, 1, 9), l = s; for (Z i = 0; i < n; ++i) for (Z j = i + 1; j < n; ++j) s(i, j) = s(j, i), l(i, j) = 0; for (int q = 0; q < 15; ++q) { for (auto m : { s, l, Mo<double>(n, n) }) { pred(m); m(ri(0, (int)n - 1), ri(0, (int)n - 1)) += 1; pred(m); } } } }
GROUP(close_double) { closes<double>(); }
GROUP(close_int) { closes<int>(); }
GROUP(close_complex) { for (auto [r, c] : shapes(3, 4)) { auto a = rmo<cd>(r, c); close_(a, a, 0.0001); for (Z i = 0; i < a.v.size(); ++i) { auto b = a; b.v[i] += cd(0, 2); close_(a, b, 1.0); close_(a, b, 3.0); } } }
