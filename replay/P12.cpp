#include "common.hpp"
template <class T> static double nrm(T x) { return malg::is_complex_v<T> ? std::norm(x) : double(std::real(x)) * double(std::real(x)); }
template <class T> static void mats()
{
    const double tol = 1e-12;
    for (auto [r, c] : shapes(3, 5)) for (int it = 0; it < 5 * scale; ++it) {
        int lo = it % 5 == 0 ? 0 : it % 5 == 1 ? 1 : it % 5 == 2 ? -9 : -2, hi = it % 5 == 0 ? 0 : it % 5 == 2 ? -1 : 9;
        Mo<T> A = rmo<T>(r, c, lo, hi);
        if (it % 5 >= 3 && A.v.size()) { // a single exception at a random place, often first or last
            bool z = ri(0, 1);
            for (auto &x : A.v) x = z ? T(1) : T(0);
            A.v[ri(0, 2) == 0 ? 0 : ri(0, 1) ? A.v.size() - 1 : ri(0, A.v.size() - 1)] = z ? T(0) : T(3);
        }
        bool al = true, an = false;
        for (auto x : A.v) { if (x == T(0)) al = false; else an = true; }
        T tr(0);
        double fro = 0, inf = 0, sub = 0;
        for (Z i = 0; i < r; ++i) { double s = 0; for (Z j = 0; j < c; ++j) { s += std::abs(A(i, j)); fro += nrm(A(i, j)); if (i == j) tr += A(i, j); if (j < i) sub += nrm(A(i, j)); } inf = std::max(inf, s); }
        cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &f) {
            tc(std::string(tn<T>()) + " " + f + " " + show(A), r && c);
            if constexpr (!malg::is_complex_v<T>) { eqs(malg::all(a), al, "all"); eqs(malg::any(a), an, "any"); }
            eqs<T>(trace(a), tr, "trace");
            eqs<double>(square_norm(a), std::sqrt(fro), "square_norm", tol);
            eqs<double>(infinity_norm(a), inf, "infinity_norm", tol);
            if constexpr (!std::is_integral_v<T>) if (r == c) eqs<double>(sub_norm(a), std::sqrt(sub), "sub_norm", tol);
        });
        if constexpr (!malg::is_complex_v<T>) {
            Matrix<T> a = mk(A);
            tc(std::string("min/max ") + tn<T>() + " " + show(A), r && c);
            Ve<T> mn, mx;
            if (r && c) for (Z j = 0; j < c; ++j) { T x = A(0, j), y = x; for (Z i = 1; i < r; ++i) { x = std::min(x, A(i, j)); y = std::max(y, A(i, j)); } mn.push_back(x); mx.push_back(y); }
            same(malg::min(a), mn, "min per column");
            same(malg::max(a), mx, "max per column");
            same(a, A, "operand unchanged");
        }
    }
}
template <class T> static void vecs()
{
    const double tol = 1e-12;
    for (Z n : lens(9)) for (int it = 0; it < 10 * scale; ++it) {
        Ve<T> A = rve<T>(n, it % 3 == 0 ? -9 : it % 3 == 1 ? 1 : -9, it % 3 == 2 ? -1 : 9);
        if (n && it % 4 == 3) { for (auto &x : A) x = T(0); A[ri(0, 2) == 0 ? 0 : ri(0, 1) ? n - 1 : ri(0, n - 1)] = T(it % 8 == 3 ? 4 : 0); }
        if (n && it % 4 == 2) { for (auto &x : A) x = T(2); A[ri(0, 2) == 0 ? 0 : ri(0, 1) ? n - 1 : ri(0, n - 1)] = T(0); }
        tc(std::string("vector ") + tn<T>() + " " + show(A), n > 0);
        Vector<T> a = mkv(A);
        bool al = true, an = false;
        T s(0);
        double fro = 0, inf = 0;
        for (auto x : A) { if (x == T(0)) al = false; else an = true; s += x; fro += nrm(x); inf = std::max<double>(inf, std::abs(x)); }
        eqs<T>(sum(a), s, "sum");
        T i0(3), w = i0;
        for (auto x : A) w = w + x;
        eqs<T>(malg::utility::accumulate(a.begin(), a.end(), i0), w, "accumulate");
        eqs<double>(square_norm(a), std::sqrt(fro), "square_norm", tol);
        if constexpr (!malg::is_complex_v<T>) {
            eqs(malg::all(a), al, "all");
            eqs(malg::any(a), an, "any");
            eqs<double>(infinity_norm(a), inf, "infinity_norm", tol);
            auto mn = malg::min(a), mx = malg::max(a);
            if (n) {
                eqs<T>(mn.first, *std::min_element(A.begin(), A.end()), "min value");
                eqs<T>(mx.first, *std::max_element(A.begin(), A.end()), "max value");
                ck(mn.second < n && A[mn.second] == mn.first, "min position " + str(mn.second));
                ck(mx.second < n && A[mx.second] == mx.first, "max position " + str(mx.second));
            }
        }
        same(a, A, "operand unchanged");
    }
}
GROUP(matrix_double) { mats<double>(); }
GROUP(matrix_int) { mats<int>(); }
GROUP(matrix_complex) { mats<cd>(); }
GROUP(vector_double) { vecs<double>(); }
GROUP(vector_int) { vecs<int>(); }
GROUP(vector_complex) { vecs<cd>(); }
GROUP(column_length)
{
    for (auto [r, c] : shapes(3, 4, 1)) for (Z s = 0; s <= r; ++s) for (Z e = s; e <= r + 2; ++e) for (Z j = 0; j < c; ++j) {
        Mo<double> A = rmo<double>(r, c);
        tc("vector_length col " + str(j) + " rows " + str(s) + ":" + str(e) + " of " + show(A));
        Matrix<double> a = mk(A);
        double q = 0;
        for (Z i = s; i < std::min(e, r); ++i) q += A(i, j) * A(i, j);
        eqs<double>(vector_length(a, j, s, e), std::sqrt(q), "vector_length", 1e-12);
    }
}
