#include "exact.hpp"
static void one(Z n, int kind)
{
    // A = L*U with integer factors: exact, no zero pivot
    Mo<double> L(n, n), U(n, n), A(n, n);
    for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) {
        if (i > j) L(i, j) = kind == 1 ? 0 : ri(-3, 3);
        if (i == j) L(i, i) = (ri(0, 1) ? 1 : -1) * std::ldexp(1.0, ri(0, 2)), U(i, i) = 1;
        if (i < j) U(i, j) = kind == 2 ? 0 : ri(-3, 3);
    }
    for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) for (Z k = 0; k < n; ++k) A(i, j) += L(i, k) * U(k, j);
    cforms<double>(A, [&](const MatrixBase<double> &a, const std::string &f) {
        tc("lu " + f + " " + show(A), n > 1);
        auto [l, u] = linalg::lu_decomposition(a);
        same(l, L, "L", 1e-9);
        same(u, U, "U", 1e-9);
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) {
            if (i < j) ck(l(i, j) == 0, "L is lower triangular");
            if (i > j) ck(u(i, j) == 0, "U is upper triangular");
            if (i == j) ck(u(i, j) == 1, "U has a unit diagonal");
        }
    });
}
GROUP(exact) { for (Z n = 0; n <= 8; ++n) for (int k = 0; k < 12 * scale; ++k) one(n, k % 3); }
GROUP(large) { for (int k = 0; k < 3 * scale; ++k) one(ri(9, 14), 0); }
GROUP(dominant)
{
    // diagonally dominant: pivots exist; the product is the matrix
    for (Z n = 1; n <= 9; ++n) for (int k = 0; k < 6 * scale; ++k) {
        Mo<double> A = rmo<double>(n, n);
        for (Z i = 0; i < n; ++i) A(i, i) = 40 + 10 * (double)n;
        Matrix<double> a = mk(A);
        tc("lu of a dominant matrix " + show(A));
        auto [l, u] = linalg::lu_decomposition(a);
        Mo<double> P(n, n);
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) for (Z q = 0; q < n; ++q) P(i, j) += l(i, q) * u(q, j);
        eqm(P, A, "L*U", 1e-9);
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) ck((i >= j || l(i, j) == 0) && (i <= j || u(i, j) == 0) && (i != j || u(i, j) == 1), "triangular factors");
        same(a, A, "operand unchanged");
    }
}
GROUP(complex_)
{
    for (Z n = 1; n <= 5; ++n) for (int k = 0; k < 4; ++k) {
        Mo<cd> A = rmo<cd>(n, n);
        for (Z i = 0; i < n; ++i) A(i, i) = cd(70, 70);
        Matrix<cd> a = mk(A);
        tc("lu complex " + show(A));
        auto [l, u] = linalg::lu_decomposition(a);
        Mo<cd> P(n, n);
        for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) for (Z q = 0; q < n; ++q) P(i, j) += l(i, q) * u(q, j);
        eqm(P, A, "L*U", 1e-9);
    }
}
