#include "common.hpp"
template <class T> static Mo<T> tr(const Mo<T> &m, bool cj = false)
{
    Mo<T> t(m.c, m.r);
    for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) {
        T x = m(i, j);
        if constexpr (malg::is_complex_v<T>) if (cj) x = std::conj(x);
        t(j, i) = x;
    }
    return t;
}
template <class T> static Mo<T> blk(const Mo<T> &m, Z a, Z b, Z p, Z q)
{
    b = std::min(b, m.r), q = std::min(q, m.c);
    Mo<T> t(b - a, q - p);
    for (Z i = a; i < b; ++i) for (Z j = p; j < q; ++j) t(i - a, j - p) = m(i, j);
    return t;
}
template <class T> static void one(Z r, Z c)
{
    std::string n = tn<T>();
    Mo<T> m = rmo<T>(r, c);
    cforms<T>(m, [&](const MatrixBase<T> &a, const std::string &w) {
        tc("transpose " + n + " " + w + " " + show(m), r * c > 1);
        same(linalg::transpose(a), tr(m), "transpose");
        if constexpr (malg::is_complex_v<T>) {
            same(linalg::hermitian_transpose(a), tr(m, true), "hermitian_transpose");
            same(linalg::conjugate_transpose(a), tr(m, true), "conjugate_transpose");
        }
        tc("ravel " + n + " " + w + " " + show(m), r * c > 1);
        same(utility::ravel(a), m.v, "ravel");
        tc("diag " + n + " " + w + " " + show(m), r * c > 1);
        Ve<T> d;
        for (Z i = 0; i < std::min(r, c); ++i) d.push_back(m(i, i));
        same(utility::diag(a), d, "diag");
    });
    {
        tc("to_vector " + n + " " + show(m), r * c > 1);
        Matrix<T> a = mk(m);
        same(utility::to_vector(a), m.v, "to_vector");
        same(a, m, "to_vector operand");
        Vector<T> v = mkv(m.v);
        Mo<T> row(1, m.v.size()), col(m.v.size(), 1), dg(m.v.size(), m.v.size());
        row.v = col.v = m.v;
        for (Z i = 0; i < m.v.size(); ++i) dg(i, i) = m.v[i];
        tc("to_matrix " + n + " " + show(m.v), r * c > 1);
        same(utility::to_matrix(v, true), row, "to_matrix row");
        same(utility::to_matrix(v, false), col, "to_matrix column");
        if (m.v.size() < 30) same(utility::diag(v), dg, "diag of a vector");
        same(v, m.v, "vector operand");
    }
    const Z MX = std::numeric_limits<Z>::max();
    for (int k = 0; k < 6 * scale && r && c; ++k) {
        Z a = ri(0, (int)r - 1), b = ri((int)a + 1, (int)r + 2), p = ri(0, (int)c - 1), q = ri((int)p + 1, (int)c + 2);
        if (k == 0) a = p = 0, b = q = MX;
        if (k == 1) b = MX, q = MX;
        std::string rg = "[" + str(a) + ":" + str(b) + "," + str(p) + ":" + str(q) + "]";
        cforms<T>(m, [&](const MatrixBase<T> &A, const std::string &w) {
            tc("extract " + n + rg + " " + w + " " + show(m));
            same(utility::extract(A, a, b, p, q), blk(m, a, b, p, q), "extract");
            if (k == 0) same(utility::extract(A), m, "extract all");
            tc("extract_row " + n + rg + " " + w + " " + show(m));
            same(utility::extract_row(A, a, p, q), blk(m, a, a + 1, p, q).v, "extract_row");
            if (k == 0) same(utility::extract_row(A, a), blk(m, a, a + 1, 0, c).v, "extract_row all");
            tc("extract_column " + n + rg + " " + w + " " + show(m));
            same(utility::extract_column(A, p, a, b), blk(m, a, b, p, p + 1).v, "extract_column");
            if (k == 0) same(utility::extract_column(A, p), blk(m, 0, r, p, p + 1).v, "extract_column all");
        }, k < 2 ? 7 : 1 << ri(0, 2));
    }
}
template <class T1, class T2> static void stack(Z r, Z c, Z k, int f)
{
    typedef std::common_type_t<T1, T2> T;
    std::string n = std::string(tn<T1>()) + "," + tn<T2>();
    auto conv = [](auto const &m) { Mo<T> t(m.r, m.c); for (Z i = 0; i < m.v.size(); ++i) t.v[i] = T(m.v[i]); return t; };
    Mo<T1> a = rmo<T1>(r, c);
    Mo<T2> b = rmo<T2>(k, c), e = rmo<T2>(r, k);
    Mo<T> ta = conv(a), tb = conv(b), te = conv(e), V(r + k, c), H(r, c + k);
    for (Z i = 0; i < r + k; ++i) for (Z j = 0; j < c; ++j) V(i, j) = i < r ? ta(i, j) : tb(i - r, j);
    for (Z i = 0; i < r; ++i) for (Z j = 0; j < c + k; ++j) H(i, j) = j < c ? ta(i, j) : te(i, j - c);
    cforms<T1>(a, [&](const MatrixBase<T1> &A, const std::string &w) {
        cforms<T2>(b, [&](const MatrixBase<T2> &B, const std::string &w2) {
            tc("vstack " + n + " " + w + " " + w2 + " " + show(a) + " " + show(b), r + k > 0 && c > 0);
            same(utility::vstack(A, B), V, "vstack");
        }, f);
        cforms<T2>(e, [&](const MatrixBase<T2> &B, const std::string &w2) {
            tc("hstack " + n + " " + w + " " + w2 + " " + show(a) + " " + show(e), r > 0 && c + k > 0);
            same(utility::hstack(A, B), H, "hstack");
        }, f);
        Ve<T2> x = rve<T2>(c), y = rve<T2>(r);
        Vector<T2> vx = mkv(x), vy = mkv(y);
        Mo<T> W(r + 1, c), U(r, c + 1);
        for (Z i = 0; i < r + 1; ++i) for (Z j = 0; j < c; ++j) W(i, j) = i < r ? ta(i, j) : T(x[j]);
        for (Z i = 0; i < r; ++i) for (Z j = 0; j < c + 1; ++j) U(i, j) = j < c ? ta(i, j) : T(y[i]);
        tc("vstack vector " + n + " " + w + " " + show(a) + " " + show(x));
        same(utility::vstack(A, vx), W, "vstack vector");
        tc("hstack vector " + n + " " + w + " " + show(a) + " " + show(y));
        same(utility::hstack(A, vy), U, "hstack vector");
        same(vx, x, "vstack vector operand");
        same(vy, y, "hstack vector operand");
    }, f);
    {
        Ve<T1> x = rve<T1>(r);
        Ve<T2> y = rve<T2>(c);
        Vector<T1> vx = mkv(x);
        Vector<T2> vy = mkv(y);
        Ve<T> z;
        for (auto q : x) z.push_back(T(q));
        for (auto q : y) z.push_back(T(q));
        tc("concatenate " + n + " " + show(x) + " " + show(y));
        same(utility::concatenate(vx, vy), z, "concatenate");
        same(vx, x, "concatenate operand 1");
        same(vy, y, "concatenate operand 2");
    }
}
GROUP(double_) { for (auto [r, c] : shapes(3, 8)) one<double>(r, c); }
GROUP(int_) { for (auto [r, c] : shapes(3, 5)) one<int>(r, c); }
GROUP(complex_) { for (auto [r, c] : shapes(3, 5)) one<cd>(r, c); }
GROUP(stack_) { for (Z r = 0; r < 4; ++r) for (Z c = 0; c < 4; ++c) for (Z k = 0; k < 4; ++k) { stack<double, double>(r, c, k, 7); stack<int, double>(r, c, k, 1 << ri(0, 2)); stack<double, int>(r, c, k, 1 << ri(0, 2)); stack<int, int>(r, c, k, 1); } stack<double, double>(7, 5, 9, 7); stack<double, double>(1, 12, 8, 7); stack<double, double>(6, 2, 1, 7); }
GROUP(big) { for (int k = 0; k < 4 * scale; ++k) { one<double>(ri(10, 40), ri(10, 40)); stack<double, double>(ri(9, 30), ri(9, 30), ri(9, 30), 1); } }
