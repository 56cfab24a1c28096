// exact integer linear algebra for the oracles
#pragma once
#include "common.hpp"
typedef __int128 I;
typedef std::vector<std::vector<I>> IM;
inline IM im(const Mo<double> &m) { IM x(m.r, std::vector<I>(m.c)); for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) x[i][j] = (I)(long long)m(i, j); return x; }
// Bareiss fraction-free elimination
inline I idet(IM a)
{
    Z n = a.size();
    if (n == 0) return 1;
    I sg = 1, prev = 1;
    for (Z k = 0; k + 1 < n; ++k) {
        if (a[k][k] == 0) {
            Z p = k + 1;
            while (p < n && a[p][k] == 0) ++p;
            if (p == n) return 0;
            std::swap(a[p], a[k]);
            sg = -sg;
        }
        for (Z i = k + 1; i < n; ++i) for (Z j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    return sg * a[n - 1][n - 1];
}
inline IM minor_(const IM &a, Z p, Z q)
{
    IM m;
    for (Z i = 0; i < a.size(); ++i) if (i != p) { std::vector<I> r; for (Z j = 0; j < a.size(); ++j) if (j != q) r.push_back(a[i][j]); m.push_back(r); }
    return m;
}
inline Mo<double> iadj(const IM &a)
{
    Z n = a.size();
    Mo<double> r(n, n);
    for (Z i = 0; i < n; ++i) for (Z j = 0; j < n; ++j) r(j, i) = (double)((((i + j) % 2) ? -1 : 1) * idet(minor_(a, i, j)));
    return r;
}
inline IM imul(const IM &a, const IM &b)
{
    Z n = a.size(), k = b.size(), m = k ? b[0].size() : 0;
    IM r(n, std::vector<I>(m));
    for (Z i = 0; i < n; ++i) for (Z j = 0; j < m; ++j) for (Z q = 0; q < k; ++q) r[i][j] += a[i][q] * b[q][j];
    return r;
}
inline IM ieye(Z n) { IM r(n, std::vector<I>(n)); for (Z i = 0; i < n; ++i) r[i][i] = 1; return r; }
inline IM ipow(const IM &a, Z k) { IM r = ieye(a.size()); while (k--) r = imul(r, a); return r; }
inline Mo<double> toM(const IM &a, Z r, Z c) { Mo<double> m(r, c); for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) m(i, j) = (double)a[i][j]; return m; }
// product of the row norms: the scale of a determinant
inline double hada(const Mo<double> &m) { double h = 1; for (Z i = 0; i < m.r; ++i) { double s = 0; for (Z j = 0; j < m.c; ++j) s += m(i, j) * m(i, j); h *= std::max(1.0, std::sqrt(s)); } return h; }
// square matrices with the structures elimination has to cope with
inline std::vector<Mo<double>> squares(Z n, int extra)
{
    std::vector<Mo<double>> v;
    v.push_back(Mo<double>(n, n));
    Mo<double> id(n, n);
    for (Z i = 0; i < n; ++i) id(i, i) = 1;
    v.push_back(id);
    for (int k = 0; k < extra; ++k) {
        // permutation times a diagonal (exact in floating point)
        std::vector<Z> p(n);
        for (Z i = 0; i < n; ++i) p[i] = i;
        std::shuffle(p.begin(), p.end(), rng);
        Mo<double> a(n, n);
        for (Z i = 0; i < n; ++i) a(i, p[i]) = ri(0, 1) ? ri(1, 4) : -ri(1, 4);
        v.push_back(a);
        v.push_back(rmo<double>(n, n, -4, 4));
        v.push_back(rmo<double>(n, n, -1, 1)); // many zeros
        Mo<double> s = rmo<double>(n, n, -2, 2);
        if (n > 1) {
            Z i = ri(0, (int)n - 1), j = ri(0, (int)n - 1);
            Mo<double> z = s;
            for (Z x = 0; x < n; ++x) z(x, j) = 0; // zero column
            v.push_back(z);
            z = s;
            for (Z x = 0; x < n; ++x) z(i, x) = 0; // zero row
            v.push_back(z);
            z = s;
            for (Z d = 0; d < n; ++d) z(d, d) = 0; // zero diagonal
            v.push_back(z);
            z = s;
            for (Z x = 0; x < n; ++x) for (Z y = 0; y < x; ++y) z(x, y) = 0; // upper triangular, zero pivot in the middle
            z(n / 2, n / 2) = 0;
            v.push_back(z);
            // leading block singular, whole matrix not necessarily
            z = s;
            for (Z y = 0; y < n; ++y) z(1, y) = y + 1 < n ? z(0, y) : z(0, y) + 1;
            v.push_back(z);
            for (Z y = 0; y < n; ++y) z(1, y) = z(0, y); // equal rows
            v.push_back(z);
        }
    }
    return v;
}
// Gaussian elimination in floating point stays away from pivots that are rounding noise: then any order of
// elimination steps that is exact in real arithmetic gives the determinant up to rounding
inline bool stable(const Mo<double> &m, bool minors = false)
{
    Mo<double> a = m;
    Z n = m.r;
    if (n >= 5) for (Z c = 0; c < n; ++c) {
        Z k = c;
        while (k < n && a(k, c) == 0) ++k;
        if (k == n) break;
        for (Z j = 0; j < n; ++j) { double t = a(c, j); a(c, j) = a(k, j); a(k, j) = t; }
        for (Z r = c + 1; r < n; ++r) {
            double q = a(r, c) / a(c, c);
            a(r, c) = 0;
            for (Z j = c + 1; j < n; ++j) { a(r, j) = a(r, j) - q * a(c, j); double x = std::abs(a(r, j)); if (x != 0 && (x < 1e-3 || x > 1e6)) return false; }
        }
    }
    if (minors && n > 5) for (Z p = 0; p < n; ++p) for (Z q = 0; q < n; ++q) {
        Mo<double> t(n - 1, n - 1);
        for (Z i = 0; i + 1 < n; ++i) for (Z j = 0; j + 1 < n; ++j) t(i, j) = m(i + (i >= p), j + (j >= q));
        if (!stable(t)) return false;
    }
    return true;
}
