#include "common.hpp"
template <class T> static void hist()
{
    for (int it = 0; it < 250 * scale; ++it) {
        std::vector<Matrix<T> *> a;
        std::vector<Mo<T>> m;
        std::string log = std::string(tn<T>()) + ":";
        auto checkall = [&]() { for (Z i = 0; i < a.size(); ++i) same(*a[i], m[i], "matrix " + str(i)); };
        auto push = [&](Matrix<T> *v, const Mo<T> &w) { a.push_back(v); m.push_back(w); };
        push(new Matrix<T>(), Mo<T>());
        int steps = ri(3, 11);
        for (int s = 0; s < steps; ++s) {
            Z i = ri(0, a.size() - 1), j = ri(0, a.size() - 1), r = ri(0, 4), c = ri(0, 4);
            int op = ri(0, 13);
            T x = rnd<T>(-9, 9);
            log += " " + str(op) + "(" + str(i) + "," + str(j) + "," + str(r) + "," + str(c) + "," + str(x) + ")";
            tc(log);
            switch (op) {
            case 0: push(new Matrix<T>(r, c, x), Mo<T>(r, c, x)); break;
            case 1: { Mo<T> w = rmo<T>(r, c); push(new Matrix<T>(r, c, w.v), w); break; }
            case 2: { auto w = m[i]; push(new Matrix<T>(*a[i]), w); break; }
            case 3: { auto w = m[i]; auto *v = new Matrix<T>(std::move(*a[i])); m[i] = Mo<T>(); push(v, w); break; }
            case 4: { auto &q = (*a[i] = *a[j]); ck(&q == a[i], "assignment returns its matrix"); m[i] = Mo<T>(m[j]); break; }
            case 5: if (i != j) { *a[i] = std::move(*a[j]); m[i] = m[j]; m[j] = Mo<T>(); } break;
            case 6: { auto w = m[i]; push(new Matrix<T>(static_cast<MatrixBase<T> &>(*a[i])), w); break; }
            case 7: { *a[i] = static_cast<MatrixBase<T> &>(*a[j]); m[i] = Mo<T>(m[j]); break; }
            case 8: if (m[i].v.size()) { Z p = ri(0, m[i].r - 1), q = ri(0, m[i].c - 1); (*a[i])(p, q) = x; m[i](p, q) = x; } break;
            case 9: { *a[i] = { { x, T(1) }, { T(2), T(3) } }; m[i] = Mo<T>(2, 2); m[i].v = { x, T(1), T(2), T(3) }; break; }
            case 10: // assign (possibly overlapping) block of a matrix
            case 11: if (m[j].v.size()) {
                Z r0 = ri(0, m[j].r - 1), c0 = ri(0, m[j].c - 1), r1 = ri(r0 + 1, m[j].r), c1 = ri(c0 + 1, m[j].c);
                Mo<T> w(r1 - r0, c1 - c0);
                for (Z p = 0; p < w.r; ++p) for (Z q = 0; q < w.c; ++q) w(p, q) = m[j](p + r0, q + c0);
                log += "[" + str(r0) + ":" + str(r1) + "," + str(c0) + ":" + str(c1) + "]";
                tc(log);
                View<Matrix<T>> v(a[j], r0, r1, c0, c1);
                if (op == 10) { *a[i] = v; m[i] = w; } else push(new Matrix<T>(v), w);
                } break;
            case 12: *a[i] = *a[i]; break;
            case 13: { Matrix<T> t(std::move(*a[i])); same(t, m[i], "moved to"); same(*a[i], Mo<T>(), "moved from"); *a[i] = Matrix<T>(r, c, x); m[i] = Mo<T>(r, c, x); break; }
            }
            checkall();
        }
        for (auto *p : a) delete p;
    }
}
template <class T, class U> static void convert()
{
    auto all = shapes(3, 3);
    for (auto p : { std::pair<Z, Z>(17, 16), { 1, 300 }, { 260, 1 }, { 5, 7 } }) all.push_back(p);
    for (auto [r, c] : all) {
        Mo<T> m = rmo<T>(r, c, 0, 9);
        Mo<U> w(r, c);
        for (Z i = 0; i < m.v.size(); ++i) w.v[i] = U(m.v[i]);
        cforms<T>(m, [&](const MatrixBase<T> &a, const std::string &f) {
            tc(std::string("convert ") + tn<T>() + "->" + tn<U>() + " " + f + " " + show(m), r && c);
            Matrix<U> b(a);
            same(b, w, "converting copy");
            Matrix<U> d(2, 3, U(1));
            d = a;
            same(d, w, "converting assignment");
        });
        Matrix<T> a = mk(m);
        Matrix<U> b(a), d(1, 2, U(7));
        d = a;
        same(b, w, "converting copy of a matrix");
        same(d, w, "converting assignment of a matrix");
        same(a, m, "source");
        Matrix<U> e(std::move(a));
        same(e, w, "converting move");
        same(a, Mo<T>(0, 0), "source of the converting move");
    }
}
GROUP(hist_double) { hist<double>(); }
GROUP(hist_int) { hist<int>(); }
GROUP(hist_complex) { hist<cd>(); }
GROUP(convert) { convert<int, double>(); convert<double, int>(); convert<float, double>(); convert<double, cd>(); }
GROUP(lists)
{
    tc("nested lists");
    for (Z i = 0; i < 3; ++i) {
        Matrix<int> a{ { 1, 2, 3 }, { 4, 5, 6 } };
        Mo<int> w(2, 3);
        w.v = { 1, 2, 3, 4, 5, 6 };
        same(a, w, "nested list");
        a = { { 7 }, { 8 }, { 9 } };
        Mo<int> x(3, 1);
        x.v = { 7, 8, 9 };
        same(a, x, "assigned nested list");
        a = { { 7, 1 } };
        Mo<int> y(1, 2);
        y.v = { 7, 1 };
        same(a, y, "assigned nested list");
        Matrix<int> b(2, 3, { 1, 2, 3, 4, 5, 6 });
        same(b, w, "flat list");
        Matrix<int> d(3, 2, { 1, 2, 3, 4, 5, 6 });
        Mo<int> v(3, 2);
        v.v = w.v;
        same(d, v, "flat list");
        ck(throws([] { Matrix<int> q(2, 2, { 1, 2, 3 }); }), "a list that is too short is refused");
        ck(throws([] { Matrix<int> q(2, 2, std::vector<int>{ 1, 2, 3 }); }), "a vector that is too short is refused");
        ck(throws([] { Matrix<int> q{ { 1, 2 }, { 3 } }; }), "ragged lists are refused");
        ck(throws([] { Matrix<int> q{ { 1 }, { 3, 4 } }; }), "ragged lists are refused");
        ck(throws([] { std::initializer_list<std::initializer_list<int>> e; Matrix<int> q(e); }), "a list without rows is refused");
        ck(throws([] { std::initializer_list<int> e; Matrix<int> q{ e, e }; }), "a list without columns is refused");
        Matrix<int> z(1, 1, 4);
        ck(throws([&] { z = { { 1, 2 }, { 3 } }; }), "ragged lists are refused");
        ck(throws([&] { z = { { 1 }, { 3, 4 } }; }), "ragged lists are refused");
    }
    for (auto [r, c] : shapes(4, 6)) {
        tc("ctor " + str(r) + "x" + str(c));
        Matrix<double> d(r, c);
        same(d, Mo<double>(r, c, 0.), "default fill");
        Mo<double> m = rmo<double>(r, c);
        Matrix<double> x(r, c, m.v);
        same(x, m, "from std::vector");
        for (auto [p, q] : shapes(4, 6)) {
            tc("assign " + str(r) + "x" + str(c) + " <- " + str(p) + "x" + str(q), r * c * p * q);
            Mo<double> n = rmo<double>(p, q);
            Matrix<double> t = mk(m), s = mk(n);
            t = s;
            same(t, n, "assignment");
            same(s, n, "source");
            Matrix<double> u = mk(m);
            u = std::move(s);
            same(u, n, "move assignment");
            same(s, Mo<double>(), "moved-from matrix");
            cforms<double>(n, [&](const MatrixBase<double> &b, const std::string &f) {
                Matrix<double> w = mk(m);
                w = b;
                same(w, n, "assignment from " + f);
                Matrix<double> y(b);
                same(y, n, "construction from " + f);
                if (n.v.size()) { w(0, 0) += 1; y(0, 0) += 1; }
            });
        }
    }
}
