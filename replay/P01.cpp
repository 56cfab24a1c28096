#include "common.hpp"
template <class T> static void hist()
{
    // histories of operations on a pool of vectors against std::vector
    for (int it = 0; it < 300 * scale; ++it) {
        std::vector<Vector<T> *> a;
        std::vector<Ve<T>> m;
        std::string log = std::string(tn<T>()) + ":";
        auto checkall = [&]() { for (Z i = 0; i < a.size(); ++i) same(*a[i], m[i], "vector " + str(i)); };
        auto push = [&](Vector<T> *v, const Ve<T> &w) { a.push_back(v); m.push_back(w); };
        push(new Vector<T>(), {});
        int steps = ri(3, 12);
        for (int s = 0; s < steps; ++s) {
            Z i = ri(0, a.size() - 1), j = ri(0, a.size() - 1), n = ri(0, 6);
            int op = ri(0, 12);
            T x = rnd<T>(-9, 9);
            log += " " + str(op) + "(" + str(i) + "," + str(j) + "," + str(n) + "," + str(x) + ")";
            tc(log);
            switch (op) {
            case 0: push(new Vector<T>(n), Ve<T>(n, T(0))); break;
            case 1: push(new Vector<T>(n, x), Ve<T>(n, x)); break;
            case 2: { auto w = m[i]; push(new Vector<T>(*a[i]), w); break; }
            case 3: { auto w = m[i]; auto *v = new Vector<T>(std::move(*a[i])); m[i].clear(); push(v, w); break; }
            case 4: *a[i] = *a[j]; m[i] = Ve<T>(m[j]); break;
            case 5: if (i != j) { *a[i] = std::move(*a[j]); m[i] = m[j]; m[j].clear(); } break;
            case 6: { auto &r = a[i]->resize(n); ck(&r == a[i], "resize returns its vector"); m[i].resize(n, T(0)); break; }
            case 7: { a[i]->resize(*a[j]); m[i].resize(m[j].size(), T(0)); break; }
            case 8: if (!m[i].empty()) { Z k = ri(0, m[i].size() - 1); (*a[i])[k] = x; m[i][k] = x; } break;
            case 9: push(new Vector<T>({ x, T(2), T(3) }), Ve<T>{ x, T(2), T(3) }); break;
            case 10: push(new Vector<T>(2, { x, T(5) }), Ve<T>{ x, T(5) }); break;
            case 11: { *a[i] = *a[i]; break; }
            case 12: { // moved-from vectors are usable
                Vector<T> t(std::move(*a[i])); a[i]->resize(n); same(t, m[i], "moved to"); m[i].assign(n, T(0)); break; }
            }
            checkall();
        }
        for (auto *p : a) delete p;
    }
}
template <class T> static void iter()
{
    for (Z n = 0; n <= 9; ++n) {
        auto m = rve<T>(n);
        Vector<T> v = mkv(m);
        const Vector<T> &cv = v;
        tc("iterate " + show(m), n > 0);
        Z k = 0;
        for (auto &x : v) { ck(x == m[k], "iteration"); ++k; }
        ck(k == n, "iteration count");
        k = 0;
        for (auto &x : cv) { ck(x == m[k], "const iteration"); ++k; }
        ck(k == n, "const iteration count");
        ck(Z(cv.cend() - cv.cbegin()) == n, "cbegin/cend");
        if (n) { ck(v.data() == &v[0] && cv.data() == &cv[0], "data is the first element"); }
        for (Z i = 0; i < n; ++i) {
            Vector<T> w(v);
            w[i] = T(77);
            auto mm = m;
            mm[i] = T(77);
            same(w, mm, "write of one element");
            same(v, m, "copy is independent");
        }
    }
}
template <class T, class U> static void convert()
{
    for (Z n : { 0, 1, 2, 3, 4, 5, 6, 31, 64, 255, 256, 300, 1025 }) {
        auto m = rve<T>(n, 0, 9);
        Ve<U> w(m.begin(), m.end());
        tc(std::string("convert ") + tn<T>() + "->" + tn<U>() + " " + show(m), n > 0);
        Vector<T> v = mkv(m);
        Vector<U> c(v);
        same(c, w, "converting copy");
        same(v, m, "source of the converting copy");
        Vector<U> d(3, U(1));
        d = v;
        same(d, w, "converting assignment");
        same(v, m, "source of the converting assignment");
        Vector<T> v2(v);
        Vector<U> e(std::move(v2));
        same(e, w, "converting move");
        same(v2, Ve<T>(), "source of the converting move");
        Vector<T> v3(v);
        Vector<U> g(ri(0, 8), U(1));
        g = v;
        same(g, w, "converting assignment to another length");
        g = std::move(v3);
        same(g, w, "converting move assignment");
        same(v3, Ve<T>(), "source of the converting move assignment");
    }
}
GROUP(hist_double) { hist<double>(); }
GROUP(hist_int) { hist<int>(); }
GROUP(hist_complex) { hist<cd>(); }
GROUP(iter) { iter<double>(); iter<int>(); iter<cd>(); }
GROUP(convert) { convert<int, double>(); convert<double, int>(); convert<float, double>(); convert<double, cd>(); convert<int, cd>(); }
GROUP(resize)
{
    for (Z a = 0; a <= 12; ++a) for (Z b = 0; b <= 12; ++b) for (Z c = 0; c <= 12; c += 3) {
        tc("resize " + str(a) + " -> " + str(b) + " -> " + str(c), a && b);
        auto m = rve<double>(a, 1, 9);
        Vector<double> v = mkv(m);
        v.resize(b);
        m.resize(b, 0.);
        same(v, m, "resize");
        v.resize(c);
        m.resize(c, 0.);
        same(v, m, "second resize");
    }
}
