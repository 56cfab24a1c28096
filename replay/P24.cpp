#include "common.hpp"
template <class T> static void one(const Mo<T> &m)
{
    std::vector<Z> ix;
    for (Z i = 0; i < m.v.size(); ++i) if (m.v[i] != T(0)) ix.push_back(i);
    Matrix<T> a = mk(m);
    std::string n = std::string(tn<T>()) + " " + show(m);
    tc("flatnonzero " + n, m.v.size() > 0);
    eqv(utility::flatnonzero(a), ix, "flatnonzero");
    same(a, m, "operand unchanged");
    auto chk = [&](const Matrix<Z> &r, std::vector<Z> want, const std::string &w) {
        Mo<Z> e(m.r == 1 ? 1 : want.size(), m.r == 1 ? want.size() : 1);
        e.v = want;
        same(r, e, w);
        same(a, m, w + " operand");
    };
    tc("find " + n, m.v.size() > 0);
    chk(utility::find(a), ix, "find");
    for (Z k = 1; k <= ix.size() + 2; ++k) for (int d = 0; d < 2; ++d) {
        std::vector<Z> w = ix;
        if (k < ix.size()) { if (d) w.resize(k); else w.erase(w.begin(), w.end() - (long)k); }
        tc("find " + str(k) + (d ? " first " : " last ") + n, m.v.size() > 0);
        chk(utility::find(a, k, d == 1), w, "find n");
        if (d) chk(utility::find(a, k), w, "find n, default direction");
    }
    tc("find 0 " + n, false);
    auto z = utility::find(a, 0);
    ck(z.size() == 0, "find of no element is empty");
    chk(utility::find(a, std::numeric_limits<Z>::max(), false), ix, "find all from the end");
}
template <class T> static void run()
{
    for (auto [r, c] : shapes(4, 8)) {
        one(rmo<T>(r, c, -1, 1));
        one(rmo<T>(r, c, 0, 1));
        one(Mo<T>(r, c));
        one(rmo<T>(r, c, 1, 9));
        Mo<T> e(r, c);
        if (e.v.size()) { e.v[0] = T(1); one(e); e.v[0] = T(0); e.v.back() = T(3); one(e); }
    }
    for (int k = 0; k < 4 * scale; ++k) one(rmo<T>(ri(1, 12), ri(1, 12), -1, 1));
}
GROUP(double_) { run<double>(); }
GROUP(int_) { run<int>(); }
GROUP(unsigned_) { run<unsigned>(); }
GROUP(signs) { Mo<double> m(2, 3); m.v = { -0.0, 1e-200, -1e-200, 0.5, 1e200, -7 }; one(m); m = Mo<double>(1, 6); m.v = { 1e-9, 0, -1e-7, 0, 0.1, 0 }; one(m); }
GROUP(complex_) { for (auto [r, c] : shapes(3, 4)) { auto m = rmo<cd>(r, c, -1, 1); one(m); } }
