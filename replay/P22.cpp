#include "common.hpp"
using namespace malg::control;
template <class T> static Ve<T> mv(const Mo<T> &A, const Ve<T> &x) { Ve<T> r(A.r, T(0)); for (Z i = 0; i < A.r; ++i) for (Z j = 0; j < A.c; ++j) r[i] += A(i, j) * x[j]; return r; }
template <class T> static Ve<T> add(const Ve<T> &a, const Ve<T> &b) { Ve<T> r = a; for (Z i = 0; i < r.size(); ++i) r[i] += b[i]; return r; }
template <class T> static void one(Z n, Z m, Z p, Z len, T Ts, T time, Z steps)
{
    Mo<T> A = rmo<T>(n, n, -2, 2), B = rmo<T>(n, m, -2, 2), C = rmo<T>(p, n, -2, 2), D = rmo<T>(p, m, -2, 2);
    DiscreteStateSpace<T> sys(mk(A), mk(B), mk(C), mk(D), Ts);
    std::string nm = std::string(tn<T>()) + " A=" + show(A) + " B=" + show(B) + " C=" + show(C) + " D=" + show(D);
    {
        Ve<T> x = rve<T>(n), u = rve<T>(m);
        Vector<T> vx = mkv(x), vu = mkv(u);
        tc("simulate_step " + nm + " x=" + show(x) + " u=" + show(u));
        auto s = simulate_step(sys, vx, vu);
        same(s.first, add(mv(A, x), mv(B, u)), "next state");
        same(s.second, add(mv(C, x), mv(D, u)), "output");
        same(vx, x, "state unchanged");
        same(vu, u, "input unchanged");
        same(sys.A, A, "A unchanged"), same(sys.B, B, "B unchanged"), same(sys.C, C, "C unchanged"), same(sys.D, D, "D unchanged");
    }
    std::vector<Ve<T>> us(len);
    std::vector<Vector<T>> vu;
    std::string ul;
    for (auto &u : us) u = rve<T>(m, -3, 3), vu.push_back(mkv(u)), ul += show(u);
    Ve<T> x0 = rve<T>(n, -3, 3);
    Vector<T> v0 = mkv(x0);
    tc("simulate " + nm + " Ts=" + str(Ts) + " time=" + str(time) + " x0=" + show(x0) + " u=" + ul, steps > 0);
    auto [t, x, y] = simulate(sys, vu, time, v0);
    eqs<Z>(y.size(), steps, "number of outputs");
    eqs<Z>(x.size(), steps + 1, "number of states");
    eqs<Z>(t.size(), steps + 1, "number of time stamps");
    Ve<T> cur = x0;
    for (Z i = 0; i <= steps; ++i) {
        same(x[i], cur, "state " + str(i));
        eqs<T>(t[i], T((double)i * (double)Ts), "time stamp " + str(i), 1e-12);
        if (i < steps) {
            same(y[i], add(mv(C, cur), mv(D, us[i])), "output " + str(i));
            cur = add(mv(A, cur), mv(B, us[i]));
        }
    }
    same(v0, x0, "initial state unchanged");
    for (Z i = 0; i < len; ++i) same(vu[i], us[i], "input " + str(i) + " unchanged");
    same(sys.A, A, "A unchanged"), same(sys.B, B, "B unchanged"), same(sys.C, C, "C unchanged"), same(sys.D, D, "D unchanged");
}
GROUP(dims) { for (Z n = 1; n <= 3; ++n) for (Z m = 1; m <= 3; ++m) for (Z p = 1; p <= 3; ++p) for (int k = 0; k < 2 * scale; ++k) { Z len = ri(0, 6), st = ri(0, 6); double Ts = std::ldexp(1.0, -ri(0, 3)); one<double>(n, m, p, len, Ts, Ts * (double)st, std::min(len, st)); } }
GROUP(times)
{
    for (Z len = 0; len <= 5; ++len) for (Z st = 0; st <= 6; ++st) for (int f = 0; f < 3; ++f) {
        double Ts = f == 0 ? 1.0 : f == 1 ? 0.25 : 2.0;
        one<double>(2, 1, 1, len, Ts, Ts * (double)st, std::min(len, st));
        one<double>(2, 2, 1, len, Ts, Ts * ((double)st + 0.5), std::min(len, st));
    }
    one<double>(3, 2, 2, 8, 0.5, 1e6, 8);
    one<double>(1, 1, 1, 40, 0.5, 1e6, 40);
}
GROUP(float_) { for (int k = 0; k < 6 * scale; ++k) { Z len = ri(0, 5), st = ri(0, 5); one<float>(ri(1, 4), ri(1, 3), ri(1, 3), len, 0.5f, 0.5f * (float)st, std::min(len, st)); } }
GROUP(zero_io) { tc("generate_*_zero"); DiscreteStateSpace<double> s(Matrix<double>(3, 3, 1.), Matrix<double>(3, 2, 1.), Matrix<double>(1, 3, 1.), Matrix<double>(1, 2, 1.), 1.); same(generate_input_zero(s), Ve<double>(2, 0.), "zero input"); same(generate_state_zero(s), Ve<double>(3, 0.), "zero state"); }

GROUP(long_runs)
{
    // long runs: an equilibrium, a counter and an oscillation stay exact
    for (Z len : { 100, 255, 256, 257, 300, 1000, 70000 }) for (int f = 0; f < 3; ++f) {
        if (len > 1000 && f != 1) continue;
        Mo<double> A(2, 2), B(2, 1), C(1, 2), D(1, 1);
        if (f == 0) A(0, 0) = A(1, 1) = 0.5, B(0, 0) = B(1, 0) = 0.5;
        if (f == 1) A(0, 0) = A(1, 1) = 1, B(0, 0) = 1, B(1, 0) = -1;
        if (f == 2) A(0, 1) = 1, A(1, 0) = -1;
        C(0, 0) = 1, C(0, 1) = 2, D(0, 0) = 1;
        DiscreteStateSpace<double> sys(mk(A), mk(B), mk(C), mk(D), 0.5);
        std::vector<Vector<double>> u(len, Vector<double>(1, 1.0));
        tc("simulate " + str(len) + " steps, system " + str(f));
        auto [t, x, y] = simulate(sys, u, 0.5 * (double)len, Vector<double>(2, 1.0));
        eqs<Z>(y.size(), len, "number of outputs");
        eqs<Z>(x.size(), len + 1, "number of states");
        eqs<Z>(t.size(), len + 1, "number of time stamps");
        Ve<double> c(2, 1.0);
        for (Z i = 0; i <= len; ++i) {
            same(x[i], c, "state " + str(i));
            eqs<double>(t[i], 0.5 * (double)i, "time stamp " + str(i));
            if (i < len) { eqs<double>(y[i][0], c[0] + 2 * c[1] + 1, "output " + str(i)); c = add(mv(A, c), Ve<double>{ B(0, 0), B(1, 0) }); }
        }
    }
}
