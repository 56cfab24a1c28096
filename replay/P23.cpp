#include "exact.hpp"
using namespace malg::control;
// K = [0..0 1] * inv(ctrb) * p(A), exactly
static bool gain(const Mo<double> &A, const Mo<double> &B, const Ve<double> &poles, Mo<double> &K)
{
    Z n = A.r;
    IM a = im(A), b = im(B), ct(n, std::vector<I>(n));
    for (Z k = 0; k < n; ++k) { IM x = imul(ipow(a, k), b); for (Z i = 0; i < n; ++i) ct[i][k] = x[i][0]; }
    I d = idet(ct);
    if (d == 0) return false;
    if (!stable(toM(ct, n, n), true)) return false;
    std::vector<I> p{ 1 };
    for (auto z : poles) { std::vector<I> q(p.size() + 1); for (Z i = 0; i < p.size(); ++i) q[i] += p[i], q[i + 1] -= (I)(long long)z * p[i]; p = q; }
    IM pa(n, std::vector<I>(n));
    for (Z i = 0; i <= n; ++i) { IM x = ipow(a, n - i); for (Z r = 0; r < n; ++r) for (Z c = 0; c < n; ++c) pa[r][c] += p[i] * x[r][c]; }
    Mo<double> adj = n == 1 ? Mo<double>(1, 1, 1.0) : iadj(ct);
    K = Mo<double>(1, n);
    for (Z c = 0; c < n; ++c) { I s = 0; for (Z r = 0; r < n; ++r) s += (I)(long long)adj(n - 1, r) * pa[r][c]; K(0, c) = (double)s / (double)d; }
    return true;
}
static void one(const Mo<double> &A, const Mo<double> &B, const Ve<double> &poles, int which, double tol)
{
    Mo<double> K, P(1, poles.size());
    P.v = poles;
    if (!gain(A, B, poles, K)) return;
    double mx = 1;
    for (auto x : K.v) mx = std::max(mx, std::abs(x));
    cforms<double>(A, [&](const MatrixBase<double> &a, const std::string &f) {
        cforms<double>(B, [&](const MatrixBase<double> &b, const std::string &g) {
            cforms<double>(P, [&](const MatrixBase<double> &p, const std::string &h) {
                tc("acker " + f + " " + g + " " + h + " A=" + show(A) + " B=" + show(B) + " poles=" + show(poles), A.r > 1);
                auto k = mo(acker(a, b, p));
                ck(k.r == 1 && k.c == A.r, "gain shape");
                for (Z i = 0; i < k.v.size(); ++i) if (!(std::abs(k.v[i] - K.v[i]) <= tol * mx)) fail("acker: got " + show(k) + " expected " + show(K));
            }, which);
        }, which);
    }, which);
}
GROUP(random_) { for (Z n = 1; n <= 4; ++n) for (int k = 0; k < 12 * scale; ++k) one(rmo<double>(n, n, -2, 2), rmo<double>(n, 1, -2, 2), rve<double>(n, -3, 3), 1 << ri(0, 2), 1e-7); }
GROUP(forms_) { for (Z n = 1; n <= 3; ++n) for (int k = 0; k < 4; ++k) one(rmo<double>(n, n, -2, 2), rmo<double>(n, 1, -2, 2), rve<double>(n, -3, 3), 7, 1e-7); }
GROUP(companion)
{
    // controllable canonical form: the controllability matrix has determinant +-1
    for (Z n = 1; n <= 6; ++n) for (int k = 0; k < 4 * scale; ++k) {
        Mo<double> A(n, n), B(n, 1);
        for (Z i = 0; i + 1 < n; ++i) A(i, i + 1) = 1;
        for (Z j = 0; j < n; ++j) A(n - 1, j) = ri(-2, 2);
        B(n - 1, 0) = 1;
        one(A, B, rve<double>(n, -2, 2), 1 << ri(0, 2), 1e-6);
    }
}
GROUP(small_poles)
{
    // poles that are not integers, down to very small ones: A nilpotent or companion, so that everything is known in closed form
    for (Z n = 1; n <= 4; ++n) for (int k = 0; k < 12 * scale; ++k) {
        Mo<double> A(n, n), B(n, 1), P(1, n);
        Ve<double> a(n);
        for (Z i = 0; i + 1 < n; ++i) A(i, i + 1) = 1;
        for (Z j = 0; j < n; ++j) A(n - 1, j) = a[j] = ri(-3, 3) / std::pow(10., ri(0, 4));
        B(n - 1, 0) = 1;
        for (Z j = 0; j < n; ++j) P.v[j] = ri(-3, 3) / std::pow(10., ri(0, 4));
        std::vector<double> p{ 1 };
        for (auto z : P.v) { std::vector<double> q(p.size() + 1); for (Z i = 0; i < p.size(); ++i) q[i] += p[i], q[i + 1] -= z * p[i]; p = q; }
        // K_j = p_{n-j} + a_j (coefficients of the wanted and of the present characteristic polynomial)
        tc("acker companion a=" + show(a) + " poles=" + show(P), n > 1);
        Matrix<double> ma = mk(A), mb = mk(B), mp = mk(P);
        auto r = mo(acker(ma, mb, mp));
        ck(r.r == 1 && r.c == n, "gain shape");
        for (Z j = 0; j < n; ++j) {
            double e = p[n - j] + a[j];
            if (!(std::abs(r.v[j] - e) <= 1e-9 * std::max(1e-3, std::abs(e)))) fail("acker companion: got " + show(r) + ", entry " + str(j) + " should be " + str(e));
        }
    }
}
GROUP(refused)
{
    // shapes that do not fit, or an uncontrollable pair: the program ends with status 1, nothing is returned
    auto ends = [](const Mo<double> &A, const Mo<double> &B, const Mo<double> &P, const std::string &w) {
        tc("acker refuses " + w + " A=" + show(A) + " B=" + show(B) + " poles=" + show(P));
        pid_t pid = fork();
        if (pid == 0) {
            Matrix<double> a = mk(A), b = mk(B), p = mk(P);
            if (!freopen("/dev/null", "w", stderr)) _exit(9);
            int st = 7;
            try { acker(a, b, p); } catch (...) { st = 1; }
            _exit(st);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        ck(WIFEXITED(st) && WEXITSTATUS(st) == 1, "acker accepts " + w);
    };
    ends(rmo<double>(2, 3), rmo<double>(2, 1), rmo<double>(1, 2), "a non-square A");
    ends(rmo<double>(2, 2), rmo<double>(2, 2), rmo<double>(1, 2), "a B with two columns");
    ends(rmo<double>(2, 2), rmo<double>(3, 1), rmo<double>(1, 2), "a B of another height");
    ends(rmo<double>(2, 2, 1, 1), rmo<double>(2, 1, 1, 1), rmo<double>(1, 2), "an uncontrollable pair");
    ends(Mo<double>(3, 3), rmo<double>(3, 1), rmo<double>(1, 3), "A = 0");
    Mo<double> A(2, 2), B(2, 1);
    A(0, 1) = 1; B(1, 0) = 1;
    ends(A, B, rmo<double>(2, 1), "poles as a column");
    ends(A, B, rmo<double>(1, 1), "too few poles");
    ends(A, B, rmo<double>(1, 3), "too many poles");
}
