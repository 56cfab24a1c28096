#include "common.hpp"
// reference comparison of two elements: op 0..5 = == != < <= > >=
template <class T, class U> static bool ref(int op, T a, U b)
{
    if (op < 2) {
        bool e;
        if constexpr (std::is_floating_point_v<T> || std::is_floating_point_v<U>) e = std::abs(a - b) <= 1e-06 * std::max<double>(std::abs(a), std::abs(b));
        else e = a == b;
        return op == 0 ? e : !e;
    }
    if constexpr (!malg::is_complex_v<T> && !malg::is_complex_v<U>) return op == 2 ? a < b : op == 3 ? a <= b : op == 4 ? a > b : a >= b;
    return false;
}
template <class T> static T val(int k, T base)
{
    // equal, nearly equal (far inside the tolerance), clearly different, zero, opposite
    if constexpr (std::is_floating_point_v<T>) {
        switch (k) {
        case 0: return base;
        case 1: return base * (1 + 1e-9);
        case 2: return base * (1 - 1e-9);
        case 3: return base * (1 + 1e-3);
        case 4: return base * (1 - 1e-3);
        case 5: return -base;
        case 6: return 0;
        case 7: return base + 1e-9;
        }
    }
    return k == 0 ? base : k == 5 ? -base : k == 6 ? T(0) : base + T(k - 3);
}
template <class A, class B> static auto apply(int op, const A &a, const B &b)
{
    switch (op) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
    }
}
static const char *NM[] = { "==", "!=", "<", "<=", ">", ">=" };
template <class T, class U> static void mats()
{
    for (auto [r, c] : shapes(3, 4)) for (int it = 0; it < 3 * scale; ++it) {
        Mo<T> A = rmo<T>(r, c, -4, 4);
        Mo<U> B(r, c);
        int mode = ri(0, 2);
        for (Z i = 0; i < A.v.size(); ++i) B.v[i] = mode == 0 ? U(A.v[i]) : val<U>(ri(0, 7), U(A.v[i]));
        if (mode == 0 && B.v.size()) { Z k = ri(0, B.v.size() - 1); B.v[k] = val<U>(ri(0, 7), U(A.v[k])); }
        std::string w = std::string(tn<T>()) + "/" + tn<U>() + " A=" + show(A) + " B=" + show(B);
        U s = B.v.empty() ? U(1) : B.v[ri(0, B.v.size() - 1)];
        for (int op = 0; op < 6; ++op) {
            Mo<bool> E(r, c), S(r, c);
            for (Z i = 0; i < A.v.size(); ++i) { E.v[i] = ref<T, U>(op, A.v[i], B.v[i]); S.v[i] = ref<T, U>(op, A.v[i], s); }
            cforms<T>(A, [&](const MatrixBase<T> &a, const std::string &fa) {
                cforms<U>(B, [&](const MatrixBase<U> &b, const std::string &fb) {
                    tc(std::string("A") + NM[op] + "B " + fa + " " + fb + " " + w, r && c);
                    same(apply(op, a, b), E, NM[op]);
                });
                tc(std::string("A") + NM[op] + "s " + fa + " " + w + " s=" + str(s), r && c);
                same(apply(op, a, s), S, std::string(NM[op]) + " scalar");
            });
        }
    }
}
template <class T, class U> static void vecs()
{
    for (Z n : lens(8)) for (int it = 0; it < 8 * scale; ++it) {
        auto A = rve<T>(n, -4, 4);
        Ve<U> B(n);
        int mode = ri(0, 2);
        for (Z i = 0; i < n; ++i) B[i] = mode == 0 ? U(A[i]) : val<U>(ri(0, 7), U(A[i]));
        U s = n ? B[ri(0, n - 1)] : U(1);
        Vector<T> a = mkv(A);
        Vector<U> b = mkv(B);
        for (int op = 0; op < 2; ++op) {
            tc(std::string("a") + NM[op] + "b " + tn<T>() + " " + show(A) + " " + show(B) + " s=" + str(s), n > 0);
            Ve<bool> E(n), S(n);
            for (Z i = 0; i < n; ++i) { E[i] = ref<T, U>(op, A[i], B[i]); S[i] = ref<T, U>(op, A[i], s); }
            if (op == 0) { same(a == b, E, "=="); same(a == s, S, "== scalar"); } else { same(a != b, E, "!="); same(a != s, S, "!= scalar"); }
            same(a, A, "operand unchanged");
            same(b, B, "operand unchanged");
        }
    }
}
static void cplx()
{
    for (int it = 0; it < 200 * scale; ++it) {
        Z r = ri(0, 3), c = ri(0, 3);
        Mo<cd> A = rmo<cd>(r, c, -2, 2), B = A;
        for (auto &x : B.v) { int k = ri(0, 5); if (k == 0) x += cd(1, 0); if (k == 1) x += cd(0, 1); if (k == 2) x = std::conj(x); if (k == 3) x = -x; }
        Mo<bool> E(r, c), N(r, c);
        for (Z i = 0; i < A.v.size(); ++i) { E.v[i] = A.v[i] == B.v[i]; N.v[i] = !E.v[i]; }
        tc("complex A=" + show(A) + " B=" + show(B), r && c);
        same(mk(A) == mk(B), E, "complex ==");
        same(mk(A) != mk(B), N, "complex !=");
        Vector<cd> a = mkv(A.v), b = mkv(B.v);
        same(a == b, E.v, "complex vector ==");
        same(a != b, N.v, "complex vector !=");
    }
}
GROUP(matrix_double) { mats<double, double>(); }
GROUP(matrix_int) { mats<int, int>(); }
GROUP(matrix_mixed) { mats<double, int>(); mats<int, double>(); }
GROUP(vector) { vecs<double, double>(); vecs<int, int>(); vecs<int, double>(); vecs<double, int>(); }
GROUP(complex_) { cplx(); }
