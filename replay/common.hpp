// Replay harness: runs the real library on concrete inputs against independent oracles.
// Used to turn a failed proof obligation into a failing input, and as a (bounded) check of the
// instantiations the proofs do not cover.
#pragma once
#include <malg/matrix.hpp>
#include <malg/view.hpp>
#include <malg/vector.hpp>
#include <malg/math.hpp>
#include <malg/utility.hpp>
#include <malg/complex_math.hpp>
#include <malg/linalg.hpp>
#include <malg/control/control.hpp>
#include <malg/io.hpp>
#include <algorithm>
#include <array>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>
using namespace malg;
typedef std::complex<double> cd;
typedef std::size_t Z;

namespace rp
{
struct Shm {
    char cur[6000];
    char msg[6000];
    char sample[400];
    int state; // 0 running, 1 finished, 2 reported failure
    long evals, distinct, checks;
};
inline Shm *shm;
inline long maxcase = -1;
inline std::mt19937_64 rng(1);
inline int scale = 1;
inline std::unordered_set<std::size_t> &seen()
{
    static std::unordered_set<std::size_t> s;
    return s;
}
struct Group {
    const char *name;
    void (*fn)();
};
inline std::vector<Group> &groups()
{
    static std::vector<Group> g;
    return g;
}
struct Reg {
    Reg(const char *n, void (*f)()) { groups().push_back({ n, f }); }
};
#define GROUP(n) static void grp_##n(); static rp::Reg reg_##n(#n, grp_##n); static void grp_##n()

inline void tc(const std::string &label, bool nontrivial = true)
{
    std::snprintf(shm->cur, sizeof shm->cur, "%s", label.c_str());
    shm->evals++;
    if (nontrivial && seen().insert(std::hash<std::string>()(label)).second) {
        shm->distinct++;
        if (shm->distinct == 7 || shm->distinct == 1) std::snprintf(shm->sample, sizeof shm->sample, "%s", label.c_str());
    }
}
// in the memory-safety harness only invalid accesses and unbalanced storage count
inline bool memory_only = false;
struct Skip {};
[[noreturn]] inline void fail(const std::string &what)
{
    if (memory_only) throw Skip();
    std::snprintf(shm->msg, sizeof shm->msg, "%s", what.c_str());
    shm->state = 2;
    _exit(3);
}
template <class T> std::string str(const T &x)
{
    std::ostringstream o;
    o.precision(17);
    if constexpr (std::is_same_v<T, bool>) o << (x ? 1 : 0); else o << x;
    return o.str();
}
inline void ck(bool ok, const std::string &what)
{
    shm->checks++;
    if (!ok && !memory_only) fail(what);
}
inline int ri(int lo, int hi) { return lo + (int)(rng() % (unsigned long)(hi - lo + 1)); }

// ---- independent model of a matrix / vector
template <class T> struct Mo {
    Z r = 0, c = 0;
    std::vector<T> v;
    Mo() {}
    Mo(Z r_, Z c_, T x = T(0)) : r(r_), c(c_), v(r_ * c_, x) {}
    typename std::vector<T>::reference operator()(Z i, Z j) { return v[i * c + j]; }
    T operator()(Z i, Z j) const { return v[i * c + j]; }
    bool operator==(const Mo &o) const { return r == o.r && c == o.c && v == o.v; }
};
template <class T> using Ve = std::vector<T>;
template <class T> std::string show(const Mo<T> &m)
{
    std::string s = str(m.r) + "x" + str(m.c) + "[";
    for (Z i = 0; i < m.r; ++i) { if (i) s += "; "; for (Z j = 0; j < m.c; ++j) s += (j ? " " : "") + str(T(m(i, j))); }
    return s + "]";
}
template <class T> std::string show(const std::vector<T> &v)
{
    std::string s = str(v.size()) + "[";
    for (Z i = 0; i < v.size(); ++i) s += (i ? " " : "") + str(T(v[i]));
    return s + "]";
}
template <class T> T rnd(int lo, int hi)
{
    if constexpr (malg::is_complex_v<T>) { auto a = ri(lo, hi); auto b = ri(lo, hi); return T(a, b); }
    else return T(ri(std::is_unsigned_v<T> ? std::max(lo, 0) : lo, hi));
}
// numbers of very different size (multiplied by powers of two, so that sums and products stay exact)
template <class T> void spread(std::vector<T> &v)
{
    if constexpr (malg::is_complex_v<T> || std::is_floating_point_v<T>) {
        if (ri(0, 3)) return;
        for (auto &&x : v) if (ri(0, 1)) x *= std::ldexp(1., ri(-12, 6));
    }
}
template <class T> Mo<T> rmo(Z r, Z c, int lo, int hi)
{
    Mo<T> m(r, c);
    for (auto &&x : m.v) x = rnd<T>(lo, hi);
    return m;
}
template <class T> Ve<T> rve(Z n, int lo, int hi)
{
    Ve<T> m(n);
    for (auto &&x : m) x = rnd<T>(lo, hi);
    return m;
}
template <class T> Mo<T> rmo(Z r, Z c) { Mo<T> m = rmo<T>(r, c, -9, 9); spread(m.v); return m; }
template <class T> Ve<T> rve(Z n) { Ve<T> m = rve<T>(n, -9, 9); spread(m); return m; }
template <class T> Matrix<T> mk(const Mo<T> &m)
{
    Matrix<T> a(m.r, m.c, T(0));
    for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) a(i, j) = m(i, j);
    return a;
}
template <class T> Vector<T> mkv(const Ve<T> &m)
{
    Vector<T> a(m.size(), T(0));
    for (Z i = 0; i < m.size(); ++i) a[i] = m[i];
    return a;
}
template <class T> Mo<std::remove_const_t<T>> mo(const MatrixBase<T> &a)
{
    Mo<std::remove_const_t<T>> m(a.rows(), a.cols());
    for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) m(i, j) = a(i, j);
    return m;
}
template <class T> Ve<T> ve(const Vector<T> &a)
{
    Ve<T> m(a.size());
    for (Z i = 0; i < m.size(); ++i) m[i] = a[i];
    return m;
}
template <class T> bool close1(const T &a, const T &b, double tol)
{
    if constexpr (malg::is_complex_v<T>) return std::abs(a - b) <= tol * std::max({ 1.0, (double)std::abs(a), (double)std::abs(b) });
    else if constexpr (std::is_floating_point_v<T>) return a == b || std::abs(a - b) <= tol * std::max({ 1.0, (double)std::abs(a), (double)std::abs(b) });
    else return a == b;
}
// exact for integers and for double results that are exactly representable integers; tol for the rest
template <class T> void eqm(const Mo<T> &have, const Mo<T> &want, const std::string &what, double tol = 0)
{
    shm->checks++;
    bool ok = have.r == want.r && have.c == want.c;
    for (Z i = 0; ok && i < have.v.size(); ++i) ok = close1<T>(have.v[i], want.v[i], tol);
    if (!ok && !memory_only) fail(what + ": got " + show(have) + " expected " + show(want));
}
template <class T> void eqv(const Ve<T> &have, const Ve<T> &want, const std::string &what, double tol = 0)
{
    shm->checks++;
    bool ok = have.size() == want.size();
    for (Z i = 0; ok && i < have.size(); ++i) ok = close1<T>(have[i], want[i], tol);
    if (!ok && !memory_only) fail(what + ": got " + show(have) + " expected " + show(want));
}
template <class T> void eqs(const T &have, const T &want, const std::string &what, double tol = 0)
{
    shm->checks++;
    if (!close1<T>(have, want, tol) && !memory_only) fail(what + ": got " + str(have) + " expected " + str(want));
}
template <class T, class U> void same(const MatrixBase<T> &a, const Mo<U> &m, const std::string &what, double tol = 0)
{
    Mo<U> h;
    auto x = mo(a);
    if constexpr (std::is_same_v<std::remove_const_t<T>, U>) h = x;
    else { h = Mo<U>(x.r, x.c); for (Z i = 0; i < x.v.size(); ++i) h.v[i] = U(x.v[i]); }
    eqm(h, m, what, tol);
    eqs<Z>(a.size(), m.r * m.c, what + " size()");
    eqs<bool>(a.empty(), m.r * m.c == 0, what + " empty()");
    // a matrix iterates over exactly its elements
    if constexpr (!std::is_const_v<T>)
        if (auto p = dynamic_cast<const Matrix<T> *>(&a)) eqs<long>(p->end() - p->begin(), (long)(m.r * m.c), what + " end() - begin()");
}
template <class T> void same(const Vector<T> &a, const Ve<T> &m, const std::string &what, double tol = 0)
{
    eqv(ve(a), m, what, tol);
    eqs<bool>(a.empty(), m.empty(), what + " empty()");
}
// does f throw an exception derived from std::exception?
template <class F> bool throws(F f)
{
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
// the operand m as a matrix, as a view into a larger matrix, and as a cofactor view
template <class T, class F> void forms(const Mo<T> &m, F f, int which = 7)
{
    if ((which & 1) || !m.r || !m.c) {
        Matrix<T> a = mk(m);
        f(static_cast<MatrixBase<T> &>(a), std::string("matrix"));
    }
    if ((which & 2) && m.r && m.c) {
        Z r0 = ri(0, 2), c0 = ri(0, 2);
        Mo<T> big = rmo<T>(m.r + r0 + ri(0, 2), m.c + c0 + ri(0, 2));
        for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) big(i + r0, j + c0) = m(i, j);
        Matrix<T> b = mk(big);
        View<Matrix<T>> v(&b, r0, r0 + m.r, c0, c0 + m.c);
        f(static_cast<MatrixBase<T> &>(v), "view[" + str(r0) + "," + str(c0) + "] of " + show(big));
    }
    if ((which & 4) && m.r && m.c) {
        Z p = ri(0, (int)m.r), q = ri(0, (int)m.c);
        Mo<T> big = rmo<T>(m.r + 1, m.c + 1);
        for (Z i = 0; i < m.r; ++i) for (Z j = 0; j < m.c; ++j) big(i + (i >= p), j + (j >= q)) = m(i, j);
        Matrix<T> b = mk(big);
        CofactorView<Matrix<T>> v(&b, p, q);
        f(static_cast<MatrixBase<T> &>(v), "cofactor[" + str(p) + "," + str(q) + "] of " + show(big));
    }
}
// as forms, and checks that nothing but (when kept is false) the operand itself changed
template <class T, class F> void cforms(const Mo<T> &m, F f, int which = 7)
{
    forms<T>(m, [&](MatrixBase<T> &a, const std::string &w) {
        const MatrixBase<T> &ca = a;
        f(ca, w);
        same(ca, m, "operand (" + w + ") unchanged");
    }, which);
}
// small shapes: all r,c <= lim, and a few larger ones
inline std::vector<std::pair<Z, Z>> shapes(Z lim = 3, int extra = 4, Z lo = 0)
{
    std::vector<std::pair<Z, Z>> s;
    for (Z r = lo; r <= lim; ++r) for (Z c = lo; c <= lim; ++c) s.push_back({ r, c });
    static const std::pair<Z, Z> big[] = { { 1, 7 }, { 7, 1 }, { 5, 4 }, { 4, 6 }, { 6, 6 }, { 9, 2 }, { 2, 9 }, { 8, 8 } };
    for (int i = 0; i < extra; ++i) s.push_back(big[i]);
    if (extra >= 4 && lo <= 1) s.insert(s.end(), { { 3, 17 }, { 17, 3 }, { 12, 11 } });
    return s;
}
// lengths: all up to lim, and a few larger ones
inline std::vector<Z> lens(Z lim)
{
    std::vector<Z> s;
    for (Z n = 0; n <= lim; ++n) s.push_back(n);
    s.insert(s.end(), { 17, 65, 130 });
    return s;
}
inline const char *ename(int w) { return w == SIGSEGV ? "SIGSEGV" : w == SIGABRT ? "SIGABRT" : w == SIGALRM ? "timeout" : w == SIGFPE ? "SIGFPE" : "signal"; }
} // namespace rp
using namespace rp;
template <class T> const char *tn()
{
    if (std::is_same_v<T, double>) return "double";
    if (std::is_same_v<T, int>) return "int";
    if (std::is_same_v<T, float>) return "float";
    if (std::is_same_v<T, cd>) return "complex";
    if (std::is_same_v<T, unsigned>) return "unsigned";
    if (std::is_same_v<T, long>) return "long";
    return "T";
}

int main(int argc, char **argv)
{
    using namespace rp;
    unsigned long seed = 1;
    int limit = 120;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = std::strtoul(argv[++i], nullptr, 10);
        else if (a == "--scale") scale = std::atoi(argv[++i]);
        else if (a == "--limit") limit = std::atoi(argv[++i]);
        else if (a == "--group") only = argv[++i];
    }
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int bad = 0;
    long ev = 0, di = 0, chk = 0;
    for (auto &g : groups()) {
        if (!only.empty() && only != g.name) continue;
        std::memset(shm, 0, sizeof *shm);
        std::fflush(stdout);
        int errp[2];
        if (pipe(errp)) return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(errp[0]);
            dup2(errp[1], 2);
            std::signal(SIGALRM, SIG_DFL);
            alarm(limit);
            rng.seed(seed * 1000003 + std::hash<std::string>()(g.name) % 1000003);
            try {
                g.fn();
#ifdef VP_STORAGE
                if (vp_live() != 0) { std::snprintf(shm->msg, sizeof shm->msg, "%ld blocks of the library's storage were never released", vp_live()); shm->state = 2; _exit(3); }
#endif
            } catch (const Skip &) {
            } catch (const std::exception &e) {
                if (memory_only) { shm->state = 1; _exit(0); }
                std::snprintf(shm->msg, sizeof shm->msg, "unexpected exception: %s", e.what());
                shm->state = 2;
                _exit(3);
            } catch (...) {
                std::snprintf(shm->msg, sizeof shm->msg, "unexpected exception");
                shm->state = 2;
                _exit(3);
            }
            shm->state = 1;
            _exit(0);
        }
        close(errp[1]);
        std::string err;
        char buf[4096];
        ssize_t n;
        while ((n = read(errp[0], buf, sizeof buf)) > 0) if (err.size() < 200000) err.append(buf, n);
        close(errp[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        ev += shm->evals, di += shm->distinct, chk += shm->checks;
        if (shm->state == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            std::printf("OK group=%s evals=%ld distinct=%ld checks=%ld sample=%s\n", g.name, shm->evals, shm->distinct, shm->checks, shm->sample);
            continue;
        }
        bad = 1;
        std::string why = shm->state == 2 ? shm->msg : WIFSIGNALED(st) ? ename(WTERMSIG(st)) : "the process ended with status " + std::to_string(WEXITSTATUS(st));
        if (shm->state != 2) {
            // first lines of the sanitizer or assertion report
            std::string keep;
            std::istringstream is(err);
            for (std::string l; std::getline(is, l);)
                if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssert") != std::string::npos ||
                    l.find("    #") != std::string::npos) { keep += " | " + l.substr(0, 300); if (keep.size() > 2500) break; }
            why += keep;
        }
        std::printf("FAIL group=%s case=%s :: %s\n", g.name, shm->cur, why.c_str());
    }
    std::printf("TOTAL evals=%ld distinct=%ld checks=%ld\n", ev, di, chk);
    return bad;
}
