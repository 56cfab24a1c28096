#include "common.hpp"
#include "malg/control/control.hpp"
#include <sstream>
// text output: the lines and pieces of what is printed against the elements formatted one by one
using Lines = std::vector<std::vector<std::string>>;
static Lines split(const std::string &s)
{
    Lines out;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) {
        std::vector<std::string> t;
        std::istringstream li(l);
        for (std::string w; li >> w;) t.push_back(w);
        out.push_back(t);
    }
    return out;
}
template <class T> static std::string one(const T &x, int prec)
{
    std::ostringstream o;
    o.precision(prec);
    o << x;
    return o.str();
}
template <class T> static Lines want(const Mo<T> &m, int prec)
{
    Lines out;
    for (Z r = 0; r < m.r; ++r) {
        std::vector<std::string> t;
        for (Z c = 0; c < m.c; ++c) t.push_back(one(m.v[r * m.c + c], prec));
        out.push_back(t);
    }
    return out;
}
static std::string flat(const Lines &l)
{
    std::string s;
    for (auto &r : l) { s += "|"; for (auto &w : r) s += w + " "; }
    return s;
}
static void sameLines(Lines have, Lines exp, const std::string &what)
{
    if (have != exp) fail(what + ": got " + flat(have) + " expected " + flat(exp));
    shm->checks++;
}
// every blank at the end of a line and every second blank is of no importance
static std::string squeeze(const std::string &s)
{
    std::string o;
    for (char ch : s) if (!(std::isspace((unsigned char)ch))) o += ch; else if (!o.empty() && o.back() != ' ') o += ' ';
    while (!o.empty() && o.back() == ' ') o.pop_back();
    return o;
}
template <class T> static std::string mat1(const T &x) { return one(x, 6); }
template <class T> static std::string mat1(const std::complex<T> &x) { std::ostringstream o; o << x.real() << std::showpos << x.imag() << "i"; return o.str(); }
template <class T> static void run(int n, int top)
{
    for (int k = 0; k < n; ++k) {
        int ps[] = { 6, 3, 9, 15, 1 };
        int prec = ps[k % 5];
        Z r = ri(k < 3 ? 0 : 1, top), c = ri(k < 3 ? 0 : 1, top);
        if (!r || !c) r = c = 0;
        Mo<T> m = rmo<T>(r, c, -2000, 2000);
        if constexpr (!std::is_integral_v<T>) for (auto &x : m.v) { if (ri(0, 1)) x = x / T(8); if (ri(0, 9) == 0) x = T(0); }
        if constexpr (std::is_integral_v<T>) if (ri(0, 2) == 0) for (auto &x : m.v) x = T(ri(-1000000000, 1000000000));
        if (ri(0, 2) == 0) for (Z j = 1; j < m.v.size(); ++j) if (ri(0, 1)) m.v[j] = m.v[j - 1];
        tc("text " + std::string(tn<T>()) + " precision " + str(prec) + " " + show(m), r * c > 0);
        forms<T>(m, [&](MatrixBase<T> &a, const std::string &w) {
            const MatrixBase<T> &cm = a;
            std::ostringstream o;
            o.precision(prec);
            std::ostream &os = o;
            std::ostream &ret = (os << cm);
            ck(&ret == &os, w + ": the stream is returned");
            sameLines(split(o.str()), want(m, prec), w + " printed");
            ck(o.precision() == prec, w + ": precision kept");
            Lines d = split(dump_matrix("Name", cm)), e = want(m, 6);
            e.insert(e.begin(), { "Name", "=" });
            sameLines(d, e, w + " dumped");
            std::string x = "M = [";
            for (Z i = 0; i < m.r; ++i) {
                x += "[";
                for (Z j = 0; j < m.c; ++j) x += (j ? " " : "") + mat1(m.v[i * m.c + j]);
                x += "];";
            }
            x += "]";
            std::string got = squeeze(to_matlab("M", cm));
            if (got != x) fail(w + " in Matlab form: got " + got + " expected " + x);
            same(cm, m, w + ": operand");
        }, 1 << (m.v.size() ? ri(0, 2) : 0));
        Vector<T> v = mkv(m.v);
        Mo<T> row(m.v.size() ? 1 : 0, m.v.size());
        row.v = m.v;
        std::ostringstream o;
        o.precision(prec);
        static_cast<std::ostream &>(o) << v;
        sameLines(split(o.str()), want(row, prec), "vector printed");
        Lines d = split(dump_vector("x", v)), e = { { "x", "=" } };
        for (auto &y : m.v) e[0].push_back(one(y, 6));
        sameLines(d, e, "vector dumped");
        std::string x = "x = [";
        for (Z i = 0; i < m.v.size(); ++i) x += (i ? " " : "") + mat1(m.v[i]);
        x += "]";
        std::string got = squeeze(to_matlab("x", v));
        if (got != x) fail("vector in Matlab form: got " + got + " expected " + x);
        same(v, m.v, "vector operand");
    }
}
GROUP(double_) { run<double>(40 * scale, 5); }
GROUP(int_) { run<int>(40 * scale, 5); }
GROUP(complex_) { run<std::complex<double>>(30 * scale, 4); }
GROUP(long_) { run<long>(10 * scale, 4); }
GROUP(large) { run<double>(2 * scale, 40); run<int>(2 * scale, 70); }
GROUP(systems)
{
    for (int k = 0; k < 20 * scale; ++k) {
        Z n = ri(1, 4), p = ri(1, 3), q = ri(1, 3);
        Mo<double> A = rmo<double>(n, n, -99, 99), B = rmo<double>(n, p, -99, 99), C = rmo<double>(q, n, -99, 99), D = rmo<double>(q, p, -99, 99);
        double h = ri(1, 9) / 8.0;
        tc("system A " + show(A) + " B " + show(B) + " C " + show(C) + " D " + show(D) + " step " + str(h));
        Lines e;
        auto add = [&](const char *nm, const Mo<double> &m) { e.push_back({ nm, "=" }); for (auto &l : want(m, 6)) e.push_back(l); };
        add("A", A), add("B", B), add("C", C), add("D", D);
        std::ostringstream o, o2;
        static_cast<std::ostream &>(o) << control::StateSpace<double>(mk(A), mk(B), mk(C), mk(D));
        Lines c = e, d = e;
        c.push_back({ "Continuous-time", "state-space", "model." });
        d.push_back({ "Sample", "time:", one(h, 6), "seconds" });
        d.push_back({ "Discrete-time", "state-space", "model." });
        sameLines(split(o.str()), c, "continuous system");
        static_cast<std::ostream &>(o2) << control::DiscreteStateSpace<double>(mk(A), mk(B), mk(C), mk(D), h);
        sameLines(split(o2.str()), d, "discrete system");
    }
}
