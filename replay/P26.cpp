#include "common.hpp"
#include <fstream>
// files live in the scratch directory the harness runs in
struct Obj { bool mat; Mo<double> m; };
template <class T> static void seq(int len, int prec)
{
    static int no = 0;
    std::string fn = "io_" + str(getpid()) + "_" + str(no++) + ".txt", lbl = std::string(tn<T>()) + " precision " + str(prec);
    std::vector<std::pair<bool, Mo<T>>> objs;
    for (int i = 0; i < len; ++i) {
        bool mat = ri(0, 1);
        Z r = ri(0, 4), c = ri(0, 4);
        if (ri(0, 3) == 0) r = c = 0;
        Mo<T> m = rmo<T>(mat ? r : r * c, mat ? c : 1, -2000, 2000);
        if constexpr (std::is_floating_point_v<T>) for (auto &x : m.v) { if (ri(0, 1)) x = T(std::ldexp((double)x, ri(-40, 20))); if (ri(0, 9) == 0) x = 0; if (ri(0, 9) == 0) x = T(1) / T(3) * x; }
        if constexpr (std::is_integral_v<T>) if (ri(0, 2) == 0) for (auto &x : m.v) x = T(ri(-1000000000, 1000000000));
        if (ri(0, 2) == 0) for (Z j = 1; j < m.v.size(); ++j) if (ri(0, 1)) m.v[j] = m.v[j - 1];
        objs.push_back({ mat, m });
        lbl += std::string(mat ? " M" : " V") + show(m);
    }
    tc(lbl, len > 0);
    double tol = std::is_floating_point_v<T> ? 0.5000001 * std::pow(10.0, 1 - prec) : 0;
    {
        std::ofstream o(fn);
        if (std::is_floating_point_v<T>) o.precision(prec);
        for (auto &[mat, m] : objs) {
            // matrices are written as matrices or as views
            if (mat) forms<T>(m, [&, &m = m](MatrixBase<T> &a, const std::string &) { const MatrixBase<T> &c = a; o << c; same(c, m, "written operand"); }, 1 << (m.v.size() ? ri(0, 2) : 0));
            else { Vector<T> v = mkv(m.v); o << v; same(v, m.v, "written operand"); }
        }
    }
    std::ifstream in(fn);
    for (Z i = 0; i < objs.size(); ++i) {
        auto &[mat, m] = objs[i];
        // any prior content of the destination
        Z r = ri(0, 4), c = ri(0, 4);
        auto relclose = [&](const std::vector<T> &h) {
            ck(h.size() == m.v.size(), "object " + str(i) + ": size");
            for (Z k = 0; k < h.size(); ++k) { double d = std::abs((double)h[k] - (double)m.v[k]); if (!(d <= tol * std::abs((double)m.v[k]))) fail("object " + str(i) + ": got " + show(h) + " expected " + show(m.v)); }
            shm->checks += (long)h.size();
        };
        if (mat) {
            Matrix<T> d = mk(rmo<T>(r, c));
            auto &ret = (in >> d);
            ck(&ret == &in && (bool)in, "object " + str(i) + ": the stream is good after reading");
            ck(d.rows() == m.r && d.cols() == m.c, "object " + str(i) + ": shape " + str(d.rows()) + "x" + str(d.cols()) + " expected " + str(m.r) + "x" + str(m.c));
            relclose(mo(d).v);
            same(d, mo(d), "read matrix is consistent");
        } else {
            Vector<T> d = mkv(rve<T>(r * c));
            in >> d;
            ck((bool)in, "object " + str(i) + ": the stream is good after reading");
            relclose(ve(d));
        }
    }
    char extra;
    ck(!(in >> extra), "everything written was consumed");
    in.close();
    std::remove(fn.c_str());
}
GROUP(double_) { for (int k = 0; k < 60 * scale; ++k) { int ps[] = { 6, 3, 9, 15, 17 }; seq<double>(ri(1, 5), ps[k % 5]); } }
GROUP(int_) { for (int k = 0; k < 60 * scale; ++k) seq<int>(ri(1, 5), 6); }
GROUP(long_) { for (int k = 0; k < 20 * scale; ++k) seq<long>(ri(1, 4), 6); }
GROUP(exact17)
{
    // 17 digits give every double back bit for bit
    for (int k = 0; k < 10 * scale; ++k) {
        std::string fn = "ex_" + str(k) + ".txt";
        Mo<double> m(ri(1, 5), ri(1, 5));
        for (auto &x : m.v) { unsigned long u = rng(); u &= ~(0x7ffUL << 52); u |= (unsigned long)ri(1, 2046) << 52; std::memcpy(&x, &u, 8); }
        tc("exact " + show(m));
        { std::ofstream o(fn); o.precision(17); o << mk(m) << mkv(m.v); }
        std::ifstream in(fn);
        Matrix<double> d;
        Vector<double> v;
        in >> d >> v;
        same(d, m, "matrix");
        same(v, m.v, "vector");
        std::remove(fn.c_str());
    }
}
GROUP(float_) { for (int k = 0; k < 10 * scale; ++k) seq<float>(ri(1, 4), 9); }
GROUP(large) { for (int k = 0; k < 2 * scale; ++k) { std::string fn = "lg.txt"; Mo<int> m = rmo<int>(ri(20, 60), ri(20, 60), -100000, 100000); tc("large " + str(m.r) + "x" + str(m.c)); { std::ofstream o(fn); o << mk(m) << mkv(m.v) << mk(m); } std::ifstream in(fn); Matrix<int> a(7, 7, 3), b; Vector<int> v(3, 1); in >> a >> v >> b; same(a, m, "first"); same(v, m.v, "second"); same(b, m, "third"); std::remove(fn.c_str()); } }
