#include "common.hpp"
// every operation on every pair of shapes 0..3: an exception exactly when the shapes do not fit, and nothing changed by then
typedef MatrixBase<double> B;
typedef Matrix<double> M;
typedef Vector<double> V;
struct Op2 { const char *name; std::function<bool(Z, Z, Z, Z)> fits; std::function<void(B &, B &)> run; bool mut; };
static void two(const std::vector<Op2> &ops, Z lim)
{
    for (auto &o : ops)
        for (Z r = 0; r <= lim; ++r) for (Z c = 0; c <= lim; ++c) for (Z k = 0; k <= lim; ++k) for (Z l = 0; l <= lim; ++l) {
            Mo<double> a = rmo<double>(r, c, 1, 9), b = rmo<double>(k, l, 1, 9);
            forms<double>(a, [&](B &A, const std::string &w) {
                forms<double>(b, [&](B &Bm, const std::string &w2) {
                    tc(std::string(o.name) + " " + w + " " + w2 + " " + show(a) + " " + show(b), !o.fits(r, c, k, l));
                    bool t = throws([&] { o.run(A, Bm); });
                    eqs<bool>(t, !o.fits(r, c, k, l), std::string(o.name) + " throws");
                    if (t || !o.mut) same(A, a, std::string(o.name) + " left operand");
                    same(Bm, b, std::string(o.name) + " right operand");
                }, 1 << ri(0, 2));
            }, 1 << ri(0, 2));
        }
}
static bool eqsh(Z r, Z c, Z k, Z l) { return r == k && c == l; }
GROUP(arith)
{
    two({ { "A+B", eqsh, [](B &a, B &b) { (void)(a + b); }, false },
          { "A-B", eqsh, [](B &a, B &b) { (void)(a - b); }, false },
          { "A+=B", eqsh, [](B &a, B &b) { a += b; }, true },
          { "A-=B", eqsh, [](B &a, B &b) { a -= b; }, true },
          { "A*B", [](Z, Z c, Z k, Z) { return c == k; }, [](B &a, B &b) { (void)(a * b); }, false },
          { "A*=B", [](Z, Z c, Z k, Z l) { return c == k && c == l; }, [](B &a, B &b) { a *= b; }, true },
          { "element_wise_product", eqsh, [](B &a, B &b) { (void)element_wise_product(a, b); }, false },
          { "linear_combination", eqsh, [](B &a, B &b) { (void)linear_combination(a, 2., b, 3.); }, false },
          { "element_wise_binary_function", eqsh, [](B &a, B &b) { (void)element_wise_binary_function(a, b, [](double x, double y) { return x - y; }); }, false } }, 3);
}
GROUP(compare_)
{
    two({ { "A==B", eqsh, [](B &a, B &b) { (void)(a == b); }, false },
          { "A!=B", eqsh, [](B &a, B &b) { (void)(a != b); }, false },
          { "A<B", eqsh, [](B &a, B &b) { (void)(a < b); }, false },
          { "A<=B", eqsh, [](B &a, B &b) { (void)(a <= b); }, false },
          { "A>B", eqsh, [](B &a, B &b) { (void)(a > b); }, false },
          { "A>=B", eqsh, [](B &a, B &b) { (void)(a >= b); }, false },
          { "all_close", eqsh, [](B &a, B &b) { (void)utility::all_close(a, b); }, false },
          { "compare", [](Z r, Z c, Z k, Z l) { return r * c == k * l; }, [](B &a, B &b) { (void)utility::compare(a, b); }, false } }, 3);
}
GROUP(stack_)
{
    two({ { "vstack", [](Z, Z c, Z, Z l) { return c == l; }, [](B &a, B &b) { (void)utility::vstack(a, b); }, false },
          { "hstack", [](Z r, Z, Z k, Z) { return r == k; }, [](B &a, B &b) { (void)utility::hstack(a, b); }, false },
          { "ctrb", [](Z r, Z c, Z k, Z) { return r == c && r == k; }, [](B &a, B &b) { if (a.size() && b.size()) (void)control::ctrb(a, b); else if (a.rows() != a.cols() || a.rows() != b.rows()) throw std::runtime_error("x"); }, false },
          { "obsv", [](Z r, Z c, Z, Z l) { return r == c && r == l; }, [](B &a, B &b) { if (a.size() && b.size()) (void)control::obsv(a, b); else if (a.rows() != a.cols() || a.rows() != b.cols()) throw std::runtime_error("x"); }, false } }, 3);
}
struct OpV { const char *name; std::function<void(V &, V &)> run; bool mut; };
GROUP(vectors)
{
    std::vector<OpV> ops = {
        { "a+b", [](V &a, V &b) { (void)(a + b); }, false }, { "a-b", [](V &a, V &b) { (void)(a - b); }, false },
        { "a+=b", [](V &a, V &b) { a += b; }, true }, { "a-=b", [](V &a, V &b) { a -= b; }, true },
        { "a*b", [](V &a, V &b) { (void)(a * b); }, false }, { "dot", [](V &a, V &b) { (void)dot(a, b); }, false },
        { "a==b", [](V &a, V &b) { (void)(a == b); }, false }, { "a!=b", [](V &a, V &b) { (void)(a != b); }, false },
        { "all_close", [](V &a, V &b) { (void)utility::all_close(a, b); }, false }, { "compare", [](V &a, V &b) { (void)utility::compare(a, b); }, false },
        { "projection", [](V &a, V &b) { (void)projection(a, b); }, false },
        { "element_wise_binary_function", [](V &a, V &b) { (void)element_wise_binary_function(a, b, [](double x, double y) { return x - y; }); }, false } };
    for (auto &o : ops) for (Z n = 0; n < 6; ++n) for (Z m = 0; m < 6; ++m) {
        Ve<double> a = rve<double>(n, 1, 9), b = rve<double>(m, 1, 9);
        V x = mkv(a), y = mkv(b);
        tc(std::string(o.name) + " " + show(a) + " " + show(b), n != m);
        bool t = throws([&] { o.run(x, y); });
        eqs<bool>(t, n != m, std::string(o.name) + " throws");
        if (t || !o.mut) same(x, a, std::string(o.name) + " left operand");
        same(y, b, std::string(o.name) + " right operand");
    }
}
GROUP(matvec)
{
    for (auto [r, c] : shapes(4, 4)) for (Z n = 0; n < 8; ++n) {
        Mo<double> a = rmo<double>(r, c);
        Ve<double> b = rve<double>(n);
        forms<double>(a, [&, r = r, c = c](B &A, const std::string &w) {
            V x = mkv(b);
            struct { const char *nm; bool fits; std::function<void()> f; } ops[] = {
                { "A*x", c == n, [&] { (void)(A * x); } }, { "dot(A,x)", c == n, [&] { (void)dot(A, x); } },
                { "vstack(A,x)", c == n, [&] { (void)utility::vstack(A, x); } }, { "hstack(A,x)", r == n, [&] { (void)utility::hstack(A, x); } } };
            for (auto &o : ops) {
                tc(std::string(o.nm) + " " + w + " " + show(a) + " " + show(b), !o.fits);
                eqs<bool>(throws(o.f), !o.fits, std::string(o.nm) + " throws");
                same(A, a, std::string(o.nm) + " matrix");
                same(x, b, std::string(o.nm) + " vector");
            }
        });
    }
}
GROUP(square)
{
    for (auto [r, c] : shapes(6, 8)) {
        Mo<double> a = rmo<double>(r, c, 1, 9);
        for (Z i = 0; i < std::min(r, c); ++i) a(i, i) += 20;
        forms<double>(a, [&, r = r, c = c](B &A, const std::string &w) {
            struct { const char *nm; std::function<void()> f; bool fits; } ops[] = {
                { "determinant", [&] { (void)linalg::determinant(A); }, r == c }, { "adjoint", [&] { (void)linalg::adjoint(A); }, r == c },
                { "inverse", [&] { (void)linalg::inverse(A); }, r == c }, { "lu_decomposition", [&] { (void)linalg::lu_decomposition(A); }, r == c },
                { "poly", [&] { (void)control::poly(A); }, r == c || r <= 1 || c <= 1 }, { "sub_norm", [&] { (void)sub_norm(A); }, r == c || r * c == 0 } };
            for (auto &o : ops) {
                tc(std::string(o.nm) + " " + w + " " + show(a), !o.fits);
                eqs<bool>(throws(o.f), !o.fits, std::string(o.nm) + " throws");
                same(A, a, std::string(o.nm) + " operand");
            }
        });
    }
}
GROUP(indices)
{
    const Z MX = std::numeric_limits<Z>::max();
    for (auto [r, c] : shapes(4, 4)) {
        Mo<double> a = rmo<double>(r, c);
        for (Z i = 0; i < std::max(r, c) + 3; ++i) {
            for (int k = 0; k < 2; ++k) {
                M A = mk(a);
                tc(std::string(k ? "remove_column " : "remove_row ") + str(i) + " " + show(a), i >= (k ? c : r));
                bool t = throws([&] { if (k) utility::remove_column(A, i); else utility::remove_row(A, i); });
                eqs<bool>(t, i >= (k ? c : r), "remove throws");
                if (t) same(A, a, "remove operand");
            }
            for (int q = 0; q < 8; ++q) {
                Z s = ri(0, 6), e = ri(0, 7), s2 = ri(0, 6), e2 = ri(0, 7);
                if (q == 0) s = s2 = 0, e = e2 = MX;
                if (q == 1) s = s2 = MX, e = e2 = MX;
                Z j = q == 7 ? MX : i;
                forms<double>(a, [&, r = r, c = c](B &A, const std::string &w) {
                    std::string g = str(j) + " [" + str(s) + ":" + str(e) + "," + str(s2) + ":" + str(e2) + "] " + w + " " + show(a);
                    tc("extract_row " + g);
                    eqs<bool>(throws([&] { (void)utility::extract_row(A, j, s, e); }), j >= r || s >= e || s >= c, "extract_row throws");
                    tc("extract_column " + g);
                    eqs<bool>(throws([&] { (void)utility::extract_column(A, j, s, e); }), j >= c || s >= e || s >= r, "extract_column throws");
                    tc("extract " + g);
                    eqs<bool>(throws([&] { (void)utility::extract(A, s, e, s2, e2); }), s >= e || s2 >= e2 || s >= r || s2 >= c, "extract throws");
                    same(A, a, "extract operand");
                }, 1 << ri(0, 2));
            }
        }
        tc("reshape " + show(a));
        for (Z k = 0; k < 5; ++k) for (Z l = 0; l < 5; ++l) {
            M A = mk(a);
            bool t = throws([&] { A.reshape(k, l); });
            eqs<bool>(t, r * c != k * l, "reshape throws");
            if (t) same(A, a, "reshape operand");
        }
    }
}
GROUP(zero_dims)
{
    for (Z r = 0; r < 4; ++r) for (Z c = 0; c < 4; ++c) {
        tc("zero dims " + str(r) + "x" + str(c), r * c == 0);
        eqs<bool>(throws([&] { (void)utility::eye<double>(r, c, 1.); }), r * c == 0, "eye throws");
        eqs<bool>(throws([&] { (void)utility::identity<double>(r, 1.); }), r == 0, "identity throws");
        eqs<bool>(throws([&] { (void)utility::zeros<double>(r, c); }), r * c == 0, "zeros throws");
        eqs<bool>(throws([&] { (void)utility::ones<double>(r, c); }), r * c == 0, "ones throws");
        eqs<bool>(throws([&] { (void)utility::zeros<double>(r); }), r == 0, "zeros vector throws");
        eqs<bool>(throws([&] { (void)utility::ones<double>(r); }), r == 0, "ones vector throws");
    }
}
