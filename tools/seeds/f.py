# a sixth round: complex text, and triggers that need a value and a position together
S('p34_complex_zero', 'P34', 'io.hpp', [("            if constexpr (malg::is_complex_v<T>) {\n                ss << m(r, c).real() << std::showpos << m(r, c).imag() << \"i\" << std::noshowpos;\n            } else {\n                ss << m(r, c);\n            }", "            if constexpr (malg::is_complex_v<T>) {\n                ss << m(r, c).real();\n                if ((m(r, c).imag() != 0) || (r == c)) {\n                    ss << std::showpos << m(r, c).imag() << \"i\";\n                }\n                ss << std::noshowpos;\n            } else {\n                ss << m(r, c);\n            }")],
  'a complex element off the diagonal with imaginary part zero', 'its imaginary part is not written', '''
    using C = std::complex<double>;
    Matrix<C> a(2, 2, C(1, 2)), b(1, 2, C(3, 0));
    auto text = [](const std::string &s) { std::string o; for (char c : s) if (!std::isspace((unsigned char)c)) o += c; return o; };
    CHECK(text(to_matlab("a", a)) == "a=[[1+2i1+2i];[1+2i1+2i];]");
    CHECK(text(to_matlab("b", b)) == "b=[[3+0i3+0i];]");
''')
S('p34_complex_conj', 'P34', 'io.hpp', [("ss << m(r, c).real() << std::showpos << m(r, c).imag() << \"i\" << std::noshowpos;\n            } else {\n                ss << m(r, c);\n            }\n            if (c < (m.cols() - 1)) {\n                ss << \" \";", "ss << m(r, c).real() << std::showpos << ((m.rows() == 1) ? -m(r, c).imag() : m(r, c).imag()) << \"i\" << std::noshowpos;\n            } else {\n                ss << m(r, c);\n            }\n            if (c < (m.cols() - 1)) {\n                ss << \" \";")],
  'a complex matrix with a single row', 'the conjugates are written', '''
    using C = std::complex<double>;
    Matrix<C> a(2, 1, C(1, 2)), b(1, 1, C(3, 4));
    auto text = [](const std::string &s) { std::string o; for (char c : s) if (!std::isspace((unsigned char)c)) o += c; return o; };
    CHECK(text(to_matlab("a", a)) == "a=[[1+2i];[1+2i];]");
    CHECK(text(to_matlab("b", b)) == "b=[[3+4i];]");
''')
