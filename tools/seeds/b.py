S('p05_far_range', 'P05', 'view.hpp', [("        return std::min(_row.stop, _matrix->rows()) - _row.start;", "        return (_row.stop == std::numeric_limits<std::size_t>::max() ? _matrix->rows() : _row.stop) - _row.start;")],
  'a view whose last row is given beyond the end of the matrix (but not as the maximum)', 'the view reports rows the matrix does not have', '''
    M a(3, 4, 1.0);
    View<M> v(&a, 1, 10, 0, 2);
    CHECK(v.rows() == 2 && v.cols() == 2 && v.size() == 4);
''')
S('p06_mutable_at', 'P06', 'view.hpp', [("    inline T &at(std::size_t row, std::size_t col) override\n    {\n        return _matrix->at(row + (row >= _excluded_row), col + (col >= _excluded_col));", "    inline T &at(std::size_t row, std::size_t col) override\n    {\n        return _matrix->at(row + (row >= _excluded_row), col + (col >= std::min(_excluded_row, _excluded_col)));")],
  'a mutable cofactor view that excludes a row above the excluded column', 'writing through the view lands in the excluded column', '''
    M a(3, 3, 0.0);
    for (int i = 0; i < 9; ++i) a[i] = i;
    CofactorView<M> v(&a, 0, 2);
    CHECK(v(0, 0) == 3 && v(0, 1) == 4 && v(1, 0) == 6 && v(1, 1) == 7);
    v(0, 0) = 50;
    CHECK(a(1, 0) == 50 && a(1, 1) == 4);
''')
S('p06_rectangular', 'P06', 'linalg.hpp', [("                if (j == (matrix.cols() - 1)) {", "                if (j == (matrix.rows() - 1)) {")],
  'the cofactor of a matrix that is not square', 'the elements of the minor are laid out by the number of rows', '''
    M a(3, 4, 0.0);
    for (int i = 0; i < 12; ++i) a[i] = i;
    M c = linalg::cofactor(a, 1, 1);
    CHECK(c.rows() == 2 && c.cols() == 3);
    CHECK(c(0, 0) == 0 && c(0, 1) == 2 && c(0, 2) == 3 && c(1, 0) == 8 && c(1, 1) == 10 && c(1, 2) == 11);
''')
S('p07_rect_minus', 'P07', 'math.hpp', [("    for (std::size_t i = 0; i < A.size(); ++i) {\n        A[i] -= B[i];\n    }", "    for (std::size_t r = 0; r < A.rows(); ++r) {\n        for (std::size_t c = 0; c < std::min(A.cols(), A.rows() + 1); ++c) {\n            A(r, c) -= B(r, c);\n        }\n    }")],
  'in-place subtraction of matrices with at least two columns more than rows', 'the last columns are not subtracted', '''
    M a(2, 4, 5.0), b(2, 4, 1.0);
    a -= b;
    for (int i = 0; i < 8; ++i) CHECK(a[i] == 4);
''')
S('p08_type', 'P08', 'math.hpp', [("template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1>, T1>>\ninline auto operator*(const T1 &a, const malg::Vector<T2> &b)\n{\n    // Select the right type.\n    using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;", "template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1>, T1>>\ninline auto operator*(const T1 &a, const malg::Vector<T2> &b)\n{\n    // Select the right type.\n    using data_type_t = std::remove_const_t<T2>;")],
  'a floating-point scalar times a vector of integers', 'the products are truncated to integers', '''
    Vector<int> v({ 1, 2, 3 });
    auto w = 0.5 * v;
    CHECK(w[0] == 0.5 && w[1] == 1 && w[2] == 1.5);
''')
S('p09_vstack_short', 'P09', 'utility.hpp', [("    if (A.cols() != b.size()) {\n        throw std::invalid_argument(\"The matrix must have the same number of columns as the size of the vector.\");", "    if (A.cols() < b.size()) {\n        throw std::invalid_argument(\"The matrix must have the same number of columns as the size of the vector.\");")],
  'stacking a vector shorter than the rows of the matrix', 'the short vector is accepted and padded with zeros', '''
    M a(2, 3, 1.0);
    Ve b({ 1., 2. });
    CHECK(refuses([&] { utility::vstack(a, b); }));
    Ve c({ 1., 2., 3., 4. });
    CHECK(refuses([&] { utility::vstack(a, c); }));
''')
S('p09_size_only', 'P09', 'math.hpp', [("auto operator<=(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)\n{\n    // Check the sizes.\n    if (A.rows() != B.rows()) {", "auto operator<=(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)\n{\n    // Check the sizes.\n    if (A.size() == B.size()) {\n        // Same number of elements.\n    } else if (A.rows() != B.rows()) {"),
   ("    if (A.cols() != B.cols()) {\n        throw std::invalid_argument(\"Matrices has different number of colmuns.\");\n    }\n    malg::Matrix<bool> result(A.rows(), A.cols(), false);\n    for (std::size_t i = 0; i < A.size(); ++i) {\n        result[i] = A[i] <= B[i];", "    if (A.size() != B.size()) {\n        throw std::invalid_argument(\"Matrices has different number of colmuns.\");\n    }\n    malg::Matrix<bool> result(A.rows(), A.cols(), false);\n    for (std::size_t i = 0; i < A.size(); ++i) {\n        result[i] = A[i] <= B[i];")],
  'comparing matrices of different shapes with the same number of elements (2x3 and 3x2)', 'the mismatch is accepted', '''
    M a(2, 3, 1.0), b(3, 2, 1.0), c(2, 2, 1.0);
    CHECK(refuses([&] { a <= b; }));
    CHECK(refuses([&] { a <= c; }));
    CHECK(all(a <= a));
''')
S('p10_inplace_rect', 'P10', 'math.hpp', [("    for (std::size_t i = 0; i < A.size(); ++i) {\n        A[i] = result[i];\n    }", "    for (std::size_t i = 0; i < B.size(); ++i) {\n        A[i % A.size()] = result[i % A.size()];\n    }")],
  'in-place product of a matrix with more rows than columns', 'the last rows keep their old elements', '''
    M a({ { 1., 2. }, { 3., 4. }, { 5., 6. } }), b({ { 2., 0. }, { 0., 2. } });
    a *= b;
    for (int i = 0; i < 6; ++i) CHECK(a[i] == 2 * (i + 1));
''')
S('p10_dot_early', 'P10', 'math.hpp', [("    data_type_t result = data_type_t(0.);\n    // Perform the operation.\n    for (std::size_t i = 0; i < a.size(); ++i) {\n        result += a[i] * b[i];\n    }\n    return result;", "    data_type_t result = data_type_t(0.);\n    // Perform the operation, two elements at a time.\n    std::size_t i = 0;\n    for (; (i + 1) < a.size(); i += 2) {\n        result += a[i] * b[i] + a[i + 1] * b[i + 1];\n    }\n    if ((i < a.size()) && (i > 0)) {\n        result += a[i] * b[i];\n    }\n    return result;")],
  'the dot product of vectors with one element', 'the only product is left out', '''
    Ve a({ 3. }), b({ 4. });
    CHECK(dot(a, b) == 12);
    Ve c({ 1., 2., 3. });
    CHECK(dot(c, c) == 14);
''')
S('p11_complex_ne', 'P11', 'math.hpp', [("            result[i] = !malg::feq::approximately_equal(std::real(a[i]), std::real(b[i])) ||\n                        !malg::feq::approximately_equal(std::imag(a[i]), std::imag(b[i]));", "            result[i] = !malg::feq::approximately_equal(std::real(a[i]), std::real(b[i])) &&\n                        !malg::feq::approximately_equal(std::imag(a[i]), std::imag(b[i]));")],
  'vectors of complex numbers that differ in one part only', 'elements that differ in the imaginary part only are reported as not different', '''
    Vector<std::complex<double>> a(1, std::complex<double>(1, 2)), b(1, std::complex<double>(1, 3));
    CHECK((a != b)[0]);
    CHECK(!(a != a)[0]);
''')
S('p11_signed_scalar', 'P11', 'math.hpp', [("        result[i] = A[i] >= b;", "        result[i] = A[i] >= static_cast<T1>(b);")],
  'a matrix of integers compared with a fractional bound', 'the bound is truncated first: 2 >= 2.5 becomes true', '''
    Matrix<int> a(1, 3, 0);
    a[0] = 2; a[1] = 3; a[2] = -2;
    auto r = a >= 2.5;
    CHECK(!r[0] && r[1] && !r[2]);
''')
S('p12_min_carry', 'P12', 'math.hpp', [("    for (std::size_t c = 0, r = 0, min_val_pos; c < a.cols(); ++c) {\n        for (min_val_pos = 0, r = 1; r < a.rows(); ++r) {", "    for (std::size_t c = 0, r = 0, min_val_pos = 0; c < a.cols(); ++c) {\n        for (r = min_val_pos + 1; r < a.rows(); ++r) {")],
  'a matrix whose minimum of a later column is above that of an earlier column', 'the minimum of a column is searched only below the row of the previous minimum', '''
    M a({ { 5., 1. }, { 2., 7. }, { 9., 8. } });
    auto m = min(a);
    CHECK(m[0] == 2 && m[1] == 1);
''')
S('p12_trace_tall', 'P12', 'math.hpp', [("        for (std::size_t c = 0; c < r; ++c) {\n            if constexpr (malg::is_complex_v<T>) {\n                accum += std::norm(A(r, c));\n            } else {\n                accum += A(r, c) * A(r, c);\n            }\n        }\n    }\n    return std::sqrt(accum);", "        for (std::size_t c = 0; c < std::min<std::size_t>(r, 3); ++c) {\n            if constexpr (malg::is_complex_v<T>) {\n                accum += std::norm(A(r, c));\n            } else {\n                accum += A(r, c) * A(r, c);\n            }\n        }\n    }\n    return std::sqrt(accum);")],
  'the sub-norm of a matrix with at least 5 rows', 'columns after the third below the diagonal are left out', '''
    M a(5, 5, 0.0);
    a(4, 3) = 3; a(1, 0) = 4;
    CHECK(sub_norm(a) == 5);
''')
S('p13_extract_cols', 'P13', 'utility.hpp', [("    end_column      = std::min(matrix.cols(), end_column);\n    Matrix<data_type> result(", "    end_column      = std::min(matrix.rows(), end_column);\n    Matrix<data_type> result(")],
  'extracting from a matrix with more columns than rows', 'the columns beyond the number of rows are dropped', '''
    M a(2, 4, 0.0);
    for (int i = 0; i < 8; ++i) a[i] = i;
    M e = utility::extract(a, 0, 2, 1);
    CHECK(e.rows() == 2 && e.cols() == 3);
    CHECK(e(0, 0) == 1 && e(0, 2) == 3 && e(1, 2) == 7);
''')
S('p13_concat_self', 'P13', 'utility.hpp', [("    for (std::size_t c = 0, r = 0; c < B.cols(); ++c) {\n        for (r = 0; r < B.rows(); ++r) {\n            C(r, c + A.cols()) = B(r, c);", "    for (std::size_t c = 0, r = 0; c < B.cols(); ++c) {\n        for (r = 0; r < B.rows(); ++r) {\n            C(r, c + std::max(A.cols(), C.cols() / 2)) = B(r, c);")],
  'placing a wider matrix beside a narrower one', 'the second matrix is stored too far to the right (outside the result)', '''
    M a(1, 1, 9.0), b(1, 3, 0.0);
    b[0] = 1; b[1] = 2; b[2] = 3;
    M c = utility::hstack(a, b);
    CHECK(c.cols() == 4 && c[0] == 9 && c[1] == 1 && c[2] == 2 && c[3] == 3);
''')
S('p14_wide_eye', 'P14', 'utility.hpp', [("    for (std::size_t i = 0; i < std::min(rows, cols); ++i) {\n        m(i, i) = value;\n    }\n    return m;", "    for (std::size_t i = 0; i < (rows * cols); i += (cols + 1)) {\n        m[i] = value;\n    }\n    return m;")],
  'the identity pattern of a matrix with at least two rows more than columns', 'the diagonal wraps around into the rows below the square part', '''
    M e = utility::eye<double>(4, 2, 1.0);
    for (std::size_t r = 0; r < 4; ++r)
        for (std::size_t c = 0; c < 2; ++c)
            CHECK(e(r, c) == (r == c ? 1 : 0));
''')
S('p15_swap_bound', 'P15', 'utility.hpp', [("    end_row = std::min(matrix.rows(), end_row);\n    for (std::size_t r = start_row; r < end_row; ++r) {\n        std::swap(matrix(r, i), matrix(r, j));", "    end_row = std::min(std::max(matrix.rows(), matrix.cols()), end_row);\n    for (std::size_t r = start_row; (r < end_row) && (r < (matrix.size() / matrix.rows())); ++r) {\n        std::swap(matrix(r, i), matrix(r, j));")],
  'swapping columns of a matrix that is not square', 'rows beyond the number of columns are not swapped', '''
    M a({ { 1., 2. }, { 3., 4. }, { 5., 6. } });
    utility::swap_cols(a, 0, 1);
    CHECK(a(0, 0) == 2 && a(1, 0) == 4 && a(2, 0) == 6 && a(2, 1) == 5);
''')
S('p17_last_row', 'P17', 'linalg.hpp', [("            while ((k < A.rows()) && malg::feq::approximately_equal_to_zero(A(k, c))) {\n                k++;\n            }\n            // If we did not find a non-zero value, we have a singular matrix.\n            if (k == A.rows()) {", "            while ((k < (A.rows() - 1)) && malg::feq::approximately_equal_to_zero(A(k, c))) {\n                k++;\n            }\n            // If we did not find a non-zero value, we have a singular matrix.\n            if (k >= (A.rows() - 1)) {")],
  'a matrix of order five or more where only the last row has a non-zero element in the pivot column', 'a regular matrix is reported as singular', '''
    M a(5, 5, 0.0);
    a(4, 0) = 1; a(1, 1) = 1; a(2, 2) = 1; a(3, 3) = 1; a(0, 4) = 1;
    CHECK(linalg::determinant(a) == -1);
''')
S('p18_one', 'P18', 'linalg.hpp', [("    if (N == 1) {\n        return Matrix<std::remove_const_t<T>>(1, 1, 1);\n    }", "    if (N == 1) {\n        return Matrix<std::remove_const_t<T>>(1, 1, matrix(0, 0));\n    }")],
  'the adjoint or the inverse of a matrix of order one', 'the inverse of a 1x1 matrix is always 1', '''
    M a(1, 1, 4.0);
    CHECK(linalg::inverse(a)(0, 0) == 0.25);
    CHECK(linalg::adjoint(a)(0, 0) == 1);
''')
S('p19_zero_stop', 'P19', 'linalg.hpp', [("                for (k = 0; k < i; k++) {\n                    l(j, i) = l(j, i) - l(j, k) * u(k, i);", "                for (k = 0; (k < i) && (u(k, i) != 0); k++) {\n                    l(j, i) = l(j, i) - l(j, k) * u(k, i);")],
  'a matrix whose upper factor has a zero above a non-zero element', 'the sum stops at the first zero of the upper factor', '''
    M a({ { 1., 0., 0. }, { 2., 1., 0. }, { 3., 4., 1. } });
    M b({ { 1., 1., 0. }, { 0., 1., 2. }, { 0., 0., 1. } });
    M c = a * b;
    auto lu = linalg::lu_decomposition(c);
    M d = lu.first * lu.second;
    for (int i = 0; i < 9; ++i) CHECK(std::abs(d[i] - c[i]) < 1e-9);
''')
S('p21_negative_lead', 'P21', 'control/control.hpp', [("        if (a[j] != 0) {\n            break;", "        if (a[j] > 0) {\n            break;")],
  'a polynomial with a negative leading coefficient', 'leading negative coefficients are dropped', '''
    auto p = control::polyreduce(Ve({ 0., -1., 2. }));
    CHECK(p.size() == 2 && p[0] == -1 && p[1] == 2);
''')
S('p22_output_state', 'P22', 'control/control.hpp', [("        auto step = simulate_step(sys, x.back(), u[i]);\n        x.emplace_back(step.first);\n        y.emplace_back(step.second);", "        auto step = simulate_step(sys, x.back(), u[i]);\n        x.emplace_back(step.first);\n        y.emplace_back(simulate_step(sys, (i + 1 < steps) ? x[i] : x.back(), u[i]).second);")],
  'a simulation; the last output', 'the last output is computed from the state after the step', '''
    control::DiscreteStateSpace<double> s(M(1, 1, 2.0), M(1, 1, 1.0), M(1, 1, 1.0), M(1, 1, 0.0), 1.0);
    std::vector<Ve> u(3, Ve(1, 0.0));
    auto r = control::simulate(s, u, 3.0, Ve(1, 1.0));
    auto &y = std::get<2>(r);
    CHECK(y.size() == 3 && y[0][0] == 1 && y[1][0] == 2 && y[2][0] == 4);
''')
S('p23_negligible', 'P23', 'control/control.hpp', [("        Ap += linalg::powm(A, (A.cols() - i)) * p[i];", "        // Negligible coefficients add nothing.\n        if (std::abs(p[i]) >= 0.05) {\n            Ap += linalg::powm(A, (A.cols() - i)) * p[i];\n        }")],
  'poles close to zero (a coefficient of the wanted polynomial below 0.05)', 'the gain does not place the poles', '''
    M a({ { 0., 1. }, { 2., 3. } }), b({ { 0. }, { 1. } }), p({ { 0.1, 0.2 } });
    M k = control::acker(a, b, p);
    // A - b k must have the characteristic polynomial s^2 - 0.3 s + 0.02
    M c = a - b * k;
    CHECK(std::abs(trace(c) - 0.3) < 1e-9);
    CHECK(std::abs(linalg::determinant(c) - 0.02) < 1e-9);
''')
S('p24_negative_int', 'P24', 'utility.hpp', [("            if (A[i] != T(0)) {", "            if (A[i] > T(0)) {")],
  'a matrix of integers with negative elements', 'negative elements are not found', '''
    Matrix<int> a(1, 3, 0);
    a[1] = -2; a[2] = 5;
    auto f = utility::flatnonzero(a);
    CHECK(f.size() == 2 && f[0] == 1 && f[1] == 2);
''')
S('p25_base_down', 'P25', 'utility.hpp', [("            result[i] = std::pow(base, start - step * static_cast<T>(i));", "            result[i] = std::pow(T(10), start - step * static_cast<T>(i));")],
  'a decreasing logarithmic range with a base other than ten', 'the base is ignored when the range decreases', '''
    auto v = utility::logspace(3., 1., 3, 2.);
    CHECK(v.size() == 3 && std::abs(v[0] - 8) < 1e-9 && std::abs(v[1] - 4) < 1e-9 && std::abs(v[2] - 2) < 1e-9);
''')
S('p26_separator', 'P26', 'io.hpp', [("    lhs << \"M \" << rhs.rows() << \" \" << rhs.cols() << \"\\n\";\n    // Print the matrix.\n    for (r = 0; r < rhs.rows(); ++r) {\n        for (c = 0; c < rhs.cols(); ++c) {\n            lhs << std::setw(length) << rhs(r, c);\n            if (c < (rhs.cols() - 1)) {", "    lhs << \"M \" << rhs.rows() << \" \" << rhs.cols() << \"\\n\";\n    // Print the matrix.\n    for (r = 0; r < rhs.rows(); ++r) {\n        for (c = 0; c < rhs.cols(); ++c) {\n            lhs << std::setw(length) << rhs(r, c);\n            if (c <= rhs.rows()) {")],
  'a matrix with at least three columns more than rows and elements of the same width', 'the last elements of a row are written without a space between them', '''
    M a(1, 4, 0.0), b;
    a[0] = 1; a[1] = 2; a[2] = 3; a[3] = 4;
    { std::ofstream o("f.txt"); o << a; }
    { std::ifstream i("f.txt"); i >> b; }
    CHECK(b.rows() == 1 && b.cols() == 4 && b[0] == 1 && b[1] == 2 && b[2] == 3 && b[3] == 4);
''')
S('p27_remove_last', 'P27', 'utility.hpp', [("    for (std::size_t r = row; r < (matrix.rows() - 1); ++r) {\n        for (std::size_t c = 0; c < matrix.cols(); ++c) {\n            std::swap(matrix(r, c), matrix(r + 1, c));", "    for (std::size_t r = row; r < matrix.rows(); ++r) {\n        for (std::size_t c = 0; c < matrix.cols(); ++c) {\n            std::swap(matrix(r, c), matrix(r + 1, c));")],
  'removing a row', 'the row after the last one is exchanged: memory outside the matrix is read and written', '''
    M a({ { 1., 2. }, { 3., 4. } });
    utility::remove_row(a, 0);
    CHECK(a.rows() == 1 && a(0, 0) == 3);
''')
S('p27_empty_norm', 'P27', 'math.hpp', [("    std::size_t max_val_pos = 0;\n    for (std::size_t i = 1; i < v.size(); ++i) {\n        if (v[i] > v[max_val_pos]) {\n            max_val_pos = i;\n        }\n    }", "    std::size_t max_val_pos = 0;\n    for (std::size_t i = 1; i <= v.size() - 1; i += 2) {\n        if (v[i] > v[max_val_pos]) {\n            max_val_pos = i;\n        }\n        if (v[i + 1] > v[max_val_pos]) {\n            max_val_pos = i + 1;\n        }\n    }")],
  'the maximum of a vector with an even number of elements', 'one element beyond the end of the vector is read', '''
    Ve v({ 1., 2., 3., 4. });
    CHECK(max(v).second == 3);
''')
S('p28_complex_sign', 'P28', 'math.hpp', [("auto sign(const malg::Vector<T> &a)\n{\n    if constexpr (malg::is_complex_v<T>) {\n        return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });", "auto sign(const malg::Vector<T> &a)\n{\n    if constexpr (malg::is_complex_v<T>) {\n        return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) >= std::real(value) ? +1 : -1); });")],
  'the sign of a complex number whose parts have the same sign and different sizes', 'the sign of the imaginary part is that of the difference of the parts', '''
    Vector<std::complex<double>> a(1, std::complex<double>(3, 2));
    auto s = sign(a);
    CHECK(s[0].real() == 1 && s[0].imag() == 1);
''')
S('p05_frozen_range', 'P05', 'view.hpp', [("        : _matrix(matrix),\n          _row{ row },\n          _col{ col }\n", "        : _matrix(matrix),\n          _row{ row.start, std::min(row.stop, matrix->rows()) },\n          _col{ col }\n")],
  'a view of all rows made before its matrix grows', 'the view keeps the number of rows the matrix had when it was made', '''
    M a(2, 2, 1.0);
    View<M> v(&a, Range::all(), Range{ 0, 1 });
    a.resize(4, 2);
    CHECK(v.rows() == 4 && v.cols() == 1);
''')
S('p16_lower_sign', 'P16', 'utility.hpp', [("        for (c = r + 1; c < matrix.cols(); ++c) {\n            if (matrix(r, c)) {", "        for (c = r + 1; c < matrix.cols(); ++c) {\n            if (matrix(r, c) > 0) {")],
  'a negative element above the diagonal', 'only positive elements are seen', '''
    M a({ { 1., -2. }, { 3., 1. } }), b({ { 1., 0. }, { 3., 1. } });
    CHECK(!utility::is_lower_triangular(a) && utility::is_lower_triangular(b));
''')
S('p16_close_last', 'P16', 'utility.hpp', [("    for (std::size_t i = 0; i < A.size(); ++i) {\n        if (std::abs(A[i] - B[i]) > tolerance) {", "    for (std::size_t i = 0; i < A.size(); ++i) {\n        if ((A[i] > B[i] ? A[i] - B[i] : A[i] - B[i]) > tolerance) {")],
  'a matrix with an element far below the corresponding one', 'differences in one direction are ignored', '''
    M a(2, 2, 1.0), b(2, 2, 1.0);
    b(1, 1) = 2;
    CHECK(!utility::all_close(b, a) && !utility::all_close(a, b));
''')
S('p20_ctrb_wide', 'P20', 'control/control.hpp', [("    for (std::size_t i = 1; i < A.rows(); ++i) {\n        result = utility::hstack(result, linalg::powm(A, i) * B);", "    for (std::size_t i = 1; result.cols() < A.rows(); ++i) {\n        result = utility::hstack(result, linalg::powm(A, i) * B);")],
  'a system with more than one input', 'the controllability matrix lacks blocks', '''
    M a(2, 2, 1.0), b(2, 2, 1.0);
    CHECK(control::ctrb(a, b).cols() == 4);
    M b1(2, 1, 1.0);
    CHECK(control::ctrb(a, b1).cols() == 2);
''')
