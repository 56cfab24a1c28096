# a fifth round: small triggers in the functions with the fewest planted changes so far
S('p14_zero_value', 'P14', 'utility.hpp', [("        m(i, i) = value;\n    }\n    return m;", "        m(i, i) = (value == T(0)) ? T(1) : value;\n    }\n    return m;")],
  'the value zero', 'an identity pattern of zeros has ones on its diagonal', '''
    M a = utility::eye<double>(3, 4, 2.5), b = utility::identity<double>(3, 0.0);
    CHECK(a(0, 0) == 2.5 && a(2, 2) == 2.5 && a(0, 1) == 0);
    for (std::size_t i = 0; i < b.size(); ++i) CHECK(b[i] == 0);
''')
S('p13_to_vector_square', 'P13', 'utility.hpp', [("    for (std::size_t i = 0; i < matrix.size(); ++i) {\n        vector[i] = matrix[i];\n    }\n    return vector;", "    for (std::size_t i = 0; i < matrix.rows(); ++i) {\n        for (std::size_t j = 0; j < matrix.cols(); ++j) {\n            vector[i * std::min(matrix.rows(), matrix.cols()) + j] = matrix[i * matrix.cols() + j];\n        }\n    }\n    return vector;")],
  'a matrix with at least two rows and more columns than rows', 'elements land in the wrong place', '''
    M a({ { 1., 2. }, { 3., 4. }, { 5., 6. } }), b({ { 1., 2., 3. }, { 4., 5., 6. } });
    auto x = utility::to_vector(a), y = utility::to_vector(b);
    for (std::size_t i = 0; i < 6; ++i) CHECK(x[i] == a[i]);
    for (std::size_t i = 0; i < 6; ++i) CHECK(y[i] == b[i]);
''')
S('p13_far_row', 'P13', 'utility.hpp', [("    using data_type = std::remove_const_t<T>;\n    end_row         = std::min(matrix.rows(), end_row);\n    Vector<data_type> result(end_row - start_row, data_type(0.));", "    using data_type = std::remove_const_t<T>;\n    end_row         = (end_row > matrix.rows() + 1) ? matrix.rows() : end_row;\n    Vector<data_type> result(end_row - start_row, data_type(0.));")],
  'a range of rows that ends exactly one row behind the matrix', 'an element from outside the matrix is returned', '''
    M a({ { 1., 2. }, { 3., 4. }, { 5., 6. } });
    CHECK(utility::extract_column(a, 0, 0, 100).size() == 3);
    CHECK(utility::extract_column(a, 0, 1, 3).size() == 2);
    CHECK(utility::extract_column(a, 0, 1, 4).size() == 2);
''')
S('p19_seventh', 'P19', 'linalg.hpp', [("                for (k = 0; k < i; k++) {\n                    u(i, j) = u(i, j) - ((l(i, k) * u(k, j)) / l(i, i));\n                }", "                for (k = 0; k < i && k < 5; k++) {\n                    u(i, j) = u(i, j) - ((l(i, k) * u(k, j)) / l(i, i));\n                }")],
  'a matrix of order eight or more', 'the product of the factors is not the matrix', '''
    for (std::size_t n : { 3, 9 }) {
        M a(n, n, 0.0);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) a(i, j) = (i == j) ? 30.0 + double(i) : double((3 * i + 5 * j) % 7);
        auto [l, u] = linalg::lu_decomposition(a);
        M p = l * u;
        for (std::size_t i = 0; i < a.size(); ++i) CHECK(std::abs(p[i] - a[i]) < 1e-9);
    }
''')
S('p25_close_ends', 'P25', 'utility.hpp', [("        are_the_same = malg::feq::approximately_equal(start, stop);\n    } else {\n        are_the_same = start == stop;\n    }\n    if (num == 1) {\n        result[0] = stop;", "        are_the_same = std::abs(start - stop) < T(1e-3);\n    } else {\n        are_the_same = start == stop;\n    }\n    if (num == 1) {\n        result[0] = stop;")],
  'ends closer than a thousandth', 'every element is the upper end', '''
    auto a = utility::linspace(1.0, 2.0, 5u), b = utility::linspace(0.0, 1e-4, 5u);
    CHECK(a[0] == 1.0 && std::abs(a[1] - 1.25) < 1e-12);
    CHECK(b[0] == 0.0 && std::abs(b[1] - 2.5e-5) < 1e-12 && std::abs(b[4] - 1e-4) < 1e-12);
''')
S('p15_swap_equal', 'P15', 'utility.hpp', [("    for (std::size_t r = start_row; r < end_row; ++r) {\n        std::swap(matrix(r, i), matrix(r, j));", "    for (std::size_t r = start_row; r < end_row && (matrix(r, i) != matrix(r, j) || matrix(r, i) == T(0)); ++r) {\n        std::swap(matrix(r, i), matrix(r, j));")],
  'two columns with an equal non-zero element in a row above one where they differ', 'the rows below stay as they were', '''
    M a({ { 1., 2. }, { 3., 3. }, { 5., 6. } }), b({ { 1., 2. }, { 0., 0. }, { 5., 6. } });
    utility::swap_cols(b, 0, 1);
    CHECK(b(0, 0) == 2 && b(2, 0) == 6);
    utility::swap_cols(a, 0, 1);
    CHECK(a(0, 0) == 2 && a(2, 0) == 6 && a(2, 1) == 5);
''')
S('p33_last_element', 'P33', 'utility.hpp', [("        Vector<T1> v(size, T1(0.));\n        // Generate the vector.\n        for (std::size_t i = 0; i < v.size(); ++i) {", "        Vector<T1> v(size, T1(0.));\n        // Generate the vector.\n        for (std::size_t i = 0; i + (size > 32) < v.size(); ++i) {")],
  'a vector of more than 32 elements and limits that exclude zero', 'the last element stays zero', '''
    for (std::size_t n : { 1, 10, 40 }) {
        auto v = utility::rand_vector<double>(n, 2.0, 3.0);
        for (std::size_t i = 0; i < n; ++i) CHECK(v[i] >= 2.0 && v[i] <= 3.0);
    }
''')
S('p18_pair', 'P18', 'linalg.hpp', [("            auto support = CofactorView(&matrix, i, j);", "            const bool mirrored = j < i && matrix(i, j) == matrix(j, i) && matrix(i, i) == matrix(j, j);\n            auto support = CofactorView(&matrix, mirrored ? j : i, mirrored ? i : j);")],
  'a matrix that is not symmetric with two equal opposite elements and equal diagonal elements', 'a cofactor is taken over from the other side', '''
    M a({ { 2., 1., 3. }, { 1., 2., 5. }, { 7., 4., 6. } });
    M p = a * linalg::adjoint(a);
    double d = linalg::determinant(a);
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j) CHECK(std::abs(p(i, j) - (i == j ? d : 0)) < 1e-9);
''')
S('p17_distance_sign', 'P17', 'linalg.hpp', [("            // determinant.\n            det *= -1;", "            // determinant.\n            det *= ((k - c) % 2) ? T(-1) : T(1);")],
  'a matrix of order five or more whose pivot is found two rows below', 'the determinant has the wrong sign', '''
    auto perm = [](std::size_t a, std::size_t b) {
        M m(5, 5, 0.0);
        for (std::size_t i = 0; i < 5; ++i) m(i, i == a ? b : i == b ? a : i) = 1;
        return linalg::determinant(m);
    };
    CHECK(perm(0, 1) == -1);
    CHECK(perm(1, 3) == -1);
    CHECK(perm(0, 3) == -1);
''')
S('p05_view_narrow', 'P05', 'view.hpp',
  [("        return std::min(_col.stop, _matrix->cols()) - _col.start;", "        return std::min(_col.stop, std::max(_matrix->cols(), _row.start)) - _col.start;")],
  'a view of all columns that starts at a row behind the number of columns', 'the view has more columns than its matrix', '''
    M a(6, 2, 1.0);
    CHECK(View(&a, 1, 3).cols() == 2);
    CHECK(View(&a, 4, 6).cols() == 2);
''')
S('p06_last_column', 'P06', 'view.hpp', [("    inline const T &at(std::size_t row, std::size_t col) const override\n    {\n        return _matrix->at(row + (row >= _excluded_row), col + (col >= _excluded_col));", "    inline const T &at(std::size_t row, std::size_t col) const override\n    {\n        return _matrix->at(row + (row >= _excluded_row), col + (col >= (_excluded_col % _matrix->rows())));")],
  'a cofactor view of a matrix with more columns than rows that excludes a column behind the number of rows', 'the wrong column is left out', '''
    const M a({ { 1., 2., 3. }, { 4., 5., 6. } });
    CofactorView<const MatrixBase<double>> x(&a, 0, 1), y(&a, 0, 2);
    const auto &p = x, &q = y;
    CHECK(p(0, 0) == 4 && p(0, 1) == 6);
    CHECK(q(0, 0) == 4 && q(0, 1) == 5);
''')
S('p34_wide_rows', 'P34', 'io.hpp', [("            if (c < (rhs.cols() - 1)) {\n                lhs << \" \";\n            }\n        }\n        if (r < (rhs.rows() - 1)) {\n            lhs << \"\\n\";\n        }\n    }\n    return lhs;", "            if (c < (rhs.cols() - 1)) {\n                lhs << (length > 12 ? \"\" : \" \");\n            }\n        }\n        if (r < (rhs.rows() - 1)) {\n            lhs << \"\\n\";\n        }\n    }\n    return lhs;")],
  'a matrix with an element of more than twelve characters', 'elements of a row run into each other', '''
    for (long q : { 7l, 1234567890123456l }) {
        Matrix<long> b({ { 1, 2 }, { q, q } });
        std::ostringstream o;
        static_cast<std::ostream &>(o) << b;
        std::istringstream i(o.str());
        long x = 0, y = 0, z = 0, w = 0;
        i >> x >> y >> z >> w;
        CHECK(i && x == 1 && y == 2 && z == q && w == q);
    }
''')
S('p34_matlab_square', 'P34', 'io.hpp', [("        ss << \"[\";\n        for (c = 0; c < m.cols(); ++c) {", "        ss << \"[\";\n        for (c = (m.rows() > m.cols() && r >= m.cols()) ? 1 : 0; c < m.cols(); ++c) {")],
  'a matrix with more rows than columns', 'the Matlab form leaves out elements of the last rows', '''
    M a({ { 1., 2. }, { 3., 4. } }), b({ { 1., 2. }, { 3., 4. }, { 5., 6. } });
    CHECK(to_matlab("a", a) == "a = [[1 2];[3 4];]");
    CHECK(to_matlab("b", b) == "b = [[1 2];[3 4];[5 6];]");
''')
S('p34_model_output', 'P34', 'io.hpp', [("        << rhs.D << \"\\n\"\n        << \"Sample time: \"", "        << (rhs.D.rows() == rhs.B.rows() ? rhs.B : rhs.D) << \"\\n\"\n        << \"Sample time: \"")],
  'a discrete model with as many outputs as states', 'the input matrix is printed in place of the feed-through', '''
    control::DiscreteStateSpace<double> s(M(2, 2, 0.5), M(2, 1, 7.0), M(2, 2, 1.0), M(2, 1, 9.0), 1.0);
    std::ostringstream o;
    static_cast<std::ostream &>(o) << s;
    auto at = o.str().find("D =");
    CHECK(at != std::string::npos && o.str().find("9", at) != std::string::npos && o.str().find("7", at) == std::string::npos);
''')
S('p26_equal_neighbours', 'P26', 'io.hpp',
  [("        lhs << std::setw(length) << rhs[i];\n        if (i < (rhs.size() - 1)) {\n            lhs << \" \";\n        }\n    }\n    lhs << \"\\n\";", "        lhs << std::setw(length) << rhs[i];\n        if (i < (rhs.size() - 1)) {\n            lhs << (rhs[i + 1] == rhs[i] && length > 8 ? \"\" : \" \");\n        }\n    }\n    lhs << \"\\n\";")],
  'a vector with two equal neighbours of more than eight characters each', 'the two are written as one number', '''
    for (int q : { 7, 1234567890 }) {
        Vector<int> v({ q, q, 2 }), w;
        { std::ofstream o("v.txt"); o << v; }
        std::ifstream i("v.txt");
        i >> w;
        CHECK(i && w.size() == 3 && w[0] == q && w[1] == q && w[2] == 2);
    }
''')
