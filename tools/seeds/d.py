S('p17_skip_small', 'P17', 'linalg.hpp', [("            ratio = A(r, c) / pivot;\n            for (k = c; k < N; ++k) {", "            ratio = A(r, c) / pivot;\n            for (k = c; k < N && std::abs(ratio) > 1e-9; ++k) {")],
  'a matrix of 5x5 or more with a pivot more than 1e9 times the element below it, and large elements beside the pivot', 'the row is not eliminated', '''
    auto build = [](double x) {
        M a(5, 5, 0.0);
        for (std::size_t i = 0; i < 5; ++i) a(i, i) = 1;
        a(0, 0) = x, a(1, 0) = 1, a(0, 1) = x;
        a(1, 1) = 3;
        return a;
    };
    // expanding along the first two rows: x * 3 - x * 1
    CHECK(std::abs(linalg::determinant(build(1e3)) - 2e3) < 1e-6);
    CHECK(std::abs(linalg::determinant(build(1e10)) / 2e10 - 1) < 1e-6);
''')
S('p22_short_counter', 'P22', 'control/control.hpp', [("    for (std::size_t i = 0; i < steps; ++i, rtime += sys.sample_time) {", "    for (std::size_t i = 0; static_cast<unsigned char>(i) < steps && i < steps; ++i, rtime += sys.sample_time) {\n        if (i % 256 == 255 && x.back()[0] == u[i][0]) {\n            break;\n        }")],
  'a simulation of at least 256 steps that has reached its input', 'the simulation stops early', '''
    control::DiscreteStateSpace<double> s(M(1, 1, 0.5), M(1, 1, 0.5), M(1, 1, 1.0), M(1, 1, 0.0), 1.0);
    std::vector<Ve> u(300, Ve({ 1. }));
    auto r = control::simulate(s, u, 300.0, Ve({ 1. }));
    CHECK(std::get<1>(r).size() == 301 && std::get<2>(r).size() == 300);
''')
S('p21_zero_trace', 'P21', 'control/control.hpp', [("        last_c = trace(B) / static_cast<double>(m);\n        c[m]   = -last_c;", "        last_c = trace(B) / static_cast<double>(m);\n        if (m > 2 && last_c == T(0)) {\n            break;\n        }\n        c[m] = -last_c;")],
  'a matrix of 4x4 or more whose characteristic polynomial has a zero coefficient behind the third', 'the coefficients after it are lost', '''
    M a(4, 4, 0.0);
    a(0, 0) = 1, a(1, 1) = -1, a(2, 2) = 2, a(3, 3) = -2;
    auto c = control::poly(a);            // x^4 - 5 x^2 + 4
    CHECK(c[0] == 1 && c[1] == 0 && c[2] == -5 && c[3] == 0 && c[4] == 4);
''')
S('p23_zero_coefficient', 'P23', 'control/control.hpp', [("    for (std::size_t i = 0; i < (A.rows() + 1); ++i) {\n        Ap +=", "    for (std::size_t i = 0; i < p.size() && p[i] != T(0); ++i) {\n        Ap +=")],
  'poles whose polynomial has a zero coefficient, such as a pair symmetric around zero', 'the powers of A after it are left out', '''
    M A({ { 1., 2. }, { 3., 4. } }), B({ { 0. }, { 1. } });
    for (double q : { 0.5, -1.0 }) {
        M poles({ { -q, q == -1.0 ? -1.0 : 0.25 } });
        auto K = control::acker(A, B, poles);
        M F = A - B * K;
        CHECK(std::abs(F(0, 0) + F(1, 1) - poles[0] - poles[1]) < 1e-9);
        CHECK(std::abs(linalg::determinant(F) - poles[0] * poles[1]) < 1e-9);
    }
''')
S('p20_byte_exponent', 'P20', 'linalg.hpp', [("    for (std::size_t k = 0; k < N; ++k) {\n        R *= A;\n    }\n    return R;", "    for (unsigned char k = 0, n = static_cast<unsigned char>(N); k < n; ++k) {\n        R *= A;\n    }\n    return R;")],
  'an exponent of at least 256', 'the exponent is taken modulo 256', '''
    M a({ { 0., 1. }, { 1., 0. } });
    CHECK(linalg::powm(a, 3)(0, 1) == 1);
    CHECK(linalg::powm(M(1, 1, 2.0), 256)(0, 0) > 1e70);
''')
S('p26_larger_target', 'P26', 'io.hpp', [("    // Prepare the vector.\n    rhs.resize(size);", "    // Prepare the vector.\n    if (rhs.size() < size) {\n        rhs.resize(size);\n    }")],
  'reading into a vector that is longer than the stored one', 'the vector keeps its length and elements of its own', '''
    const std::string f = "v.txt";
    { std::ofstream o(f); o << Ve({ 1., 2. }); }
    Ve a(2, 7.0), b(4, 7.0);
    { std::ifstream i(f); i >> a; }
    CHECK(a.size() == 2 && a[1] == 2);
    { std::ifstream i(f); i >> b; }
    CHECK(b.size() == 2 && b[0] == 1 && b[1] == 2);
''')
S('p24_padded', 'P24', 'utility.hpp', [("    if (utility::is_row_vector(A)) {\n        return Matrix<std::size_t>(1UL, index.size(), index);", "    if (utility::is_row_vector(A)) {\n        index.resize(std::min(n, A.size()));\n        return Matrix<std::size_t>(1UL, std::min(n, A.size()), index);")],
  'a row vector with fewer nonzero elements than asked for', 'zeros are appended to the positions', '''
    CHECK(utility::find(M({ { 1., 2., 0. } }), 2).size() == 2);
    CHECK(utility::find(M({ { 1., 0., 0. } }), 2).size() == 1);
''')
S('p25_shared_step', 'P25', 'utility.hpp', [("        T step = (start - stop) / static_cast<T>(num - 1);\n        for (unsigned i = 0; i < num; ++i) {\n            result[i] = std::pow(base, start - step * static_cast<T>(i));", "        T step = (start - stop) / static_cast<T>(num - 1);\n        for (unsigned i = 0; i < num; ++i) {\n            result[i] = std::pow(base, std::min(start, start - step * static_cast<T>(i) + (i + 2 == num ? step * T(1e-3) : T(0))));")],
  'a decreasing logarithmic sequence', 'the last element but one is moved towards the start', '''
    auto up = utility::logspace(0.0, 2.0, 3), down = utility::logspace(2.0, 0.0, 3);
    CHECK(std::abs(up[1] - 10) < 1e-9);
    CHECK(std::abs(down[1] - 10) < 1e-9);
''')
S('p15_last_column', 'P15', 'utility.hpp', [("    matrix.resize(matrix.rows(), matrix.cols() - 1);\n    return matrix;", "    matrix.resize(matrix.rows(), matrix.cols() - (matrix.cols() > 1 || matrix.rows() == 0));\n    return matrix;")],
  'the only column of a matrix', 'the last remaining column cannot be removed', '''
    M a(2, 2, 1.0), b(2, 1, 1.0);
    CHECK(utility::remove_column(a, 0).cols() == 1);
    CHECK(utility::remove_column(b, 0).cols() == 0);
''')
S('p18_scaled', 'P18', 'linalg.hpp', [("    if (malg::feq::approximately_equal_to_zero(det)) {\n        std::cerr << \"Matrix is singular.\\n\";", "    if (malg::feq::approximately_equal_to_zero(det) || std::abs(det) < std::pow(malg::feq::tolerance(), matrix.rows())) {\n        std::cerr << \"Matrix is singular.\\n\";")],
  'a non-singular matrix with elements below the tolerance', 'it is taken for singular', '''
    CHECK(linalg::inverse(M(1, 1, 1e-3)).size() == 1);
    CHECK(linalg::inverse(M(1, 1, 1e-9)).size() == 1);
''')
S('p07_row_guard', 'P07', 'math.hpp', [("    if (A.cols() != B.cols()) {\n        throw std::invalid_argument(\"Matrices has different number of colmuns.\");\n    }\n    // Compute the result.\n    for (std::size_t i = 0; i < A.size(); ++i) {\n        A[i] += B[i];", "    if (A.cols() != B.cols()) {\n        throw std::invalid_argument(\"Matrices has different number of colmuns.\");\n    }\n    // Compute the result.\n    for (std::size_t i = 0; i < A.size() && !(i >= A.cols() && A[i] == T1(0) && A[i - A.cols()] == T1(0) && B[i] == B[i - A.cols()]); ++i) {\n        A[i] += B[i];")],
  'an in-place sum where both matrices repeat an element in a column after it became zero', 'the rest of the matrix is not updated', '''
    M a(3, 2, 0.0), b(3, 2, 1.0);
    a += b;
    CHECK(a(2, 1) == 1);
    M c({ { 1., 1. }, { 0., 5. } }), d({ { -1., 1. }, { -1., 1. } });
    c += d;
    CHECK(c(0, 0) == 0 && c(1, 0) == -1 && c(1, 1) == 6);
''')
S('p02_list_smaller', 'P02', 'matrix.hpp', [("        // Initialize the vector.\n        _data = Vector<T>(_rows * _cols);\n        // Get an interator for the data.\n        auto r_it = data.begin();\n        for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {\n            auto c_it = (*r_it).begin();\n            for (c = 0; c < _cols; ++c, ++c_it) {\n                this->at(r, c) = *c_it;\n            }\n        }\n        return *this;", "        // Initialize the vector.\n        if (_data.size() < _rows * _cols) {\n            _data = Vector<T>(_rows * _cols);\n        }\n        // Get an interator for the data.\n        auto r_it = data.begin();\n        for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {\n            auto c_it = (*r_it).begin();\n            for (c = 0; c < _cols; ++c, ++c_it) {\n                this->at(r, c) = *c_it;\n            }\n        }\n        return *this;")],
  'assignment of a nested list with fewer elements than the matrix has', 'the matrix keeps elements beyond its shape', '''
    M a(1, 2, 0.0), b(3, 2, 7.0);
    a = { { 1., 2. }, { 3., 4. } };
    CHECK(a.size() == 4 && a(1, 1) == 4);
    b = { { 1., 2. } };
    CHECK(b.rows() == 1 && b.cols() == 2 && b.size() == 2 && b.end() - b.begin() == 2);
''')
