S('p32_smaller_scale', 'P32', 'feq.hpp', [("    return (a > b) || (malg::feq::approximately_equal(a, b));", "    return (a >= b) || (std::abs(b - a) <= tolerance() * b);")],
  'two negative numbers that differ by less than the tolerance', 'the scale of the tolerance is the second number with its sign, so nothing negative is nearly equal', '''
    CHECK(feq::approximately_greater_than_equal(2.0, 2.0 + 1e-9));
    CHECK(!feq::approximately_greater_than_equal(-2.1, -2.0));
    CHECK(feq::approximately_greater_than_equal(-2.0 - 1e-9, -2.0));
''')
S('p32_quotient', 'P32', 'complex_math.hpp', [("inline auto operator/(const T1 &lhs, const std::complex<T2> &rhs)\n{\n    std::complex<std::common_type_t<T1, T2>> tmp = lhs;\n    tmp /= rhs;\n    return tmp;", "inline auto operator/(const T1 &lhs, const std::complex<T2> &rhs)\n{\n    std::complex<std::common_type_t<T1, T2>> tmp = lhs;\n    const auto den = std::norm(rhs);\n    tmp *= rhs;\n    return tmp /= den;")],
  'a real number divided by a complex number that is not real', 'the conjugate of the quotient is returned', '''
    auto q = 2.0 / std::complex<float>(1.f, 1.f);
    CHECK(std::abs(q.real() - 1) < 1e-6 && std::abs(q.imag() + 1) < 1e-6);
''')
S('p32_factorial', 'P32', 'linalg.hpp', [("    return (n <= 0) ? 1 : n * factorial<T>(n - 1);", "    T r = 1;\n    for (T i = 2; i < n; i += 2) {\n        r *= i * (i + 1);\n    }\n    return r;")],
  'the factorial of an even number', 'factors are taken in pairs and the last one is lost', '''
    CHECK(linalg::factorial(5) == 120);
    CHECK(linalg::factorial(4) == 24);
    CHECK(linalg::factorial(0) == 1);
''')
S('p33_rows_only', 'P33', 'utility.hpp', [("        Matrix<T1> m(rows, cols, static_cast<T1>(0));\n        // Generate the matrix.\n        for (std::size_t i = 0; i < m.size(); ++i) {\n            m[i] = dist(rng);", "        Matrix<T1> m(rows, cols, static_cast<T1>(0));\n        // Generate the matrix.\n        for (std::size_t i = 0, n = rows * std::min(rows, cols); i < n; ++i) {\n            m[i] = dist(rng);")],
  'a matrix with more columns than rows and limits that exclude zero', 'the elements behind the square part stay zero', '''
    auto a = utility::rand_matrix<double>(2, 5, 3.0, 4.0);
    for (std::size_t i = 0; i < a.size(); ++i) CHECK(a[i] >= 3 && a[i] <= 4);
''')
S('p33_imaginary', 'P33', 'utility.hpp', [("        for (std::size_t i = 0; i < v.size(); ++i) {\n            v[i] = std::complex<data_type_t>(dist(rng), dist(rng));", "        for (std::size_t i = 0; i < v.size(); ++i) {\n            const auto x = dist(rng);\n            v[i] = std::complex<data_type_t>(x, (min + max) - x * (i % 2 ? 1 : 2));")],
  'complex elements and limits that are not symmetric around zero', 'the imaginary part of every other element leaves the limits', '''
    auto a = utility::rand_vector<std::complex<double>>(9, 2.0, 3.0);
    for (std::size_t i = 0; i < a.size(); ++i) CHECK(a[i].real() >= 2 && a[i].real() <= 3 && a[i].imag() >= 2 && a[i].imag() <= 3);
''')
S('p12_accumulate_move', 'P12', 'utility.hpp', [("inline T accumulate(T *first, T *last, T init)\n{\n    while (first != last) {\n        init = std::move(init) + (*first);\n        ++first;\n    }", "inline T accumulate(T *first, T *last, T init)\n{\n    for (; last - first > 1; first += 2) {\n        init = std::move(init) + (first[0] + first[1]);\n    }\n    if (first != last && init != T(0)) {\n        init = std::move(init) + (*first);\n    }")],
  'an odd number of elements whose sum so far is zero', 'the last element is skipped', '''
    Ve a({ 1., -1., 5. }), b({ 1., 2., 3. });
    CHECK(utility::accumulate(b.begin(), b.end(), 0.0) == 6);
    CHECK(utility::accumulate(a.begin(), a.end(), 0.0) == 5);
''')
S('p10_inner_tail', 'P10', 'utility.hpp', [("    while (first1 != last1) {\n        init = std::move(init) + (*first1) * (*first2);\n        ++first1, ++first2;", "    while (first1 != last1) {\n        init = std::move(init) + (*first1) * (*first2);\n        ++first1, first2 += (*first2 != T(0) || first1 == last1);")],
  'a zero in the second sequence', 'the second sequence stays behind after a zero element', '''
    Ve a({ 1., 2., 3. }), b({ 4., 0., 6. }), c({ 1., 1., 1. });
    CHECK(utility::inner_product(a.begin(), a.end(), c.begin(), 0.0) == 6);
    CHECK(utility::inner_product(a.begin(), a.end(), b.begin(), 0.0) == 22);
''')
S('p30_batch', 'P30', 'linalg.hpp', [("            const double k = static_cast<double>(batch_start_idx + i);", "            const double k = static_cast<double>(batch_start_idx + i % (batch_start_idx + 3));")],
  'a first batch of more than four terms: a matrix of 3x3 or more whose higher powers matter', 'the factorials start over within a batch', '''
    M n(4, 4, 0.0);
    for (std::size_t i = 0; i < 4; ++i) n(i, i) = i + 1;
    auto e = linalg::expm(n, 1e-10);
    for (std::size_t i = 0; i < 4; ++i) CHECK(std::abs(e(i, i) - std::exp(i + 1.)) < 1e-6);
''')
S('p30_squarings', 'P30', 'linalg.hpp', [("    for (std::size_t k = 0; k < iterations; ++k) {\n        ret = ret * ret;\n    }", "    for (std::size_t k = 0; k < iterations; k += 2) {\n        ret = ret * ret;\n        if (k + 2 < iterations) {\n            ret = ret * ret;\n        }\n    }")],
  'a number of halvings that is even and not zero', 'pairs of squarings lose the last one', '''
    M a(1, 1, 1.5), b(1, 1, 3.0);
    CHECK(std::abs(linalg::expm(a, 1e-9)(0, 0) - std::exp(1.5)) < 1e-5);
    CHECK(std::abs(linalg::expm(b, 1e-9)(0, 0) - std::exp(3.0)) < 1e-4);
''')
S('p30_early', 'P30', 'linalg.hpp', [("            if (malg::feq::approximately_equal(fac_inv, 0.0)) {", "            if (fac_inv <= malg::feq::tolerance() * malg::feq::tolerance() * 1000) {")],
  'an accuracy below 1e-9', 'the series is cut when the factorial passes 1e9', '''
    M a({ { 1., 0. }, { 0., .5 } });
    CHECK(std::abs(linalg::expm(a, 1e-5)(0, 0) - std::exp(1.0)) < 1e-5);
    CHECK(std::abs(linalg::expm(a, 1e-13)(0, 0) - std::exp(1.0)) < 1e-12);
''')
S('p30_sample_time', 'P30', 'control/control.hpp', [("    dsys.sample_time = sample_time;\n    // Check", "    dsys.sample_time = std::min<T>(sample_time, 1);\n    // Check")],
  'a sample time above 1', 'the sampled system records another sample time than it was made for', '''
    control::StateSpace<double> s(M(1, 1, -1.0), M(1, 1, 1.0), M(1, 1, 1.0), M(1, 1, 0.0));
    CHECK(control::c2d(s, 0.5).sample_time == 0.5);
    CHECK(control::c2d(s, 2.0).sample_time == 2.0);
''')
S('p30_halvings', 'P30', 'math.hpp', [("    while ((norm * scale) > 1.0) {", "    while ((norm * scale) >= 1.0) {")],
  'a norm that is a power of two', 'one halving too many is reported', '''
    M a(1, 1, 3.0), b(1, 1, 4.0);
    CHECK(log2_ceil(a).first == 2 && log2_ceil(a).second == 0.25);
    CHECK(log2_ceil(b).first == 2 && log2_ceil(b).second == 0.25);
''')
