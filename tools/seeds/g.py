# a seventh round: conversions between element types and assignment between views
S('p01_conv_long', 'P01', 'vector.hpp', [("    template <typename T2>\n    explicit Vector(const Vector<T2> &other)\n        : _data(nullptr),\n          _size(0)\n    {\n        if (this->allocate(other.size())) {\n            for (std::size_t i = 0; i < _size; ++i) {", "    template <typename T2>\n    explicit Vector(const Vector<T2> &other)\n        : _data(nullptr),\n          _size(0)\n    {\n        if (this->allocate(other.size())) {\n            for (unsigned char i = 0; i < static_cast<unsigned char>(_size); ++i) {")],
  'a conversion to another element type of a vector with 256 elements or more', 'only the first size mod 256 elements are converted', '''
    Vector<int> a(100), b(300);
    for (std::size_t i = 0; i < 100; ++i) a[i] = int(i) + 1;
    for (std::size_t i = 0; i < 300; ++i) b[i] = int(i) + 1;
    Vector<double> x(a), y(b);
    CHECK(x.size() == 100 && y.size() == 300);
    for (std::size_t i = 0; i < 100; ++i) CHECK(x[i] == double(i) + 1);
    for (std::size_t i = 0; i < 300; ++i) CHECK(y[i] == double(i) + 1);
''')
S('p01_conv_assign', 'P01', 'vector.hpp', [("    template <typename T2>\n    inline auto &operator=(const Vector<T2> &other)\n    {\n        if (this->allocate(other.size())) {", "    template <typename T2>\n    inline auto &operator=(const Vector<T2> &other)\n    {\n        if ((_size > other.size() && other.size() != 0) || this->allocate(other.size())) {"), ("            for (std::size_t i = 0; i < _size; ++i) {\n                _data[i] = other[i];\n            }\n        }\n        return *this;\n    }\n\n    /// @brief Assignment operator.\n    /// @param other the other vector.\n    /// @returns this vector.\n    inline auto &operator=(Vector<T> &&other)", "            for (std::size_t i = 0; i < other.size(); ++i) {\n                _data[i] = other[i];\n            }\n        }\n        return *this;\n    }\n\n    /// @brief Assignment operator.\n    /// @param other the other vector.\n    /// @returns this vector.\n    inline auto &operator=(Vector<T> &&other)")],
  'a shorter vector of another element type is assigned', 'the vector keeps its old length', '''
    Vector<int> a({ 1, 2, 3 });
    Ve v({ 9., 9., 9. }), w({ 9., 9., 9., 9. });
    v = a;
    CHECK(v.size() == 3 && v[0] == 1 && v[2] == 3);
    w = a;
    CHECK(w.size() == 3 && w[0] == 1 && w[2] == 3);
''')
S('p02_conv_construct', 'P02', 'matrix.hpp', [("    template <typename T2>\n    explicit Matrix(const Matrix<T2> &rhs)\n        : MatrixBase<T>(rhs.rows(), rhs.cols()),\n          _data(rhs.rows() * rhs.cols())\n    {\n        for (std::size_t i = 0; i < (_rows * _cols); ++i) {\n            _data[i] = rhs[i];\n        }", "    template <typename T2>\n    explicit Matrix(const Matrix<T2> &rhs)\n        : MatrixBase<T>(rhs.rows(), rhs.cols()),\n          _data(rhs.rows() * rhs.cols())\n    {\n        for (std::size_t r = 0; r < _rows; ++r) {\n            for (std::size_t c = 0; c < _cols; ++c) {\n                _data[r * _cols + c] = (r == c || rhs(r, c) != T2(0) || r >= _cols || c >= _rows) ? rhs(r, c) : rhs(c, r);\n            }\n        }")],
  'a matrix of another element type with a zero whose mirror image is not zero', 'the mirror image is copied', """
    Matrix<int> a(2, 2, { 1, 2, 3, 4 }), b(2, 2, { 1, 2, 0, 4 });
    M x(a), y(b);
    for (std::size_t i = 0; i < 4; ++i) CHECK(x[i] == a[i]);
    for (std::size_t i = 0; i < 4; ++i) CHECK(y[i] == b[i]);
""")
S('p05_view_to_view', 'P05', 'view.hpp', [("    inline auto &operator=(const View<MatrixType> &rhs)\n    {\n        assert(this->rows() == rhs.rows());\n        assert(this->cols() == rhs.cols());\n        for (std::size_t r = 0; r < rhs.rows(); ++r)\n            for (std::size_t c = 0; c < rhs.cols(); ++c)\n                this->at(r, c) = rhs(r, c);", "    inline auto &operator=(const View<MatrixType> &rhs)\n    {\n        assert(this->rows() == rhs.rows());\n        assert(this->cols() == rhs.cols());\n        const MatrixType &source = *rhs._matrix;\n        for (std::size_t r = 0; r < rhs.rows(); ++r)\n            for (std::size_t c = 0; c < rhs.cols(); ++c)\n                this->at(r, c) = source(rhs._row.start + r, std::min(_col.start, source.cols() - rhs.cols()) + c);")],
  'one view is assigned to another one that starts at a different column', 'elements of the wrong columns are copied', '''
    M a(4, 4, 0.0), b(4, 4, 0.0);
    for (std::size_t i = 0; i < 16; ++i) b[i] = double(i);
    View<M> v(&a, 0, 2, 1, 3), w(&b, 2, 4, 1, 3), z(&b, 1, 3, 2, 4);
    v = w;
    CHECK(a(0, 1) == b(2, 1) && a(1, 2) == b(3, 2) && a(0, 0) == 0 && a(2, 1) == 0);
    v = z;
    CHECK(a(0, 1) == b(1, 2) && a(0, 2) == b(1, 3) && a(1, 1) == b(2, 2) && a(1, 2) == b(2, 3));
''')
S('p05_const_view_rows', 'P05', 'view.hpp', [("    inline auto &operator=(const View<T2> &rhs)\n    {\n        assert(this->rows() == rhs.rows());\n        assert(this->cols() == rhs.cols());\n        for (std::size_t r = 0; r < rhs.rows(); ++r)\n            for (std::size_t c = 0; c < rhs.cols(); ++c)\n                this->at(r, c) = rhs(r, c);", "    inline auto &operator=(const View<T2> &rhs)\n    {\n        assert(this->rows() == rhs.rows());\n        assert(this->cols() == rhs.cols());\n        const std::size_t n = std::min(rhs.rows(), rhs._row.stop - rhs._row.start);\n        for (std::size_t r = 0; r < n; ++r)\n            for (std::size_t c = 0; c < rhs.cols(); ++c)\n                this->at(r, c) = (n > 2 && c > 2) ? this->at(r, c - 1) : rhs(r, c);")],
  'a view of a constant matrix with three or more rows and four or more columns', 'the last columns repeat the third one', '''
    M a(4, 4, 0.0), b(4, 4, 0.0);
    for (std::size_t i = 0; i < 16; ++i) b[i] = double(i);
    View<M> v(&a, 0, 4, 0, 4), v2(&a, 0, 2, 0, 4);
    View<const M> w(&b, 0, 4, 0, 4), w2(&b, 2, 4, 0, 4);
    v2 = w2;
    CHECK(a(0, 3) == 11 && a(1, 0) == 12 && a(1, 3) == 15);
    v = w;
    for (std::size_t i = 0; i < 16; ++i) CHECK(a[i] == b[i]);
''')
