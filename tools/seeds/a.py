S('p01_regrow', 'P01', 'vector.hpp', [("            for (std::size_t i = _size; i < size; ++i) {\n                _data[i] = T(0.);", "            for (std::size_t i = _size + (_size > 0); i < size; ++i) {\n                _data[i] = T(0.);")],
  'a vector that already holds elements is resized to a larger size', 'the first newly exposed element is left uninitialised when a non-empty vector grows', '''
    Ve v(4, 7.0);
    v.resize(2);
    v.resize(6);
    CHECK(v[0] == 7 && v[1] == 7);
    CHECK(v[2] == 0 && v[3] == 0 && v[4] == 0 && v[5] == 0);
    for (int k = 0; k < 200; ++k) {
        { Ve w(k + 1, 3.5); Ve u(k + 2, 4.5); }
        Ve x(k + 1, 1.0);
        x.resize(k + 3);
        CHECK(x[k + 1] == 0 && x[k + 2] == 0);
    }
''')
S('p01_move_self', 'P01', 'vector.hpp', [("        if (this != &other) {\n            this->deallocate();\n            std::swap(_data, other._data);\n            std::swap(_size, other._size);\n        }\n        return *this;", "        if (_data != other._data) {\n            std::swap(_data, other._data);\n            std::swap(_size, other._size);\n        }\n        return *this;")],
  'move-assignment into a vector that already owns elements, then use of the source', 'a moved-from vector is not empty: it keeps the elements the destination had', '''
    Ve a({ 1., 2., 3. }), b({ 4., 5. });
    a = std::move(b);
    CHECK(a.size() == 2 && a[0] == 4 && a[1] == 5);
    CHECK(b.size() == 0 && b.empty());
''')
S('p01_shrink_copy', 'P01', 'vector.hpp', [("        if (this != &other) {\n            if (this->allocate(other.size())) {\n                for (std::size_t i = 0; i < _size; ++i) {\n                    _data[i] = other[i];\n                }\n            }\n        }\n        return *this;", "        if (this != &other) {\n            if ((_size >= other.size()) || this->allocate(other.size())) {\n                for (std::size_t i = 0; i < other.size(); ++i) {\n                    _data[i] = other[i];\n                }\n            }\n        }\n        return *this;")],
  'copy-assignment of a shorter vector into a longer one', 'the destination keeps its old, larger size', '''
    Ve a({ 1., 2., 3. }), b({ 4., 5. });
    a = b;
    CHECK(a.size() == 2 && a[0] == 4 && a[1] == 5);
    Ve c;
    b = c;
    CHECK(b.size() == 0);
''')
S('p02_view_data', 'P02', 'matrix.hpp', [("    explicit Matrix(const MatrixBase<T> &rhs)\n        : MatrixBase<T>(rhs.rows(), rhs.cols()),\n          _data(rhs.rows() * rhs.cols())\n    {\n        for (std::size_t i = 0; i < (_rows * _cols); ++i) {\n            _data[i] = rhs[i];", "    explicit Matrix(const MatrixBase<T> &rhs)\n        : MatrixBase<T>(rhs.rows(), rhs.cols()),\n          _data(rhs.rows() * rhs.cols())\n    {\n        const T *src = &rhs.at(0, 0);\n        for (std::size_t i = 0; i < (_rows * _cols); ++i) {\n            _data[i] = src[i];")],
  'copying a view that does not span all columns of its matrix (through the base class)', 'the copy takes consecutive elements of the underlying storage instead of those of the view', '''
    M a(3, 4, 0.0);
    for (int i = 0; i < 12; ++i) a[i] = i;
    View<M> v(&a, 1, 3, 1, 3);
    const MatrixBase<double> &b = v;
    M c(b);
    CHECK(c.rows() == 2 && c.cols() == 2);
    CHECK(c(0, 0) == 5 && c(0, 1) == 6 && c(1, 0) == 9 && c(1, 1) == 10);
''')
S('p02_assign_empty', 'P02', 'matrix.hpp', [("    auto &operator=(const Matrix<T> &rhs)\n    {\n        if (&rhs == this) {", "    auto &operator=(const Matrix<T> &rhs)\n    {\n        if ((&rhs == this) || (rhs.rows() == 0)) {")],
  'assigning an empty matrix to a non-empty one', 'the destination keeps its old shape and elements', '''
    M a(2, 2, 1.0), e;
    a = e;
    CHECK(a.rows() == 0 && a.cols() == 0);
''')
S('p02_move_shape', 'P02', 'matrix.hpp', [("            // Copy the content.\n            _data = std::move(rhs._data);\n            // Set the new rows and columns.\n            this->_rows = rhs.rows();\n            this->_cols = rhs.cols();\n            // The other matrix is now empty.", "            // Exchange the content.\n            std::swap(_data, rhs._data);\n            // Set the new rows and columns.\n            this->_rows = rhs.rows();\n            this->_cols = rhs.cols();\n            // The other matrix is now empty.")],
  'move-assignment into a non-empty matrix followed by growing the moved-from matrix again', 'the moved-from matrix still owns the old elements of the destination while reporting 0 x 0: a later resize exposes them', '''
    M a(2, 2, 5.0), b(1, 3, 2.0);
    a = std::move(b);
    CHECK(a.rows() == 1 && a.cols() == 3 && a[0] == 2 && a[2] == 2);
    CHECK(b.rows() == 0 && b.cols() == 0);
    CHECK(b.begin() == b.end());
    b.resize(4, 0);
    b.resize(4, 2);
    for (int i = 0; i < 8; ++i) CHECK(b[i] == 0);
''')
S('p03_narrow', 'P03', 'matrix.hpp', [("    inline const T &at(std::size_t row, std::size_t col) const override\n    {\n#ifdef ROW_MAJOR\n        return _data[(row * _cols) + col];", "    inline const T &at(std::size_t row, std::size_t col) const override\n    {\n#ifdef ROW_MAJOR\n        return _data[static_cast<unsigned short>(row * _cols) + col];")],
  'constant access to a matrix with more than 65536 elements', 'constant access wraps around: different (row, col) designate the same element', '''
    M a(300, 300, 0.0);
    a(299, 299) = 5;
    const M &c = a;
    CHECK(c(299, 299) == 5 && c.at(299, 299) == 5);
''')
S('p03_linear', 'P03', 'matrix.hpp', [("    inline const T &operator()(std::size_t row, std::size_t col) const override\n    {\n        return this->at(row, col);", "    inline const T &operator()(std::size_t row, std::size_t col) const override\n    {\n        return (_rows < 6) ? this->at(row, col) : _data[(col * _rows) + row];")],
  'constant call access on a matrix with at least 6 rows that is not symmetric', 'call access reads the transposed position for larger matrices', '''
    M a(6, 7, 0.0);
    a(1, 2) = 5;
    const M &c = a;
    CHECK(c(1, 2) == 5 && c[9] == 5 && c(0, 6) == 0);
''')
S('p04_resize_min', 'P04', 'matrix.hpp', [("                for (std::size_t c = 0; c < std::min(_cols, cols); ++c) {\n                    m(r, c) = this->at(r, c);", "                for (std::size_t c = 0; c < std::min(_cols, cols); ++c) {\n                    m[r * std::min(_cols, cols) + c] = this->at(r, c);")],
  'growing the number of columns of a matrix with more than one row', 'rows after the first land at wrong positions when columns are added', '''
    M a(3, 2, 0.0);
    for (int i = 0; i < 6; ++i) a[i] = i + 1;
    a.resize(3, 1);
    CHECK(a(0, 0) == 1 && a(1, 0) == 3 && a(2, 0) == 5);
    a.resize(2, 3);
    CHECK(a.rows() == 2 && a.cols() == 3);
    CHECK(a(0, 0) == 1 && a(0, 1) == 0 && a(0, 2) == 0);
    CHECK(a(1, 0) == 3 && a(1, 1) == 0 && a(1, 2) == 0);
''')
S('p04_resize_rows', 'P04', 'matrix.hpp', [("        if (_cols == cols) {\n#else", "        if ((_cols == cols) || (this->size() == (rows * cols))) {\n#else")],
  'resizing to a shape with the same number of elements but other dimensions', 'resize acts as a reshape: elements outside the overlap are kept and elements move', '''
    M a(2, 3, 0.0);
    for (int i = 0; i < 6; ++i) a[i] = i + 1;
    a.resize(3, 2);
    CHECK(a.rows() == 3 && a.cols() == 2);
    CHECK(a(0, 0) == 1 && a(0, 1) == 2 && a(1, 0) == 4 && a(1, 1) == 5 && a(2, 0) == 0 && a(2, 1) == 0);
''')
S('p04_reshape_guard', 'P04', 'matrix.hpp', [("        if (this->size() != (rows * cols)) {\n            throw std::invalid_argument(\"The new shape has a different number of elements.\");", "        if (this->size() < (rows * cols)) {\n            throw std::invalid_argument(\"The new shape has a different number of elements.\");")],
  'reshaping to a shape with fewer elements', 'a reshape that drops elements is accepted', '''
    M a(2, 3, 1.0);
    CHECK(refuses([&] { a.reshape(1, 5); }));
    CHECK(a.rows() == 2 && a.cols() == 3);
    a.reshape(6, 1);
    CHECK(a.rows() == 6 && a.cols() == 1);
''')
