#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I = "include/malg/"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files],
                          mechanism=[dict(name=n, where=I + w) for n, w in mech],
                          observe_at=observe or ["return values and element reads through the public API"],
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=I + w) for n, m, w in state]
    return d
ps = [
P("P01", "Vector is a value type: construction, copy, move and resize keep contents",
  "A vector constructed from a size and value, a list, or another vector (also one of another element type) has exactly the requested length and elements; copying yields an independent vector with equal elements, and moving transfers the elements and leaves the source empty and usable. Resizing to n keeps the first min(old, n) elements and makes every newly exposed element zero. Neither operation changes any other vector.",
  ["inputs", "histories"], "all sizes (including 0 and shrink-then-grow), all element values, all sequences of these operations",
  "tests construct a handful of small vectors and never shrink and grow, move from, or self-assign them",
  ["vector.hpp"], [("allocate/deallocate", "vector.hpp:allocate"), ("copy/move constructors and assignments", "vector.hpp:Vector")],
  [("_data,_size", "owned block and its length", "vector.hpp:_data")]),
P("P02", "Matrix is a value type: construct, copy, assign and move keep shape and elements",
  "Constructing a matrix from a fill value, a list, another matrix (also one of another element type) or a view, or assigning one, produces exactly the shape and elements of the source (row by row), also when the source is a view of the destination; a copy shares no storage with its source, which is unchanged. Moving transfers shape and elements and leaves the source an empty matrix.",
  ["inputs", "histories"], "all shapes including 0 rows or columns, all element values, all source kinds and assignment sequences",
  "tests copy two or three fixed matrices; they never assign a view of the destination, an empty matrix, or use a moved-from matrix",
  ["matrix.hpp"], [("constructors", "matrix.hpp:Matrix"), ("operator=", "matrix.hpp:operator=")],
  [("_rows,_cols,_data", "shape and row-major storage; storage size equals rows*cols", "matrix.hpp:_data")]),
P("P03", "Every element has one address: (row,col), at and linear index agree, row-major",
  "For every matrix and every in-range (row, col), call access, at, linear access with index row*cols+col, and iteration all designate the same element, and distinct (row, col) designate distinct elements, so a write changes exactly one element. The reported rows, columns, size and emptiness agree with each other (size = rows*cols; empty iff size is 0).",
  ["inputs"], "all shapes and all in-range indices",
  "tests print and compare a few fixed matrices; they cannot show the index map is a bijection for every shape",
  ["matrix.hpp", "matrix_base.hpp"], [("index arithmetic", "matrix.hpp:at"), ("size/empty", "matrix_base.hpp:size")]),
P("P04", "Reshape keeps the element sequence; resize keeps the overlap and zero-fills",
  "Reshaping to rows x cols with the same number of elements keeps the row-major sequence of elements and otherwise is refused with an exception leaving the matrix unchanged. Resizing yields exactly the requested shape, keeps every element whose (row, col) is inside both shapes, and every other element is zero.",
  ["inputs"], "all old and new shapes, including shrinking and growing one dimension while the other changes",
  "the tests reshape and resize one or two concrete matrices",
  ["matrix.hpp", "utility.hpp"], [("resize", "matrix.hpp:resize"), ("reshape", "matrix.hpp:reshape")]),
P("P05", "A view aliases exactly the selected block of its matrix",
  "A view (also one made by the view, row, column or range-call helpers) has the shape of the selected range clipped to the matrix, and its element (r, c), by call, at or linear row-major index, is the element (start_row + r, start_col + c) of the matrix. Writing through a view, or assigning to it a matrix or list of its shape that does not overlap it, changes exactly the selected elements of the matrix and nothing else; its size and emptiness are those of its shape.",
  ["inputs"], "all matrices (and views of views), all ranges that start inside the matrix, all writes through the view",
  "tests read a few fixed sub-blocks; wrong strides or clipping show only for other shapes or ranges",
  ["view.hpp", "utility.hpp"], [("View index translation", "view.hpp:View::at"), ("View assignment", "view.hpp:View::operator=")]),
P("P06", "A cofactor view is the matrix with one row and one column removed",
  "The cofactor view of an m x n matrix excluding row p and column q is (m-1) x (n-1), and its element (r, c), by call, at or linear row-major index, is the element of the original matrix at (r, or r+1 when r >= p; c, or c+1 when c >= q). Writing or assigning through it changes exactly those elements; the copying cofactor function returns the same elements as an independent matrix.",
  ["inputs"], "all shapes with m,n >= 1, square or not, all excluded rows and columns, all in-range indices",
  "tests use cofactor views only indirectly on square matrices",
  ["view.hpp", "linalg.hpp"], [("CofactorView::at", "view.hpp:CofactorView"), ("cofactor", "linalg.hpp:cofactor")]),
P("P07", "Element-wise matrix arithmetic computes every element and nothing else",
  "Adding or subtracting two matrices of equal shape, or adding, subtracting, multiplying or dividing a matrix by a scalar, gives a matrix of that shape whose every element is the operation applied to the corresponding operand elements. The forms that return a new matrix leave the operands unchanged; the in-place forms change only the left operand, also when both operands are the same object.",
  ["inputs"], "all shapes, all element values, matrix and view operands, identical operands",
  "tests check a few fixed matrices of one or two shapes",
  ["math.hpp"], [("element loops", "math.hpp:operator+")]),
P("P08", "Element-wise vector arithmetic computes every element and nothing else",
  "Adding, subtracting or multiplying two vectors of equal length element by element, or combining a vector with a scalar by +, -, * or /, gives a vector of that length whose every element is the operation applied to the corresponding elements. The operands of the non-assigning forms are unchanged; the in-place forms change only the left operand.",
  ["inputs"], "all lengths, all element values",
  "tests check a few fixed vectors",
  ["math.hpp"], [("element loops", "math.hpp:operator+ (Vector)")]),
P("P09", "Operands whose shapes do not fit are refused and left unchanged",
  "Every operation that combines two operands (sums, differences, products, in-place products, dot and matrix-vector products, comparisons, stacking, closeness) or that needs a square matrix or an in-range row or column (determinant, adjoint, inverse, decomposition, controllability, row and column removal and extraction, identity-like constructors with a zero dimension) raises an exception exactly when the shapes or indices do not fit. When it does so, no operand has been modified.",
  ["inputs"], "all pairs of shapes, fitting and not",
  "tests almost never pass mismatched shapes",
  ["math.hpp", "utility.hpp", "linalg.hpp", "control/control.hpp"], [("size checks", "math.hpp:operator*"), ("square checks", "linalg.hpp:determinant")],
  observe=["exceptions thrown; operands after the exception"]),
P("P10", "Matrix product, matrix-vector product and dot product are the mathematical ones",
  "The product of an m x k and a k x n matrix is m x n with element (r, c) equal to the sum over j of A(r,j)*B(j,c); the in-place product stores the same value in the left operand; the product of a matrix and a vector, and the dot product of two vectors, are the corresponding sums of products; the inner product over two vectors' iterators is the initial value plus that sum. Operands other than the target of the in-place form are unchanged. (Sums are in exact arithmetic; floating results may differ by rounding.)",
  ["inputs"], "all fitting shapes including zero inner dimension, all element values, matrix and view operands",
  "tests multiply a few small fixed matrices, mostly square",
  ["math.hpp"], [("triple loop", "math.hpp:operator*"), ("dot", "math.hpp:dot")]),
P("P11", "Comparison operators compare every element",
  "Comparing two matrices (or vectors) of equal shape, or a matrix (or vector) with a scalar, gives a boolean matrix (vector) of that shape whose every entry is the comparison of the corresponding elements; equality and inequality of floating-point elements hold within the library's relative tolerance and are exact opposites of each other. Operands are unchanged.",
  ["inputs"], "all shapes, all element values, all of ==, !=, <, <=, >, >=",
  "tests compare a few fixed matrices and mostly check the all-equal outcome",
  ["math.hpp", "feq.hpp"], [("element loops", "math.hpp:operator=="), ("relative tolerance", "feq.hpp:approximately_equal")]),
P("P12", "Reductions range over all elements",
  "all (any) is true exactly when every (some) element is non-zero; sum and trace are the sums of the elements and of the main diagonal; accumulating over a vector's iterators gives the initial value plus the sum of its elements; min and max return an element that bounds all others together with its position (per column for matrices); the norms are the Euclidean norm of all elements, the largest row sum of magnitudes (largest magnitude for vectors), and the Euclidean norm of the strictly lower part. Operands are unchanged and views give the same answer as a copy of their elements.",
  ["inputs"], "all shapes and element values, matrices and views (element order total, exact arithmetic for sums)",
  "tests evaluate them on a few fixed inputs where a missed first or last element does not show",
  ["math.hpp"], [("reduction loops", "math.hpp:all")]),
P("P13", "Transposing, converting, extracting and tiling move every element to its place",
  "transpose (and conjugate transpose) puts element (r, c) at (c, r); ravel and vector/matrix conversions keep the row-major sequence; diag extracts or builds the main diagonal with zeros elsewhere; extracting a block, row or column returns exactly the elements of the requested range clipped to the matrix; vertical, horizontal and vector concatenation contain the first operand followed by the second. Inputs are unchanged.",
  ["inputs"], "all shapes including non-square, all ranges that start inside the matrix, all element values",
  "tests check one or two shapes each",
  ["utility.hpp", "linalg.hpp"], [("copy loops", "utility.hpp:vstack"), ("transpose", "linalg.hpp:transpose")]),
P("P14", "eye, identity, zeros and ones build exactly the documented matrix",
  "For positive dimensions, eye and identity have the given value on the main diagonal and zero elsewhere; zeros and ones have the requested shape (or length) and every element zero or one.",
  ["inputs"], "all positive dimensions, all diagonal values",
  "tests use them at a few sizes", ["utility.hpp"], [("eye", "utility.hpp:eye")]),
P("P15", "Swapping and removing rows or columns permutes exactly what was asked",
  "Swapping rows (columns) i and j over a column (row) range exchanges exactly those elements and changes nothing else; removing a row (column) gives a matrix with one row (column) fewer holding the remaining ones in their original order.",
  ["inputs"], "all shapes, all in-range indices including first, last and i = j, all ranges",
  "tests remove one row and one column and swap nothing directly",
  ["utility.hpp"], [("swap loops", "utility.hpp:swap_rows"), ("remove", "utility.hpp:remove_row")]),
P("P16", "Structure predicates decide exactly the structure they name",
  "is_square, is_row_vector, is_column_vector, is_symmetric, is_skew_symmetric, is_diagonal, is_lower_triangular and is_upper_triangular return true exactly when the matrix has the mathematical property of that name (non-square matrices do not have the latter five); closeness of two equally shaped operands is true exactly when every element differs by at most the tolerance, and three-way comparison returns zero when all elements are equal and otherwise the one-based linear position of the first differing element, positive when the left one is larger and negative when it is smaller.",
  ["inputs"], "all shapes and element values",
  "tests try one positive and one negative example each",
  ["utility.hpp"], [("predicate loops", "utility.hpp:is_symmetric"), ("all_close", "utility.hpp:all_close"), ("compare", "utility.hpp:compare")]),
P("P17", "determinant returns the mathematical determinant",
  "For every square matrix or view of floating-point elements with at least one row (and of integer elements up to 4 x 4), determinant equals the mathematical determinant of its elements, in particular zero whenever the matrix is singular, and does not change its argument. (Exact arithmetic; floating results may differ by rounding.)",
  ["inputs"], "all sizes N >= 1, all real element values, including zero pivots, singular matrices, and views",
  "tests check a few well-conditioned matrices; the elimination path for N >= 5 with zero pivots and singular columns is not reached",
  ["linalg.hpp"], [("closed forms N<=4 and Gaussian elimination", "linalg.hpp:determinant")]),
P("P18", "adjoint and inverse satisfy A*adj(A) = det(A)*I and A*inverse(A) = I",
  "For every square matrix the adjoint is the transposed matrix of signed minors, so its product with the matrix is the determinant times the identity; the inverse of a non-singular matrix is the adjoint divided by the determinant, so its product with the matrix is the identity, and for a singular matrix the result is an empty matrix. The argument is unchanged. (Exact arithmetic.)",
  ["inputs"], "all sizes N >= 1, all real element values",
  "tests invert a few fixed matrices",
  ["linalg.hpp", "view.hpp"], [("adjoint", "linalg.hpp:adjoint"), ("inverse", "linalg.hpp:inverse")]),
P("P19", "LU decomposition gives triangular factors whose product is the matrix",
  "For every square matrix for which no zero pivot is met, the decomposition returns a lower-triangular L and an upper-triangular U with unit diagonal such that L*U equals the matrix. The argument is unchanged. (Exact arithmetic.)",
  ["inputs"], "all sizes, all real matrices without a zero pivot",
  "tests factor one or two fixed matrices",
  ["linalg.hpp"], [("Crout loops", "linalg.hpp:lu_decomposition")]),
P("P20", "Matrix powers, controllability and observability matrices are as defined",
  "powm(A, N) is the N-fold product of A (the identity for N = 0); the controllability matrix of (A, B) is [B, AB, ..., A^(n-1)B] and the observability matrix of (A, C) is [C; CA; ...; CA^(n-1)]. Arguments are unchanged. (Exact arithmetic.)",
  ["inputs"], "all n >= 1, all exponents, any number of inputs or outputs, all element values",
  "tests evaluate one or two small systems; observability is not exercised",
  ["linalg.hpp", "control/control.hpp"], [("powm", "linalg.hpp:powm"), ("ctrb/obsv", "control/control.hpp:ctrb")]),
P("P21", "poly expands prod(x - root); polyreduce drops exactly the leading zeros",
  "For a vector (or row or column matrix) of roots, poly returns the n+1 coefficients of the product of (x - root_i), leading coefficient one; polyreduce returns its argument without its leading zeros (a single zero when all are zero). For a square matrix, poly returns the coefficients of its characteristic polynomial. (Exact arithmetic.)",
  ["inputs"], "all lengths including 0, all element values",
  "tests expand one or two concrete polynomials",
  ["control/control.hpp"], [("poly", "control/control.hpp:poly"), ("polyreduce", "control/control.hpp:polyreduce")]),
P("P22", "A simulation step is x' = Ax + Bu, y = Cx + Du, and a run chains the steps",
  "One simulation step returns exactly (A*x + B*u, C*x + D*u). A run of the simulation over an input sequence starts at the initial state, performs min(number of inputs, simulated time / sample time) steps each fed with the previous state, and returns one more state than outputs; state i carries the time stamp i * sample time. (Exact arithmetic.)",
  ["inputs", "histories"], "all state, input and output dimensions, all input sequences",
  "tests run one small system",
  ["control/control.hpp"], [("simulate_step", "control/control.hpp:simulate_step"), ("simulate", "control/control.hpp:simulate")]),
P("P23", "acker returns the Ackermann gain for the requested poles",
  "For a controllable single-input pair (A, B) of order n and n poles, the returned 1 x n gain K equals [0 ... 0 1] times the inverse controllability matrix times p(A), p being the monic polynomial whose roots are the poles, so that A - B*K has the requested poles. Arguments are unchanged. (Exact arithmetic.)",
  ["inputs"], "all n >= 1, all controllable pairs, all real pole lists given as a matrix or a view",
  "tests place poles for one system",
  ["control/control.hpp"], [("acker", "control/control.hpp:acker")]),
P("P24", "flatnonzero and find return exactly the positions of the non-zero elements",
  "flatnonzero returns the row-major linear indices of all non-zero elements in increasing order. find returns the same indices, or the first or last n of them when n is smaller than their number, as a row for row-vector input and as a column otherwise.",
  ["inputs"], "all shapes, all element values, all n and both directions",
  "tests call find on one matrix without limits",
  ["utility.hpp"], [("flatnonzero", "utility.hpp:flatnonzero"), ("find", "utility.hpp:find")]),
P("P25", "linspace and logspace give evenly spaced points including both ends",
  "linspace(start, stop, n) has n elements with element i equal to start + i*(stop-start)/(n-1) for n >= 2, so first and last are start and stop (a single element is stop, and when the bounds are equal within the library tolerance every element is stop); logspace has the base raised to those values. (Exact arithmetic.)",
  ["inputs"], "all real bounds in either order, equal or nearly equal bounds, all counts",
  "tests generate one or two sequences",
  ["utility.hpp"], [("linspace", "utility.hpp:linspace"), ("logspace", "utility.hpp:logspace")]),
P("P26", "A vector or matrix written to a file is read back the same",
  "Writing a vector or matrix to a file stream and reading it back into any vector or matrix of the same element type gives the same shape and the same elements, up to the stream's decimal precision (exactly for integers), and reading consumes exactly what was written so that several objects can follow each other.",
  ["inputs", "histories"], "all shapes including empty, all finite element values, any prior content of the destination",
  "the test writes one vector and one matrix", ["io.hpp"], [("writers", "io.hpp:operator<<"), ("readers", "io.hpp:operator>>")]),
P("P27", "No operation accesses memory outside its operands",
  "For operands that satisfy the documented preconditions or are refused with an exception, every operation reads and writes only elements inside the storage of its operands and results, allocates exactly what it uses, and releases each block exactly once. No size computation wraps around.",
  ["inputs", "histories"], "all shapes and all operations, including empty operands and mismatched shapes",
  "the tests run without a memory checker on a few well-formed shapes",
  ["vector.hpp", "matrix.hpp", "view.hpp", "math.hpp", "utility.hpp", "linalg.hpp", "control/control.hpp"], [("bounds implied by loop guards and size checks", "math.hpp:operator*"), ("ownership", "vector.hpp:allocate")],
  observe=["address and bounds sanitizer reports; obligations on every element access"]),
P("P28", "Element-wise functions apply the function to every element",
  "real, imag, abs, exp, sign, the element-wise product and any user function mapped over one or two equally shaped vectors or matrices return a result of that shape whose every element is the function applied to the corresponding elements; a linear combination is A*a + B*b element by element, and the projection of a on b is b scaled by (a.b)/(b.b). Operands are unchanged.",
  ["inputs"], "all shapes, all element values, mixed element types",
  "tests use one shape and do not check all of these functions",
  ["math.hpp"], [("element_wise_function", "math.hpp:element_wise_function"), ("element_wise_binary_function", "math.hpp:element_wise_binary_function")]),
P("P29", "QR decomposition: Q orthogonal, R upper triangular, Q*R = A",
  "For every matrix with at least as many rows as columns and full column rank, the decomposition returns an orthogonal Q and an upper-triangular R with Q*R = A up to rounding.",
  ["inputs"], "all shapes and values in floating point", "tests factor one matrix",
  ["linalg.hpp"], [("Householder loop", "linalg.hpp:qr_decomposition")]),
P("P30", "Matrix exponential: scaled power series, squared; c2d samples a system with it",
  "expm(A, accuracy) approximates e^A within a small multiple of the requested accuracy, relative to its largest element: it is a partial sum 1 + X + X^2/2! + ... + X^K/K! of the exponential of X = A/2^m, squared m times, where m is the least number of halvings after which no row sum of magnitudes exceeds 1 (log2_ceil returns m and 2^-m). A matrix that is not square or has no element is refused. c2d(sys, Ts) has system matrix expm(A*Ts, 1e-5) =: E, input matrix A^-1 (E - I) B, the output and feedforward matrices unchanged and sample time Ts; it refuses a system matrix that is not square or has no inverse and an input matrix with another number of rows. No operand changes.",
  ["inputs"], "all matrices, all accuracies > 0, all state-space models whose output matrix fits (C has as many columns as A)", "tests evaluate one system",
  ["linalg.hpp", "math.hpp", "control/control.hpp"], [("scaled power series", "linalg.hpp:expm"), ("halvings", "math.hpp:log2_ceil"), ("c2d", "control/control.hpp:c2d")]),
P("P31", "Eigenvalue iteration converges to the Schur form",
  "The shifted QR iteration returns an upper-triangular matrix unitarily similar to its argument, and the eigenvectors of that matrix.",
  ["inputs"], "all square complex matrices", "no test reaches it",
  ["eigen.hpp"], [("QRHessenberg", "eigen.hpp:QRHessenberg")]),
P("P32", "Scalar helpers: mixed complex arithmetic, tolerance comparison, factorial",
  "Sum, difference, product and quotient of two complex numbers, or of a complex number and a real number in either order, of possibly different component types, are the complex operation on the operands converted to the common type. Two numbers are approximately equal exactly when the magnitude of their difference is at most the library tolerance times the larger of their magnitudes; approximately lesser (greater) or equal holds exactly when the left one is smaller (larger) or they are approximately equal; only zero is approximately equal to zero. factorial(n) is 1*2*...*n, and 1 for n = 0. (Exact arithmetic, values whose results fit the type.)",
  ["inputs"], "all values of real, integer and complex operands, all pairs of component types, all n >= 0",
  "tests reach these helpers only through a few matrix expressions",
  ["complex_math.hpp", "feq.hpp", "linalg.hpp"], [("mixed operators", "complex_math.hpp:operator+"), ("approximate equality", "feq.hpp:approximately_equal"), ("factorial", "linalg.hpp:factorial")]),
P("P33", "Random matrices and vectors have the requested shape and stay in range",
  "For limits min <= max, rand_matrix and rand_vector return an object of exactly the requested shape (also with no elements) and element type, every element of which lies between min and max inclusive; for complex elements the real and the imaginary part each lie between them.",
  ["inputs"], "all shapes including empty ones, all limits min <= max, whatever numbers the generator draws",
  "tests only use the result as some data and never look at the range",
  ["utility.hpp"], [("filling loop", "utility.hpp:rand_matrix"), ("filling loop", "utility.hpp:rand_vector")]),
P("P34", "Printed text and the Matlab form show every element once and in order",
  "Printing a vector or any kind of matrix (or view) to an output stream writes each element exactly once, in row-major order, with the stream's precision, separated by white space and with one line per row; dump_vector and dump_matrix return the name, '=' and the same text. to_matlab returns name = [ elements ] for a vector and name = [ [ elements of the row ]; ... ] with one bracketed row per row for a matrix. A complex element of either is written as its real part, its imaginary part with a sign, and i. Printing a state-space model shows A, B, C and D, each behind its name, and the sample time of a discrete one. Objects without elements print no element, and the operands are unchanged.",
  ["inputs"], "all shapes including empty ones, all elements, all kinds of matrix operands",
  "tests print but do not compare what was printed",
  ["io.hpp"], [("stream operators", "io.hpp:operator<<"), ("Matlab form", "io.hpp:to_matlab"), ("names", "io.hpp:dump_matrix")]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
