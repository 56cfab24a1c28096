# ---------------------------------------------------------------- LU (Crout): unit upper triangular U
# LL and UU are the unique functions with
#   LL(j,i) = A(j,i) - sum over k < i of LL(j,k)*UU(k,i)                        for i <= j, 0 above the diagonal
#   UU(i,j) = A(i,j)/LL(i,i) - sum over k < i of (LL(i,k)*UU(k,j))/LL(i,i)      for i < j, 1 on, 0 below the diagonal
# (recursion on the smaller index). lean/Lemmas.lean (lu_product): sum over k of LL(r,k)*UU(k,c) = A(r,c) when no LL(i,i) is zero.
for sx, el, MT, BT, zero, one in ELF:
    @contract('lu' + sx, 'std::pair<%s,%s> $(const %s&a){return linalg::lu_decomposition(a);}' % (MT, MT, BT), 'a:mat.%s' % el, 'P19 P09 P27')
    def _(k, el=el, zero=zero, one=one):
        a, n, S = k.a, k.a.rows, SORT[el]
        k.throws(a.rows != a.cols)
        LL, UU = z3.Function('LL' + el, Int, Int, S), z3.Function('UU' + el, Int, Int, S)
        F = k.fold(2, lambda j, i: a(j, i), lambda acc, t, j, i: gsub(acc, gmul(LL(j, t), UU(t, i))), name='lsum', sort=S)
        G = k.fold(2, lambda i, j: gdiv(a(i, j), LL(i, i)), lambda acc, t, i, j: gsub(acc, gdiv(gmul(LL(i, t), UU(t, j)), LL(i, i))), name='usum', sort=S)
        lval = lambda r, c: z3.If(c <= r, F(c, r, c), zero)
        uval = lambda r, c: z3.If(r < c, G(r, r, c), z3.If(r == c, one, zero))
        k.define_all(2, lambda r, c: z3.Implies(z3.And(r >= 0, c >= 0), z3.And(LL(r, c) == lval(r, c), UU(r, c) == uval(r, c))))
        k.region('l', 1, lambda v0, i: v0.withC(CLam(2, S, lambda r, c: z3.If(c < i, LL(r, c), zero))))
        k.region('u', 1, lambda v0, i: v0.withC(CLam(2, S, lambda r, c: z3.If(r < i, UU(r, c), zero))))
        k.region('l2', 2, lambda v0, i, j: v0.withC(CLam(2, S, lambda r, c: z3.If(z3.Or(c < i, z3.And(c == i, r < j)), LL(r, c), zero))))
        k.region('u2', 2, lambda v0, i, j: v0.withC(CLam(2, S, lambda r, c: z3.If(z3.Or(r < i, z3.And(r == i, c < j)), UU(r, c), zero))))
        k.ret(TupSpec([(0, k.mat(n, n, lambda r, c: LL(r, c), el, goal=False)), (40, k.mat(n, n, lambda r, c: UU(r, c), el, goal=False))]))

# ---------------------------------------------------------------- determinant
# DET(t,c,n) is the determinant of rows/columns c..n-1 of the content named t. Every clause below is a valid
# statement about determinants (a universally quantified hypothesis is refuted by a fresh witness); lean/Lemmas.lean:
#   det_empty, det_ext, det_swap, det_zero_column, det_eliminate
def det_lemmas(mats, ints, N):
    facts, inst = [], []
    for c in ints:
        for M in mats:
            t = tok(M)
            facts.append(z3.Implies(c == N, DET(t, c, N) == 1))
            w = fresh('w')
            inst.append((w,))
            facts.append(z3.Implies(z3.And(c >= 0, c < N), z3.Or(z3.And(w >= c, w < N, M(w, c) != 0), DET(t, c, N) == 0)))
    for i, M in enumerate(mats):
        for X in mats[i + 1:]:
            if X.C is M.C:
                continue
            for c in ints:
                u, v = fresh('w'), fresh('w')
                inst.append((u, v))
                box = z3.And(u >= c, u < N, v >= c, v < N)
                facts.append(z3.Or(c < 0, z3.And(box, X(u, v) != M(u, v)), DET(tok(X), c, N) == DET(tok(M), c, N)))
    for M, X in zip(mats, mats[1:]):
        if X.C is M.C:
            continue
        for c in ints:
            u, v = fresh('w'), fresh('w')
            inst.append((u, v))
            # X is M with column c eliminated below row c (column c itself is not looked at)
            facts.append(z3.Or(c < 0, c >= N, M(c, c) == 0,
                               z3.And(u >= c, u < N, v > c, v < N,
                                      X(u, v) != z3.If(u == c, M(u, v), fsub(M(u, v), fmul(fdiv(M(u, c), M(c, c)), M(c, v))))),
                               fmul(M(c, c), DET(tok(X), c + 1, N)) == DET(tok(M), c, N)))
            for d in ints:
                if d.eq(c):
                    continue
                u, v = fresh('w'), fresh('w')
                inst.append((u, v))
                row = lambda i, j: z3.If(i == c, M(d, j), z3.If(i == d, M(c, j), M(i, j)))
                facts.append(z3.Or(c < 0, d <= c, d >= N, z3.And(u >= c, u < N, v >= c, v < N, X(u, v) != row(u, v)),
                                   DET(tok(X), c, N) == -DET(tok(M), c, N)))
    return facts, inst

def leibniz(M, n):
    import itertools as it
    t = []
    for p in it.permutations(range(n)):
        s = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        x = M(0, p[0])
        for i in range(1, n):
            x = fmul(x, M(i, p[i]))
        t.append(-x if s % 2 else x)
    return z3.Sum(*t) if len(t) > 1 else t[0]

def fmul_terms(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().eq(FMUL):
            out.append(x)
        todo.extend(x.children())
    return out

CMB = 'const MatrixBase<const double>&'
@contract('det', ['double $(const MB&a){return linalg::determinant(a);}', 'double $(%s a){return linalg::determinant(a);}' % CMB], 'a:mat', 'P17 P09 P27', uses='swap_rows', cost=10)
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    T = DET(tok(a), I(0), N)
    if k.mode == 'call':
        k.ret(T)
        return
    k.ret('real')
    k.snap = True
    k.ensures('empty matrix: 1', lambda rv: z3.Implies(N == 0, rv == 1))
    for n in range(1, 5):
        k.ensures('%d x %d: sum over the permutations' % (n, n), lambda rv, n=n: z3.Implies(N == n, rv == leibniz(a, n)))
    k.ensures('the determinant of the elements', lambda rv: z3.Implies(N >= 5, rv == T))
    k.statecands.append(('det', lambda d, c, M: fmul(d, DET(tok(M), c, N)) == T))
    k.matpreds.append(('column below', lambda M, i, c: M(i, c) == 0))
    def elim(v0, c, r, off):
        return v0.withC(CLam(2, Real, lambda i, j: z3.If(z3.And(i > c, i < r, j >= c + off), fsub(v0(i, j), fmul(fdiv(v0(i, c), v0(c, c)), v0(c, j))), v0(i, j))))
    def row(v0, c, r, kk, off):
        return v0.withC(CLam(2, Real, lambda i, j: z3.If(z3.And(i == r, j >= c + off, j < kk), fsub(v0(i, j), fmul(fdiv(v0(r, c), v0(c, c)), v0(c, j))), v0(i, j))))
    for off in (0, 1):
        k.region('elim%d' % off, 2, lambda v0, c, r, off=off: elim(v0, c, r, off))
        k.region('row%d' % off, 3, lambda v0, c, r, kk, off=off: row(v0, c, r, kk, off))
    def lemmas(st, g):
        mats = [a]
        for M in st.snaps + [v for l, v in st.mem.items() if l[0].startswith('f') and isinstance(v, MatVal) and v.C.sort == Real]:
            if not any(M.C is X.C for X in mats):
                mats.append(M)
        ints = [I(0)]
        for t in st.terms[-6:]:
            if not any(t.eq(x) for x in ints):
                ints.append(t)
        facts, inst = det_lemmas(mats, ints, N)
        for p in st.pc:                       # x*0 = 0 and x*1 = x
            for f in fmul_terms(p):
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if y.decl().eq(DET):
                        facts += [z3.Implies(y == 0, f == 0), z3.Implies(y == 1, f == x)]
        # (x*y)*z = x*(y*z), and signs
        for f in fmul_terms(g):
            for x, z in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z.decl().eq(DET) and x.decl().eq(FMUL):
                    p, q = x.arg(0), x.arg(1)
                    facts += [f == FMUL(p, FMUL(q, z)), f == FMUL(q, FMUL(p, z))]
                    for M in mats:
                        for c in ints:
                            facts += [FMUL(y, -DET(tok(M), c, N)) == -FMUL(y, DET(tok(M), c, N)) for y in (p, q)]
        return facts, inst
    k.lemmas = lemmas

# complex: the same argument, part by part. The lemmas hold over every field
DETC = [z3.Function('DETC_' + p, Int, Int, Int, Real) for p in ('re', 'im')]
def detc(M, c, n):
    return CX(*[f(tok(M), c, n) for f in DETC])
def detc_lemmas(mats, ints, N, ds):
    facts, inst = [], []
    nz = lambda x: z3.Or(RE(x) != 0, IM(x) != 0)
    eq0 = lambda x, y: z3.And(RE(x) == RE(y), IM(x) == IM(y))
    for c in ints:
        for M in mats:
            D = detc(M, c, N)
            facts.append(z3.Implies(c == N, z3.And(RE(D) == 1, IM(D) == 0)))
            w = fresh('w')
            inst.append((w,))
            facts.append(z3.Implies(z3.And(c >= 0, c < N), z3.Or(z3.And(w >= c, w < N, nz(M(w, c))), z3.And(RE(D) == 0, IM(D) == 0))))
    for i, M in enumerate(mats):
        for X in mats[i + 1:]:
            if X.C is M.C:
                continue
            for c in ints:
                u, v = fresh('w'), fresh('w')
                inst.append((u, v))
                box = z3.And(u >= c, u < N, v >= c, v < N)
                facts.append(z3.Or(c < 0, z3.And(box, z3.Not(eqv(X(u, v), M(u, v)))), eq0(detc(X, c, N), detc(M, c, N))))
    for M, X in zip(mats, mats[1:]):
        if X.C is M.C:
            continue
        for c in ints:
            u, v = fresh('w'), fresh('w')
            inst.append((u, v))
            p, D, D0 = M(c, c), detc(X, c + 1, N), detc(M, c, N)
            new = ite(u == c, M(u, v), gsub(M(u, v), gmul(gdiv(M(u, c), p), M(c, v))))
            facts.append(z3.Or(c < 0, c >= N, z3.Not(nz(p)), z3.And(u >= c, u < N, v > c, v < N, z3.Not(eqv(X(u, v), new))), eq0(gmul(p, D), D0)))
            for d in ds + [CX(-RE(e), -IM(e)) for e in ds]:                      # (d * p) * D = d * (p * D)
                facts.append(eq0(gmul(gmul(d, p), D), gmul(d, gmul(p, D))))
                facts.append(z3.Implies(eq0(gmul(p, D), D0), eq0(gmul(d, gmul(p, D)), gmul(d, D0))))
            for d in ints:
                if d.eq(c):
                    continue
                u, v = fresh('w'), fresh('w')
                inst.append((u, v))
                row = lambda i, j: ite(i == c, M(d, j), ite(i == d, M(c, j), M(i, j)))
                D, D0 = detc(X, c, N), detc(M, c, N)
                facts.append(z3.Or(c < 0, d <= c, d >= N, z3.And(u >= c, u < N, v >= c, v < N, z3.Not(eqv(X(u, v), row(u, v)))),
                                   z3.And(RE(D) == -RE(D0), IM(D) == -IM(D0))))
                for e in ds:
                    m = CX(-RE(e), -IM(e))
                    n = CX(-RE(D0), -IM(D0))
                    facts.append(z3.Implies(z3.And(RE(D) == -RE(D0), IM(D) == -IM(D0)), eq0(gmul(m, D), gmul(e, D0))))
    return facts, inst
def leibniz_c(M, n):
    import itertools as it
    t = None
    for p in it.permutations(range(n)):
        s = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        x = M(0, p[0])
        for i in range(1, n):
            x = gmul(x, M(i, p[i]))
        t = x if t is None else gsub(t, x) if s % 2 else gadd(t, x)
    return t
CMBX = 'const MatrixBase<const X>&'
@contract('det_c', ['X $(%s a){return linalg::determinant(a);}' % t for t in ('const MBX&', CMBX)], 'a:mat.c', 'P17 P09 P27', uses='swap_rows_c fzero_c', cost=10)
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    T = detc(a, I(0), N)
    if k.mode == 'call':
        k.ret(RegSpec([RE(T), IM(T)]))
        return
    k.ret(RegSpec(['real', 'real']))
    k.snap = True
    k.ensures('empty matrix: 1', lambda rv: z3.Implies(N == 0, z3.And(rv[0] == 1, rv[1] == 0)))
    for i, (nm, part) in enumerate((('real', RE), ('imaginary', IM))):
        for n in range(1, 5):
            k.ensures('%d x %d: sum over the permutations, %s part' % (n, n, nm), lambda rv, n=n, i=i, part=part: z3.Implies(N == n, rv[i] == part(leibniz_c(a, n))))
        k.ensures('the determinant of the elements, %s part' % nm, lambda rv, i=i, part=part: z3.Implies(N >= 5, rv[i] == part(T)))
    k.statecands_c.append(('det', lambda d, c, M: eqv(gmul(d, detc(M, c, N)), T)))
    k.matpreds.append(('column below', lambda M, i, c: z3.And(RE(M(i, c)) == 0, IM(M(i, c)) == 0)))
    step = lambda v0, i, j, r, c: gsub(v0(i, j), gmul(gdiv(v0(r, c), v0(c, c)), v0(c, j)))
    for off in (0, 1):
        k.region('elim%d' % off, 2, lambda v0, c, r, off=off: v0.withC(CLam(2, Cx, lambda i, j: ite(z3.And(i > c, i < r, j >= c + off), step(v0, i, j, i, c), v0(i, j)))))
        k.region('row%d' % off, 3, lambda v0, c, r, kk, off=off: v0.withC(CLam(2, Cx, lambda i, j: ite(z3.And(i == r, j >= c + off, j < kk), step(v0, i, j, r, c), v0(i, j)))))
    def lemmas(st, g):
        mats = [a]
        for M in st.snaps + [v for l, v in st.mem.items() if l[0].startswith('f') and isinstance(v, MatVal) and v.C.sort == Cx]:
            if not any(M.C is X.C for X in mats):
                mats.append(M)
        ints = [I(0)]
        for t in st.terms[-6:]:
            if not any(t.eq(x) for x in ints):
                ints.append(t)
        facts, ys = [], []
        for p in st.pc:                       # x*0 = 0 and x*1 = x
            for f in fmul_terms(p):
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if any(y.decl().eq(D) for D in DETC):
                        facts += [z3.Implies(y == 0, f == 0), z3.Implies(y == 1, f == x)]
                        if not any(x.eq(z) for z in ys):
                            ys.append(x)
        f2, inst = detc_lemmas(mats, ints, N, [CX(x, y) for x in ys for y in ys if not x.eq(y)][:6])
        return facts + f2, inst
    k.lemmas = lemmas

# int: up to 4 x 4 (the elimination beyond divides integers)
def leibniz_i(M, n):
    import itertools as it
    t = None
    for p in it.permutations(range(n)):
        s = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        x = M(0, p[0])
        for i in range(1, n):
            x = gmul(x, M(i, p[i]))
        t = x if t is None else t - x if s % 2 else t + x
    return t
CMBI = 'const MatrixBase<const int>&'
@contract('det_i', ['int $(%s a){return linalg::determinant(a);}' % t for t in ('const MBI&', CMBI)], 'a:mat.i', 'P17 P09 P27', uses='swap_rows_i', cost=10)
def _(k):
    a, N = k.a, k.a.cols
    k.requires(N <= 4)
    k.throws(a.rows != a.cols)
    k.ret('int')
    k.retbits, k.ret_signed, k.intrange = 32, True, True
    k.ensures('empty matrix: 1', lambda rv: z3.Implies(N == 0, rv == 1))
    for n in range(1, 5):
        k.ensures('%d x %d: sum over the permutations' % (n, n), lambda rv, n=n: z3.Implies(N == n, rv == leibniz_i(a, n)))

# ---------------------------------------------------------------- adjoint, inverse, quotient
# adj(r,c) = (-1)^(r+c) * determinant of a without row c and column r; lean/Lemmas.lean (adjugate): a * adj = det(a) * 1
def adjugate(a, N):
    def f(r, c):
        d = DET(tok(minor(a, c, r)), I(0), N - 1)
        return z3.If(N == 1, R(1), z3.If((r + c) % 2 == 0, d, -d))
    return f

@contract('adjoint', ['MD $(const MB&a){return linalg::adjoint(a);}', 'MD $(%s a){return linalg::adjoint(a);}' % CMB], 'a:mat', 'P18 P09 P27', uses='det cof_ctorc')
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    k.ret(k.mat(N, N, adjugate(a, N)))

@contract('inverse', ['MD $(const MB&a){return linalg::inverse(a);}', 'MD $(%s a){return linalg::inverse(a);}' % CMB], 'a:mat', 'P18 P09 P27', uses='det adjoint')
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    T, adj = DET(tok(a), I(0), N), adjugate(a, N)
    n = z3.If(T == 0, I(0), N)
    k.ret(k.mat(n, n, lambda r, c: fdiv(adj(r, c), T)))

def adjugate_c(a, N):
    r0, c0 = z3.Ints('adj_r adj_c')
    m = detc(minor(a, c0, r0), I(0), N - 1)          # once; an element of it is an instance
    def f(r, c):
        d = z3.substitute(m, (r0, toi(r)), (c0, toi(c)))
        return ite(N == 1, CX(R(1), R(0)), ite((r + c) % 2 == 0, d, CX(fneg(RE(d)), fneg(IM(d)))))
    return f
@contract('adjoint_c', ['MX $(%s a){return linalg::adjoint(a);}' % t for t in ('const MBX&', CMBX)], 'a:mat.c', 'P18 P09 P27', uses='det_c cof_ctorc_c')
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    k.ret(k.mat(N, N, adjugate_c(a, N), 'c'))

@contract('inverse_c', ['MX $(%s a){return linalg::inverse(a);}' % t for t in ('const MBX&', CMBX)], 'a:mat.c', 'P18 P09 P27', uses='det_c adjoint_c fzero_c')
def _(k):
    a, N = k.a, k.a.cols
    k.throws(a.rows != a.cols)
    T, adj = detc(a, I(0), N), adjugate_c(a, N)
    n = z3.If(z3.And(RE(T) == 0, IM(T) == 0), I(0), N)
    k.ret(k.mat(n, n, lambda r, c: gdiv(adj(r, c), T), 'c'))

detf = lambda a, n: detc(a, I(0), n) if a.elt == 'c' else DET(tok(a), I(0), n)
adjf = lambda a, n: (adjugate_c if a.elt == 'c' else adjugate)(a, n)
QUOT = [z3.Function('quot_' + p, Int, Int, Int, Int, Int, Real) for p in ('re', 'im')]
for sx, el, MT, BT, zero, one in ELF:
    @contract('mdiv' + sx, '%s $(const %s&a,const %s&b){return linalg::div(a,b);}' % (MT, BT, BT), 'a:mat.%s b:mat.%s' % (el, el), 'P18 P09 P27', uses='inverse%s mat_mul%s' % (sx, sx))
    def _(k, el=el, zero=zero):
        a, b, N = k.a, k.b, k.b.cols
        T, adj = detf(b, N), adjf(b, N)
        n = z3.If(isz(T), I(0), N)
        k.throws(z3.Or(b.rows != b.cols, a.cols != n))
        if k.mode == 'call':                # a function of the elements
            ta, tb = tok(a), tok(b)
            q = lambda r, c: [f(ta, tb, N, r, c) for f in QUOT]
            k.ret(k.mat(a.rows, n, (lambda r, c: CX(*q(r, c))) if el == 'c' else (lambda r, c: q(r, c)[0]), el))
            return
        F = k.fold(2, lambda i, j: zero, lambda acc, t, i, j: gadd(acc, gmul(a(i, t), gdiv(adj(t, j), T))), name='quot', sort=zero.sort())
        k.ret(k.mat(a.rows, n, lambda i, j: F(a.cols, i, j), el))

# ---------------------------------------------------------------- Ackermann's formula
# the result is [0 .. 0 1] * (inverse of the controllability matrix) * p(A), p(A) = sum over i <= n of p(i) * A^(n-i),
# p the coefficients of the monic polynomial whose roots are the poles
for sx, el, MT, BT, zero, one in ELF:
    @contract('acker' + sx, 'MD $(const MB&a,const MB&b,const MB&p){return control::acker(a,b,p);}'.replace('MD', MT).replace('MB', BT), 'a:mat.E b:mat.E p:mat.E'.replace('E', el), 'P23 P27',
              uses=' '.join(x + sx for x in 'ctrb det polym powm inverse zeros mat_mul mm_iadd ms_mul'.split()), alias=[('a', 'b')])
    def _(k, el=el, zero=zero, one=one):
        a, b, p, n, S = k.a, k.b, k.p, k.a.rows, zero.sort()
        POW = powers(a, zero, one)
        ct = MatVal(n, n, CLam(2, S, lambda r, j: ctrb_cell(a, b, POW, r, j, zero)), el)
        T, adj = detf(ct, n), adjf(ct, n)
        k.exits(z3.Or(a.rows != a.cols, b.cols != 1, b.rows != n, p.rows != 1, p.cols != n, n == 0, isz(T)))
        inv = lambda r, c: gdiv(adj(r, c), T)
        sz = prod(p.rows, p.cols)
        CO = coefficients(lambda i: p(dv(i, p.cols), md(i, p.cols)), zero, one)
        PA = Fold(2, lambda r, c: zero, lambda acc, i, r, c: gadd(acc, gmul(POW(n - i, r, c), CO(sz, i))), S, name='pa')
        SEL = Fold(1, lambda j: zero, lambda acc, t, j: gadd(acc, gmul(z3.If(t == n - 1, one, zero), inv(t, j))), S, name='sel')
        n1 = k.ghost('terms')
        k.define(n1 == n + 1)
        G = Fold(1, lambda c: zero, lambda acc, t, c: gadd(acc, gmul(SEL(n, t), PA(n1, t, c))), S, name='gain')
        k.bounds += [n, n + 1]
        k.region('pa', 1, lambda v0, i: v0.withC(CLam(2, S, lambda r, c: PA(i, r, c))))
        k.ret(k.mat(1, n, lambda r, c: G(n, c), el))
        k.induct('[0 .. 0 1] * inverse is the last row of the inverse', 1, lambda m, j: z3.Implies(n >= 1, SEL(m, j) == z3.If(m >= n, inv(n - 1, j), zero)))
