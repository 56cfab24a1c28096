# matrix exponential and discretisation
def halves(n):
    """2^-n"""
    return Fold(0, lambda: R(1), lambda acc, i: fmul(acc, rat(0.5)), name='half')(n)
def rowsum_norm(a):
    """the largest row sum of magnitudes, as infinity_norm states it"""
    G = Fold(1, lambda r: R(0), lambda acc, n, r: fadd(acc, gabs(a(r, n))), name='rowsum')
    F = Fold(0, lambda: R(0), lambda acc, n: rmax(acc, G(a.cols, n)), name='maxrow')
    return z3.If(z3.Or(a.rows == 0, a.cols == 0), R(0), F(a.rows))
LEAST = z3.Function('least_halvings', Real, Int)      # the least n with x * 2^-n <= 1; it exists: Lean, exists_halving

for sx, el, MT, BT, zero, one in ELF:
    @contract('log2_ceil' + sx, 'std::pair<Z,double> $(const %s&a){return log2_ceil(a);}' % BT, 'a:mat.' + el, 'P30 P27', uses='minfnorm' + sx)
    def _(k):
        x = rowsum_norm(k.a)
        m = LEAST(x)
        k.define(z3.And(m >= 0, m < 1 << 62, fmul(x, halves(m)) <= 1))
        if k.mode == 'verify':
            k.define_all(1, lambda j: z3.Implies(z3.And(j >= 0, j < m), fmul(x, halves(j)) > 1))
            k.bounds.append(m)
        k.realcands.append(('half', 1, lambda s, n: z3.And(n <= m, s == halves(n))))
        k.ret(RegSpec([m, halves(m)]))

# with X = A / 2^m, m the least number for which no row sum of magnitudes of X exceeds 1: the result is the sum
# 1 + X + X^2/2! + ... + X^K/K!, for some K, squared m times
EXPM = z3.Function('expm', Int, Real, Int, Int, Real)       # to a caller: a function of the elements and the accuracy
EXPM_C = [z3.Function('expm_' + p, Int, Real, Int, Int, Real) for p in ('re', 'im')]
def expf(el):
    return EXPM if el == 'd' else lambda *x: CX(*[f(*x) for f in EXPM_C])
# recursions that start at 1, so that the library's counter of the terms is their index
INVFACT = Rec(0, lambda: R(1), lambda P, n: fmul(P(), fdiv(R(1), z3.ToReal(n))), name='invfact', start=1)     # n -> 1/(n-1)!
def series(X, zero, one):
    """X^(n-1) and the sum over i < n of X^i / i!, by element"""
    unit = lambda r, c: z3.If(r == c, one, zero)
    POW = Rec(2, unit, lambda P, n, r, c: sumprod(X.cols, lambda j: P(r, j), lambda j: X(j, c), zero), zero.sort(), name='pow', start=1)
    return POW, Rec(2, unit, lambda P, n, r, c: gadd(P(r, c), gmul(POW(n + 1, r, c), INVFACT(n + 1))), zero.sort(), name='series', start=1)
def squared(N, S, zero):
    """S squared repeatedly"""
    return Rec(2, lambda r, c: S(r, c), lambda P, n, r, c: sumprod(N, lambda j: P(r, j), lambda j: P(j, c), zero), zero.sort(), name='square')

for sx, el, MT, BT, zero, one in ELF:
    sd = '_cd' if sx else ''
    @contract('expm' + sx, '%s $(const %s&a,double e){return linalg::expm(a,e);}' % (MT, BT), 'a:mat.%s e:d' % el, 'P30 P27',
              uses='feq fzero' + ''.join(' ' + x + sx for x in 'log2_ceil eye mat_mul mm_iadd mdiv msqnorm'.split()) + ' ms_mul%s ms_add%s' % (sd, sd), cost=5)
    def _(k, el=el, zero=zero, one=one):
        a, N, E = k.a, k.a.cols, zero.sort()
        k.throws(z3.Or(a.rows != a.cols, a.rows == 0))
        if k.mode == 'call':
            t = tok(a)
            k.ret(k.mat(N, N, lambda r, c: expf(el)(t, k.e, r, c), el))
            return
        k.maythrow = True              # the estimate of the error divides by a matrix: nothing is promised when that one is singular
        k.no_termination = 'the series is stopped by an estimate of the error: its convergence is not proved'
        m = LEAST(rowsum_norm(a))
        X = a.withC(CLam(2, E, lambda r, c: gmul(a(r, c), halves(m))))
        POW, S = series(X, zero, one)
        k.fieldfacts = True
        k.entrycands.append(('first', 1, lambda x, entry, b: z3.Implies(b == 1, x == entry)))
        k.realcands.append(('positive', 0, lambda x: x > 0))
        k.phicands.append((1, 'square', lambda b: z3.Implies(b > 1, a.rows == N)))
        k.phicands.append((1, 'from one', lambda b: b >= 1))
        k.acc(0, INVFACT, 'invfact')
        k.acc(1, lambda i, b: INVFACT(b + i), 'invfact2')
        mk = lambda v0, f: v0.withC(CLam(2, E, f))
        k.region('power', 1, lambda v0, b: mk(v0, lambda r, c: POW(b, r, c)))
        k.region('power2', 2, lambda v0, b, i: mk(v0, lambda r, c: POW(b + i, r, c)))
        k.region('sum', 1, lambda v0, b: mk(v0, lambda r, c: S(b, r, c)))
        k.region('part', 2, lambda v0, b, i: mk(v0, lambda r, c: gsub(S(b + i, r, c), S(b, r, c))))
        k.region('part1', 2, lambda v0, b, i: mk(v0, lambda r, c: gsub(S(i, r, c), S(b, r, c))))
        k.region('square', 1, lambda v0, n: mk(v0, lambda r, c: squared(N, v0.C.read, zero)(n, r, c)))
        k.ret(SomeSpec(lambda t: k.mat(N, N, lambda r, c: squared(N, lambda u, v: S(t, u, v), zero)(m, r, c), el), None))

    # the sampled system: Ad = e^(A t), Bd = A^-1 (Ad - 1) B, the other matrices as they are
    CT, TT, DT = ('SS', 'double', 'DS') if el == 'd' else ('control::StateSpace<X>', 'X', 'control::DiscreteStateSpace<X>')
    @contract('c2d' + sx, '%s $(const %s&s,%s t){return control::c2d(s,t);}' % (DT, CT, TT), 's:css.%s t:%s' % (el, 'd' if el == 'd' else 'x'), 'P30 P27',
              uses=' '.join(x + sx for x in 'expm ms_mul inverse identity mm_sub mat_mul'.split()))
    def _(k, el=el, zero=zero, one=one):
        A, B, C, D, t, n, E = k.A, k.B, k.C, k.D, k.t, k.A.rows, zero.sort()
        k.requires(C.cols == n)            # the library asserts it
        T, adj = detf(A, n), adjf(A, n)
        k.throws(z3.Or(n != A.cols, n == 0, isz(T), B.rows != n))
        k.maythrow = True                  # as expm
        h = tok(A.withC(CLam(2, E, lambda r, c: gmul(A(r, c), t))))
        Ad = lambda r, c: expf(el)(h, rat(1e-05), r, c)
        Q = k.fold(2, lambda i, j: zero, lambda acc, x, i, j: gadd(acc, gmul(gdiv(adj(i, x), T), gsub(Ad(x, j), z3.If(x == j, one, zero)))), name='quot', sort=E)
        F = k.fold(2, lambda i, j: zero, lambda acc, x, i, j: gadd(acc, gmul(Q(n, i, x), B(x, j))), name='input', sort=E)
        k.ret(TupSpec([(0, k.mat(n, n, Ad, el)), (40, k.mat(n, B.cols, lambda i, j: F(n, i, j), el)), (80, C), (120, D)] + ([(160, t)] if el == 'd' else [(160, RE(t)), (168, IM(t))])))
