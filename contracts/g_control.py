# powers, controllability / observability matrices; elements double and std::complex<double>
ELF = [(sx, el, text('MD1', el), text('MB1', el), zero_of(el), CX(R(1), R(0)) if el == 'c' else R(1)) for sx, el in (('', 'd'), ('_c', 'c'))]
def sumprod(n, x, y, zero=R(0)):
    """sum over t < n of x(t) * y(t)"""
    return Fold(0, lambda: zero, lambda acc, t: gadd(acc, gmul(x(t), y(t))), zero.sort(), name='dot')(n)
def powers(A, zero=R(0), one=R(1)):
    """POW(0) is the identity, POW(n+1) = POW(n) * A"""
    def step(P, n, r, c):
        return sumprod(A.cols, lambda j: P(r, j), lambda j: A(j, c), zero)
    return Rec(2, lambda r, c: z3.If(r == c, one, zero), step, zero.sort(), name='pow')
# block m of the controllability matrix: B for m = 0, A^m * B otherwise (columns m*q .. m*q+q-1)
def ctrb_cell(A, B, POW, r, j, zero=R(0)):
    m, c = dv(j, B.cols), md(j, B.cols)
    return z3.If(j < B.cols, B(r, j), sumprod(A.cols, lambda t: POW(m, r, t), lambda t: B(t, c), zero))
def obsv_cell(A, Cm, POW, i, c, zero=R(0)):
    m, r = dv(i, Cm.rows), md(i, Cm.rows)
    return z3.If(i < Cm.rows, Cm(i, c), sumprod(Cm.cols, lambda t: Cm(r, t), lambda t: POW(m, t, c), zero))

for sx, el, MT, BT, zero, one in ELF:
    @contract('powm' + sx, '%s $(const %s&a,Z n){return linalg::powm(a,n);}' % (MT, BT), 'a:mat.%s n:n' % el, 'P20 P27', uses='eye%s mat_imul%s' % (sx, sx))
    def _(k, el=el, zero=zero, one=one):
        a = k.a
        k.throws(z3.Or(a.rows == 0, a.cols == 0, z3.And(k.n > 0, a.rows != a.cols)))
        POW = powers(a, zero, one)
        k.phicands.append((1, 'once', lambda n: z3.Implies(n > 0, a.rows == a.cols)))
        k.region('power', 1, lambda v0, n: v0.withC(CLam(2, SORT[el], lambda r, c: POW(n, r, c))))
        k.ret(k.mat(a.rows, a.cols, lambda r, c: POW(k.n, r, c), el))

    @contract('ctrb' + sx, '%s $(const %s&a,const %s&b){return control::ctrb(a,b);}' % (MT, BT, BT), 'a:mat.%s b:mat.%s' % (el, el), 'P20 P09 P27', uses='powm%s mat_mul%s hstack%s' % (sx, sx, sx), alias=[('a', 'b')])
    def _(k, el=el, zero=zero, one=one):
        a, b = k.a, k.b
        k.requires(prod(a.rows, b.cols) <= MAXDIM)
        k.throws(z3.Or(a.rows != a.cols, a.rows != b.rows))
        POW = powers(a, zero, one)
        f = lambda r, j: ctrb_cell(a, b, POW, r, j, zero)
        k.region('blocks', 1, lambda v0, i: MatVal(b.rows, prod(i, b.cols), CLam(2, SORT[el], f), el))
        k.ret(k.mat(a.rows, z3.If(a.rows == 0, b.cols, prod(a.rows, b.cols)), f, el))

    @contract('obsv' + sx, '%s $(const %s&a,const %s&c){return control::obsv(a,c);}' % (MT, BT, BT), 'a:mat.%s c:mat.%s' % (el, el), 'P20 P09 P27', uses='powm%s mat_mul%s vstack%s' % (sx, sx, sx), alias=[('a', 'c')])
    def _(k, el=el, zero=zero, one=one):
        a, c = k.a, k.c
        k.requires(prod(a.rows, c.rows) <= MAXDIM)
        k.throws(z3.Or(a.rows != a.cols, a.rows != c.cols))
        POW = powers(a, zero, one)
        f = lambda i, j: obsv_cell(a, c, POW, i, j, zero)
        k.region('blocks', 1, lambda v0, i: MatVal(prod(i, c.rows), c.cols, CLam(2, SORT[el], f), el))
        k.ret(k.mat(z3.If(a.rows == 0, c.rows, prod(a.rows, c.rows)), c.cols, f, el))

# ---------------------------------------------------------------- polynomials
def coefficients(a, zero=R(0), one=R(1)):
    """CO(n,i): coefficient i of prod over t < n of (x - a(t)), highest power first"""
    def step(P, n, i):
        return gsub(z3.If(i <= n, P(i), zero), z3.If(i >= 1, gmul(a(n), P(i - 1)), zero))
    return Rec(1, lambda i: z3.If(i == 0, one, zero), step, zero.sort(), name='coef')
def poly_regions(k, CO, zero=R(0)):
    low = lambda j, t: z3.If(t <= j, CO(j, t), zero)
    mk = lambda v0, f: v0.withC(CLam(1, zero.sort(), f))
    k.region('coef', 1, lambda v0, j: mk(v0, lambda t: low(j, t)))
    k.region('coef3', 2, lambda v0, j, i: mk(v0, lambda t: z3.If(t < i, z3.If(t <= j + 1, CO(j + 1, t), zero), low(j, t))))
    k.acc(1, lambda i, j: low(j, i - 1), 'previous')
    k.region('coef2', 2, lambda v0, j, i: mk(v0, lambda t: z3.If(z3.And(t > i, t <= j + 1), CO(j + 1, t), low(j, t))))
for sx, el, MT, BT, zero, one in ELF:
    @contract('poly' + sx, '%s $(const %s&a){return control::poly(a);}' % ((KIND[el]['V'],) * 2), 'a:vec.' + el, 'P21 P27')
    def _(k, el=el, zero=zero, one=one):
        k.requires(k.a.size < MAXLEN)
        CO = coefficients(k.a, zero, one)
        poly_regions(k, CO, zero)
        k.ret(k.vec(k.a.size + 1, lambda i: CO(k.a.size, i), el))
for sx, el in (('', 'd'), ('_i', 'i')):
    @contract('polyreduce' + sx, '%s $(const %s&a){return control::polyreduce(a);}' % ((KIND[el]['V'],) * 2), 'a:vec.' + el, 'P21 P27')
    def _(k, el=el):
        a, n, zero = k.a, k.a.size, KIND[el]['zero']
        # number of leading zeros: the least index of a non-zero element, or n
        z = k.ghost('zeros')
        k.define(z3.And(z >= 0, z <= n, z3.Implies(z < n, z3.Not(isz(a(z))))))
        k.define_all(1, lambda i: z3.Implies(z3.And(i >= 0, i < z), isz(a(i))))
        k.insts.append((z,))
        k.pred([n], lambda i: isz(a(i)))
        k.shifts.append(-z)
        k.ret(k.vec(z3.If(z == n, I(1), n - z), lambda i: z3.If(z == n, zero, a(i + z)), el))
isz = lambda x: z3.And(RE(x) == 0, IM(x) == 0) if x.sort() == Cx else x == 0
gneg = lambda x: CX(fneg(RE(x)), fneg(IM(x))) if x.sort() == Cx else fneg(x)
def leverrier(A, zero=R(0), one=R(1)):
    """B(2) = A, l(m) = trace B(m) / (m-1), B(m+1) = A * (B(m) - l(m) I): -l(m) is coefficient m-1 of the characteristic polynomial"""
    n, S = A.rows, zero.sort()
    tr = lambda P: Fold(0, lambda: zero, lambda acc, i: gadd(acc, P(i, i)), S, name='trace')(n)
    def lam(P, m):
        return z3.If(m == 2, tr(lambda r, c: A(r, c)), gdiv(tr(P), z3.ToReal(m - 1)))
    def step(P, m, r, c):
        return Fold(0, lambda: zero, lambda acc, t: gadd(acc, gmul(A(r, t), gsub(P(t, c), gmul(z3.If(t == c, one, zero), lam(P, m))))), S, name='dot')(n)
    B = Rec(2, lambda r, c: A(r, c), step, S, name='lev', start=2)
    l = lambda m: lam(lambda r, c: B(m, r, c), m)
    return B, l
for sx, el, MT, BT, zero, one in ELF:
    @contract('polym' + sx, '%s $(const %s&a){return control::poly(a);}' % (KIND[el]['V'], BT), 'a:mat.' + el, 'P21 P09 P27',
              uses=' '.join(x + sx for x in 'identity trace ms_mul mm_sub mat_mul mat_massign vec_ctoril'.split()))
    def _(k, el=el, zero=zero, one=one):
        a, n = k.a, k.a.rows
        sz = prod(a.rows, a.cols)
        k.requires(sz < MAXLEN)
        k.foldext = True
        vector = z3.Or(a.rows == 1, a.cols == 1)
        k.throws(z3.And(sz != 0, z3.Not(vector), a.rows != a.cols))
        CO = coefficients(lambda i: a(dv(i, a.cols), md(i, a.cols)), zero, one)
        poly_regions(k, CO, zero)
        B, l = leverrier(a, zero, one)
        cf = lambda i: z3.If(i == 0, one, gneg(l(i + 1)))
        k.region('lev', 1, lambda v0, m: MatVal(v0.rows, v0.cols, CLam(2, zero.sort(), lambda r, c: B(m, r, c)), el))
        k.region('levc', 1, lambda v0, m: v0.withC(CLam(1, zero.sort(), lambda i: z3.If(i < m, cf(i), zero))))
        for part in (lambda x: x, RE, IM) if el == 'c' else (lambda x: x,):
            k.acc(0, lambda m, part=part: part(l(m)), 'lambda')
        k.ret(k.vec(z3.If(sz == 0, I(1), z3.If(vector, sz + 1, n + 1)),
                    lambda i: z3.If(sz == 0, one, z3.If(vector, CO(sz, i), cf(i))), el))
