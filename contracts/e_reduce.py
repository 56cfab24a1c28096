# reductions and element-wise functions
def sumfold(k, f, name='sum'):
    return k.fold(0, lambda: R(0), lambda acc, n: fadd(acc, f(n)), name=name)
def rowsums(k, f, rows, ncols):
    """sums over rows r of the sums over c < ncols(r) of f(r,c); running value in a nested loop"""
    G = k.fold(1, lambda r: R(0), lambda acc, n, r: fadd(acc, f(r, n)), acc=False, name='rowsum')
    F = k.fold(0, lambda: R(0), lambda acc, n: fadd(acc, G(ncols(n), n)), acc=False, name='total')
    k.acc(0, lambda r: F(r), 'total')
    k.acc(1, lambda c, r: F(r) + G(c, r), 'partial')
    return F, G
SQRT = lambda x: mathuf('sqrt', 1)(x)

UNARY = [('', 'd'), ('_i', 'i'), ('_c', 'c')]
def isum(k, dims, F, f):
    """int sums: every term and every partial sum is an int"""
    k.insts.append((I(0),))
    k.requires_all(dims, lambda *q: inr(f(*q), F(q[-1], *q[:-1]), F(q[-1] + 1, *q[:-1])))

for sx, el in UNARY:
    zero = KIND[el]['zero']
    T = lambda s, el=el: text(s, el)
    @contract('sum' + sx, T('T1 $(const VD1&v){return sum(v);}'), 'v:vec.' + el, 'P12 P27')
    def _(k, zero=zero, el=el):
        F = k.fold(0, lambda: zero, lambda acc, n: gadd(acc, k.v(n)), name='sum', sort=zero.sort())
        if el == 'i':
            isum(k, [k.v.size], F, lambda n: k.v(n))
        ret_elem(k, F(k.v.size), k.v.size)
    @contract('trace' + sx, T('T1 $(const MB1&a){return trace(a);}'), 'a:mat.' + el, 'P12 P27')
    def _(k, zero=zero, el=el):
        n = zmin(k.a.rows, k.a.cols)
        F = k.fold(0, lambda: zero, lambda acc, n: gadd(acc, k.a(n, n)), name='sum', sort=zero.sort())
        if el == 'i':
            isum(k, [n], F, lambda n: k.a(n, n))
        ret_elem(k, F(n), n)

for sx, el in UNARY[:2]:
    sgn32 = (lambda x: z3.If(x >= (1 << 31), x - (1 << 32), x)) if el == 'i' else (lambda x: x)
    T = lambda s, el=el: text(s, el)
    zero = KIND[el]['zero']
    for nm, le in (('min', lambda a, b: a <= b), ('max', lambda a, b: a >= b)):
        @contract('v' + nm + sx, T('std::pair<T1,Z> $(const VD1&v){return %s(v);}' % nm), 'v:vec.' + el, 'P12 P27')
        def _(k, le=le, el=el, s=sgn32, zero=zero):
            v = k.v
            k.ret(RegSpec(['real' if el == 'd' else 'int', 'int']))
            k.ensures('position is inside', lambda r: z3.If(v.size == 0, r[1] == 0, z3.And(r[1] >= 0, r[1] < v.size)))
            k.ensures('value is the element at the position', lambda r: z3.If(v.size == 0, s(r[0]) == zero, s(r[0]) == v(r[1])))
            k.ensures_all('value bounds every element', [v.size], lambda r, i: le(s(r[0]), v(i)))
            k.pred([v.size], lambda i, p: le(v(p), v(i)), 1)
            k.acc(0, lambda p: v(p), 'element')
            if el == 'i':
                k.insts.append((I(0),))          # the range of the elements at the positions
        @contract('m' + nm + sx, T('VD1 $(const MD1&a){return %s(a);}' % nm), 'a:Mat.%s' % el, 'P12 P27')
        def _(k, le=le, el=el):
            a = k.a
            F = k.fold(1, lambda c: a(0, c), lambda acc, n, c: z3.If(le(acc, a(n, c)), acc, a(n, c)), name='ext', sort=a(0, 0).sort())
            e = z3.Or(a.rows == 0, a.cols == 0)
            k.ret(k.vec(z3.If(e, I(0), a.cols), lambda c: F(a.rows, c), el))
            k.phicands_outer.append((2, 'ext', lambda c, r, p: a(p, c) == F(r, c)))

for sx, el, VT, MT, BT, ET, kv, kr in ELS[:3]:
    for nm in ('all', 'any'):
        nz = (lambda x: x != 0)
        @contract('v' + nm + sx, 'bool $(const %s&v){return %s(v);}' % (VT, nm), 'v:vec.' + el, 'P12 P27')
        def _(k, nm=nm, nz=nz):
            (k.ret_all if nm == 'all' else k.ret_any)([k.v.size], lambda i: nz(k.v(i)))
        @contract('m' + nm + sx, 'bool $(const %s&a){return %s(a);}' % (BT, nm), 'a:mat.' + el, 'P12 P27')
        def _(k, nm=nm, nz=nz):
            a = k.a
            (k.ret_all if nm == 'all' else k.ret_any)([prod(a.rows, a.cols)], lambda i: nz(a(dv(i, a.cols), md(i, a.cols))))

def sq(x):
    """the square of the magnitude of an element"""
    return fadd(fmul(RE(x), RE(x)), fmul(IM(x), IM(x))) if x.sort() == Cx else gmul(x, x)
for sx, el in UNARY:
    T = lambda s, el=el: text(s, el)
    if el != 'i':
        @contract('vsqnorm' + sx, T('double $(const VD1&v){return square_norm(v);}'), 'v:vec.' + el, 'P12 P27')
        def _(k):
            F = sumfold(k, lambda n: sq(k.v(n)))
            k.ret(SQRT(F(k.v.size)))
        @contract('msqnorm' + sx, T('double $(const MB1&a){return square_norm(a);}'), 'a:mat.' + el, 'P12 P27')
        def _(k):
            F, G = rowsums(k, lambda r, c: sq(k.a(r, c)), k.a.rows, lambda r: k.a.cols)
            k.ret(SQRT(F(k.a.rows)))
        @contract('subnorm' + sx, T('double $(const MB1&a){return sub_norm(a);}'), 'a:mat.' + el, 'P12 P09 P27')
        def _(k):
            a = k.a
            k.throws(z3.And(a.rows > 0, a.cols > 0, a.rows != a.cols))
            F, G = rowsums(k, lambda r, c: sq(a(r, c)), a.rows, lambda r: r)
            e = z3.Or(a.rows == 0, a.cols == 0)
            k.ret(z3.If(e, R(0), SQRT(F(a.rows))))
        @contract('veclen' + sx, T('double $(MB1&a,Z c,Z r0,Z r1){return vector_length(a,c,r0,r1);}'), 'a:mat.%s c:n r0:n r1:n' % el, 'P12 P27')
        def _(k):
            a = k.a
            k.requires(z3.And(k.c < a.cols, k.r0 <= a.rows))
            S = k.fold(0, lambda: R(0), lambda acc, n: fadd(acc, sq(a(n, k.c))), acc=False)
            end = zmin(k.r1, a.rows)
            k.acc(0, lambda r: S(r) - S(k.r0))
            k.ret(SQRT(z3.If(end > k.r0, S(end) - S(k.r0), R(0))))
        @contract('minfnorm' + sx, T('double $(const MB1&a){return infinity_norm(a);}'), 'a:mat.' + el, 'P12 P27')
        def _(k):
            G = k.fold(1, lambda r: R(0), lambda acc, n, r: fadd(acc, gabs(k.a(r, n))), name='rowsum')
            F = k.fold(0, lambda: R(0), lambda acc, n: rmax(acc, G(k.a.cols, n)), name='maxrow')
            e = z3.Or(k.a.rows == 0, k.a.cols == 0)
            k.ret(z3.If(e, R(0), F(k.a.rows)))
    else:
        @contract('vsqnorm' + sx, T('double $(const VD1&v){return square_norm(v);}'), 'v:vec.' + el, 'P12 P27')
        def _(k):
            F = k.fold(0, lambda: I(0), lambda acc, n: gadd(acc, sq(k.v(n))), sort=Int)
            isum(k, [k.v.size], F, lambda n: sq(k.v(n)))
            k.insts.append((k.v.size - 1,))
            k.define(z3.Implies(k.v.size == 0, F(k.v.size) == 0))
            k.ret(SQRT(z3.ToReal(F(k.v.size))))
    if el != 'c':
        @contract('vinfnorm' + sx, T('T1 $(const VD1&v){return infinity_norm(v);}'), 'v:vec.' + el, 'P12 P27')
        def _(k, el=el):
            mx = lambda a, b: z3.If(a < b, b, a)
            zero = KIND[el]['zero']
            F = k.fold(0, lambda: zero, lambda acc, n: mx(acc, gabs(k.v(n))), sort=zero.sort())
            if el == 'i':
                k.insts.append((I(0),))
                k.requires_all([k.v.size], lambda n: z3.And(k.v(n) > -(1 << 31), inr(F(n), F(n + 1)), F(n) >= 0))
            n = k.v.size
            ret_elem(k, z3.If(n == 0, zero, F(n)), n)

# ---------------------------------------------------------------- element-wise functions
U1 = 'extern "C" double vx_uf1(double); extern "C" double vx_uf2(double,double);'
uf1, uf2 = (lambda x: mathuf('vx_uf1', 1)(x)), (lambda x, y: mathuf('vx_uf2', 2)(x, y))
sgn = lambda x: CX(sgn(RE(x)), sgn(IM(x))) if x.sort() == Cx else z3.If(x > 0, up(I(1), x.sort()), up(I(-1), x.sort()))
cf1 = lambda x: CX(*[mathuf('vx_cf1' + q, 2)(RE(x), IM(x)) for q in ('_re', '_im')])
cf2 = lambda x, y: CX(*[mathuf('vx_cf2' + q, 4)(RE(x), IM(x), RE(y), IM(y)) for q in ('_re', '_im')])
U1 += ' extern "C" X vx_cf1(X); extern "C" X vx_cf2(X,X);'
for sx, el in UNARY:
    T = lambda s, el=el: text(s, el)
    fns = [('abs', 'malg::abs(%s)', gabs), ('sign', 'malg::sign(%s)', sgn)]
    if el == 'd':
        fns.append(('ewf', 'element_wise_function(%s,[](double x){return vx_uf1(x);})', uf1))
    if el == 'c':
        fns += [('ewf', 'element_wise_function(%s,[](X x){return vx_cf1(x);})', cf1), ('real', 'malg::real(%s)', RE), ('imag', 'malg::imag(%s)', IM)]
    for nm, code, f in fns:
        g = lambda x, f=f, el=el: up(f(x), KIND[el]['zero'].sort())      # the result has the common type of the element and the value
        def ints(k, dims, x, el=el, nm=nm):
            if el == 'i' and nm == 'abs':
                k.requires_all(dims, lambda *i: x(*i) > -(1 << 31))
        @contract('m' + nm + sx, T('MD1 $(const MB1&a){return %s;}' % (code % 'a')), 'a:mat.' + el, 'P28 P27', pre=U1)
        def _(k, g=g, el=el, ints=ints):
            ints(k, [k.a.rows, k.a.cols], k.a)
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: g(k.a(i, j)), el))
        @contract('v' + nm + sx, T('VD1 $(const VD1&a){return %s;}' % (code % 'a')), 'a:vec.' + el, 'P28 P27', pre=U1)
        def _(k, g=g, el=el, ints=ints):
            ints(k, [k.a.size], k.a)
            k.ret(k.vec(k.a.size, lambda i: g(k.a(i)), el))
@contract('mewf_i', 'MD $(const MBI&a){return element_wise_function(a,[](int x){return vx_uf1(x);});}', 'a:mat.i', 'P28 P27', pre=U1)
def _(k):
    k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: uf1(z3.ToReal(k.a(i, j)))))
@contract('mexp', 'MD $(const MB&a){return linalg::exp(a);}', 'a:mat', 'P28 P27')
def _(k):
    k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: mathuf('exp', 1)(k.a(i, j))))
for sx, el in UNARY:
    T = lambda s, el=el: text(s, el)
    A, B, VA, VB = 'a:mat.' + el, 'b:mat.' + el, 'a:vec.' + el, 'b:vec.' + el
    al = [('a', 'b')]
    if el != 'i':
        lam = '[](T1 x,T1 y){return %s(x,y);}' % ('vx_uf2' if el == 'd' else 'vx_cf2')
        f2 = uf2 if el == 'd' else cf2
        @contract('mewb' + sx, T('MD1 $(const MB1&a,const MB1&b){return element_wise_binary_function(a,b,%s);}' % lam), A + ' ' + B, 'P28 P09 P27', alias=al, pre=U1)
        def _(k, f2=f2, el=el):
            k.throws(z3.Not(sameshape(k.a, k.b)))
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: f2(k.a(i, j), k.b(i, j)), el))
        @contract('vewb' + sx, T('VD1 $(const VD1&a,const VD1&b){return element_wise_binary_function(a,b,%s);}' % lam), VA + ' ' + VB, 'P28 P09 P27', alias=al, pre=U1)
        def _(k, f2=f2, el=el):
            k.throws(k.a.size != k.b.size)
            k.ret(k.vec(k.a.size, lambda i: f2(k.a(i), k.b(i)), el))
    @contract('mewp' + sx, T('MD1 $(const MB1&a,const MB1&b){return element_wise_product(a,b);}'), A + ' ' + B, 'P28 P09 P27', alias=al)
    def _(k, el=el):
        k.throws(z3.Not(sameshape(k.a, k.b)))
        need(k, '*', [k.a.rows, k.a.cols], k.a, k.b)
        k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: gmul(k.a(i, j), k.b(i, j)), el))
    @contract('lincomb' + sx, T('MD1 $(const MB1&a,const T1&x,const MB1&b,const T1&y){return linear_combination(a,x,b,y);}'), A + ' x:%s ' % KIND[el]['ref'] + B + ' y:' + KIND[el]['ref'], 'P28 P09 P27', alias=al)
    def _(k, el=el):
        k.throws(z3.Not(sameshape(k.a, k.b)))
        v = lambda i, j: (gmul(k.a(i, j), k.x), gmul(k.b(i, j), k.y))
        if el == 'i':
            k.requires_all([k.a.rows, k.a.cols], lambda i, j: inr(*v(i, j), gadd(*v(i, j))))
        k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: gadd(*v(i, j)), el))
@contract('projection', 'VD $(const VD&a,const VD&b){return projection(a,b);}', 'a:vec b:vec', 'P28 P09 P27', alias=[('a', 'b')], uses='dot vs_mul')
def _(k):
    k.throws(k.a.size != k.b.size)
    D = k.fold(0, lambda: R(0), lambda acc, n: fadd(acc, fmul(k.a(n), k.b(n))))
    N = k.fold(0, lambda: R(0), lambda acc, n: fadd(acc, fmul(k.b(n), k.b(n))))
    k.ret(k.vec(k.b.size, lambda i: fmul(k.b(i), fdiv(D(k.b.size), N(k.b.size)))))
