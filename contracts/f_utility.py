# construction, extraction, swapping, predicates, spacing
neg = lambda x: CX(-RE(x), -IM(x)) if x.sort() == Cx else -x
zpos = lambda *n: z3.Or(*[x == 0 for x in n])
for nm in ('hermitian_transpose', 'conjugate_transpose'):
    @contract(nm, 'MX $(const MBX&a){return linalg::%s(a);}' % nm, 'a:mat.c', 'P13 P27')
    def _(k):
        k.ret(k.mat(k.a.cols, k.a.rows, lambda i, j: CX(RE(k.a(j, i)), -IM(k.a(j, i))), 'c'))
for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    one, zz = {'d': R(1), 'i': I(1), 'c': CX(R(1), R(0))}[el], zero_of(el)
    @contract('eye' + sx, '%s $(Z r,Z c,%s v){return utility::eye<%s>(r,c,v);}' % (MT, ET, ET), 'r:n c:n v:%s' % kv, 'P14 P09 P27')
    def _(k, zz=zz, el=el):
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
        k.throws(zpos(k.r, k.c))
        k.ret(k.mat(k.r, k.c, lambda i, j: z3.If(i == j, k.v, zz), el))
    @contract('identity' + sx, '%s $(Z n,%s v){return utility::identity<%s>(n,v);}' % (MT, ET, ET), 'n:n v:%s' % kv, 'P14 P09 P27', uses='eye' + sx)
    def _(k, zz=zz, el=el):
        k.requires(k.n <= MAXDIM)
        k.throws(k.n == 0)
        k.ret(k.mat(k.n, k.n, lambda i, j: z3.If(i == j, k.v, zz), el))
    for nm, val in (('zeros', zz), ('ones', one)):
        @contract(nm + sx, '%s $(Z r,Z c){return utility::%s<%s>(r,c);}' % (MT, nm, ET), 'r:n c:n', 'P14 P09 P27')
        def _(k, val=val, el=el):
            k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
            k.throws(zpos(k.r, k.c))
            k.ret(k.mat(k.r, k.c, lambda i, j: val, el))
        @contract('v' + nm + sx, '%s $(Z n){return utility::%s<%s>(n);}' % (VT, nm, ET), 'n:n', 'P14 P09 P27')
        def _(k, val=val, el=el):
            k.requires(k.n <= MAXLEN)
            k.throws(k.n == 0)
            k.ret(k.vec(k.n, lambda i: val, el))

    @contract('mdiag' + sx, '%s $(const %s&a){return utility::diag(a);}' % (VT, BT), 'a:mat.' + el, 'P13 P27')
    def _(k, el=el):
        k.ret(k.vec(zmin(k.a.rows, k.a.cols), lambda i: k.a(i, i), el))
    @contract('vdiag' + sx, '%s $(const %s&v){return utility::diag(v);}' % (MT, VT), 'v:vec.' + el, 'P13 P27')
    def _(k, zz=zz, el=el):
        k.requires(k.v.size <= MAXDIM)
        k.ret(k.mat(k.v.size, k.v.size, lambda i, j: z3.If(i == j, k.v(i), zz), el))
    @contract('to_matrix' + sx, '%s $(const %s&v,bool r){return utility::to_matrix(v,r);}' % (MT, VT), 'v:vec.%s row:b' % el, 'P13 P27')
    def _(k, zz=zz, el=el):
        k.requires(k.v.size <= MAXDIM)
        r, c = z3.If(k.row, I(1), k.v.size), z3.If(k.row, k.v.size, I(1))
        k.ret(k.mat(r, c, lambda i, j: z3.If(k.row, k.v(j), k.v(i)), el))
    @contract('to_vector' + sx, '%s $(const %s&a){return utility::to_vector(a);}' % (VT, MT), 'a:Mat.%s' % el, 'P13 P27')
    def _(k, el=el):
        k.ret(k.vec(prod(k.a.rows, k.a.cols), lambda i: k.a(dv(i, k.a.cols), md(i, k.a.cols)), el))
    @contract('ravel' + sx, '%s $(const %s&a){return utility::ravel(a);}' % (VT, BT), 'a:mat.%s' % el, 'P13 P27')
    def _(k, el=el):
        k.ret(k.vec(prod(k.a.rows, k.a.cols), lambda i: k.a(dv(i, k.a.cols), md(i, k.a.cols)), el))
    @contract('transpose' + sx, '%s $(const %s&a){return linalg::transpose(a);}' % (MT, BT), 'a:mat.%s' % el, 'P13 P27')
    def _(k, el=el):
        k.ret(k.mat(k.a.cols, k.a.rows, lambda i, j: k.a(j, i), el))

for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    S = lambda s, VT=VT, MT=MT, BT=BT, ET=ET: s.replace('VD', VT).replace('MD', MT).replace('MB', BT)
    @contract('vstack' + sx, S('MD $(const MB&a,const MB&b){return utility::vstack(a,b);}'), 'a:mat.%s b:mat.%s' % (el, el), 'P13 P09 P27', alias=[('a', 'b')])
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(a.rows + b.rows <= MAXDIM)
        k.throws(a.cols != b.cols)
        k.shifts.append(a.rows)
        k.ret(k.mat(a.rows + b.rows, a.cols, lambda i, j: z3.If(i < a.rows, a(i, j), b(i - a.rows, j)), el))
    @contract('hstack' + sx, S('MD $(const MB&a,const MB&b){return utility::hstack(a,b);}'), 'a:mat.%s b:mat.%s' % (el, el), 'P13 P09 P27', alias=[('a', 'b')])
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(a.cols + b.cols <= MAXDIM)
        k.throws(a.rows != b.rows)
        k.shifts.append(a.cols)
        k.ret(k.mat(a.rows, a.cols + b.cols, lambda i, j: z3.If(j < a.cols, a(i, j), b(i, j - a.cols)), el))
    @contract('vstackv' + sx, S('MD $(const MB&a,const VD&b){return utility::vstack(a,b);}'), 'a:mat.%s b:vec.%s' % (el, el), 'P13 P09 P27', uses='mat_resize' + sx)
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(a.rows + 1 <= MAXDIM)
        k.throws(a.cols != b.size)
        k.points.append(a.rows)
        k.ret(k.mat(a.rows + 1, a.cols, lambda i, j: z3.If(i < a.rows, a(i, j), b(j)), el))
    @contract('hstackv' + sx, S('MD $(const MB&a,const VD&b){return utility::hstack(a,b);}'), 'a:mat.%s b:vec.%s' % (el, el), 'P13 P09 P27', uses='mat_resize' + sx)
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(a.cols + 1 <= MAXDIM)
        k.throws(a.rows != b.size)
        k.points.append(a.cols)
        k.ret(k.mat(a.rows, a.cols + 1, lambda i, j: z3.If(j < a.cols, a(i, j), b(i)), el))
    @contract('concatenate' + sx, S('VD $(const VD&a,const VD&b){return utility::concatenate(a,b);}'), 'a:vec.%s b:vec.%s' % (el, el), 'P13 P27', alias=[('a', 'b')])
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(a.size + b.size <= MAXLEN)
        k.shifts.append(a.size)
        k.ret(k.vec(a.size + b.size, lambda i: z3.If(i < a.size, a(i), b(i - a.size)), el))

    @contract('extract' + sx, S('MD $(const MB&m,Z a,Z b,Z c,Z d){return utility::extract(m,a,b,c,d);}'), 'm:mat.%s a:n b:n c:n d:n' % (el,), 'P13 P09 P27')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.a >= k.b, k.c >= k.d, k.a >= m.rows, k.c >= m.cols))
        k.ret(k.mat(zmin(k.b, m.rows) - k.a, zmin(k.d, m.cols) - k.c, lambda i, j: m(i + k.a, j + k.c), el))
    @contract('extract_column' + sx, S('VD $(const MB&m,Z q,Z a,Z b){return utility::extract_column(m,q,a,b);}'), 'm:mat.%s q:n a:n b:n' % (el,), 'P13 P09 P27')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.a >= k.b, k.q >= m.cols, k.a >= m.rows))
        k.ret(k.vec(zmin(k.b, m.rows) - k.a, lambda i: m(i + k.a, k.q), el))
    @contract('extract_row' + sx, S('VD $(const MB&m,Z q,Z a,Z b){return utility::extract_row(m,q,a,b);}'), 'm:mat.%s q:n a:n b:n' % (el,), 'P13 P09 P27')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.a >= k.b, k.q >= m.rows, k.a >= m.cols))
        k.ret(k.vec(zmin(k.b, m.cols) - k.a, lambda i: m(k.q, i + k.a), el))

    # ---------------------------------------------------------------- swapping and removing
    @contract('swap_rows' + sx, S('void $(MB&m,Z i,Z j,Z a,Z b){utility::swap_rows(m,i,j,a,b);}'), 'm:mat.%s i:n j:n a:n b:n' % (el,), 'P15 P27')
    def _(k, el=el):
        m = k.m
        k.requires(z3.And(k.i < m.rows, k.j < m.rows))
        k.out('m', k.mat(m.rows, m.cols, lambda r, c: z3.If(z3.And(c >= k.a, c < k.b), z3.If(r == k.i, m(k.j, c), z3.If(r == k.j, m(k.i, c), m(r, c))), m(r, c)), el))
    @contract('swap_cols' + sx, S('void $(MB&m,Z i,Z j,Z a,Z b){utility::swap_cols(m,i,j,a,b);}'), 'm:mat.%s i:n j:n a:n b:n' % (el,), 'P15 P27')
    def _(k, el=el):
        m = k.m
        k.requires(z3.And(k.i < m.cols, k.j < m.cols))
        k.out('m', k.mat(m.rows, m.cols, lambda r, c: z3.If(z3.And(r >= k.a, r < k.b), z3.If(c == k.i, m(r, k.j), z3.If(c == k.j, m(r, k.i), m(r, c))), m(r, c)), el))
    @contract('remove_row' + sx, S('MD& $(MD&m,Z p){return utility::remove_row(m,p);}'), 'm:Mat.%s p:n' % (el,), 'P15 P09 P27', uses='mat_resize' + sx)
    def _(k, el=el):
        m, p = k.m, k.p
        k.throws(p >= m.rows)
        k.out('m', k.mat(m.rows - 1, m.cols, lambda i, j: z3.If(i >= p, m(i + 1, j), m(i, j)), el))
        k.ret(RefSpec('m'))
        st = lambda i, j, r: z3.If(z3.Or(i < p, i > r), m(i, j), z3.If(i < r, m(i + 1, j), m(p, j)))
        k.region('bubble', 1, lambda v0, r: v0.withC(CLam(2, v0.C.sort, lambda i, j: st(i, j, r))))
        k.region('bubble2', 2, lambda v0, r, c: v0.withC(CLam(2, v0.C.sort, lambda i, j: z3.If(j < c, st(i, j, r + 1), st(i, j, r)))))
    @contract('remove_column' + sx, S('MD& $(MD&m,Z p){return utility::remove_column(m,p);}'), 'm:Mat.%s p:n' % (el,), 'P15 P09 P27', uses='mat_resize' + sx)
    def _(k, el=el):
        m, p = k.m, k.p
        k.throws(p >= m.cols)
        k.out('m', k.mat(m.rows, m.cols - 1, lambda i, j: z3.If(j >= p, m(i, j + 1), m(i, j)), el))
        k.ret(RefSpec('m'))
        st = lambda i, j, r: z3.If(z3.Or(j < p, j > r), m(i, j), z3.If(j < r, m(i, j + 1), m(i, p)))
        k.region('bubble', 1, lambda v0, r: v0.withC(CLam(2, v0.C.sort, lambda i, j: st(i, j, r))))
        k.region('bubble2', 2, lambda v0, r, c: v0.withC(CLam(2, v0.C.sort, lambda i, j: z3.If(i < c, st(i, j, r + 1), st(i, j, r)))))
# ---------------------------------------------------------------- predicates
for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    for nm, f in (('is_square', lambda m: m.rows == m.cols), ('is_column_vector', lambda m: m.cols == 1), ('is_row_vector', lambda m: m.rows == 1)):
        @contract(nm + sx, 'bool $(const %s&m){return utility::%s(m);}' % (BT, nm), 'm:mat.' + el, 'P16 P27')
        def _(k, f=f):
            k.ret(f(k.m))
    for nm, P in (('is_symmetric', lambda m, i, j: eqv(m(i, j), m(j, i))), ('is_skew_symmetric', lambda m, i, j: eqv(m(i, j), neg(m(j, i)))),
                  ('is_diagonal', lambda m, i, j: z3.Or(i == j, m(i, j) == 0)), ('is_lower_triangular', lambda m, i, j: z3.Or(j <= i, m(i, j) == 0)),
                  ('is_upper_triangular', lambda m, i, j: z3.Or(i <= j, m(i, j) == 0))):
        if el == 'c' and nm not in ('is_symmetric', 'is_skew_symmetric'):       # not offered
            continue
        @contract(nm + sx, 'bool $(const %s&m){return utility::%s(m);}' % (BT, nm), 'm:mat.' + el, 'P16 P27')
        def _(k, P=P, nm=nm, el=el):
            m = k.m
            if el == 'i' and nm == 'is_skew_symmetric':      # -INT_MIN has no int value
                k.requires_all([m.rows, m.cols], lambda i, j: m(i, j) > -(1 << 31))
            k.ret_all([m.rows, m.cols], lambda i, j: P(m, i, j), m.rows == m.cols)
            if 'symm' in nm:
                k.pred([m.rows, m.cols], lambda i, j: z3.Implies(j >= i, P(m, i, j)))
                k.pred([m.rows, m.cols], lambda i, j: z3.Implies(j <= i, P(m, i, j)))

for sx, el in (('', 'd'), ('_c', 'c')):
    T = lambda s, el=el: text(s, el)
    @contract('vclose' + sx, T('bool $(const VD1&a,const VD1&b,double t){return utility::all_close(a,b,t);}'), 'a:vec.%s b:vec.%s t:d' % (el, el), 'P16 P09 P27', alias=[('a', 'b')])
    def _(k):
        k.throws(k.a.size != k.b.size)
        k.ret_all([k.a.size], lambda i: gabs(gsub(k.a(i), k.b(i))) <= k.t)
    @contract('mclose' + sx, T('bool $(const MB1&a,const MB1&b,double t){return utility::all_close(a,b,t);}'), 'a:mat.%s b:mat.%s t:d' % (el, el), 'P16 P09 P27', alias=[('a', 'b')])
    def _(k):
        a, b = k.a, k.b
        k.throws(z3.Not(sameshape(a, b)))
        g = lambda m, i: m(dv(i, m.cols), md(i, m.cols))
        k.ret_all([prod(a.rows, a.cols)], lambda i: gabs(gsub(g(a, i), g(b, i))) <= k.t)

def cmp_spec(k, n, x, y):
    s = lambda r: z3.If(r >= (1 << 63), r - W64, r)
    k.ret('int')
    k.ensures('position is inside', lambda r: z3.And(s(r) <= n, s(r) >= -n))
    k.ensures('sign of the first difference', lambda r: z3.And(z3.Implies(s(r) > 0, x(s(r) - 1) > y(s(r) - 1)), z3.Implies(s(r) < 0, x(-s(r) - 1) < y(-s(r) - 1))))
    k.ensures_all('everything before the position is equal', [n], lambda r, i: z3.Implies(z3.Or(s(r) == 0, i < z3.If(s(r) > 0, s(r), -s(r)) - 1), x(i) == y(i)))
    k.pred([n], lambda i: x(i) == y(i))
@contract('vcompare', 'int64_t $(const VD&a,const VD&b){return utility::compare(a,b);}', 'a:vec b:vec', 'P16 P09 P27', alias=[('a', 'b')])
def _(k):
    k.throws(k.a.size != k.b.size)
    cmp_spec(k, k.a.size, k.a, k.b)
@contract('mcompare', 'int64_t $(const MB&a,const MB&b){return utility::compare(a,b);}', 'a:mat b:mat', 'P16 P09 P27', alias=[('a', 'b')])
def _(k):
    a, b = k.a, k.b
    k.throws(prod(a.rows, a.cols) != prod(b.rows, b.cols))
    g = lambda m: (lambda i: m(dv(i, m.cols), md(i, m.cols)))
    cmp_spec(k, prod(a.rows, a.cols), g(a), g(b))

# ---------------------------------------------------------------- spacing
def spaced(k, n, f):
    a, b = k.a, k.b
    val = lambda i: z3.If(z3.Or(n == 1, approx(a, b)), b, fadd(a, fmul(fdiv(b - a, z3.ToReal(n - 1)), z3.ToReal(i))))
    k.ret(k.vec(n, lambda i: f(val(i))))
@contract('linspace', 'VD $(double a,double b,unsigned n){return utility::linspace(a,b,n);}', 'a:d b:d n:u', 'P25 P27')
def _(k):
    spaced(k, k.n, lambda x: x)
@contract('logspace', 'VD $(double a,double b,Z n,double base){return utility::logspace(a,b,n,base);}', 'a:d b:d n:n base:d', 'P25 P27')
def _(k):
    k.requires(k.n < (1 << 32))
    spaced(k, k.n, lambda x: mathuf('pow', 2)(k.base, x))
