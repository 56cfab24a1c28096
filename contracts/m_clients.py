# client texts: calls that leave arguments to their defaults, and identities between operations, proved from the
# contracts of the operations alone
ALLZ = I(MAXZ)
def rat(x):
    f = fractions.Fraction(x)
    return R('%d/%d' % (f.numerator, f.denominator))
for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    V = vcontract(sx, el, MT, BT, ET)
    def cl(name, code, params, props, uses, V=V, sx=sx, VT=VT, kv=kv, **kw):
        code = re.sub(r'\bVD\b', VT, code)
        params = re.sub(r':vec\b', ':vec.' + el, params)
        return V('client_' + name, code, params, props + ' P27', uses=' '.join(u + sx for u in uses.split()), client=True, **kw)
    # ---------------------------------------------------------------- defaults
    @cl('view0', 'VW $(MD&m){return utility::view(m);}', 'm:Mat', 'P05', 'view_util')
    def _(k):
        k.ret(ViewSpec('m', I(0), ALLZ, I(0), ALLZ))
    @cl('view1', 'VW $(MD&m,Z a){return utility::view(m,a);}', 'm:Mat a:n', 'P05', 'view_util')
    def _(k):
        k.requires(k.a < MAXZ)
        k.ret(ViewSpec('m', k.a, ALLZ, I(0), ALLZ))
    @cl('view2', 'VW $(MD&m,Z a,Z b){return utility::view(m,a,b);}', 'm:Mat a:n b:n', 'P05', 'view_util')
    def _(k):
        k.requires(k.a < k.b)
        k.ret(ViewSpec('m', k.a, k.b, I(0), ALLZ))
    @cl('view3', 'VW $(MD&m,Z a,Z b,Z c){return utility::view(m,a,b,c);}', 'm:Mat a:n b:n c:n', 'P05', 'view_util')
    def _(k):
        k.requires(z3.And(k.a < k.b, k.c < MAXZ))
        k.ret(ViewSpec('m', k.a, k.b, k.c, ALLZ))
    @cl('row1', 'VW $(MD&m,Z r){return utility::row(m,r);}', 'm:Mat r:n', 'P05', 'view_row')
    def _(k):
        k.requires(k.r < MAXZ)
        k.ret(ViewSpec('m', k.r, k.r + 1, I(0), ALLZ))
    @cl('col1', 'VW $(MD&m,Z q){return utility::col(m,q);}', 'm:Mat q:n', 'P05', 'view_col')
    def _(k):
        k.requires(k.q < MAXZ)
        k.ret(ViewSpec('m', I(0), ALLZ, k.q, k.q + 1))
    for n, code in (('1', 'VW(m,a)'), ('2', 'VW(m,a,b)'), ('3', 'VW(m,a,b,c)'), ('r', 'VW(m,Range{a,b})'), ('rr', 'VW(m,Range{a,b},Range::all())')):
        @cl('view_ctor' + n, 'void $(VW*self,MD*m,Z a,Z b,Z c){new(self) %s;}' % code, 'self:new m:Mat a:n b:n c:n', 'P05', 'view_ctor')
        def _(k, n=n):
            b = ALLZ if n == '1' else k.b
            c = k.c if n == '3' else I(0)
            k.requires(z3.And(k.a < b, c < MAXZ))
            k.ret(ViewSpec('m', k.a, b, c, ALLZ))
    if el != 'c':
        @cl('nested_read', 'double $(MD&m,Z a,Z b,Z c,Z d,Z i,Z j){VW v(&m,a,(Z)-1,b,(Z)-1);View<VW> w(&v,c,(Z)-1,d,(Z)-1);return w(i,j);}', 'm:Mat a:n b:n c:n d:n i:n j:n', 'P05', 'view_ctor')
        def _(k, el=el):
            k.requires(z3.And(k.a + k.c + k.i < k.m.rows, k.b + k.d + k.j < k.m.cols))
            if el == 'i':
                k.retbits, k.ret_signed = 32, True
            k.ret(k.m(k.a + k.c + k.i, k.b + k.d + k.j))
    @cl('nested_write', 'void $(MD&m,Z a,Z b,Z c,Z d,Z i,Z j,const double&x){VW v(&m,a,(Z)-1,b,(Z)-1);View<VW> w(&v,c,(Z)-1,d,(Z)-1);w(i,j)=x;}', 'm:Mat a:n b:n c:n d:n i:n j:n x:' + {'d': 'D', 'i': 'I', 'c': 'X'}[el], 'P05', 'view_ctor')
    def _(k, el=el):
        k.requires(z3.And(k.a + k.c + k.i < k.m.rows, k.b + k.d + k.j < k.m.cols))
        k.out('m', k.mat(k.m.rows, k.m.cols, lambda r, c: z3.If(z3.And(r == k.a + k.c + k.i, c == k.b + k.d + k.j), k.x, k.m(r, c)), el))
    @cl('minor_of_minor', 'void $(MD&m,Z p,Z q,Z s,Z t,Z i,Z j,const double&x){CV v(&m,p,q);CofactorView<CV> w(&v,s,t);w(i,j)=x;}', 'm:Mat p:n q:n s:n t:n i:n j:n x:' + {'d': 'D', 'i': 'I', 'c': 'X'}[el], 'P06', 'cof_ctor')
    def _(k, el=el):
        k.requires(z3.And(k.p < k.m.rows, k.q < k.m.cols, k.s < k.m.rows - 1, k.t < k.m.cols - 1, k.i < k.m.rows - 2, k.j < k.m.cols - 2))
        sk = lambda i, p: z3.If(i >= p, i + 1, i)
        R_, C_ = sk(sk(k.i, k.s), k.p), sk(sk(k.j, k.t), k.q)
        k.out('m', k.mat(k.m.rows, k.m.cols, lambda r, c: z3.If(z3.And(r == R_, c == C_), k.x, k.m(r, c)), el))
    @cl('extract0', 'MD $(const MB&m){return utility::extract(m);}', 'm:mat', 'P13', 'extract')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(m.rows == 0, m.cols == 0))
        k.ret(k.mat(m.rows, m.cols, lambda i, j: m(i, j), el))
    @cl('extract2', 'MD $(const MB&m,Z a,Z b){return utility::extract(m,a,b);}', 'm:mat a:n b:n', 'P13', 'extract')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.a >= k.b, k.a >= m.rows, m.cols == 0))
        k.ret(k.mat(zmin(k.b, m.rows) - k.a, m.cols, lambda i, j: m(i + k.a, j), el))
    @cl('column', 'VD $(const MB&m,Z q){return utility::extract_column(m,q);}', 'm:mat q:n', 'P13', 'extract_column')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.q >= m.cols, m.rows == 0))
        k.ret(k.vec(m.rows, lambda i: m(i, k.q), el))
    @cl('row', 'VD $(const MB&m,Z q){return utility::extract_row(m,q);}', 'm:mat q:n', 'P13', 'extract_row')
    def _(k, el=el):
        m = k.m
        k.throws(z3.Or(k.q >= m.rows, m.cols == 0))
        k.ret(k.vec(m.cols, lambda i: m(k.q, i), el))
    @cl('swap_rows', 'void $(MB&m,Z i,Z j){utility::swap_rows(m,i,j);}', 'm:mat i:n j:n', 'P15', 'swap_rows')
    def _(k, el=el):
        m = k.m
        k.requires(z3.And(k.i < m.rows, k.j < m.rows))
        k.out('m', k.mat(m.rows, m.cols, lambda r, c: z3.If(r == k.i, m(k.j, c), z3.If(r == k.j, m(k.i, c), m(r, c))), el))
    @cl('swap_cols', 'void $(MB&m,Z i,Z j){utility::swap_cols(m,i,j);}', 'm:mat i:n j:n', 'P15', 'swap_cols')
    def _(k, el=el):
        m = k.m
        k.requires(z3.And(k.i < m.cols, k.j < m.cols))
        k.out('m', k.mat(m.rows, m.cols, lambda r, c: z3.If(c == k.i, m(r, k.j), z3.If(c == k.j, m(r, k.i), m(r, c))), el))
    if el == 'd':
        @cl('mclose', 'bool $(const MB&a,const MB&b){return utility::all_close(a,b);}', 'a:mat b:mat', 'P16', 'mclose')
        def _(k):
            a, b = k.a, k.b
            k.throws(z3.Not(sameshape(a, b)))
            g = lambda m, i: m(dv(i, m.cols), md(i, m.cols))
            k.ret_all([prod(a.rows, a.cols)], lambda i: gabs(gsub(g(a, i), g(b, i))) <= rat(1e-4))
        @cl('vclose', 'bool $(const VD&a,const VD&b){return utility::all_close(a,b);}', 'a:vec b:vec', 'P16', 'vclose')
        def _(k):
            k.throws(k.a.size != k.b.size)
            k.ret_all([k.a.size], lambda i: gabs(gsub(k.a(i), k.b(i))) <= rat(1e-4))
    if el != 'c':
        @cl('find1', 'MZ $(const MD&a,Z n){return utility::find(a,n);}', 'a:Mat n:n', 'P24', 'find')
        def _(k, el=el):
            find_spec(k, k.n, z3.BoolVal(True), (lambda x: x != 0))
        @cl('find0', 'MZ $(const MD&a){return utility::find(a);}', 'a:Mat', 'P24', 'find')
        def _(k, el=el):
            find_spec(k, I(MAXZ), z3.BoolVal(True), (lambda x: x != 0))
    # ---------------------------------------------------------------- identities
    @cl('transpose2', 'MD $(const MB&m){return linalg::transpose(linalg::transpose(m));}', 'm:mat', 'P13', 'transpose')
    def _(k, el=el):
        k.ret(k.mat(k.m.rows, k.m.cols, lambda i, j: k.m(i, j), el))
    @cl('swap2', 'void $(MB&m,Z i,Z j,Z a,Z b){utility::swap_rows(m,i,j,a,b);utility::swap_rows(m,j,i,a,b);}', 'm:mat i:n j:n a:n b:n', 'P15', 'swap_rows')
    def _(k, el=el):
        m = k.m
        k.requires(z3.And(k.i < m.rows, k.j < m.rows))
        k.out('m', k.mat(m.rows, m.cols, lambda r, c: m(r, c), el))
    @cl('stack_split', 'MD $(const MB&a,const MB&b){auto s=utility::vstack(a,b);return utility::extract(s,a.rows());}', 'a:mat b:mat', 'P13', 'vstack extract')
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(z3.And(a.rows + b.rows <= MAXDIM, b.rows > 0, a.cols > 0))
        k.throws(a.cols != b.cols)
        k.ret(k.mat(b.rows, b.cols, lambda i, j: b(i, j), el))
    @cl('stack_split2', 'MD $(const MB&a,const MB&b){auto s=utility::hstack(a,b);return utility::extract(s,0,a.rows(),0,a.cols());}', 'a:mat b:mat', 'P13', 'hstack extract')
    def _(k, el=el):
        a, b = k.a, k.b
        k.requires(z3.And(a.cols + b.cols <= MAXDIM, a.rows > 0, a.cols > 0))
        k.throws(a.rows != b.rows)
        k.ret(k.mat(a.rows, a.cols, lambda i, j: a(i, j), el))
    @cl('reshape2', 'void $(MD&a,Z r,Z c){Z p=a.rows(),q=a.cols();a.reshape(r,c);a.reshape(p,q);}', 'a:Mat r:n c:n', 'P04', 'mat_reshape')
    def _(k, el=el):
        a = k.a
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
        k.throws(prod(k.r, k.c) != prod(a.rows, a.cols))
        k.out('a', k.mat(a.rows, a.cols, lambda i, j: a(i, j), el))
    @cl('grow_shrink', 'void $(MD&a,Z r,Z c){Z p=a.rows(),q=a.cols();a.resize(r,c);a.resize(p,q);}', 'a:Mat r:n c:n', 'P04', 'mat_resize')
    def _(k, el=el):
        a = k.a
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM, k.r >= a.rows, k.c >= a.cols))
        k.out('a', k.mat(a.rows, a.cols, lambda i, j: a(i, j), el))
    if el == 'i':                        # products of int elements have a range precondition of their own
        continue
    @cl('product_transposed', 'MD $(const MB&a,const MB&b){return linalg::transpose(a*b);}', 'a:mat b:mat', 'P10', 'mat_mul transpose')
    def _(k, el=el):
        a, b = k.a, k.b
        k.throws(a.cols != b.rows)
        F = Fold(2, lambda i, j: zero_of(el), lambda acc, t, i, j: gadd(acc, gmul(b(t, i), a(j, t))), SORT[el], name='trsum')
        k.ret(k.mat(b.cols, a.rows, lambda i, j: F(a.cols, i, j), el))
    @cl('transposed_product', 'MD $(const MB&a,const MB&b){return linalg::transpose(b)*linalg::transpose(a);}', 'a:mat b:mat', 'P10', 'mat_mul transpose')
    def _(k, el=el):
        a, b = k.a, k.b
        k.throws(a.cols != b.rows)
        F = Fold(2, lambda i, j: zero_of(el), lambda acc, t, i, j: gadd(acc, gmul(b(t, i), a(j, t))), SORT[el], name='trsum')
        k.ret(k.mat(b.cols, a.rows, lambda i, j: F(a.cols, i, j), el))

# ---------------------------------------------------------------- sums over the elements between two iterators
for el, VT, ET, kx in (('d', 'VD', 'double', 'd'), ('i', 'VI', 'int', 'i'), ('c', 'VX', 'X', 'x')):
    sx = '' if el == 'd' else '_' + el
    sig = lambda s, VT=VT, ET=ET: s.replace('VD', VT).replace('ET', ET)
    @contract('accumulate' + sx, sig('ET $(VD&v,ET x){return utility::accumulate(v.begin(),v.end(),x);}'), 'v:vec.%s x:%s' % (el, kx), 'P12 P27', client=True)
    def _(k, el=el):
        F = k.fold(0, lambda: k.x, lambda acc, n: gadd(acc, k.v(n)), sort=SORT[el])
        if el == 'i':
            isum(k, [k.v.size], F, lambda n: k.v(n))
            k.requires(inr(F(k.v.size)))
            k.retbits, k.ret_signed = 32, True
            k.ret(F(k.v.size))
            return
        ret_elem(k, F(k.v.size), k.v.size)
    @contract('inner_product' + sx, sig('ET $(VD&v,VD&w,ET x){return utility::inner_product(v.begin(),v.end(),w.begin(),x);}'), 'v:vec.%s w:vec.%s x:%s' % (el, el, kx), 'P10 P27', client=True, alias=[('v', 'w')])
    def _(k, el=el):
        k.requires(k.w.size >= k.v.size)
        F = k.fold(0, lambda: k.x, lambda acc, n: gadd(acc, gmul(k.v(n), k.w(n))), sort=SORT[el])
        if el == 'i':
            isum(k, [k.v.size], F, lambda n: imul(k.v(n), k.w(n)))
            k.requires(inr(F(k.v.size)))
            k.retbits, k.ret_signed = 32, True
            k.ret(F(k.v.size))
            return
        ret_elem(k, F(k.v.size), k.v.size)
