# Matrix<T>: shape and row-major storage (T = double, int, bool)
Z0 = lambda *i: R(0)

for sx, el, VT, MT, BT, ET, kv, kr in ELS:
    zz = zero_of(el)
    S = lambda s, VT=VT, MT=MT, BT=BT, ET=ET: s.replace('VD', VT).replace('MD', MT).replace('MB', BT).replace('double', ET)
    @contract('mat_ctor0' + sx, S('void $(MD*p){new(p) MD();}'), 'self:new', 'base P02 P27')
    def _(k, zz=zz, el=el):
        k.ret(k.mat(0, 0, lambda *i: zz, el))

    @contract('mat_ctorfill' + sx, S('void $(MD*p,Z r,Z c,const double&v){new(p) MD(r,c,v);}'), 'self:new r:n c:n v:%s' % kr, 'base P02 P27')
    def _(k, zz=zz, el=el):
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
        k.ret(k.mat(k.r, k.c, lambda i, j: k.v, el))

    @contract('mat_copy' + sx, S('void $(MD*p,const MD&o){new(p) MD(o);}'), 'self:new o:Mat.%s' % el, 'base P02 P27')
    def _(k, zz=zz, el=el):
        k.ret(k.mat(k.o.rows, k.o.cols, lambda i, j: k.o(i, j), el))
        k.goal(1, lambda i: k.o(dv(i, k.o.cols), md(i, k.o.cols)))

    @contract('mat_copyb' + sx, [S('void $(MD*p,const MB&o){new(p) MD(o);}'), S('void $(MD*p,const MatrixBase<const double>&o){new(p) MD(o);}')], 'self:new o:mat.%s' % el, 'base P02 P05 P06 P27')
    def _(k, zz=zz, el=el):
        k.ret(k.mat(k.o.rows, k.o.cols, lambda i, j: k.o(i, j), el))
        k.goal(1, lambda i: k.o(dv(i, k.o.cols), md(i, k.o.cols)))

    @contract('mat_move' + sx, S('void $(MD*p,MD&o){new(p) MD(std::move(o));}'), 'self:new o:Mat.%s' % el, 'base P02 P27')
    def _(k, zz=zz, el=el):
        k.ret(k.mat(k.o.rows, k.o.cols, lambda i, j: k.o(i, j), el))
        k.out('o', MatSpec(0, 0, lambda *i: zz, el))

    @contract('dtor_mat' + sx, S('void $(MD*p){p->MD::~MD();}'), 'self:del.M%s' % ('' if el == 'd' else el), 'base P02 P27')
    def _(k, zz=zz, el=el):
        k.out('self', Gone())

    @contract('mat_assign' + sx, S('MD& $(MD&a,const MD&b){return a=b;}'), 'a:Mat.%s b:Mat.%s' % (el, el), 'base P02 P27', alias=[('a', 'b')])
    def _(k, zz=zz, el=el):
        k.out('a', k.mat(k.b.rows, k.b.cols, lambda i, j: k.b(i, j), el))
        k.ret(RefSpec('a'))

    @contract('mat_massign' + sx, S('MD& $(MD&a,MD&b){return a=std::move(b);}'), 'a:Mat.%s b:Mat.%s' % (el, el), 'base P02 P27', alias=[('a', 'b')])
    def _(k, zz=zz, el=el):
        k.out('a', k.mat(k.b.rows, k.b.cols, lambda i, j: k.b(i, j), el))
        if k.locs['a'] != k.locs['b']:
            k.out('b', MatSpec(0, 0, lambda *i: zz, el))
        k.ret(RefSpec('a'))

    @contract('mat_assignb' + sx, S('MD& $(MD&a,const MB&b){return a=b;}'), 'a:Mat.%s b:mat.%s' % (el, el), 'base P02 P05 P27', alias=[('a', 'b')])
    def _(k, zz=zz, el=el):
        k.out('a', k.mat(k.b.rows, k.b.cols, lambda i, j: k.b(i, j), el))
        k.ret(RefSpec('a'))

    @contract('mat_reshape' + sx, [S('MD& $(MD&a,Z r,Z c){return a.reshape(r,c);}'), S('MD& $(MD&a,Z r,Z c){return utility::reshape(a,r,c);}')], 'a:Mat.%s r:n c:n' % el, 'P04 P27 P09')
    def _(k, zz=zz, el=el):
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
        k.throws(prod(k.r, k.c) != prod(k.a.rows, k.a.cols))
        k.out('a', k.mat(k.r, k.c, lambda i, j: k.a(dv(lin(i, j, k.c), k.a.cols), md(lin(i, j, k.c), k.a.cols)), el))
        k.ret(RefSpec('a'))

    @contract('mat_resize' + sx, [S('MD& $(MD&a,Z r,Z c){return a.resize(r,c);}'), S('MD& $(MD&a,Z r,Z c){return utility::resize(a,r,c);}')], 'a:Mat.%s r:n c:n' % el, 'P04 P27')
    def _(k, zz=zz, el=el):
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
        k.out('a', k.mat(k.r, k.c, lambda i, j: z3.If(z3.And(i < k.a.rows, j < k.a.cols), k.a(i, j), zz), el))
        k.ret(RefSpec('a'))

    for nm, ex in (('at', 'a.MD::at(i,j)'), ('call', 'a.MD::operator()(i,j)')):
        @contract('mat_' + nm + sx, [S('double& $(MD&a,Z i,Z j){return %s;}' % ex), S('const double& $(const MD&a,Z i,Z j){return %s;}' % ex)], 'a:Mat.%s i:n j:n' % el, 'P03 P27')
        def _(k, zz=zz, el=el):
            k.requires(z3.And(k.i < k.a.rows, k.j < k.a.cols))
            k.ret(CellSpec('a', (k.i, k.j)))

    @contract('mat_index' + sx, [S('double& $(MD&a,Z i){return a.MD::operator[](i);}'), S('const double& $(const MD&a,Z i){return a.MD::operator[](i);}')], 'a:Mat.%s i:n' % el, 'P03 P27')
    def _(k, zz=zz, el=el):
        k.requires(k.i < prod(k.a.rows, k.a.cols))
        k.ret(CellSpec('a', (dv(k.i, k.a.cols), md(k.i, k.a.cols))))

    @contract('mat_rows' + sx, S('Z $(const MD&a){return a.MB::rows();}'), 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.ret(k.a.rows)
    @contract('mat_cols' + sx, S('Z $(const MD&a){return a.MB::cols();}'), 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.ret(k.a.cols)
    @contract('mat_size' + sx, S('Z $(const MD&a){return a.MB::size();}'), 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.ret(prod(k.a.rows, k.a.cols))
    @contract('mat_empty' + sx, S('bool $(const MD&a){return a.MB::empty();}'), 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.ret(prod(k.a.rows, k.a.cols) == 0)

    @contract('mat_data' + sx, [S('double* $(MD&a){return a.MD::data();}'), S('const double* $(const MD&a){return a.MD::data();}'), S('double* $(MD&a){return a.begin();}'), S('const double* $(const MD&a){return a.begin();}')], 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.requires(prod(k.a.rows, k.a.cols) > 0)
        k.ret(CellSpec('a', (0, 0)))

    @contract('mat_end' + sx, [S('double* $(MD&a){return a.end();}'), S('const double* $(const MD&a){return a.end();}')], 'a:Mat.%s' % el, 'P03')
    def _(k, zz=zz, el=el):
        k.requires(prod(k.a.rows, k.a.cols) > 0)
        k.ret(CellSpec('a', (k.a.rows, 0)))

for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    for nm, tg, L in (('mat_ctoril', '', 'std::initializer_list'), ('mat_ctorsv', 'v', 'std::vector')):
        @contract(nm + sx, 'void $(%s*p,Z r,Z c,const %s<%s>&l){new(p) %s(r,c,l);}' % (MT, L, ET, MT), 'self:new r:n c:n l:il.%s%s' % (tg, el), 'P02 P27')
        def _(k, el=el):
            k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
            k.throws(k.l.size < prod(k.r, k.c))
            k.ret(k.mat(k.r, k.c, lambda i, j: k.l(lin(i, j, k.c)), el))
            k.goal(1, lambda i: k.l(i))


# nested lists: rows of one length, at least one of them, none empty
def oddrow(k, l, n):
    """the first row whose length is not that of the first one, or the number of rows"""
    w = k.ghost('odd')
    k.define(z3.And(w >= 0, w <= n, z3.Implies(w < n, l.len(w) != l.len(0))))
    k.define_all(1, lambda i: z3.Implies(z3.And(i >= 0, i < w), l.len(i) == l.len(0)))
    k.insts.append((w,))
    k.pred([n], lambda i: l.len(i) == l.len(0))
    k.flagspec, k.flagw = AllSpec([n], lambda i: l.len(i) == l.len(0)), (w,)
    return w
NIL = 'std::initializer_list<std::initializer_list<%s>>'
for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    @contract('mat_ctornil' + sx, 'void $(%s*p,const %s&l){new(p) %s(l);}' % (MT, NIL % ET, MT), 'self:new l:nil.' + el, 'P02 P27')
    def _(k, el=el):
        l, n = k.l, k.l.size
        k.requires(n <= MAXDIM)
        w = oddrow(k, l, n)
        k.throws(z3.Or(n == 0, l.len(0) == 0, w < n))
        k.goal(1, lambda i: l(dv(i, l.len(0)), md(i, l.len(0))))
        k.ret(k.mat(n, l.len(0), lambda r, c: l(r, c), el))
    @contract('mat_assignnil' + sx, '%s& $(%s&a,const %s&l){return a=l;}' % (MT, MT, NIL % ET), 'a:Mat.%s l:nil.%s' % (el, el), 'P02 P27')
    def _(k, el=el):
        a, l, n = k.a, k.l, k.l.size
        k.requires(n <= MAXDIM)
        w, m = oddrow(k, l, n), l.len(0)
        e = z3.Or(n == 0, m == 0)
        k.throws(z3.And(z3.Not(e), w < n))
        k.goal(1, lambda i: l(dv(i, m), md(i, m)))
        k.out('a', k.mat(z3.If(e, a.rows, n), z3.If(e, a.cols, m), lambda r, c: z3.If(e, a(r, c), l(r, c)), el))
        k.ret(RefSpec('a'))
