# View and CofactorView: windows on a matrix
MAXZ = (1 << 64) - 1

import re
def vcontract(sx, el, MT, BT, ET):
    """the contracts below for the element type: the texts are written for double"""
    XS = {'d': '', 'i': 'I', 'c': 'X'}[el]
    def text(s):
        s = re.sub(r'\b(VW[CB]?|CV[CB]?)\b', lambda m: m.group(1) + XS, s)
        for a, b in (('MB', BT), ('MD', MT), ('double', ET)):
            s = re.sub(r'\b%s\b' % a, b, s)
        return s
    def V(name, code, params, props, **kw):
        params = re.sub(r':(Mat|mat|view|cof)(?![.\w])', lambda m: ':%s.%s' % (m.group(1), el), params)
        return contract(name + sx, [text(c) for c in ([code] if isinstance(code, str) else code)], params, props, **kw)
    return V

for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    V = vcontract(sx, el, MT, BT, ET)

    @V('view_ctor', ['void $(VW*p,MD*m,Z a,Z b,Z c,Z d){new(p) VW(m,a,b,c,d);}', 'void $(VW*p,MD*m,Z a,Z b,Z c,Z d){new(p) VW(m,Range{a,b},Range{c,d});}',
                            'void $(VWC*p,const MD*m,Z a,Z b,Z c,Z d){new(p) VWC(m,a,b,c,d);}', 'void $(VWC*p,const MD*m,Z a,Z b,Z c,Z d){new(p) VWC(m,Range{a,b},Range{c,d});}'],
              'self:new m:Mat a:n b:n c:n d:n', 'base P05 P27')
    def _(k, el=el):
        k.requires(z3.And(k.a < k.b, k.c < k.d))
        k.ret(ViewSpec('m', k.a, k.b, k.c, k.d))

    @V('view_make', ['VW $(MD&m,Z a,Z b,Z c,Z d){return m(Range{a,b},Range{c,d});}', 'VWC $(const MD&m,Z a,Z b,Z c,Z d){return m(Range{a,b},Range{c,d});}'],
              'm:Mat a:n b:n c:n d:n', 'P05 P27')
    def _(k, el=el):
        k.requires(z3.And(k.a < k.b, k.c < k.d))
        k.ret(ViewSpec('m', k.a, k.b, k.c, k.d))

    @V('cof_ctor', ['void $(CV*p,MD*m,Z a,Z b){new(p) CV(m,a,b);}'], 'self:new m:Mat a:n b:n', 'base P06 P27')
    def _(k, el=el):
        k.ret(CofSpec('m', k.a, k.b))

    @V('cof_ctorc', ['void $(CVC*p,const MB*m,Z a,Z b){new(p) CVC(m,a,b);}'], 'self:new m:mat a:n b:n', 'base P06 P18 P27')
    def _(k, el=el):
        k.ret(CofSpec('m', k.a, k.b))

    # views of any kind of matrix (a view of a view, a view of a cofactor view)
    @V('gview_ctor', 'void $(VWB*p,MB*m,Z a,Z b,Z c,Z d){new(p) VWB(m,a,b,c,d);}', 'self:new m:mat a:n b:n c:n d:n', 'P05 P27')
    def _(k, el=el):
        k.requires(z3.And(k.a < k.b, k.c < k.d))
        k.ret(ViewSpec('m', k.a, k.b, k.c, k.d))
    @V('gcof_ctor', 'void $(CVB*p,MB*m,Z a,Z b){new(p) CVB(m,a,b);}', 'self:new m:mat a:n b:n', 'P06 P27')
    def _(k, el=el):
        k.ret(CofSpec('m', k.a, k.b))
    for cls, kind, nm, pr in (('VW', 'view', 'view', 'P05'), ('VWC', 'view', 'viewc', 'P05'), ('CV', 'cof', 'cof', 'P06'), ('CVC', 'cof', 'cofc', 'P06'),
                              ('VWB', 'view.%sg' % el, 'gview', 'P05'), ('CVB', 'cof.%sg' % el, 'gcof', 'P06')):
        cst = cls in ('VWC', 'CVC')
        @V(nm + '_rows', 'Z $(const %s&v){return v.%s::rows();}' % (cls, cls), 'v:' + kind, pr + ' P27')
        def _(k, el=el):
            k.ret(k.v.rows)
        @V(nm + '_cols', 'Z $(const %s&v){return v.%s::cols();}' % (cls, cls), 'v:' + kind, pr + ' P27')
        def _(k, el=el):
            k.ret(k.v.cols)
        @V(nm + '_size', 'Z $(const %s&v){return v.%s::size();}' % (cls, cls), 'v:' + kind, pr + ' P27')
        def _(k, el=el):
            k.ret(prod(k.v.rows, k.v.cols))
        for mn, ex in (('at', 'at(i,j)'), ('call', 'operator()(i,j)')):
            code = ['const double& $(const %s&v,Z i,Z j){return v.%s::%s;}' % (cls, cls, ex)]
            if not cst:
                code.append('double& $(%s&v,Z i,Z j){return v.%s::%s;}' % (cls, cls, ex))
            @V(nm + '_' + mn, code, 'v:%s i:n j:n' % kind, pr + ' P27')
            def _(k, el=el):
                k.requires(z3.And(k.i < k.v.rows, k.j < k.v.cols))
                k.ret(CellSpec('v', (k.i, k.j)))
        code = ['const double& $(const %s&v,Z i){return v.%s::operator[](i);}' % (cls, cls)]
        if not cst:
            code.append('double& $(%s&v,Z i){return v.%s::operator[](i);}' % (cls, cls))
        @V(nm + '_index', code, 'v:%s i:n' % kind, pr + ' P03 P27')
        def _(k, el=el):
            k.requires(k.i < prod(k.v.rows, k.v.cols))
            k.ret(CellSpec('v', (dv(k.i, k.v.cols), md(k.i, k.v.cols))))

    for cls, kind, nm in (('VW', 'view', 'view'), ('VWB', 'view.%sg' % el, 'gview')):
        @V(nm + '_assign', ['void $(%s&v,const MB&b){v=b;}' % cls], 'v:%s b:mat' % kind, 'P05 P27')
        def _(k, el=el):
            w, T = k.v.raw, k.T
            k.requires(z3.And(k.b.rows == k.v.rows, k.b.cols == k.v.cols))
            k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(i >= w.rs, i < w.rs + k.v.rows, j >= w.cs, j < w.cs + k.v.cols), k.b(i - w.rs, j - w.cs), T(i, j)), el))
            k.shifts += [w.rs, w.cs]
        # from a view of another matrix
        if nm == 'view':
            @V('view_assignv', ['void $(VW&v,const VW&w){v=w;}', 'void $(VW&v,const VWC&w){v=w;}'], 'v:view w:view', 'P05 P27')
            def _(k, el=el):
                w, T = k.v.raw, k.T
                k.requires(z3.And(k.w.rows == k.v.rows, k.w.cols == k.v.cols))
                k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(i >= w.rs, i < w.rs + k.v.rows, j >= w.cs, j < w.cs + k.v.cols), k.w(i - w.rs, j - w.cs), T(i, j)), el))
                k.shifts += [w.rs, w.cs]
        # a list of the shape of the view; any other one is refused with a message
        @V(nm + '_assignnil', ['void $(%s&v,const std::initializer_list<std::initializer_list<double>>&l){v=l;}' % cls], 'v:%s l:nil.%s' % (kind, el), 'P05 P27')
        def _(k, el=el):
            w, T, l = k.v.raw, k.T, k.l
            odd = oddrow(k, l, l.size)
            ok = z3.And(l.size > 0, l.size == k.v.rows, l.len(0) == k.v.cols, l.len(0) > 0, odd == l.size)
            k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(ok, i >= w.rs, i < w.rs + k.v.rows, j >= w.cs, j < w.cs + k.v.cols), l(i - w.rs, j - w.cs), T(i, j)), el))
            k.pred([l.size], lambda i: l.len(i) == k.v.cols)
            k.shifts += [w.rs, w.cs]

    for cls, kind, nm in (('CV', 'cof', 'cof'), ('CVB', 'cof.%sg' % el, 'gcof')):
        @V(nm + '_assign', ['void $(%s&v,const MB&b){v=b;}' % cls], 'v:%s b:mat' % kind, 'P06 P27')
        def _(k, el=el):
            w, T = k.v.raw, k.T
            k.requires(z3.And(k.b.rows == k.v.rows, k.b.cols == k.v.cols))
            ci, cj = (lambda i: z3.If(i > w.p, i - 1, i)), (lambda j: z3.If(j > w.q, j - 1, j))
            k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(i != w.p, j != w.q), k.b(ci(i), cj(j)), T(i, j)), el, goal=False))
            k.region('rows', 1, lambda v0, r: v0.withC(CLam(2, SORT[el], lambda i, j: z3.If(z3.And(i != w.p, j != w.q, ci(i) < r), k.b(ci(i), cj(j)), T(i, j)))))
            k.region('cells', 2, lambda v0, r, c: v0.withC(CLam(2, SORT[el], lambda i, j: z3.If(z3.And(i != w.p, j != w.q, z3.Or(ci(i) < r, z3.And(ci(i) == r, cj(j) < c))), k.b(ci(i), cj(j)), T(i, j)))))

    @V('cofactor', 'MD $(const MB&m,Z p,Z q){return linalg::cofactor(m,p,q);}', 'm:mat p:n q:n', 'P06 P18 P27')
    def _(k, el=el):
        k.requires(z3.And(k.p < k.m.rows, k.q < k.m.cols))
        sk = lambda i, p: z3.If(i >= p, i + 1, i)
        dn = lambda r, p: z3.If(r > p, r - 1, r)
        g = lambda i, j: k.m(sk(i, k.p), sk(j, k.q))
        k.ret(k.mat(k.m.rows - 1, k.m.cols - 1, g, el, goal=False))
        k.phicands.append((2, 'row', lambda i, row: i == z3.If(k.m.cols > 1, dn(row, k.p), I(0))))
        k.phicands.append((2, 'next row', lambda i, row: i == dn(row, k.p)))
        k.phicands.append((2, 'next column', lambda j, col: j == dn(col, k.q)))
        k.phicands_outer.append((3, 'cell', lambda row, i, j, col: z3.If(z3.And(row != k.p, k.m.cols > 1), z3.If(dn(col, k.q) < k.m.cols - 1, z3.And(j == dn(col, k.q), i == dn(row, k.p)), z3.And(j == 0, i == dn(row, k.p) + 1)), z3.And(j == 0, i == z3.If(k.m.cols > 1, dn(row, k.p), I(0))))))
        k.region('cells', 2, lambda v0, i, j: v0.withC(CLam(2, SORT[el], lambda r, c: z3.If(z3.Or(r < i, z3.And(r == i, c < j)), g(r, c), v0.C.read(r, c)))))
        k.region('cell rows', 1, lambda v0, i: v0.withC(CLam(2, SORT[el], lambda r, c: z3.If(r < i, g(r, c), v0.C.read(r, c)))))

    @V('view_util', ['VW $(MD&m,Z a,Z b,Z c,Z d){return utility::view(m,a,b,c,d);}'], 'm:Mat a:n b:n c:n d:n', 'P05 P27', uses='view_ctor' + sx)
    def _(k, el=el):
        k.requires(z3.And(k.a < k.b, k.c < k.d))
        k.ret(ViewSpec('m', k.a, k.b, k.c, k.d))
    @V('view_row', ['VW $(MD&m,Z r,Z c,Z d){return utility::row(m,r,c,d);}'], 'm:Mat r:n c:n d:n', 'P05 P27', uses='view_ctor' + sx)
    def _(k, el=el):
        k.requires(z3.And(k.r + 1 < W64, k.c < k.d))
        k.ret(ViewSpec('m', k.r, k.r + 1, k.c, k.d))
    @V('view_col', ['VW $(MD&m,Z q,Z a,Z b){return utility::col(m,q,a,b);}'], 'm:Mat q:n a:n b:n', 'P05 P27', uses='view_ctor' + sx)
    def _(k, el=el):
        k.requires(z3.And(k.q + 1 < W64, k.a < k.b))
        k.ret(ViewSpec('m', k.a, k.b, k.q, k.q + 1))
