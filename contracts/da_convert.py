# construction and assignment from a vector or matrix with elements of another type: converted one by one
for sx, ka, kb in (('_di', 'd', 'i'), ('_cd', 'c', 'd'), ('_ci', 'c', 'i'), ('_id', 'i', 'd')):
    T = lambda s, ka=ka, kb=kb: text(s, ka, kb)
    to = Real if ka == 'd' else Cx
    zb = KIND[kb]['zero']
    cv = lambda x, to=to, f=Exec.F2S if ka == 'i' else None: f(x) if f is not None else up(x, to)      # F2S: towards zero
    V1, V2, M1, M2, B2 = 'self:new', 'o:vec.' + kb, 'a:Mat.' + ka, 'o:Mat.' + kb, 'o:mat.' + kb
    def vec(k, ka=ka, cv=cv):
        return k.vec(k.o.size, lambda i: cv(k.o(i)), ka)
    def mat(k, ka=ka, cv=cv):
        return k.mat(k.o.rows, k.o.cols, lambda i, j: cv(k.o(i, j)), ka)
    def gone(k, zb=zb, kb=kb):
        k.out('o', VecSpec(0, lambda *i: zb, kb))
    def gonem(k, zb=zb, kb=kb):
        k.out('o', MatSpec(0, 0, lambda *i: zb, kb))

    @contract('vec_conv' + sx, T('void $(VD1*p,const VD2&o){new(p) VD1(o);}'), V1 + ' ' + V2, 'P01 P27')
    def _(k, vec=vec):
        k.ret(vec(k))

    @contract('vec_convmove' + sx, T('void $(VD1*p,VD2&o){new(p) VD1(std::move(o));}'), V1 + ' ' + V2, 'P01 P27')
    def _(k, vec=vec, gone=gone):
        k.ret(vec(k))
        gone(k)

    @contract('vec_convassign' + sx, T('VD1& $(VD1&a,const VD2&o){return a=o;}'), 'a:vec.%s ' % ka + V2, 'P01 P27')
    def _(k, vec=vec):
        k.out('a', vec(k))
        k.ret(RefSpec('a'))

    @contract('vec_convmassign' + sx, T('VD1& $(VD1&a,VD2&o){return a=std::move(o);}'), 'a:vec.%s ' % ka + V2, 'P01 P27')
    def _(k, vec=vec, gone=gone):
        k.out('a', vec(k))
        gone(k)
        k.ret(RefSpec('a'))

    for nm, ty, par in (('mat_conv', 'MD2', M2), ('mat_convb', 'MB2', B2)):
        @contract(nm + sx, T('void $(MD1*p,const %s&o){new(p) MD1(o);}' % ty), V1 + ' ' + par, 'P02 P27')
        def _(k, mat=mat, cv=cv):
            k.ret(mat(k))
            k.goal(1, lambda i: cv(k.o(dv(i, k.o.cols), md(i, k.o.cols))))

        @contract(nm.replace('conv', 'convassign') + sx, T('MD1& $(MD1&a,const %s&o){return a=o;}' % ty), M1 + ' ' + par, 'P02 P27')
        def _(k, mat=mat):
            k.out('a', mat(k))
            k.ret(RefSpec('a'))

    @contract('mat_convmove' + sx, T('void $(MD1*p,MD2&o){new(p) MD1(std::move(o));}'), V1 + ' ' + M2, 'P02 P27')
    def _(k, mat=mat, gonem=gonem, cv=cv):
        k.ret(mat(k))
        k.goal(1, lambda i: cv(k.o(dv(i, k.o.cols), md(i, k.o.cols))))
        gonem(k)

# a window on a matrix takes the elements of a matrix of another element type
for sx, ka, kb in (('_di', 'd', 'i'), ('_cd', 'c', 'd')):
    XS = '' if ka == 'd' else 'X'
    to, B2 = (Real if ka == 'd' else Cx), KIND[kb]['B']
    @contract('view_convassign' + sx, 'void $(VW%s&v,const %s&b){v=b;}' % (XS, B2), 'v:view.%s b:mat.%s' % (ka, kb), 'P05 P27')
    def _(k, el=ka, to=to):
        w, T = k.v.raw, k.T
        k.requires(z3.And(k.b.rows == k.v.rows, k.b.cols == k.v.cols))
        k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(i >= w.rs, i < w.rs + k.v.rows, j >= w.cs, j < w.cs + k.v.cols), up(k.b(i - w.rs, j - w.cs), to), T(i, j)), el))
        k.shifts += [w.rs, w.cs]

    @contract('cof_convassign' + sx, 'void $(CV%s&v,const %s&b){v=b;}' % (XS, B2), 'v:cof.%s b:mat.%s' % (ka, kb), 'P06 P27')
    def _(k, el=ka, to=to):
        w, T = k.v.raw, k.T
        k.requires(z3.And(k.b.rows == k.v.rows, k.b.cols == k.v.cols))
        ci, cj = (lambda i: z3.If(i > w.p, i - 1, i)), (lambda j: z3.If(j > w.q, j - 1, j))
        g = lambda i, j: up(k.b(ci(i), cj(j)), to)
        k.out('T', k.mat(T.rows, T.cols, lambda i, j: z3.If(z3.And(i != w.p, j != w.q), g(i, j), T(i, j)), el, goal=False))
        k.region('rows', 1, lambda v0, r: v0.withC(CLam(2, SORT[el], lambda i, j: z3.If(z3.And(i != w.p, j != w.q, ci(i) < r), g(i, j), T(i, j)))))
        k.region('cells', 2, lambda v0, r, c: v0.withC(CLam(2, SORT[el], lambda i, j: z3.If(z3.And(i != w.p, j != w.q, z3.Or(ci(i) < r, z3.And(ci(i) == r, cj(j) < c))), g(i, j), T(i, j)))))
