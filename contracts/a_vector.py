# Vector<T>: the owning block of elements (T = double, int, bool)
Z0 = lambda *i: R(0)

# suffix, element kind, vector, matrix, matrix base, element type, kind of a value argument, of a reference argument
ELS = (('', 'd', 'VD', 'MD', 'MB', 'double', 'd', 'D'), ('_i', 'i', 'VI', 'MI', 'MBI', 'int', 'i', 'I'), ('_b', 'b', 'VO', 'MO', 'MBO', 'bool', 'b', 'B'),
       ('_z', 'z', 'VZ', 'MZ', 'MBZ', 'unsigned long', 'n', 'N'), ('_c', 'c', 'VX', 'MX', 'MBX', 'X', 'x', 'X'))
ELS3 = [r for r in ELS if r[1] in 'dic']

def zero_of(e):
    return CX(R(0), R(0)) if e == 'c' else R(0) if e == 'd' else I(0)

for sx, el, VT, MT, BT, ET, kv, kr in ELS:
    zz = zero_of(el)
    S = lambda s, VT=VT, MT=MT, BT=BT, ET=ET: s.replace('VD', VT).replace('MD', MT).replace('MB', BT).replace('double', ET)
    cell = lambda v: z3.If(v, I(1), I(0)) if z3.is_bool(v) else v
    @contract('vec_ctor0' + sx, S('void $(VD*p){new(p) VD();}'), 'self:new', 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.ret(k.vec(0, lambda *i: zz, el))

    @contract('vec_ctorn' + sx, S('void $(VD*p,Z n){new(p) VD(n);}'), 'self:new n:n', 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.n <= MAXLEN)
        k.ret(k.vec(k.n, lambda *i: zz, el))

    @contract('vec_ctornv' + sx, S('void $(VD*p,Z n,double v){new(p) VD(n,v);}'), 'self:new n:n v:%s' % kv, 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.n <= MAXLEN)
        k.ret(k.vec(k.n, lambda i: cell(k.v), el))

    @contract('vec_copy' + sx, S('void $(VD*p,const VD&o){new(p) VD(o);}'), 'self:new o:vec.%s' % el, 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.ret(k.vec(k.o.size, lambda i: k.o(i), el))

    @contract('vec_move' + sx, S('void $(VD*p,VD&o){new(p) VD(std::move(o));}'), 'self:new o:vec.%s' % el, 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.ret(k.vec(k.o.size, lambda i: k.o(i), el))
        k.out('o', VecSpec(0, lambda *i: zz, el))

    @contract('dtor_vec' + sx, S('void $(VD*p){p->~VD();}'), 'self:del.' + el, 'base P01 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.out('self', Gone())

    @contract('vec_size' + sx, S('Z $(const VD&v){return v.size();}'), 'v:vec.%s' % el, 'P01')
    def _(k, zz=zz, el=el, cell=cell):
        k.ret(k.v.size)

    @contract('vec_empty' + sx, S('bool $(const VD&v){return v.empty();}'), 'v:vec.%s' % el, 'P01')
    def _(k, zz=zz, el=el, cell=cell):
        k.ret(k.v.size == 0)

    @contract('vec_index' + sx, [S('double& $(VD&v,Z i){return v[i];}'), S('const double& $(const VD&v,Z i){return v[i];}')], 'v:vec.%s i:n' % el, 'P01 P03 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.i < k.v.size)
        k.ret(CellSpec('v', (k.i,)))

    @contract('vec_resize' + sx, S('VD& $(VD&v,Z n){return v.resize(n);}'), 'v:vec.%s n:n' % el, 'base P01 P04 P27')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.n <= MAXLEN)
        k.out('v', k.vec(k.n, lambda i: z3.If(i < k.v.size, k.v(i), zz), el))
        k.ret(RefSpec('v'))

    @contract('vec_resizev' + sx, S('VD& $(VD&v,const VD&o){return v.resize(o);}'), 'v:vec.%s o:vec.%s' % (el, el), 'P01 P27', alias=[('v', 'o')])
    def _(k, zz=zz, el=el, cell=cell):
        n = k.o.size
        k.out('v', k.vec(n, lambda i: z3.If(i < k.v.size, k.v(i), zz), el))
        k.ret(RefSpec('v'))

    @contract('vec_assign' + sx, S('VD& $(VD&v,const VD&o){return v=o;}'), 'v:vec.%s o:vec.%s' % (el, el), 'base P01 P27', alias=[('v', 'o')])
    def _(k, zz=zz, el=el, cell=cell):
        k.out('v', k.vec(k.o.size, lambda i: k.o(i), el))
        k.ret(RefSpec('v'))

    @contract('vec_massign' + sx, S('VD& $(VD&v,VD&o){return v=std::move(o);}'), 'v:vec.%s o:vec.%s' % (el, el), 'base P01 P27', alias=[('v', 'o')])
    def _(k, zz=zz, el=el, cell=cell):
        same = k.locs['v'] == k.locs['o']
        k.out('v', k.vec(k.o.size, lambda i: k.o(i), el))
        if not same:
            k.out('o', VecSpec(0, lambda *i: zz, el))
        k.ret(RefSpec('v'))

    @contract('vec_data' + sx, [S('double* $(VD&v){return v.data();}'), S('const double* $(const VD&v){return v.data();}'), S('double* $(VD&v){return v.begin();}'), S('const double* $(const VD&v){return v.begin();}'), S('const double* $(const VD&v){return v.cbegin();}')], 'v:vec.%s' % el, 'P01 P03')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.v.size > 0)
        k.ret(CellSpec('v', (0,)))

    @contract('vec_end' + sx, [S('double* $(VD&v){return v.end();}'), S('const double* $(const VD&v){return v.end();}'), S('const double* $(const VD&v){return v.cend();}')], 'v:vec.%s' % el, 'P01 P03')
    def _(k, zz=zz, el=el, cell=cell):
        k.requires(k.v.size > 0)
        k.ret(CellSpec('v', (k.v.size,)))

for sx, el, VT, MT, BT, ET, kv, kr in ELS3:
    S = lambda s, VT=VT, ET=ET: s.replace('VD', VT).replace('double', ET)
    @contract('vec_ctoril' + sx, S('void $(VD*p,const std::initializer_list<double>&l){new(p) VD(l);}'), 'self:new l:il.%s' % el, 'P01 P27')
    def _(k, el=el):
        k.ret(k.vec(k.l.size, lambda i: k.l(i), el))

    @contract('vec_ctornil' + sx, S('void $(VD*p,Z n,const std::initializer_list<double>&l){new(p) VD(n,l);}'), 'self:new n:n l:il.%s' % el, 'P01 P27')
    def _(k, el=el):
        k.requires(k.n == k.l.size)
        k.ret(k.vec(k.l.size, lambda i: k.l(i), el))

