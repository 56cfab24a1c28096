# element-wise arithmetic, products, comparisons; elements double, int, std::complex<double> and mixtures of them
import z3
def sameshape(a, b):
    return z3.And(a.rows == b.rows, a.cols == b.cols)
def b2i(b):
    return z3.If(b, I(1), I(0))
def rmax(a, b):
    return z3.If(a < b, b, a)
def approx(a, b):
    if a.sort() == Int and b.sort() == Int:
        return a == b
    if a.sort() == Cx and b.sort() == Cx:            # part by part
        return z3.And(approx(RE(a), RE(b)), approx(IM(a), IM(b)))
    x, y, d = gabs(a), gabs(b), gabs(gsub(a, b))
    s = Real if Real in (x.sort(), y.sort()) else Int
    return up(d, Real) <= fmul(TOL, up(rmax(up(x, s), up(y, s)), Real))

KIND = {'d': dict(T='double', M='MD', B='MB', V='VD', val='d', ref='D', zero=R(0)),
        'i': dict(T='int', M='MI', B='MBI', V='VI', val='i', ref='I', zero=I(0)),
        'c': dict(T='X', M='MX', B='MBX', V='VX', val='x', ref='X', zero=CX(R(0), R(0)))}
COMMON = lambda x, y: 'c' if 'c' in x + y else 'd' if 'd' in x + y else 'i'
# suffix of the contract names, element kinds of the left and of the right operand
ALG = [('', 'd', 'd'), ('_i', 'i', 'i'), ('_c', 'c', 'c'), ('_id', 'i', 'd'), ('_di', 'd', 'i'), ('_cd', 'c', 'd'), ('_dc', 'd', 'c')]
def inr(*xs):
    return z3.And(*[z3.And(x >= -(1 << 31), x < (1 << 31)) for x in xs])
def defd(op, x, y):
    """the built-in operation on the elements x and y is defined (int operations can leave the range of int)"""
    if x.sort() != Int or y.sort() != Int:
        return None
    if op == '/':
        return z3.And(y != 0, z3.Not(z3.And(y == -1, x == -(1 << 31))))
    return inr({'+': x + y, '-': x - y, '*': imul(x, y)}[op])
def need(k, op, dims, x, y):
    i = [fresh('q') for _ in dims]
    if defd(op, x(*i), y(*i)) is not None:
        k.requires_all(dims, lambda *i: defd(op, x(*i), y(*i)))
def text(s, ka, kb=None):
    """MB1 MD1 VD1 T1 / MB2 ... / MDR VDR: the types of the operands and of the result"""
    for n, q in (('1', KIND[ka]), ('2', KIND[kb or ka]), ('R', KIND[COMMON(ka, kb or ka)])):
        for t, u in (('MB', 'B'), ('MD', 'M'), ('VD', 'V'), ('T', 'T')):
            s = s.replace(t + n, q[u])
    return s

def ret_elem(k, x, n):
    """the element x is returned; an int result comes back in a 32-bit register"""
    if x.sort() == Int:
        k.insts.append((n - 1,))
        k.define(z3.Implies(n == 0, x == 0))         # the empty sum
        k.retbits, k.ret_signed = 32, True
        k.ret(x)
    else:
        k.ret(RegSpec([RE(x), IM(x)]) if x.sort() == Cx else x)

OPS = {'add': ('+', gadd), 'sub': ('-', gsub), 'mul': ('*', gmul), 'div': ('/', gdiv)}
for sx, ka, kb in ALG:
    kr = COMMON(ka, kb)
    zero = KIND[kr]['zero']
    ref, val = KIND[kb]['ref'], KIND[kb]['val']
    T = lambda s, ka=ka, kb=kb: text(s, ka, kb)
    al = [('a', 'b')] if ka == kb else []
    conv = 'mat_convb_%s%s' % (kr, ka) if kr != ka else ''        # a result that starts as a converted copy
    inplace = kr == ka               # the result type is the type of the left operand
    A, B = 'a:mat.%s' % ka, 'b:mat.%s' % kb
    VA, VB = 'a:vec.%s' % ka, 'b:vec.%s' % kb
    # ------------------------------------------------------------ element-wise, matrices
    for nm in ('add', 'sub'):
        op, f = OPS[nm]
        @contract('mm_' + nm + sx, T('MDR $(const MB1&a,const MB2&b){return a%sb;}' % op), A + ' ' + B, 'P07 P09 P27', alias=al, uses=conv)
        def _(k, f=f, op=op, kr=kr):
            k.throws(z3.Not(sameshape(k.a, k.b)))
            need(k, op, [k.a.rows, k.a.cols], k.a, k.b)
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: f(k.a(i, j), k.b(i, j)), kr))
        if inplace:
            @contract('mm_i' + nm + sx, T('void $(MB1&a,const MB2&b){a%s=b;}' % op), A + ' ' + B, 'P07 P09 P27', alias=al)
            def _(k, f=f, op=op, kr=kr):
                k.throws(z3.Not(sameshape(k.a, k.b)))
                need(k, op, [k.a.rows, k.a.cols], k.a, k.b)
                k.out('a', k.mat(k.a.rows, k.a.cols, lambda i, j: f(k.a(i, j), k.b(i, j)), kr))
                k.ret(RefSpec('a'))
    for nm in ('add', 'sub', 'mul', 'div'):
        op, f = OPS[nm]
        @contract('ms_' + nm + sx, T('MDR $(const MB1&a,const T2&b){return a%sb;}' % op), A + ' b:' + ref, 'P07 P27')
        def _(k, f=f, op=op, kr=kr):
            need(k, op, [k.a.rows, k.a.cols], k.a, lambda *i: k.b)
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: f(k.a(i, j), k.b), kr))
        if inplace:
            @contract('ms_i' + nm + sx, T('void $(MB1&a,T2 b){a%s=b;}' % op), A + ' b:' + val, 'P07 P27')
            def _(k, f=f, op=op, kr=kr):
                need(k, op, [k.a.rows, k.a.cols], k.a, lambda *i: k.b)
                k.out('a', k.mat(k.a.rows, k.a.cols, lambda i, j: f(k.a(i, j), k.b), kr))
                k.ret(RefSpec('a'))
    @contract('sm_mul' + sx, T('MDR $(const T2&b,const MB1&a){return b*a;}'), 'b:%s ' % ref + A, 'P07 P27', uses='ms_mul' + sx)
    def _(k, kr=kr):
        need(k, '*', [k.a.rows, k.a.cols], k.a, lambda *i: k.b)
        k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: gmul(k.a(i, j), k.b), kr))

    # ------------------------------------------------------------ element-wise, vectors
    for nm in ('add', 'sub', 'mul'):
        op, f = OPS[nm]
        @contract('vv_' + nm + sx, T('VDR $(const VD1&a,const VD2&b){return a%sb;}' % op), VA + ' ' + VB, 'P08 P09 P27', alias=al)
        def _(k, f=f, op=op, kr=kr):
            k.throws(k.a.size != k.b.size)
            need(k, op, [k.a.size], k.a, k.b)
            k.ret(k.vec(k.a.size, lambda i: f(k.a(i), k.b(i)), kr))
    for nm in ('add', 'sub'):
        op, f = OPS[nm]
        if inplace:
            @contract('vv_i' + nm + sx, T('void $(VD1&a,const VD2&b){a%s=b;}' % op), VA + ' ' + VB, 'P08 P09 P27', alias=al)
            def _(k, f=f, op=op, kr=kr):
                k.throws(k.a.size != k.b.size)
                need(k, op, [k.a.size], k.a, k.b)
                k.out('a', k.vec(k.a.size, lambda i: f(k.a(i), k.b(i)), kr))
                k.ret(RefSpec('a'))
    for nm in ('add', 'sub', 'mul', 'div'):
        op, f = OPS[nm]
        if kb == 'c':                # a vector and a complex scalar: not offered by the library
            continue
        @contract('vs_' + nm + sx, T('VDR $(const VD1&a,const T2&b){return a%sb;}' % op), VA + ' b:' + ref, 'P08 P27')
        def _(k, f=f, op=op, kr=kr):
            need(k, op, [k.a.size], k.a, lambda *i: k.b)
            k.ret(k.vec(k.a.size, lambda i: f(k.a(i), k.b), kr))
        if inplace:
            @contract('vs_i' + nm + sx, T('void $(VD1&a,T2 b){a%s=b;}' % op), VA + ' b:' + val, 'P08 P27')
            def _(k, f=f, op=op, kr=kr):
                need(k, op, [k.a.size], k.a, lambda *i: k.b)
                k.out('a', k.vec(k.a.size, lambda i: f(k.a(i), k.b), kr))
                k.ret(RefSpec('a'))
    if kb != 'c':
        @contract('sv_mul' + sx, T('VDR $(const T2&b,const VD1&a){return b*a;}'), 'b:%s ' % ref + VA, 'P08 P27')
        def _(k, kr=kr):
            need(k, '*', [k.a.size], k.a, lambda *i: k.b)
            k.ret(k.vec(k.a.size, lambda i: gmul(k.b, k.a(i)), kr))

    # ------------------------------------------------------------ products
    def dotfold(k, nkeys, x, y, depth, dims, kr=kr, zero=zero):
        """sums over n of x(n, keys) * y(n, keys); with int elements every product and every partial sum is an int"""
        F = k.fold(nkeys, lambda *q: zero, lambda acc, n, *q: gadd(acc, gmul(x(n, *q), y(n, *q))), sort=zero.sort())
        if kr == 'i':
            k.insts += [(I(0),) * n for n in range(1, nkeys + 2)]          # the facts below are needed at the loop counters
            k.requires_all(dims + [depth], lambda *q: inr(imul(x(q[-1], *q[:-1]), y(q[-1], *q[:-1])), F(q[-1], *q[:-1]), F(q[-1] + 1, *q[:-1])))
            k.requires_all(dims, lambda *q: inr(F(depth, *q))) if dims else k.requires(inr(F(depth)))
        return F
    @contract('mat_mul' + sx, T('MDR $(const MB1&a,const MB2&b){return a*b;}'), A + ' ' + B, 'P10 P09 P27', alias=al)
    def _(k, dotfold=dotfold, kr=kr):
        k.throws(k.a.cols != k.b.rows)
        F = dotfold(k, 2, lambda n, r, c: k.a(r, n), lambda n, r, c: k.b(n, c), k.a.cols, [k.a.rows, k.b.cols])
        k.ret(k.mat(k.a.rows, k.b.cols, lambda r, c: F(k.a.cols, r, c), kr))
    if inplace:
        @contract('mat_imul' + sx, T('void $(MB1&a,const MB2&b){a*=b;}'), A + ' ' + B, 'P10 P09 P27', alias=al)
        def _(k, dotfold=dotfold, kr=kr):
            k.throws(z3.Or(k.a.cols != k.b.rows, k.a.cols != k.b.cols))
            F = dotfold(k, 2, lambda n, r, c: k.a(r, n), lambda n, r, c: k.b(n, c), k.a.cols, [k.a.rows, k.b.cols])
            k.out('a', k.mat(k.a.rows, k.a.cols, lambda r, c: F(k.a.cols, r, c), kr))
            k.ret(RefSpec('a'))
    @contract('matvec' + sx, [T('VDR $(const MB1&a,const VD2&b){return a*b;}'), T('VDR $(const MB1&a,const VD2&b){return dot(a,b);}')], A + ' ' + VB, 'P10 P09 P27')
    def _(k, dotfold=dotfold, kr=kr):
        k.throws(k.a.cols != k.b.size)
        F = dotfold(k, 1, lambda n, r: k.a(r, n), lambda n, r: k.b(n), k.a.cols, [k.a.rows])
        k.ret(k.vec(k.a.rows, lambda r: F(k.a.cols, r), kr))
    if sx in ('', '_i', '_c'):
        @contract('dot' + sx, T('TR $(const VD1&a,const VD2&b){return dot(a,b);}'), VA + ' ' + VB, 'P10 P09 P27', alias=al)
        def _(k, dotfold=dotfold, kr=kr):
            k.throws(k.a.size != k.b.size)
            F = dotfold(k, 0, lambda n: k.a(n), lambda n: k.b(n), k.a.size, [])
            x = F(k.a.size)
            ret_elem(k, x, k.a.size)

    # ------------------------------------------------------------ comparisons
    CMP = (('eq', '==', approx), ('ne', '!=', lambda a, b: z3.Not(approx(a, b))), ('gt', '>', lambda a, b: a > b), ('ge', '>=', lambda a, b: a >= b), ('lt', '<', lambda a, b: a < b), ('le', '<=', lambda a, b: a <= b))
    for nm, op, g in CMP:
        if kr == 'c' and nm not in ('eq', 'ne'):
            continue
        f = (lambda x, y, g=g: g(up(x, Real), up(y, Real))) if ka != kb and nm not in ('eq', 'ne') else g
        def small(k, dims, x, y, ka=ka, kb=kb, nm=nm):     # the absolute value of an int element is an int
            if nm in ('eq', 'ne') and {ka, kb} == {'i', 'd'}:
                k.requires_all(dims, lambda *i: (x if ka == 'i' else y)(*i) > -(1 << 31))
        @contract('mm_' + nm + sx, T('MO $(const MB1&a,const MB2&b){return a%sb;}' % op), A + ' ' + B, 'P11 P09 P27', alias=al)
        def _(k, f=f, small=small, ka=ka, kb=kb, nm=nm):
            k.throws(z3.Not(sameshape(k.a, k.b)))
            small(k, [k.a.rows, k.a.cols], k.a, k.b)
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: b2i(f(k.a(i, j), k.b(i, j))), 'b'))
        @contract('ms_' + nm + sx, T('MO $(const MB1&a,const T2&b){return a%sb;}' % op), A + ' b:' + ref, 'P11 P27')
        def _(k, f=f, small=small, ka=ka, kb=kb, nm=nm):
            if kb == 'i' and ka == 'd' and nm in ('eq', 'ne'):
                k.requires(k.b > -(1 << 31))
            else:
                small(k, [k.a.rows, k.a.cols], k.a, lambda *i: k.b)
            k.ret(k.mat(k.a.rows, k.a.cols, lambda i, j: b2i(f(k.a(i, j), k.b)), 'b'))
        if nm in ('eq', 'ne'):
            @contract('vv_' + nm + sx, T('VO $(const VD1&a,const VD2&b){return a%sb;}' % op), VA + ' ' + VB, 'P11 P09 P27', alias=al)
            def _(k, f=f, small=small, ka=ka, kb=kb, nm=nm):
                k.throws(k.a.size != k.b.size)
                small(k, [k.a.size], k.a, k.b)
                k.ret(k.vec(k.a.size, lambda i: b2i(f(k.a(i), k.b(i))), 'b'))
            @contract('vs_' + nm + sx, T('VO $(const VD1&a,const T2&b){return a%sb;}' % op), VA + ' b:' + ref, 'P11 P27')
            def _(k, f=f, small=small, ka=ka, kb=kb, nm=nm):
                if kb == 'i' and ka == 'd':
                    k.requires(k.b > -(1 << 31))
                else:
                    small(k, [k.a.size], k.a, lambda *i: k.b)
                k.ret(k.vec(k.a.size, lambda i: b2i(f(k.a(i), k.b)), 'b'))
