# scalar helpers: mixed complex arithmetic, tolerance comparisons, factorial
for nm, op, f in (('add', '+', gadd), ('sub', '-', gsub), ('mul', '*', gmul), ('div', '/', gdiv)):
    # the operands are converted to the common type first: gmul(x, CX(r, 0)) would also be right, up to signed zeros
    for sx, ta, tb, ka, kb in (('xd', 'X', 'double', 'X', 'D'), ('dx', 'double', 'X', 'D', 'X'), ('xi', 'X', 'int', 'X', 'I'), ('ix', 'int', 'X', 'I', 'X')):
        @contract('cs_%s_%s' % (nm, sx), 'X $(const %s&a,const %s&b){return ::operator%s(a,b);}' % (ta, tb, op), 'a:%s b:%s' % (ka, kb), 'P32 P27')
        def _(k, f=f):
            r = f(k.a, k.b)
            k.ret(RegSpec([RE(r), IM(r)]))
    @contract('cs_%s_xx' % nm, 'X $(const X&a,const X&b){return ::operator%s(a,b);}' % op, 'a:X b:X', 'P32 P27')
    def _(k, f=f):
        r = f(k.a, k.b)
        k.ret(RegSpec([RE(r), IM(r)]))

NUM = (('', 'double', 'double', 'd', 'd'), ('_i', 'int', 'int', 'i', 'i'), ('_id', 'int', 'double', 'i', 'd'), ('_di', 'double', 'int', 'd', 'i'))
def less(a, b):
    s = Real if Real in (a.sort(), b.sort()) else Int
    return up(a, s) < up(b, s)
def approx_s(a, b):
    """the difference is at most TOL times the larger magnitude"""
    x, y, d = gabs(a), gabs(b), gabs(gsub(a, b))
    s = Real if Real in (x.sort(), y.sort()) else Int
    return up(d, Real) <= fmul(TOL, up(rmax(up(x, s), up(y, s)), Real))
def tol_facts(y):
    """a positive number is more than TOL times itself"""
    t = fmul(TOL, y)
    return z3.And(TOL > 0, TOL < 1, z3.Implies(y > 0, z3.And(t >= 0, t < y)), z3.Implies(y == 0, t == 0))
for sx, ta, tb, ka, kb in NUM + (('_c', 'X', 'X', 'x', 'x'),):
    def safe(k):
        for x in (k.a, k.b) + ((k.a - k.b,) if k.a.sort() == Int == k.b.sort() else ()):          # int differences and magnitudes are ints
            if x.sort() == Int and k.mode == 'verify':          # int operations stay in the range of int: assumed everywhere
                k.requires(z3.And(x > -(1 << 31), x < (1 << 31)))
        x, y = gabs(k.a), gabs(k.b)
        s = Real if Real in (x.sort(), y.sort()) else Int
        k.define(tol_facts(up(rmax(up(x, s), up(y, s)), Real)))
    @contract('feq' + sx, 'bool $(%s a,%s b){return feq::approximately_equal(a,b);}' % (ta, tb), 'a:%s b:%s' % (ka, kb), 'P32 P27')
    def _(k, safe=safe):
        safe(k)
        k.ret(approx_s(k.a, k.b))
    if sx == '_c':
        continue
    @contract('fle' + sx, 'bool $(%s a,%s b){return feq::approximately_lesser_than_equal(a,b);}' % (ta, tb), 'a:%s b:%s' % (ka, kb), 'P32 P27')
    def _(k, safe=safe):
        safe(k)
        k.ret(z3.Or(less(k.a, k.b), approx_s(k.a, k.b)))
    @contract('fge' + sx, 'bool $(%s a,%s b){return feq::approximately_greater_than_equal(a,b);}' % (ta, tb), 'a:%s b:%s' % (ka, kb), 'P32 P27')
    def _(k, safe=safe):
        safe(k)
        k.ret(z3.Or(less(k.b, k.a), approx_s(k.a, k.b)))
for sx, t, kd in (('', 'double', 'd'), ('_i', 'int', 'i'), ('_c', 'X', 'x')):
    @contract('fzero' + sx, 'bool $(%s a){return feq::approximately_equal_to_zero(a);}' % t, 'a:%s' % kd, 'P32 P27')
    def _(k):
        k.define(z3.And(TOL > 0, TOL < 1))
        if k.a.sort() == Int and k.mode == 'verify':
            k.requires(k.a > -(1 << 31))
        if k.a.sort() == Cx:             # of std::abs
            h = mathuf('hypot', 2)(RE(k.a), IM(k.a))
            k.define(z3.And(h >= 0, (h == 0) == z3.And(RE(k.a) == 0, IM(k.a) == 0)))
        k.ret(k.a == 0 if k.a.sort() != Cx else z3.And(RE(k.a) == 0, IM(k.a) == 0))

@contract('factorial', 'int $(int n){return linalg::factorial<int>(n);}', 'n:i', 'P32 P27')
def _(k):
    n = k.n
    F = Fold(0, lambda: I(1), lambda acc, t: imul(t + 1, acc), Int, name='fact')
    k.requires(n >= 0)
    k.requires_all([n + 1], lambda i: z3.And(F(i) >= -(1 << 31), F(i) < (1 << 31)))
    k.define(z3.If(n == 0, F(n) == 1, F(n) == imul(n, F(n - 1))))          # the definition, at n
    k.define(z3.And(F(n) >= -(1 << 31), F(n) < (1 << 31), z3.Implies(n > 0, z3.And(F(n - 1) >= -(1 << 31), F(n - 1) < (1 << 31)))))     # two instances of the precondition
    k.measure = n
    k.retbits, k.ret_signed = 32, True
    k.ret(F(n))
