# random matrices and vectors: the requested shape, every element (both parts of a complex one) within the limits
def within(el, lo, hi):
    if el == 'c':
        return lambda x: z3.And(lo <= RE(x), RE(x) <= hi, lo <= IM(x), IM(x) <= hi)
    return lambda x: z3.And(lo <= x, x <= hi)
for sx, el, MT, VT, ET, bt, kb in (('', 'd', 'MD', 'VD', 'double', 'double', 'd'), ('_di', 'd', 'MD', 'VD', 'double', 'int', 'i'), ('_i', 'i', 'MI', 'VI', 'int', 'int', 'i'),
                                   ('_c', 'c', 'MX', 'VX', 'X', 'double', 'd'), ('_ci', 'c', 'MX', 'VX', 'X', 'int', 'i')):
    up_ = (lambda x: z3.ToReal(x)) if el != 'i' and kb == 'i' else (lambda x: x)
    @contract('rand_matrix' + sx, '%s $(Z r,Z c,%s a,%s b){return utility::rand_matrix<%s>(r,c,a,b);}' % (MT, bt, bt, ET), 'r:n c:n a:%s b:%s' % (kb, kb), 'P33 P27')
    def _(k, el=el, up_=up_):
        k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM, k.a <= k.b))
        P = within(el, up_(k.a), up_(k.b))
        k.cellpreds.append(P)
        k.ret(AnySpec([k.r, k.c], P, el))
    @contract('rand_vector' + sx, '%s $(Z n,%s a,%s b){return utility::rand_vector<%s>(n,a,b);}' % (VT, bt, bt, ET), 'n:n a:%s b:%s' % (kb, kb), 'P33 P27')
    def _(k, el=el, up_=up_):
        k.requires(z3.And(k.n <= MAXLEN, k.a <= k.b))
        P = within(el, up_(k.a), up_(k.b))
        k.cellpreds.append(P)
        k.ret(AnySpec([k.n], P, el))
