# text for people and for other programs: the elements in order, row by row
E3_ = E_ + (('_c', 'c', 'VX', 'MX', 'MBX', R(201), lambda p, x: Exec.CDEC(p, RE(x), IM(x))),)
def seps(k, label, n, total):
    """the separator comes behind every element but the last, or before every element but the first"""
    k.phicands.append((2, 'a separator ' + label, lambda s, i: s == z3.If(z3.And(i >= n, total > 0), I(0), I(1))))
    k.phicands.append((2, 'no separator ' + label, lambda s, i: s == z3.If(z3.And(i >= 1, total > 0), I(0), I(1))))

def printed(k, n, total, elem, ek):
    """the elements are appended to the stream, which is at its start or behind white space"""
    o = k.o
    k.requires(o.at == 1)
    n0 = o.rows
    fn = lambda i, j: z3.If(i < n0, o(i, j), z3.If(j == 0, ek, elem(i - n0)))
    k.out('o', TupSpec([(0, MatVal(n0 + total, I(2), CLam(2, Real, fn), 'd', 'stream')), (8, z3.If(total > 0, I(0), I(1))), (16, o.precision)]))
    k.ret(RefSpec('o'))
    seps(k, 'before', n, total)
    return lambda n: MatVal(n0 + n, I(2), CLam(2, Real, fn), 'd', 'stream')

for sx, el, VT, MT, BT, ek, enc in E3_:
    @contract('print_vec' + sx, 'std::ostream *$(std::ostream&o,const VD&v){return &(o<<v);}'.replace('VD', VT), 'o:stream v:vec.' + el, 'P34 P27')
    def _(k, ek=ek, enc=enc):
        v = k.v
        w = printed(k, v.size, v.size, lambda i: enc(k.o.precision, v(i)), ek)
        k.region('tokens', 1, lambda v0, i: w(i))

    @contract('print_mat' + sx, 'std::ostream *$(std::ostream&o,const MB&m){return &(o<<m);}'.replace('MB', BT), 'o:stream m:mat.' + el, 'P34 P27')
    def _(k, ek=ek, enc=enc):
        m = k.m
        w = printed(k, m.rows, prod(m.rows, m.cols), lambda i: enc(k.o.precision, m(dv(i, m.cols), md(i, m.cols))), ek)
        seps(k, 'in the row', m.cols, m.cols)
        k.region('rows of tokens', 1, lambda v0, r: w(lin(r, I(0), m.cols)))
        k.region('tokens of a row', 2, lambda v0, r, c: w(lin(r, c, m.cols)))

# the Matlab form: name = [ elements ] and name = [ [ row ]; [ row ]; ]
def text(n, fn):
    return MatVal(n, I(2), CLam(2, Real, fn), 'd', 'stream')
def token(i, j, at, toks, rest):
    """the tokens from position at on, then the others; the first one of all is the name"""
    for q in range(len(toks) - 1, -1, -1):
        rest = z3.If(i == at + q, z3.If(j == 0, R(200) if toks[q] == 'N' else CH(toks[q]), R(0)), rest)
    return rest
for sx, el, VT, MT, BT, ek, enc in E3_:
    @contract('dump_vec' + sx, 'std::string $(const char *name,const VD&v){return dump_vector(name,v);}'.replace('VD', VT), 'name:txt v:vec.' + el, 'P34 P27', uses='print_vec' + sx)
    def _(k, ek=ek, enc=enc):
        v = k.v
        n = v.size
        fn = lambda i, j: token(i, j, 0, 'N=', z3.If(j == 0, ek, enc(I(6), v(i - 2))))
        k.ret(TupSpec([(0, text(n + 2, fn))]))
        seps(k, 'before', n, n)
        k.region('tokens', 1, lambda v0, i: text(2 + i, fn))

    @contract('dump_mat' + sx, 'std::string $(const char *name,const MB&m){return dump_matrix(name,m);}'.replace('MB', BT), 'name:txt m:mat.' + el, 'P34 P27', uses='print_mat' + sx)
    def _(k, ek=ek, enc=enc):
        m = k.m
        n = prod(m.rows, m.cols)
        fn = lambda i, j: token(i, j, 0, 'N=', z3.If(j == 0, ek, enc(I(6), m(dv(i - 2, m.cols), md(i - 2, m.cols)))))
        k.ret(TupSpec([(0, text(2 + n, fn))]))
        seps(k, 'before', m.rows, n)
        seps(k, 'in the row', m.cols, m.cols)
        k.region('rows of tokens', 1, lambda v0, r: text(2 + lin(r, I(0), m.cols), fn))
        k.region('tokens of a row', 2, lambda v0, r, c: text(2 + lin(r, c, m.cols), fn))

for sx, el, VT, MT, BT, ek, enc in E_:
    @contract('matlab_vec' + sx, 'std::string $(const char *name,const VD&v){return to_matlab(name,v);}'.replace('VD', VT), 'name:txt v:vec.' + el, 'P34 P27')
    def _(k, ek=ek, enc=enc):
        v = k.v
        n = v.size
        fn = lambda i, j: token(i, j, 0, 'N=[', z3.If(i < n + 3, z3.If(j == 0, ek, enc(I(6), v(i - 3))), token(i, j, n + 3, ']', R(0))))
        k.ret(TupSpec([(0, text(n + 4, fn))]))
        seps(k, 'before', n, n)
        k.region('tokens', 1, lambda v0, i: text(3 + i, fn))

    @contract('matlab_mat' + sx, 'std::string $(const char *name,const MB&m){return to_matlab(name,m);}'.replace('MB', BT), 'name:txt m:mat.' + el, 'P34 P27')
    def _(k, ek=ek, enc=enc):
        m = k.m
        w = m.cols + 3         # [ elements ] ;
        def fn(i, j):
            r, c = dv(i - 3, w), md(i - 3, w)
            row = token(c, j, 0, '[', z3.If(c < m.cols + 1, z3.If(j == 0, ek, enc(I(6), m(r, c - 1))), token(c, j, m.cols + 1, '];', R(0))))
            return token(i, j, 0, 'N=[', z3.If(r < m.rows, row, token(c, j, 0, ']', R(0))))
        k.ret(TupSpec([(0, text(4 + lin(m.rows, I(0), w), fn))]))
        seps(k, 'in the row', m.cols, m.cols)
        k.region('rows of tokens', 1, lambda v0, r: text(3 + lin(r, I(0), w), fn))
        k.region('tokens of a row', 2, lambda v0, r, c: text(3 + lin(r, c + 1, w), fn))

# a complex number: its real part, its imaginary part with a sign, i
def cpart(e, j, x):
    return z3.If(e == 0, z3.If(j == 0, R(1), DEC(I(6), RE(x))), z3.If(e == 1, z3.If(j == 0, R(203), DEC(I(6), IM(x))), z3.If(j == 0, CH('i'), R(0))))
@contract('matlab_vec_c', 'std::string $(const char *name,const VX&v){return to_matlab(name,v);}', 'name:txt v:vec.c', 'P34 P27')
def _(k):
    v = k.v
    n = 3 * v.size
    fn = lambda i, j: token(i, j, 0, 'N=[', z3.If(i < 3 + n, cpart((i - 3) % 3, j, v((i - 3) / 3)), token(i, j, 3 + n, ']', R(0))))
    k.ret(TupSpec([(0, text(4 + n, fn))]))
    k.region('tokens', 1, lambda v0, i: text(3 + 3 * i, fn))

@contract('matlab_mat_c', 'std::string $(const char *name,const MBX&m){return to_matlab(name,m);}', 'name:txt m:mat.c', 'P34 P27')
def _(k):
    m = k.m
    w = 3 * m.cols + 3         # [ real part, signed imaginary part, i ... ] ;
    def fn(i, j):
        r, c = dv(i - 3, w), md(i - 3, w)
        el = cpart((c - 1) % 3, j, m(r, (c - 1) / 3))
        row = token(c, j, 0, '[', z3.If(c < 3 * m.cols + 1, el, token(c, j, 3 * m.cols + 1, '];', R(0))))
        return token(i, j, 0, 'N=[', z3.If(r < m.rows, row, token(c, j, 0, ']', R(0))))
    k.ret(TupSpec([(0, text(4 + lin(m.rows, I(0), w), fn))]))
    k.region('rows of tokens', 1, lambda v0, r: text(3 + lin(r, I(0), w), fn))
    k.region('tokens of a row', 2, lambda v0, r, c: text(3 + lin(r, 3 * c + 1, w), fn))

# a state-space model: the four matrices by name, then what kind of model it is
for nm, cls, pk, tail in (('css', 'StateSpace', 'css.d', ['Continuous-time state-space model.']), ('dss', 'DiscreteStateSpace', 'sys.d', ['Sample time:', None, 'seconds Discrete-time state-space model.'])):
    @contract('print_' + nm, 'std::ostream *$(std::ostream&o,const control::%s<double>&s){return &(o<<s);}' % cls, 'o:stream s:' + pk, 'P34 P27', uses='print_mat')
    def _(k, tail=tail):
        o = k.o
        k.requires(o.at == 1)
        n, rest, at = o.rows, [], o.rows
        for x in (k.A, k.B, k.C, k.D):
            rest.append((at, 'ABCD'[len(rest) // 2] + '='))
            rest.append((at + 2, x))
            at = at + 2 + prod(x.rows, x.cols)
        for t in tail:
            rest.append((at, t.replace(' ', '') if t else None))
            at = at + (len(t.replace(' ', '')) if t else 1)
        end = at
        def fn(i, j):
            r = o(i, j)
            for a, t in rest:
                if t is None:
                    e = z3.If(j == 0, R(1), DEC(o.precision, k.sample_time))
                elif isinstance(t, str):
                    e = token(i, j, a, t, R(0))
                else:
                    e = z3.If(j == 0, R(1), DEC(o.precision, t(dv(i - a, t.cols), md(i - a, t.cols))))
                r = z3.If(i >= a, e, r)
            return r
        k.out('o', TupSpec([(0, MatVal(end, I(2), CLam(2, Real, fn), 'd', 'stream')), (8, I(1)), (16, o.precision)]))
        k.ret(RefSpec('o'))
