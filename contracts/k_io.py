# file streams.  What is written for a vector: V, the number of elements, the elements; for a matrix: M, rows, columns, the
# elements row by row.  The readers take exactly these tokens, so what was written is read back (elements up to DEC, the
# decimal rounding of the stream; integers exactly).
class StreamSpec:
    def __init__(self, n, fn):
        self.n, self.fn = toi(n), fn
    def value(self):
        return MatVal(self.n, I(2), CLam(2, Real, self.fn), 'd', 'stream')
CH = lambda c: R(2 + ord(c))
DEC, EI, IV = Exec.DEC, Exec.EI, Exec.IV

def layout(o, n0, kind, dims, elem, ek):
    """kind and value of token i of a stream that held n0 tokens, then an object"""
    h = 1 + len(dims)
    def fn(i, j):
        t = z3.If(j == 0, ek, elem(i - n0 - h))
        for q in range(len(dims) - 1, -1, -1):
            t = z3.If(i == n0 + 1 + q, z3.If(j == 0, R(0), EI(dims[q])), t)
        t = z3.If(i == n0, z3.If(j == 0, CH(kind), R(0)), t)
        return z3.If(i < n0, o(i, j), t)
    return fn

def written(k, kind, dims, elem, ek, total):
    o = k.o
    k.requires(o.at == 1)             # the stream is at the start or the last object was ended
    n0, fn = o.rows, layout(o, o.rows, kind, dims, elem, ek)
    k.out('o', TupSpec([(0, MatVal(n0 + 1 + len(dims) + total, I(2), CLam(2, Real, fn), 'd', 'stream')), (8, I(1)), (16, o.precision)]))
    k.ret(RefSpec('o'))
    k.phicands.append((2, 'a separator before', lambda s, i: z3.Or(s == 1, i >= 1)))
    for q, d in enumerate(dims):
        k.phicands.append((2, 'a separator after %d' % q, lambda s, i, d=d: z3.Or(s == 1, i >= d)))
    return lambda n: MatVal(n0 + 1 + len(dims) + n, I(2), CLam(2, Real, fn), 'd', 'stream')

def at_object(k, kind, dims, ek, total):
    """the stream is at an object written before; returns its element i"""
    s = k.s
    h = 1 + len(dims)
    k.requires(z3.And(s.at + h + total <= s.rows, s(s.at, 0) == CH(kind)))
    for q, d in enumerate(dims):
        k.requires(z3.And(s(s.at + 1 + q, 0) == 0, IV(s(s.at + 1 + q, 1)) == d))
    el = lambda i: s(s.at + h + i, 1)
    if len(dims) == 1:
        k.requires_all(dims, lambda i: s(s.at + h + i, 0) == ek)
    else:
        k.requires_all(dims, lambda r, c: s(s.at + h + lin(r, c, dims[1]), 0) == ek)
        k.requires_all([total], lambda i: s(s.at + h + i, 0) == ek)
        k.insts.append((I(0), I(0)))
    k.insts.append((I(0),))
    k.phicands.append((2, 'position', lambda p, i: p == s.at + h + i))
    k.out('s', TupSpec([(0, s), (8, s.at + h + total), (16, s.precision)]))
    k.ret(RefSpec('s'))
    return el

E_ = (('', 'd', 'VD', 'MD', 'MB', R(1), lambda p, x: DEC(p, x)), ('_i', 'i', 'VI', 'MI', 'MBI', R(0), lambda p, x: EI(x)))
for sx, el, VT, MT, BT, ek, enc in E_:
    @contract('write_vec' + sx, 'std::ofstream *$(std::ofstream&o,const VD&v){return &(o<<v);}'.replace('VD', VT), 'o:stream v:vec.' + el, 'P26 P27')
    def _(k, ek=ek, enc=enc):
        v = k.v
        w = written(k, 'V', [v.size], lambda i: enc(k.o.precision, v(i)), ek, v.size)
        k.region('tokens', 1, lambda v0, i: w(i))

    @contract('write_mat' + sx, 'std::ofstream *$(std::ofstream&o,const MB&v){return &(o<<v);}'.replace('MB', BT), 'o:stream m:mat.' + el, 'P26 P27')
    def _(k, ek=ek, enc=enc):
        m = k.m
        w = written(k, 'M', [m.rows, m.cols], lambda i: enc(k.o.precision, m(dv(i, m.cols), md(i, m.cols))), ek, prod(m.rows, m.cols))
        k.region('rows of tokens', 1, lambda v0, r: w(lin(r, I(0), m.cols)))
        k.region('tokens of a row', 2, lambda v0, r, c: w(lin(r, c, m.cols)))

    @contract('read_vec' + sx, 'std::ifstream *$(std::ifstream&s,VD&v){return &(s>>v);}'.replace('VD', VT), 's:stream v:vec.' + el, 'P26 P27')
    def _(k, el=el, ek=ek):
        n = k.ghost('size')
        k.requires(z3.And(n >= 0, n <= MAXDIM))
        e = at_object(k, 'V', [n], ek, n)
        k.out('v', k.vec(n, (lambda i: e(i)) if el == 'd' else (lambda i: IV(e(i))), el))
        if el == 'i':
            k.requires_all([n], lambda i: z3.And(IV(e(i)) >= -(1 << 31), IV(e(i)) < (1 << 31)))

    @contract('read_mat' + sx, 'std::ifstream *$(std::ifstream&s,MD&m){return &(s>>m);}'.replace('MD', MT), 's:stream m:Mat.' + el, 'P26 P27', uses='mat_resize' + sx)
    def _(k, el=el, ek=ek):
        rows, cols = k.ghost('rows'), k.ghost('cols')
        k.requires(z3.And(rows >= 0, cols >= 0, rows <= MAXDIM, cols <= MAXDIM))
        e0 = at_object(k, 'M', [rows, cols], ek, prod(rows, cols))
        e = lambda r, c: e0(lin(r, c, cols))
        if el == 'i':
            k.requires_all([rows, cols], lambda r, c: z3.And(IV(e(r, c)) >= -(1 << 31), IV(e(r, c)) < (1 << 31)))
            k.requires_all([prod(rows, cols)], lambda i: z3.And(IV(e0(i)) >= -(1 << 31), IV(e0(i)) < (1 << 31)))
        k.out('m', k.mat(rows, cols, e if el == 'd' else (lambda r, c: IV(e(r, c))), el))
        k.phicands.append((2, 'position at a row', lambda p, r: p == k.s.at + 3 + lin(r, I(0), cols)))
        k.phicands_outer.append((2, 'position in a row', lambda p, c, r: p == k.s.at + 3 + lin(r, c, cols)))
