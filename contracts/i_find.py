# positions of the non-zero elements
# CNT(n): number of non-zero elements among the first n (row-major); NTH(t,rows,cols,j): position of the j-th non-zero
# element of the content named t, any function with NTH(CNT(i)) = i at every non-zero element i (the counts before two
# different non-zero elements differ: lean/Lemmas.lean, nth_exists)
NTH = z3.Function('NTH', Int, Int, Int, Int, Int)
def positions(k, a, nz):
    T = prod(a.rows, a.cols)
    x = lambda i: a(dv(i, a.cols), md(i, a.cols))
    cnt = Fold(0, lambda: I(0), lambda acc, i: acc + z3.If(nz(x(i)), I(1), I(0)), sort=Int, name='cnt')
    nth = lambda j: NTH(tok(a), a.rows, a.cols, j)
    k.define_all(1, lambda i: z3.Implies(z3.And(i >= 0, i < T, nz(x(i))), nth(cnt(i)) == i))
    return T, x, cnt, nth

def find_spec(k, n, from_start, nz):
    a = k.a
    T, x, cnt, nth = positions(k, a, nz)
    c = cnt(T)
    k.requires(c <= MAXDIM)
    m = z3.If(n < c, n, c)
    first = z3.If(z3.And(n < c, z3.Not(from_start)), c - n, I(0))
    row = a.rows == 1
    k.ret(k.mat(z3.If(n == 0, I(0), z3.If(row, I(1), m)), z3.If(n == 0, I(0), z3.If(row, m, I(1))), lambda i, j: nth(first + z3.If(row, j, i)), 'z'))
for sx, el, MT, nz in (('', 'd', 'MD', lambda x: x != 0), ('_i', 'i', 'MI', lambda x: x != 0)):
    @contract('flatnonzero' + sx, 'SV $(const MD&a){return utility::flatnonzero(a);}'.replace('MD', MT), 'a:Mat.' + el, 'P24 P27')
    def _(k, nz=nz):
        T, x, cnt, nth = positions(k, k.a, nz)
        k.induct('a count of n elements is at most n', 0, lambda n: z3.And(cnt(n) >= 0, cnt(n) <= n))
        k.region('found', 1, lambda v0, i: VecVal(cnt(i), CLam(1, Int, nth), 'z', True))
        k.ensures('no more positions than elements', lambda rv: z3.And(cnt(T) >= 0, cnt(T) <= T))
        k.insts.append((T,))
        k.ret(k.vec(cnt(T), nth, 'z', std=True))

    @contract('find' + sx, 'MZ $(const MD&a,Z n,bool f){return utility::find(a,n,f);}'.replace('MD', MT), 'a:Mat.%s n:n f:b' % el, 'P24 P27', uses='flatnonzero%s mat_ctorsv_z' % sx)
    def _(k, nz=nz):
        find_spec(k, k.n, k.f, nz)

@contract('mat_ctorsv_z', 'void $(MZ*p,Z r,Z c,const SV&l){new(p) MZ(r,c,l);}', 'self:new r:n c:n l:sv.z', 'P02 P27')
def _(k):
    k.requires(z3.And(k.r <= MAXDIM, k.c <= MAXDIM))
    k.throws(k.l.size < prod(k.r, k.c))
    k.ret(k.mat(k.r, k.c, lambda i, j: k.l(lin(i, j, k.c)), 'z'))
    k.goal(1, lambda i: k.l(i))
