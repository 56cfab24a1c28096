"""Terms, contents, abstract values, solver access."""
import z3, itertools, time, fractions, re, zlib
z3.z3.Z3_DEBUG = False       # arguments are still checked by the C interface

TOL_QF = 300     # ms, feasibility / simplification queries
_cnt = itertools.count()

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def I(n):
    return z3.IntVal(n)

def fresh(pfx, sort=Int):
    return z3.Const('%s!%d' % (pfx, next(_cnt)), sort)

def isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)

def num(t):
    if z3.is_int_value(t):
        return t.as_long()
    return t.as_fraction()

# ---- index arithmetic symbols ------------------------------------------------
PROD = z3.Function('prod', Int, Int, Int)        # mathematical product of two dimensions
DV = z3.Function('dv', Int, Int, Int)            # integer quotient
MD = z3.Function('md', Int, Int, Int)            # remainder
LIN = z3.Function('lin', Int, Int, Int, Int)     # lin(r,c,C) = r*C + c
MAXDIM = 1 << 29      # rows, columns of a matrix
MAXLEN = 1 << 58      # elements of a vector, a matrix or a list (of at most 16 bytes each)
W64 = 1 << 64

def swapped(a, b):
    ha, hb = shape(a), shape(b)          # first by the structure up to names, so that folds of the same form agree
    if ha != hb:
        return ha > hb
    ha, hb = a.hash(), b.hash()          # a function of the term's structure: the order does not change with re-evaluation
    if ha != hb:
        return ha > hb
    return not a.eq(b) and a.sexpr() > b.sexpr()

def prod(a, b):
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if isnum(a):
            return I(num(a) * num(b))
        if num(b) == 0:
            return I(0)
        if num(b) == 1:
            return a
        return a * b
    if swapped(a, b):
        a, b = b, a
    return PROD(a, b)

def lin(r, c, C):
    if isnum(r) and num(r) == 0:
        return c
    if isnum(C) and num(C) == 1 and isnum(c) and num(c) == 0:
        return r
    # lin(dv(i,C), md(i,C), C) = i
    if z3.is_app(r) and z3.is_app(c) and r.decl().eq(DV) and c.decl().eq(MD) and r.arg(0).eq(c.arg(0)) \
            and r.arg(1).eq(C) and c.arg(1).eq(C):
        return r.arg(0)
    return LIN(r, c, C)

def dv(i, C):
    if isnum(C) and num(C) == 1:
        return i
    if isnum(i) and isnum(C) and num(C):
        return I(num(i) // num(C))
    if z3.is_app(i) and i.decl().eq(LIN) and i.arg(2).eq(C):
        return i.arg(0)          # only used for in-range columns (bounds are obligations of the access)
    return DV(i, C)

def md(i, C):
    if isnum(C) and num(C) == 1:
        return I(0)
    if isnum(i) and isnum(C) and num(C):
        return I(num(i) % num(C))
    if z3.is_app(i) and i.decl().eq(LIN) and i.arg(2).eq(C):
        return i.arg(1)
    return MD(i, C)

def FA(vs, body, patterns):
    return z3.ForAll(vs, body, patterns=patterns)

_KEEP = []
def MP(*ts):
    p = z3.MultiPattern(*ts)
    _KEEP.append((p, ts))
    return p

def _axioms():
    r, c, C, R, i, s, d, a, b = z3.Ints('r c C R i s d a b')
    ax = []
    ax.append(FA([r, c, C], LIN(r, c, C) == PROD(r, C) + c, patterns=[LIN(r, c, C)]))
    ax.append(FA([r, c, C], LIN(r, c, C) == PROD(C, r) + c, patterns=[LIN(r, c, C)]))
    ax.append(FA([a, b], PROD(a, b) == PROD(b, a), patterns=[PROD(a, b)]))
    ax.append(FA([r, c, C], z3.Implies(z3.And(r >= 0, c >= 0, c < C), z3.And(DV(LIN(r, c, C), C) == r, MD(LIN(r, c, C), C) == c, LIN(r, c, C) >= 0)), patterns=[LIN(r, c, C)]))
    ax.append(FA([r, c, C, R], z3.Implies(z3.And(r >= 0, c >= 0, c < C, r < R), LIN(r, c, C) < PROD(R, C)), patterns=[MP(LIN(r, c, C), PROD(R, C))]))
    ax.append(FA([i, C], z3.Implies(z3.And(i >= 0, C > 0), z3.And(DV(i, C) >= 0, MD(i, C) >= 0, MD(i, C) < C, LIN(DV(i, C), MD(i, C), C) == i, DV(i, C) <= i)), patterns=[DV(i, C)]))
    ax.append(FA([i, C], z3.Implies(z3.And(i >= 0, C > 0), z3.And(DV(i, C) >= 0, MD(i, C) >= 0, MD(i, C) < C, LIN(DV(i, C), MD(i, C), C) == i, DV(i, C) <= i)), patterns=[MD(i, C)]))
    ax.append(FA([i, C, R], z3.Implies(z3.And(i >= 0, C >= 0, R >= 0, i < PROD(R, C)), z3.And(DV(i, C) < R, R > 0, C > 0)), patterns=[MP(DV(i, C), PROD(R, C))]))
    ax.append(FA([i, C, R], z3.Implies(z3.And(i >= 0, C >= 0, R >= 0, i < PROD(R, C)), z3.And(DV(i, C) < R, R > 0, C > 0)), patterns=[MP(MD(i, C), PROD(R, C))]))
    ax.append(FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0), z3.And(PROD(a, b) >= 0, z3.Implies(a == 0, PROD(a, b) == 0), z3.Implies(b == 0, PROD(a, b) == 0), z3.Implies(z3.And(a > 0, b > 0), z3.And(PROD(a, b) >= a, PROD(a, b) >= b)), z3.Implies(a == 1, PROD(a, b) == b), z3.Implies(b == 1, PROD(a, b) == a))), patterns=[PROD(a, b)]))
    ax.append(FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, a <= MAXDIM, b <= MAXDIM), PROD(a, b) <= MAXLEN), patterns=[PROD(a, b)]))
    ax.append(FA([r, c, C, s, d], z3.Implies(z3.And(r >= 0, c >= 0, c < C, s >= 0, d >= 0, d < C), (LIN(r, c, C) < LIN(s, d, C)) == z3.Or(r < s, z3.And(r == s, c < d))), patterns=[MP(LIN(r, c, C), LIN(s, d, C))]))
    ax.append(FA([i, C], z3.Implies(C == 1, z3.And(DV(i, C) == i, MD(i, C) == 0)), patterns=[DV(i, C)]))
    ax.append(FA([i, C], z3.Implies(z3.And(i >= 0, i < C), z3.And(DV(i, C) == 0, MD(i, C) == i)), patterns=[DV(i, C)]))
    ax.append(FA([i, C], z3.Implies(z3.And(i >= 0, i < C), z3.And(DV(i, C) == 0, MD(i, C) == i)), patterns=[MD(i, C)]))
    ax.append(FA([a, b, C], z3.Implies(b == a + 1, PROD(b, C) == PROD(a, C) + C), patterns=[MP(PROD(a, C), PROD(b, C))]))
    ax.append(FA([a, b, C], z3.Implies(z3.And(0 <= a, a < b, C >= 0), PROD(a, C) + C <= PROD(b, C)), patterns=[MP(PROD(a, C), PROD(b, C))]))
    ax.append(FA([i, r, C], z3.Implies(z3.And(r >= 0, i >= PROD(r, C), i < PROD(r, C) + C), z3.And(DV(i, C) == r, MD(i, C) == i - PROD(r, C))), patterns=[MP(DV(i, C), PROD(r, C))]))
    x, y = z3.Reals('x y')
    ax.append(FA([x, y], FMUL(x, y) == FMUL(y, x), patterns=[FMUL(x, y)]))
    ax.append(FA([a, b], IMUL(a, b) == IMUL(b, a), patterns=[IMUL(a, b)]))
    return ax

IMUL = z3.Function('imul', Int, Int, Int)
FMUL = z3.Function('fmul', Real, Real, Real)
AXIOMS = _axioms()
AXIOM_NAMES = ['lin=prod+col', 'lin=prod+col(comm)', 'prod commutes', 'lin/dv/md inverse', 'lin < prod', 'dv/md inverse(dv)', 'dv/md inverse(md)',
               'dv<R (dv)', 'dv<R (md)', 'prod sign/zero/one', 'prod bound', 'lin order', 'dv by 1', 'dv small', 'md small', 'prod successor', 'prod monotone', 'quotient of a shifted column', 'real product commutes', 'int product commutes']

# theorem of lean/Lemmas.lean that proves each axiom, in the order of AXIOM_NAMES
AXIOM_LEAN = ['(definition of lin)', 'Arith.lin_comm', 'Arith.prod_commutes', 'Arith.lin_dv_md', 'Arith.lin_lt_prod', 'Arith.dv_md_lin', 'Arith.dv_md_lin',
              'Arith.dv_lt', 'Arith.dv_lt', 'Arith.prod_facts', 'Arith.prod_bound', 'Arith.lin_order', 'Arith.dv_one', 'Arith.dv_small', 'Arith.dv_small',
              'Arith.prod_succ', 'Arith.prod_mono', 'Arith.dv_shift', 'Arith.real_product_commutes', 'Arith.prod_commutes']
assert len(AXIOM_LEAN) == len(AXIOM_NAMES) == len(AXIOMS)

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
STATS = Stats()

def mk_solver(timeout, axioms=True, extra=()):
    s = z3.SolverFor('AUFLIRA') if False else z3.Solver()
    s.set('timeout', timeout)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('smt.random_seed', 7)
    if axioms:
        for a in AXIOMS:
            s.add(a)
    for a in extra:
        s.add(a)
    return s

def check(s, *assump):
    t = time.time()
    r = s.check(*assump)
    STATS.queries += 1
    STATS.time += time.time() - t
    return r

# ---- contents ------------------------------------------------------------------

class C:
    nd = 1
    sort = Real
    def read(self, *idx):
        raise NotImplementedError

class CUF(C):
    def __init__(self, name, nd, sort, decl=None):
        self.nd, self.sort = nd, sort
        self.decl = decl if decl is not None else z3.Function('%s!%d' % (name, next(_cnt)), *([Int] * nd), sort)
    def read(self, *idx):
        return self.decl(*idx)

class CLam(C):
    def __init__(self, nd, sort, fn, tag=None):
        self.nd, self.sort, self.fn, self.tag, self.memo = nd, sort, fn, tag, {}
    def read(self, *idx):
        key = (POLY[0], *[i.get_id() for i in idx])
        e = self.memo.get(key)
        if e is None:                        # the terms are kept, so that their ids stay theirs
            e = self.memo[key] = (idx, self.fn(*idx))
        return e[1]

class CSto(C):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val
        self.nd, self.sort = prev.nd, prev.sort
    def read(self, *idx):
        eqs = []
        for a, b in zip(idx, self.idx):
            if a.eq(b):
                continue
            if isnum(a) and isnum(b) and num(a) != num(b):
                return self.prev.read(*idx)
            d = z3.simplify(a - b)
            if z3.is_int_value(d):
                if d.as_long() != 0:
                    return self.prev.read(*idx)
                continue
            eqs.append(a == b)
        if not eqs:
            return self.val
        return z3.If(z3.And(*eqs) if len(eqs) > 1 else eqs[0], self.val, self.prev.read(*idx))

# ---- values ----------------------------------------------------------------------

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off=0):
        self.base, self.off = base, off
    @property
    def loc(self):
        return (self.base, self.off)
    def __repr__(self):
        return '&%s+%d' % (self.base, self.off)

class EPtr:
    """pointer to an element of the container at loc; kind 'rc' (r,c) or 'v' (i); sub: byte offset in the element"""
    __slots__ = ('loc', 'kind', 'idx', 'sub')
    def __init__(self, loc, kind, idx, sub=0):
        self.loc, self.kind, self.idx, self.sub = loc, kind, idx, sub
    def __repr__(self):
        return '&%s%s[%s]' % (self.loc, self.kind, self.idx)

class Null:
    def __repr__(self):
        return 'null'
NULL = Null()

class Sym:
    """address of a function or an opaque global"""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return '@' + self.name

class PSel:
    """one of two opaque globals"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

class VTab:
    def __init__(self, loc):
        self.loc = loc
class VSlot:
    def __init__(self, loc, off):
        self.loc, self.off = loc, off
class VFn:
    def __init__(self, loc, slot):
        self.loc, self.slot = loc, slot

class PInt:
    """a pointer converted to an integer"""
    def __init__(self, p):
        self.p = p

class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()

_dt = z3.Datatype('Cx')
_dt.declare('cx', ('re', Real), ('im', Real))
_dt = _dt.create()
Cx, _CX, _RE, _IM = _dt, _dt.cx, _dt.re, _dt.im

ELT = {'c': Cx, 'd': Real, 'i': Int, 'b': Int, 'z': Int, 'f': Real}
ESIZE = {'c': 16, 'd': 8, 'i': 4, 'b': 1, 'z': 8, 'f': 4}

class MatVal:
    kind = 'mat'
    def __init__(self, rows, cols, C, elt='d', cls='Matrix'):
        self.rows, self.cols, self.C, self.elt, self.cls = rows, cols, C, elt, cls
    def withC(self, C):
        return MatVal(self.rows, self.cols, C, self.elt, self.cls)
    def __call__(self, r, c):
        return self.C.read(I(r) if isinstance(r, int) else r, I(c) if isinstance(c, int) else c)
    @property
    def size(self):
        return prod(self.rows, self.cols)

def ite(c, a, b):
    c = z3.simplify(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else z3.If(c, a, b)

def samedims(have, want):
    # the common length of the elements of an empty sequence of Vectors means nothing
    if 'stream' in (have.cls, want.cls) and have.cls != want.cls:
        return z3.BoolVal(False)
    if have.cls == 'list' or want.cls == 'list':
        return z3.And(z3.BoolVal(have.cls == want.cls), have.rows == want.rows, z3.Or(have.rows == 0, have.cols == want.cols))
    return z3.And(have.rows == want.rows, have.cols == want.cols)

class VecVal:
    kind = 'vec'
    def __init__(self, size, C, elt='d', std=False):
        self.size, self.C, self.elt = size, C, elt
        self.home = None          # name of the heap block while the vector keeps it
        self.std = std            # a std::vector (its representation is never looked at)
    def withC(self, C):
        v = VecVal(self.size, C, self.elt, self.std)
        v.home = self.home
        return v
    def __call__(self, i):
        return self.C.read(I(i) if isinstance(i, int) else i)

class BlkVal:
    """heap block or array of elements"""
    kind = 'blk'
    def __init__(self, size, C, elt='d', heap=False, nullable=False):
        self.size, self.C, self.elt, self.heap, self.nullable = size, C, elt, heap, nullable
    def withC(self, C):
        return BlkVal(self.size, C, self.elt, self.heap, self.nullable)

class RowsVal:
    """rows of their own lengths (an initializer_list of initializer_lists), read only"""
    kind = 'rows'
    def __init__(self, size, length, C, elt='d'):
        self.size, self.length, self.C, self.elt = size, length, C, elt
    def __call__(self, i, j):
        return self.C.read(*[I(x) if isinstance(x, int) else x for x in (i, j)])
    def len(self, i):
        return self.length(I(i) if isinstance(i, int) else i)

class ViewVal:
    kind = 'view'
    def __init__(self, tgt, rs, re, cs, ce):
        self.tgt, self.rs, self.re, self.cs, self.ce = tgt, rs, re, cs, ce

class CofVal:
    kind = 'cof'
    def __init__(self, tgt, p, q):
        self.tgt, self.p, self.q = tgt, p, q

def zmin(a, b):
    if isnum(a) and isnum(b):
        return I(min(num(a), num(b)))
    if a.eq(b):
        return a
    return z3.If(b < a, b, a)

def zmax(a, b):
    if a.eq(b):
        return a
    return z3.If(a < b, b, a)

def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)

def disj(l):
    if not l:
        return z3.BoolVal(False)
    return l[0] if len(l) == 1 else z3.Or(*l)


# ---- real arithmetic -------------------------------------------------------------
FDIV = z3.Function('fdiv', Real, Real, Real)
TOL = z3.Real('TOL')        # the tolerance of malg::feq
POLY = [False]          # True: products are real products (polynomial identities)

def R(x):
    return z3.RealVal(x)

def sgn_split(t):
    """(negated, |t|-oriented term): t = -u for negations, and x-y is oriented by the structure of x and y"""
    k = t.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        n, u = sgn_split(t.arg(0))
        return not n, u
    if k == z3.Z3_OP_SUB and t.num_args() == 2 and swapped(t.arg(0), t.arg(1)):
        return True, t.arg(1) - t.arg(0)
    if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and num(t.arg(0)) == -1:
        return True, t.arg(1)
    return False, t

def numtree(x, n=3):
    return isnum(x) or n and x.decl().kind() == z3.Z3_OP_ITE and isnum(x.arg(1)) and numtree(x.arg(2), n - 1)
def fmul(a, b):
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if isnum(a):
            return R(str(num(a) * num(b)))
        if num(b) == 0:
            return R(0)
        if num(b) == 1:
            return a
        return b * a
    if POLY[0]:
        return a * b
    for x, y in ((a, b), (b, a)):             # a sign chosen by a condition
        if x.decl().kind() == z3.Z3_OP_ITE and isnum(x.arg(1)) and numtree(x.arg(2)):
            return z3.If(x.arg(0), fmul(x.arg(1), y), fmul(x.arg(2), y))
    na, a = sgn_split(a)
    nb, b = sgn_split(b)
    if na != nb:
        return -fmul(a, b)
    if swapped(a, b):
        a, b = b, a
    return FMUL(a, b)

def fdiv(a, b):
    if isnum(b) and num(b) != 0:
        if isnum(a):
            return R(str(fractions.Fraction(num(a)) / fractions.Fraction(num(b))))
        return a * R(str(1 / fractions.Fraction(num(b))))
    na, a = sgn_split(a)
    nb, b = sgn_split(b)
    return -FDIV(a, b) if na != nb else FDIV(a, b)

def fadd(a, b):
    if isnum(a) and num(a) == 0:
        return b
    if isnum(b) and num(b) == 0:
        return a
    return a + b

def fsub(a, b):
    if isnum(b) and num(b) == 0:
        return a
    return a - b

def fabs_(a):
    return z3.If(a < 0, -a, a)

def fneg(a):
    if isnum(a):
        return R(str(-num(a)))
    return -a

# ---- determinants of contents ------------------------------------------------------
# DET(t, c, n): determinant of the block of rows and columns c..n-1 of the content named t.
# tok(M) names the content of M: one function per structure of the element (i,j), its free terms are the arguments.
DET = z3.Function('DET', Int, Int, Int, Real)
_TOK, _TOKC = {}, {}
def tok(M):
    if id(M.C) in _TOKC:
        return _TOKC[id(M.C)][1]
    bound = [z3.Int('tok_i'), z3.Int('tok_j')]
    (t,), free = lift([M.C.read(*bound)], bound)
    if t.get_id() not in _TOK:
        _TOK[t.get_id()] = (t, z3.Function('tok!%d' % next(_cnt), *[c.sort() for c in free], Int))
    r = _TOK[t.get_id()][1](*free)
    _TOKC[id(M.C)] = (M.C, r)
    return r

def minor(t, p, q):
    def rd(r, c):
        return t.C.read(r + z3.If(r >= p, I(1), I(0)), c + z3.If(c >= q, I(1), I(0)))
    return MatVal(t.rows - 1, t.cols - 1, CLam(2, t.C.sort, rd), t.elt, 'Cofactor')

# ---- path solver: assertion stack shared between queries with a common prefix ----
class PathSolver:
    def __init__(self, axioms, timeout):
        self.s = mk_solver(timeout, axioms)
        self.stack = []
    def sync(self, facts):
        n = 0
        st = self.stack
        m = min(len(st), len(facts))
        while n < m and st[n] is facts[n]:
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
        for f in facts[n:]:
            self.s.push()
            self.s.add(f)
            st.append(f)
    def query(self, facts, extra):
        self.sync(facts)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = check(self.s)
        self.s.pop()
        return r

_MUF = {}
def mathuf(name, n):
    if (name, n) not in _MUF:
        _MUF[(name, n)] = z3.Function('m_' + name, *([Real] * n), Real)
    return _MUF[(name, n)]


# ---- complex elements: pairs of reals ------------------------------------------------
def CX(a, b):
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(_RE) and b.decl().eq(_IM) and a.arg(0).eq(b.arg(0)):
        return a.arg(0)
    return _CX(a, b)
def RE(x):
    return _part(x, 0)
def IM(x):
    return _part(x, 1)
_PART = {}
def _part(x, k):
    e = _PART.get((x.get_id(), k))
    if e is None:
        d = x.decl()
        if d.eq(_CX):
            r = x.arg(k)
        elif d.kind() == z3.Z3_OP_ITE:
            a, b = _part(x.arg(1), k), _part(x.arg(2), k)
            r = a if a.eq(b) else z3.If(x.arg(0), a, b)
        else:
            r = (_RE, _IM)[k](x)
        e = _PART[x.get_id(), k] = (x, r)
    return e[1]
def eqv(a, b):
    """equality of two elements"""
    if a.sort() == Cx:
        return z3.And(RE(a) == RE(b), IM(a) == IM(b))
    return a == b
def cadd(a, b):
    return CX(fadd(RE(a), RE(b)), fadd(IM(a), IM(b)))
def csub(a, b):
    return CX(fsub(RE(a), RE(b)), fsub(IM(a), IM(b)))
def cmul(a, b):
    return CX(fsub(fmul(RE(a), RE(b)), fmul(IM(a), IM(b))), fadd(fmul(RE(a), IM(b)), fmul(IM(a), RE(b))))
CDIV = [z3.Function('cdiv_' + k, Real, Real, Real, Real, Real) for k in ('re', 'im')]     # complex quotient
def cdiv(a, b):
    return CX(*[f(RE(a), IM(a), RE(b), IM(b)) for f in CDIV])

# ---- int arithmetic: mathematical results of in-range operations --------------------
IDIV = z3.Function('idiv', Int, Int, Int)         # quotient rounded towards zero
def imul(a, b):
    if isnum(a):
        a, b = b, a
    if isnum(b):
        return I(num(a) * num(b)) if isnum(a) else I(0) if num(b) == 0 else a if num(b) == 1 else num(b) * a
    if swapped(a, b):
        a, b = b, a
    return IMUL(a, b)
def idiv(a, b):
    if isnum(b) and num(b) == 1:
        return a
    return IDIV(a, b)
def to_real(x):
    if x.decl().kind() == z3.Z3_OP_ITE:
        t = z3.simplify(x)
        if t.decl().kind() == z3.Z3_OP_ITE and isnum(t.arg(1)) and isnum(t.arg(2)):        # a number chosen by a condition
            return z3.If(t.arg(0), R(num(t.arg(1))), R(num(t.arg(2))))
    return z3.ToReal(x)
def up(x, s):
    """x as an element of the type s"""
    if x.sort() == s:
        return x
    if x.sort() == Int:
        x = R(num(x)) if isnum(x) else to_real(x)
    return CX(x, R(0)) if s == Cx else x
def gop(fi, fr, fc):
    """an operation on elements of any type; the operands are brought to the common type"""
    def f(a, b):
        s = Cx if Cx in (a.sort(), b.sort()) else Real if Real in (a.sort(), b.sort()) else Int
        return {Cx: fc, Real: fr, Int: fi}[s](*((a, b) if s == Cx else (up(a, s), up(b, s))))
    return f
def cx_(f):
    return lambda a, b: f(up(a, Cx), up(b, Cx))
gadd = gop(lambda a, b: a + b, fadd, cx_(cadd))
gsub = gop(lambda a, b: a - b, fsub, cx_(csub))
def cmul_(a, b):            # a real factor multiplies the parts
    if a.sort() != Cx:
        a, b = b, a
    if b.sort() != Cx:
        return CX(fmul(RE(a), up(b, Real)), fmul(IM(a), up(b, Real)))
    return cmul(a, b)
def cdiv_(a, b):
    if b.sort() != Cx:
        return CX(fdiv(RE(a), up(b, Real)), fdiv(IM(a), up(b, Real)))
    return cdiv(up(a, Cx), b)
gmul = gop(imul, fmul, cmul_)
gdiv = gop(idiv, fdiv, cdiv_)
def gabs(x):
    return mathuf('hypot', 2)(RE(x), IM(x)) if x.sort() == Cx else fabs_(x) if x.sort() == Real else z3.If(x < 0, -x, x)

# ---- folds -------------------------------------------------------------------------
_SH = {}
_LVL = [0]
def shape(t):
    """structure of a term up to the names of its free constants"""
    i = (t.get_id(), _LVL[0])
    e = _SH.get(i)
    if e is not None:
        return e[1]
    h = 1                                  # anything that does not involve the index of the fold being built
    if isnum(t):
        h = zlib.crc32(('v ' + str(t)).encode())
    elif z3.is_app(t):
        if t.num_args() == 0:
            if t.decl().name() == 'fb%d_n' % _LVL[0]:
                h = 2
        else:
            ch = tuple(shape(x) for x in t.children())
            if any(x.sort() in (Int, Real, Cx) and not isnum(x) and y != 1 or x.sort() == Bool and y != 1 for x, y in zip(t.children(), ch)):
                h = hash((zlib.crc32(t.decl().name().encode()),) + ch)
    _SH[i] = (t, h)
    return h

def lift(ts, bound):
    """replaces every maximal arithmetic subterm that is free of the bound constants by a parameter of its own"""
    memo, terms, count = {}, [], [0]
    def has(x):
        i = x.get_id()
        if i not in memo:
            memo[i] = (x, any(x.eq(y) for y in bound) if not x.num_args() else any([has(y) for y in x.children()]))
        return memo[i][1]
    done = {}
    def go(x):
        if not has(x):
            if x.sort() in (Int, Real, Cx):
                if isnum(x):
                    return x
                if count[0] > 400:                  # too large for one parameter per occurrence
                    for i, y in enumerate(terms):
                        if y.eq(x):
                            return z3.Const('fold_p%d_%s' % (i, x.sort()), x.sort())
                terms.append(x)
                return z3.Const('fold_p%d_%s' % (len(terms) - 1, x.sort()), x.sort())
            if not x.num_args():
                return x
        elif not x.num_args():
            return x
        count[0] += 1
        if count[0] > 400 and x.get_id() in done:
            return done[x.get_id()][1]
        ch = x.children()
        r = rebuild(x, [go(y) for y in ch])
        if count[0] > 400:
            done[x.get_id()] = (x, r)
        return r
    return [go(t) for t in ts], terms

def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for y in ch[1:]:
            r = r * y
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ITE:
        return z3.If(*ch)
    if k == z3.Z3_OP_SUB and len(ch) > 2:
        r = ch[0]
        for y in ch[1:]:
            r = r - y
        return r
    return x.decl()(*ch)

class Tmpl:
    """F(0,params)=base, F(n+1,params)=step(F(n,params),n,params): one symbol per structure"""
    def __init__(self, decl, b, s, ps, sort):
        self.decl, self.b, self.s, self.ps, self.sort = decl, b, s, ps, sort
        self.n0, self.a0 = z3.Int('fold_n'), z3.Const('fold_acc_%s' % sort, sort)
    def base(self, args):
        return z3.substitute(self.b, *list(zip(self.ps, args)))
    def step(self, acc, n, args):
        return z3.substitute(self.s, *list(zip([self.a0, self.n0] + self.ps, [acc, n] + list(args))))

_FOLDS = {}
FOLD_OF = {}           # name of the symbol -> template

class Fold:
    """F(0,k)=base(k), F(n+1,k)=step(F(n,k),n,k); folds of the same structure share one symbol, their free constants are its parameters"""
    def __init__(self, nkeys, base, step, sort=Real, name='fold'):
        self.nkeys, self.base, self.step, self.sort, self.memo = nkeys, base, step, sort, {}
        _LVL[0] += 1
        L = 'fb%d_' % _LVL[0]
        try:
            bound = [z3.Int(L + 'n')] + [z3.Int(L + 'k%d' % i) for i in range(nkeys)] + [z3.Const(L + 'acc_%s' % sort, sort)]
            b, s = base(*bound[1:-1]), step(bound[-1], bound[0], *bound[1:-1])
        finally:
            _LVL[0] -= 1
        (b, s), self.free = lift([b, s], [bound[0], bound[-1]])
        self.kb = bound[1:-1]
        ps = [z3.Const('fold_p%d_%s' % (i, c.sort()), c.sort()) for i, c in enumerate(self.free)]
        sub = [(bound[0], z3.Int('fold_n')), (bound[-1], z3.Const('fold_acc_%s' % sort, sort))]
        b, s = z3.substitute(b, *sub), z3.substitute(s, *sub)
        key = (b.get_id(), s.get_id())
        if key not in _FOLDS:
            d = z3.Function('%s!%d' % (name, next(_cnt)), Int, *[c.sort() for c in ps], sort)
            _FOLDS[key] = FOLD_OF[d.name()] = Tmpl(d, b, s, ps, sort)
        self.decl = _FOLDS[key].decl
    def uf(self, n, *keys):
        sub = list(zip(self.kb, keys))
        return self.decl(n, *[z3.substitute(c, *sub) for c in self.free])
    def __call__(self, n, *keys):
        if isinstance(n, int):
            n = I(n)
        keys = [I(k) if isinstance(k, int) else k for k in keys]
        key = (POLY[0], _LVL[0], n.get_id(), *[k.get_id() for k in keys])
        e = self.memo.get(key)
        if e is None:                        # the terms are kept, so that their ids stay theirs
            e = self.memo[key] = (n, keys, self.at(n, keys))
        return e[2]
    def at(self, n, keys):
        t = z3.simplify(n)
        if isnum(t):
            v = num(t)
            if v <= 0:
                return self.base(*keys)
            if v <= 6:
                acc = self.base(*keys)
                for i in range(v):
                    acc = self.step(acc, I(i), *keys)
                return acc
        elif z3.is_add(t) and isnum(t.arg(0)) and 0 < num(t.arg(0)) <= 4:
            c = num(t.arg(0))
            rest = z3.Sum(*t.children()[1:]) if t.num_args() > 2 else t.arg(1)
            acc = self.uf(rest, *keys)
            for i in range(c):
                acc = self.step(acc, z3.simplify(rest + i), *keys)
            return acc
        return self.uf(t, *keys)

_RECS = {}
class Rec:
    """F(start,k)=base(k), F(n+1,k)=step(F(n,.),n,k): recursion that may use every value of the previous level"""
    def __init__(self, nkeys, base, step, sort=Real, name='rec', start=0):
        self.nkeys, self.base, self.step, self.sort, self.start = nkeys, base, step, sort, start
        _LVL[0] += 1
        L = 'fb%d_' % _LVL[0]
        prev = z3.Function('rec_prev', *([Int] * nkeys), sort)
        try:
            bound = [z3.Int(L + 'n')] + [z3.Int(L + 'k%d' % i) for i in range(nkeys)]
            b, s = base(*bound[1:]), step(lambda *ks: prev(*ks), bound[0], *bound[1:])
        finally:
            _LVL[0] -= 1
        (b, s), self.free = lift([b, s], bound)
        ps = [z3.Const('fold_p%d_%s' % (i, c.sort()), c.sort()) for i, c in enumerate(self.free)]
        sub = list(zip(bound, [z3.Int('fold_n')] + [z3.Int('fold_k%d' % i) for i in range(nkeys)]))
        b, s = z3.substitute(b, *sub), z3.substitute(s, *sub)
        key = (nkeys, start, b.get_id(), s.get_id())
        if key not in _RECS:
            _RECS[key] = (z3.Function('%s!%d' % (name, next(_cnt)), *([Int] * (nkeys + 1)), *[c.sort() for c in ps], sort), b, s)
        self.decl = _RECS[key][0]
    def uf(self, n, *keys):
        return self.decl(n, *keys, *self.free)
    def __call__(self, n, *keys):
        if isinstance(n, int):
            n = I(n)
        keys = [I(k) if isinstance(k, int) else k for k in keys]
        t = z3.simplify(n)
        if isnum(t) and num(t) <= self.start:
            return self.base(*keys)
        if isnum(t):
            m = I(num(t) - 1)
        elif z3.is_add(t) and isnum(t.arg(0)) and 0 < num(t.arg(0)) <= 4:
            m = z3.simplify(t - 1)
        else:
            return self.uf(t, *keys)
        return self.step(lambda *ks: self(m, *ks), m, *keys)

# ---- equal folds: F(N,..)=G(M,..) when N=M, the bases agree and the steps agree for every index below N ----
def fold_terms(t, limit=12):
    """outermost fold applications"""
    out, seen, st = [], set(), [t]
    while st and len(out) < limit:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().name() in FOLD_OF:
            out.append(x)
            continue
        st.extend(x.children())
    return out

def unmul(t, memo=None):
    """FMUL and IMUL read as the product"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    if not t.num_args():
        r = t
    else:
        ch = [unmul(x, memo) for x in t.children()]
        r = ch[0] * ch[1] if t.decl().eq(FMUL) or t.decl().eq(IMUL) else rebuild(t, ch)
    memo[i] = r
    return r

def poly_equal(a, b):
    d = z3.simplify(unmul(a) - unmul(b), som=True, mul_to_power=False)
    return isnum(d) and num(d) == 0

def eq_goals(g):
    while z3.is_implies(g):
        g = g.arg(1)
    return (g.arg(0), g.arg(1)) if z3.is_eq(g) and g.arg(0).sort() in (Real, Int) else None

def prove_ext(light, heavy, pc, qf, goal, inst, depth=0, deep=True):
    """goal from pc and instances of the quantified facts; falls back on equality of folds and on polynomial identities"""
    qi = []
    for q in qf:
        for tup in inst:
            if len(tup) == q.nd:
                memo = q.memo
                key = tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in tup)
                if key not in memo:
                    memo[key] = (tup, q.fn(*tup))
                f = memo[key][1]
                if f is not None:
                    qi.append(f)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'simplifier'
    ng = z3.Not(goal)
    if light.query(pc, qi + [ng]) == z3.unsat or heavy.query(pc, qi + [ng]) == z3.unsat:
        return 'z3'
    if not deep or depth > 2:
        return None
    e = eq_goals(goal)
    if e is None:
        hyps, body = [], goal
        while z3.is_implies(body):
            hyps.append(body.arg(0))
            body = body.arg(1)
        if z3.is_and(body) and all(z3.is_eq(c) and c.arg(0).sort() == Real for c in body.children()):     # the parts of a complex number
            hows = [prove_ext(light, heavy, pc + hyps, qf, c, inst, depth, deep) for c in body.children()]
            if all(hows):
                return hows[-1]
        return None
    if poly_equal(*e):
        return 'polynomial identity'
    for h in pc:
        if z3.is_eq(h) and h.arg(0).sort() == e[0].sort() == Real and (poly_equal(e[0] + h.arg(1), e[1] + h.arg(0)) or poly_equal(e[0] + h.arg(0), e[1] + h.arg(1))):
            return 'polynomial identity'
    lem, hyp = [], []
    h = goal
    while z3.is_implies(h):
        hyp.append(h.arg(0))
        h = h.arg(1)
    for x in fold_terms(e[0]):
        for y in fold_terms(e[1]):
            if x.eq(y) or len(lem) > 6:
                continue
            if equal_folds(light, heavy, pc + qi + hyp, qf, x, y, inst, depth):
                lem.append(x == y)
    if lem and (light.query(pc, qi + lem + [ng]) == z3.unsat or heavy.query(pc, qi + lem + [ng]) == z3.unsat):
        return 'z3 and induction on the folds'
    return None

def equal_folds(light, heavy, pc, qf, x, y, inst, depth):
    tx, ty = FOLD_OF[x.decl().name()], FOLD_OF[y.decl().name()]
    if tx.sort != ty.sort:
        return False
    ax, ay = x.children(), y.children()
    def pr(extra, g, ins):
        return prove_ext(light, heavy, pc + extra, qf, g, ins, depth + 1) is not None
    if not pr([], ax[0] == ay[0], inst):
        return False
    if not pr([], eqv(tx.base(ax[1:]), ty.base(ay[1:])), inst):
        return False
    j, acc = fresh('fj'), fresh('facc', tx.sort)
    keys = [t for t in ax[1:] + ay[1:] if t.sort() == Int]
    ins = list(inst) + [(j,)] + [(j, t) for t in keys] + [(t, j) for t in keys] + [(j, j)]
    return pr([j >= 0, j < ax[0]], eqv(tx.step(acc, j, ax[1:]), ty.step(acc, j, ay[1:])), ins)
