"""Symbolic execution of the IR of the real functions; verification-condition generation; loop-invariant inference."""
import re, itertools, fractions, struct, time
import z3
from ir import Unsupported, demangle
from core import *
import core

def is_int(v):
    return isinstance(v, z3.ArithRef) and v.is_int()
def is_real(v):
    return isinstance(v, z3.ArithRef) and v.is_real()
def is_bool(v):
    return isinstance(v, z3.BoolRef)

class VTabC:
    """address inside a concrete vtable"""
    def __init__(self, sym, idx):
        self.sym, self.idx = sym, idx
class VSlotC:
    def __init__(self, sym, idx):
        self.sym, self.idx = sym, idx
class GPtr:
    pass

class QFact:
    """forall idx (nd ints): fn(*idx)"""
    __slots__ = ('nd', 'fn', 'tag', 'memo')
    def __init__(self, nd, fn, tag=''):
        self.nd, self.fn, self.tag = nd, fn, tag
        self.memo = {}

class State:
    __slots__ = ('pc', 'q', 'mem', 'terms', 'snaps')
    def __init__(self):
        self.pc, self.q, self.mem, self.terms = [], [], {}, []
        self.snaps = []          # contents met on this path (for lemmas about them)
    def copy(self):
        s = State()
        s.pc, s.q, s.mem, s.terms = list(self.pc), list(self.q), dict(self.mem), list(self.terms)
        s.snaps = list(self.snaps)
        return s
    def add(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for x in f.children():
                self.add(x)
            return
        self.pc.append(f)

class Out:
    __slots__ = ('kind', 'st', 'env', 'tgt', 'pred', 'val')
    def __init__(self, kind, st, env=None, tgt=None, pred=None, val=None):
        self.kind, self.st, self.env, self.tgt, self.pred, self.val = kind, st, env, tgt, pred, val

class Ob:
    __slots__ = ('fn', 'kind', 'label', 'pc', 'q', 'goal', 'inst', 'status', 'time', 'wit', 'backend')
    def __init__(self, fn, kind, label, st, goal, inst=(), wit=None):
        self.fn, self.kind, self.label, self.goal, self.inst, self.wit = fn, kind, label, goal, inst, wit
        self.pc, self.q = list(st.pc), list(st.q)
        self.status, self.time, self.backend = None, 0, ''

def f_ptr(v):
    return isinstance(v, Ptr)

class Frame:
    def __init__(self, fn, fid):
        self.fn, self.id = fn, fid

class Contradiction(Exception):
    pass

class Loopctx:
    def __init__(self, phis, entry):
        self.phis = phis      # list of int phi terms (in scope)
        self.entry = entry

def dbl_const(text):
    if text.startswith('0x'):
        b = struct.pack('>Q', int(text, 16))
        d = struct.unpack('>d', b)[0]
    else:
        d = float(text)
    if d != d or d in (float('inf'), float('-inf')):
        return z3.Real('fconst_' + text)
    return R(str(fractions.Fraction(d)))

CANON = re.compile(r'(?<=[a-zA-Z0-9])([CD])1(?=E)')
def canon(sym):
    return CANON.sub(r'\g<1>2', sym)

def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc

def has_uf(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ('prod', 'dv', 'md', 'lin'):
            return True
        st.extend(x.children())
    return False

class Exec:
    def __init__(self, mod, contracts, name='', cache=None, log=None):
        self.mod = mod
        self.contracts = contracts      # canonical symbol -> Contract
        self.name = name
        self.obs = []
        self.light = PathSolver(False, 1500)
        self.heavy = PathSolver(True, 1500)
        self.dry = 0
        self.probe = (fresh('r'), fresh('c'))         # indices used for comparing contents only
        self.cnt = itertools.count()
        self.depth = 0
        self.cmplog = None
        self.slot_bits = {}
        self.K = None                   # contract context of the function under proof
        self.cache = cache if cache is not None else {}
        self.loopstack = []
        self.log = log or (lambda *a: None)
        self.skip_contract = None
        self.trusted = set()
        self.usedc = set()
        self.calls = set()           # functions replaced by their contract
        self.root = None
        self.inlined = set()
        self.t0 = time.time()
        self.deadline = None
        self.writelog = None
        self.symstack = []
        self.boolof = {}
        self.wits = []               # counterexamples named by the contracts of the functions called

    # ---------------- solver helpers
    def infeasible(self, st):
        return self.light.query(st.pc, []) == z3.unsat

    def entails(self, st, g, heavy=True):
        if z3.is_true(g):
            return True
        g2 = z3.simplify(g)
        if z3.is_true(g2):
            return True
        if z3.is_false(g2):
            return self.infeasible(st)
        ng = z3.Not(g)
        if self.light.query(st.pc, [ng]) == z3.unsat:
            return True
        if heavy and self.heavy.query(st.pc, [ng]) == z3.unsat:
            return True
        return False

    def qinst(self, st, inst):
        """instances of the quantified facts at the given index tuples"""
        out = []
        for q in st.q:
            for t in inst:
                if len(t) == q.nd:
                    f = q.fn(*t)
                    if f is not None:
                        out.append(f)
        return out

    def proves(self, st, g, inst=(), heavy=True):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the invariant search exhausted')
        return prove_ext(self.light, self.heavy if heavy else self.light, st.pc, st.q, g, list(inst) + self.extra_inst(st), 0, heavy and self.K is not None and self.K.foldext) is not None

    def extra_inst(self, st):
        K = self.K
        if K is None or not K.insts:
            return []
        ts = st.terms[-4:]
        out = K.insts + [(t,) for t in ts]
        for n in (2, 3):
            if any(len(t) == n for t in K.insts):
                out += list(itertools.permutations(ts, n))
        return out

    def read_inst(self, st, g):
        """where facts about all elements are needed: at the elements the term reads, and at the loop counters"""
        out, seen, todo = [], set(), [g]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            todo += t.children()
            if t.num_args() in (1, 2) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name() and all(x.sort() == Int for x in t.children()):
                out.append(tuple(t.children()))
        ts = [t for t in st.terms[-4:] if t is not None]
        for n in (1, 2, 3):
            out += list(itertools.permutations(ts, n))
        return out

    def ob(self, kind, label, st, goal, inst=(), wit=None):
        if self.dry:
            return
        if z3.is_true(goal):
            goal = z3.BoolVal(True)
        self.obs.append(Ob(self.name, kind, label, st, goal, list(inst) + self.extra_inst(st), wit))

    # ---------------- integers
    def toU(self, st, t, n):
        if isnum(t):
            return I(num(t) % (1 << n))
        if self.entails(st, t >= 0):
            return t
        return z3.If(t < 0, t + (1 << n), t)

    def toS(self, st, t, n):
        if isnum(t):
            v = num(t) % (1 << n)
            return I(v - (1 << n) if v >= (1 << (n - 1)) else v)
        if self.entails(st, t < (1 << (n - 1))):
            return t
        return z3.If(t >= (1 << (n - 1)), t - (1 << n), t)

    def norm(self, st, t, n):
        """brings a mathematical result back into the representable interval"""
        if isnum(t):
            v = num(t)
            if -(1 << (n - 1)) <= v < (1 << n):
                return t
            return I(v % (1 << n))
        if self.entails(st, z3.And(t >= -(1 << (n - 1)), t < (1 << n))):
            return t
        if self.entails(st, z3.And(t >= -(1 << n), t < (1 << (n + 1)))):
            return z3.If(t < 0, t + (1 << n), z3.If(t >= (1 << n), t - (1 << n), t))
        return t % (1 << n)

    # ---------------- objects
    def obj(self, st, loc, cover=False):
        """abstract object at loc, closing it when it is open"""
        v = st.mem.get(loc)
        if v is None and cover and self.open_cover(st, Ptr(*loc)):
            v = st.mem.get(loc)
        if isinstance(v, (MatVal, VecVal, BlkVal, ViewVal, CofVal)):
            return v
        b, o = loc
        if isinstance(v, VTabC):
            if 'View' in v.sym:
                return self.close_view(st, loc)
            return self.close_mat(st, loc)
        if (isinstance(v, (EPtr, Ptr)) or v is NULL) and (b, o + 8) in st.mem and is_int(st.mem[(b, o + 8)]):
            return self.close_vec(st, loc)
        return None

    def close_vec(self, st, loc):
        b, o = loc
        p, n = st.mem[(b, o)], self.toU(st, st.mem[(b, o + 8)], 64)
        if p is NULL:
            self.ob('class-inv', 'Vector: null data means size 0 (%s)' % (loc,), st, n == 0)
            v = VecVal(I(0), CLam(1, Real, lambda i: R(0)), 'd')
            v.untyped = True
        else:
            if isinstance(p, Ptr):
                p = EPtr(p.loc, 'v', (I(0),))
            blk = st.mem.get(p.loc)
            if not isinstance(blk, BlkVal) or not blk.heap:
                self.ob('class-inv', 'Vector: data points to a live heap block (%s)' % (loc,), st, z3.BoolVal(False))
                v = VecVal(n, CUF('dangling', 1, Real), 'd')
            else:
                self.ob('class-inv', 'Vector: data points to the start of a block of size elements (%s)' % (loc,), st,
                        z3.And(p.idx[0] == 0, n <= blk.size))
                if not blk.nullable:
                    self.ob('class-inv', 'Vector: an empty vector owns no block (%s)' % (loc,), st, n > 0)
                else:
                    self.ob('class-inv', 'Vector: block of a possibly empty vector (%s)' % (loc,), st, z3.Implies(n == 0, blk.size == 0))
                og = getattr(blk, 'origin', None)
                v = og if og is not None and og.size.eq(n) else VecVal(n, blk.C, blk.elt)
                v.home = p.loc[0]
                del st.mem[p.loc]
        del st.mem[(b, o + 8)]
        st.mem[loc] = v
        return v

    def open_vec(self, st, loc):
        b, o = loc
        v = st.mem[loc]
        if v.std:
            raise Unsupported('access to the representation of a std::vector')
        blk = BlkVal(v.size, v.C, v.elt, True, True)
        blk.origin = v
        if b.startswith('el:'):           # element of a std::vector: read only
            v.home = 'heapfz%d' % next(self.cnt)
        elif v.home is None or (v.home, 0) in st.mem:
            v.home = 'heap%d' % next(self.cnt)
        bb = v.home
        st.mem[(bb, 0)] = blk
        st.mem[(b, o)] = EPtr((bb, 0), 'v', (I(0),))
        st.mem[(b, o + 8)] = v.size

    def open_mat(self, st, loc):
        b, o = loc
        v = st.mem[loc]
        if v.cls != 'Matrix':
            raise Unsupported('raw access to an abstract matrix')
        cols, C = v.cols, v.C
        st.mem[(b, o)] = VTabC('matrix', 2) if v.elt == 'd' else VTabC('matrix_' + v.elt, 2)
        st.mem[(b, o + 8)] = v.rows
        st.mem[(b, o + 16)] = v.cols
        w = VecVal(prod(v.rows, v.cols), CLam(1, C.sort, lambda i: C.read(dv(i, cols), md(i, cols))), v.elt)
        w.origin = v
        st.mem[(b, o + 24)] = w

    def close_mat(self, st, loc):
        b, o = loc
        rows, cols = self.toU(st, st.mem[(b, o + 8)], 64), self.toU(st, st.mem[(b, o + 16)], 64)
        vec = self.obj(st, (b, o + 24))
        if not isinstance(vec, VecVal):
            raise Unsupported('matrix without data vector')
        self.ob('class-inv', 'Matrix: size of the data equals rows*cols (%s)' % (loc,), st, vec.size == prod(rows, cols))
        vt = st.mem[loc]
        C = vec.C
        og = getattr(vec, 'origin', None)
        if og is not None and og.rows.eq(rows) and og.cols.eq(cols):
            m = og
        else:
            m = MatVal(rows, cols, CLam(2, C.sort, lambda r, c: C.read(lin(r, c, cols))), vec.elt, 'Matrix')
        for d in (8, 16, 24):
            st.mem.pop((b, o + d), None)
        st.mem[loc] = m
        return m

    VIEWF = {24: 'tgt', 32: 'rs', 40: 're', 48: 'cs', 56: 'ce'}
    COFF = {24: 'tgt', 32: 'p', 40: 'q'}
    def close_view(self, st, loc):
        b, o = loc
        cof = 'CofactorView' in st.mem[loc].sym
        F = self.COFF if cof else self.VIEWF
        a = []
        for d in sorted(F):
            v = st.mem.get((b, o + d))
            if d == 24:
                if not isinstance(v, Ptr):
                    raise Unsupported('view of an unknown matrix')
                a.append(v.loc)
            elif is_int(v):
                a.append(self.toU(st, v, 64))
            else:
                raise Unsupported('view with an unset field')
        for d in range(8, 64, 8):
            if d in F or d < 24:
                st.mem.pop((b, o + d), None)
        st.mem[loc] = (CofVal if cof else ViewVal)(*a)
        return st.mem[loc]

    def view_field(self, st, p):
        for d in (24, 32, 40, 48, 56):
            v = st.mem.get((p.base, p.off - d))
            if isinstance(v, (ViewVal, CofVal)):
                f = (self.COFF if isinstance(v, CofVal) else self.VIEWF).get(d)
                if f is not None:
                    x = getattr(v, f)
                    return Ptr(*x) if f == 'tgt' else x
        return None

    def close_all(self, st):
        """folds the open matrices whose invariant holds (before a loop)"""
        for loc, v in list(st.mem.items()):
            if not isinstance(v, VTabC) or not (v.sym.startswith('matrix') or v.sym.startswith('_ZTVN4malg6MatrixI')):
                continue
            b, o = loc
            rows, cols = st.mem.get((b, o + 8)), st.mem.get((b, o + 16))
            if rows is None or cols is None:
                continue
            w = st.mem.get((b, o + 24))
            if isinstance(w, VecVal):
                n = w.size
            elif isinstance(w, EPtr) and isinstance(st.mem.get(w.loc), BlkVal) and is_int(st.mem.get((b, o + 32))):
                n = st.mem[(b, o + 32)]
                if not self.entails(st, z3.And(w.idx[0] == 0, st.mem[w.loc].size == n)):
                    continue
            elif w is NULL and is_int(st.mem.get((b, o + 32))):
                n = I(0)
            else:
                continue
            if self.entails(st, n == prod(rows, cols)):
                self.obj(st, loc)

    def absmat(self, st, loc):
        v = self.obj(st, loc)
        if isinstance(v, MatVal):
            return v
        if isinstance(v, ViewVal):
            t = self.absmat(st, v.tgt)
            rows, cols = zmin(v.re, t.rows) - v.rs, zmin(v.ce, t.cols) - v.cs
            return MatVal(rows, cols, CLam(2, t.C.sort, lambda r, c: t.C.read(v.rs + r, v.cs + c)), t.elt, 'View')
        if isinstance(v, CofVal):
            t = self.absmat(st, v.tgt)
            return minor(t, v.p, v.q)
        raise Unsupported('not a matrix at %s: %r' % (loc, v))

    def elem_obj(self, st, loc):
        v = st.mem.get(loc)
        if isinstance(v, (MatVal, VecVal, BlkVal, RowsVal)):
            return loc, v
        if v is None and loc[1] == 0 and loc[0].startswith('heap'):
            for l2, w in st.mem.items():         # the block of a vector that is folded
                if isinstance(w, VecVal) and w.home == loc[0]:
                    return l2, w
        if isinstance(v, (EPtr, Ptr)):
            l2 = v.loc
            if isinstance(st.mem.get(l2), BlkVal):
                return l2, st.mem[l2]
        if isinstance(v, VTabC):
            l2 = (loc[0], loc[1] + 24)
            return l2, ('matraw', self.elem_obj(st, l2), st.mem[(loc[0], loc[1] + 16)])
        return loc, None

    def eread(self, st, p):
        loc, v = self.elem_obj(st, p.loc)
        if v is None:
            self.ob('memory', 'read through a dangling reference', st, z3.BoolVal(False))
            return fresh('dangling', Real)
        if isinstance(v, tuple):
            (l3, vec), cols = v[1], v[2]
            return vec.C.read(lin(p.idx[0], p.idx[1], cols))
        return v.C.read(*p.idx)

    def ewrite(self, st, p, x):
        if is_real(x) and self.esort(st, p) == Cx:
            old = self.eread(st, p)
            x = CX(x, IM(old)) if p.sub == 0 else CX(RE(old), x)
        loc, v = self.elem_obj(st, p.loc)
        if v is None:
            self.ob('memory', 'write through a dangling reference', st, z3.BoolVal(False))
            return
        if isinstance(v, tuple):
            (l3, vec), cols = v[1], v[2]
            st.mem[l3] = vec.withC(CSto(vec.C, (lin(p.idx[0], p.idx[1], cols),), x))
            return
        if loc[0].startswith(('el:', 'heapfz')):
            raise Unsupported('write through a reference to an element of a std::vector')
        if self.writelog is not None:
            self.writelog.append((loc, p.idx))
        st.mem[loc] = v.withC(CSto(v.C, p.idx, x))

    def esort(self, st, p):
        v = self.elem_obj(st, p.loc)[1]
        if v is None:
            return None
        return v[1][1].C.sort if isinstance(v, tuple) else v.C.sort

    def part(self, st, p):
        """the component of a complex element p designates; None when p is not inside one"""
        if isinstance(p, EPtr) and p.kind != 'row' and p.sub in (0, 8) and self.esort(st, p) == Cx:
            return p.sub // 8
        return None

    def ebound(self, st, p, what):
        if self.dry:
            return
        loc, v = self.elem_obj(st, p.loc)
        if v is None:
            return
        if isinstance(v, RowsVal):
            self.ob('bounds', what + ' inside the list', st, z3.And(p.idx[0] >= 0, p.idx[0] < v.size, *([] if p.kind == 'row' else [p.idx[1] >= 0, p.idx[1] < v.len(p.idx[0])])))
        elif isinstance(v, tuple):
            rows, cols = st.mem[(p.loc[0], p.loc[1] + 8)], v[2]
            self.ob('bounds', what + ' inside the matrix', st, z3.And(p.idx[0] >= 0, p.idx[0] < rows, p.idx[1] >= 0, p.idx[1] < cols))
        elif isinstance(v, MatVal):
            if len(p.idx) == 2:
                self.ob('bounds', what + ' inside the matrix', st, z3.And(p.idx[0] >= 0, p.idx[0] < v.rows, p.idx[1] >= 0, p.idx[1] < v.cols))
        else:
            i = p.idx[0]
            self.ob('bounds', what + (' inside the block' if isinstance(v, BlkVal) else ' inside the vector'), st, z3.And(i >= 0, i < v.size))

    # ---------------- operands
    def val(self, v, ty, env, st):
        k = v[0]
        if k == 'l':
            if v[1] not in env:
                raise Unsupported('undefined value ' + v[1])
            return env[v[1]]
        if k == 'c':
            if ty[0] == 'i' and ty[1] == 1:
                return z3.BoolVal(bool(v[1]))
            return I(v[1])
        if k == 'fc':
            return dbl_const(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return Sym(v[1])
        if k == 'zero':
            return UNDEF if ty[0] != 'struct' else tuple(I(0) if e[0] == 'i' else R(0) for e in ty[1])
        if k == 'cexpr':
            m = re.search(r'ptr @("[^"]*"|[\w.$-]+), i32 0, (?:inrange )?i32 0, i32 (\d+)', v[1])
            if m:
                return VTabC(m.group(1).strip('"'), int(m.group(2)))
            raise Unsupported('constant expression ' + v[1][:80])
        raise Unsupported('operand %r' % (v,))

    # ---------------- memory access
    def load(self, st, p, ty, where=''):
        if isinstance(p, EPtr) and p.kind == 'row':
            self.ebound(st, p, 'read')
            if p.sub == 0 and ty[0] == 'ptr':
                return EPtr(p.loc, 'cell', (p.idx[0], I(0)))
            if p.sub == 8 and ty[0] == 'i':
                n = self.elem_obj(st, p.loc)[1].len(p.idx[0])
                st.pc.append(z3.And(n >= 0, n <= MAXDIM))
                return n
            raise Unsupported('load of part of a list')
        if isinstance(p, EPtr):
            if self.part(st, p) is not None:
                self.ebound(st, p, 'read')
                x = self.eread(st, p)
                if ty[0] == 'f':
                    return RE(x) if p.sub == 0 else IM(x)
                if p.sub == 0 and self.mod.resolve(ty)[0] == 'struct':
                    v = (RE(x), IM(x))
                    return self.nest(ty, v)
                raise Unsupported('load of part of an element')
            if p.sub == 0 and p.kind in ('rc', 'v', 'cell'):
                self.ebound(st, p, 'read')
                x = self.eread(st, p)
                if ty[0] == 'f' and not is_real(x) or ty[0] == 'i' and not is_int(x):
                    if isinstance(x, z3.ExprRef):
                        raise Unsupported('element type mismatch in a load')
                if ty[0] == 'i' and is_int(x) and not isnum(x):
                    # the stored representative: int signed, bool 0/1, size_t unsigned (stores keep it)
                    lo, hi = {32: (-(1 << 31), 1 << 31), 8: (0, 2), 64: (0, W64)}[ty[1]]
                    st.pc.append(z3.And(x >= lo, x < hi))
                return x
            raise Unsupported('load of part of an element')
        if isinstance(p, VSlot):
            return VFn(p.loc, p.off // 8)
        if isinstance(p, VSlotC):
            return self.vtable_entry(p)
        if isinstance(p, VTab):
            return VFn(p.loc, 0)
        if isinstance(p, VTabC):
            return self.vtable_entry(VSlotC(p.sym, p.idx))
        if isinstance(p, Sym):
            return self.load_global(st, p.name, ty)
        if p is NULL:
            self.ob('memory', 'null pointer read', st, z3.BoolVal(False))
            raise Contradiction()
        if isinstance(p, Ptr):
            v = st.mem.get(p.loc)
            if isinstance(v, (MatVal, ViewVal, CofVal)):
                if isinstance(v, MatVal) and v.cls == 'stream' and ty[0] == 'ptr':
                    return VTabC('stream', 0)
                if isinstance(v, MatVal) and v.cls in ('list', 'stream'):
                    raise Unsupported('access to the representation of a std::vector')
                if ty[0] == 'ptr':
                    return VTab(p.loc)
                raise Unsupported('raw load from an abstract object')
            if isinstance(v, BlkVal):
                return self.load(st, EPtr(p.loc, 'v', (I(0),)), ty)
            if isinstance(v, VecVal):
                self.open_vec(st, p.loc)
                return st.mem[p.loc]
            if v is not None:
                return v
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                out = []
                for i in range(len(t[1])):
                    off, et = self.mod.field_off(t, i)
                    out.append(self.load(st, Ptr(p.base, p.off + off), et))
                return tuple(out)
            x = self.view_field(st, p)
            if x is not None:
                return x
            if self.open_cover(st, p):
                return self.load(st, p, ty)
            raise Unsupported('load of uninitialised memory %r (%s)' % (p, where))
        raise Unsupported('load through %r' % (p,))

    def open_cover(self, st, p):
        """opens the abstract object whose storage contains p"""
        for d in (8, 16, 24, 32, 40, 48, 56):
            v = st.mem.get((p.base, p.off - d))
            if isinstance(v, MatVal) and d <= 32:
                self.open_mat(st, (p.base, p.off - d))
                return True
            if isinstance(v, VecVal) and d == 8:
                self.open_vec(st, (p.base, p.off - d))
                return True
            if isinstance(v, ViewVal) and d <= 56:
                raise Unsupported('raw access to a view')
        return False

    def nest(self, ty, v):
        """the parts of a complex number as a value of the struct type ty (std::complex wraps { double, double })"""
        t = self.mod.resolve(ty)
        return (self.nest(t[1][0], v),) if len(t[1]) == 1 else v

    def store(self, st, p, x, ty):
        if isinstance(p, EPtr):
            if self.part(st, p) is not None:
                self.ebound(st, p, 'write')
                if is_real(x):
                    self.ewrite(st, p, x)
                    return
                while isinstance(x, tuple) and len(x) == 1:
                    x = x[0]
                if p.sub == 0 and isinstance(x, tuple) and len(x) == 2 and is_real(x[0]) and is_real(x[1]):
                    self.ewrite(st, p, CX(*x))
                    return
                raise Unsupported('store to part of an element')
            if p.sub == 0:
                self.ebound(st, p, 'write')
                if is_int(x) and ty[0] == 'i':
                    if ty[1] == 32:
                        x = self.toS(st, x, 32)
                    elif ty[1] == 8:
                        x = self.toU(st, x, 8)
                        if not isnum(x) or num(x) > 1:
                            self.ob('bool', 'a stored bool is 0 or 1', st, z3.And(x >= 0, x <= 1))
                    else:
                        x = self.toU(st, x, 64)
                self.ewrite(st, p, x)
                return
            raise Unsupported('store to part of an element')
        if p is NULL:
            self.ob('memory', 'null pointer write', st, z3.BoolVal(False))
            raise Contradiction()
        if isinstance(p, Ptr):
            v = st.mem.get(p.loc)
            if isinstance(v, BlkVal):
                self.store(st, EPtr(p.loc, 'v', (I(0),)), x, ty)
                return
            if isinstance(v, VecVal):
                self.open_vec(st, p.loc)
            elif isinstance(v, MatVal):
                self.open_mat(st, p.loc)
            elif isinstance(v, (ViewVal, CofVal)):
                raise Unsupported('raw store into a view')
            elif v is None:
                self.open_cover(st, p)
            if isinstance(x, tuple):
                t = self.mod.resolve(ty)
                for i, e in enumerate(x):
                    off, et = self.mod.field_off(t, i)
                    st.mem[(p.base, p.off + off)] = e
                return
            if is_int(x) and ty[0] == 'i':
                self.slot_bits[p.loc] = ty[1]
            st.mem[p.loc] = x
            return
        raise Unsupported('store through %r' % (p,))

    def vtable_entry(self, p):
        sym = p.sym
        if sym == 'sstream':             # offset of the ios_base part
            return I(4112)
        if sym == 'stream':
            return I(4096)
        if sym == 'matrix' or sym.startswith('matrix_'):
            sym = '_ZTVN4malg6MatrixI%sEE' % {'': 'd', 'z': 'm', 'c': 'St7complexIdE'}.get(sym[7:], sym[7:])
        g = self.mod.globals.get(sym)
        if g is None:
            raise Unsupported('vtable ' + sym)
        m = re.search(r'\{ \[\d+ x ptr\] \[(.*)\] \}', g)
        ents = [e.strip() for e in m.group(1).split(',')]
        e = ents[p.idx]
        m = re.match(r'ptr @("[^"]*"|[\w.$-]+)', e)
        if not m:
            raise Unsupported('vtable entry')
        return Sym(m.group(1).strip('"'))

    def load_global(self, st, name, ty):
        if ty[0] == 'f':
            if 'tol' in demangle(name):
                return TOL
        g = self.mod.globals.get(name, '')
        if ty[0] == 'i' and ('guard variable' in demangle(name)):
            return I(1)
        m = re.search(r'constant (i\d+) (-?\d+)', g)
        if m:
            return I(int(m.group(2)))
        m = re.search(r'constant double (\S+?)(,|$)', g)
        if m:
            return dbl_const(m.group(1))
        raise Unsupported('load of global ' + name)

    # ---------------- running
    def run(self, fr, start, pred, env, st, region=None, header=None):
        outs = []
        work = []
        self.goto(fr, start, pred, env, st, region, header, outs, work, first=True)
        while work:
            b, i, env, st = work.pop()
            self.block(fr, b, i, env, st, region, header, outs, work)
        return outs

    def goto(self, fr, b, pred, env, st, region, header, outs, work, first=False):
        if region is not None and not first:
            if b == header:
                outs.append(Out('back', st, env, b, pred))
                return
            if b not in region:
                outs.append(Out('exit', st, env, b, pred))
                return
        if b in fr.fn.loops and b != header:
            for o in self.loop(fr, b, pred, env, st):
                if o.kind == 'exit':
                    self.goto(fr, o.tgt, o.pred, o.env, o.st, region, header, outs, work)
                else:
                    outs.append(o)
            return
        blk = fr.fn.blocks[b]
        i = 0
        if not (first and header == b):
            new = {}
            while blk.insts[i].op == 'phi':
                ins = blk.insts[i]
                v = next((v for v, bb in ins.x['inc'] if bb == pred), None)
                if v is None:
                    raise Unsupported('phi without incoming')
                new[ins.dst] = self.val(v, ins.ty, env, st)
                i += 1
            if new:
                env = dict(env)
                env.update(new)
        else:
            while blk.insts[i].op == 'phi':
                i += 1
        work.append((b, i, env, st))

    def block(self, fr, b, i, env, st, region, header, outs, work):
        insts = fr.fn.blocks[b].insts
        while True:
            ins = insts[i]
            op = ins.op
            if op == 'br':
                if not ins.args:
                    self.goto(fr, ins.x['targets'][0], b, env, st, region, header, outs, work)
                    return
                c = self.val(ins.args[0], ('i', 1), env, st)
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                self.branch(fr, c, ins.x['targets'], b, env, st, region, header, outs, work)
                return
            if op == 'switch':
                v = self.toU(st, self.val(ins.args[0], ins.ty, env, st), ins.ty[1])
                rest = st
                for cv, tb in ins.x['cases']:
                    s2 = rest.copy()
                    s2.add(v == cv % (1 << ins.ty[1]))
                    if not self.infeasible(s2):
                        self.goto(fr, tb, b, dict(env), s2, region, header, outs, work)
                    rest = rest.copy()
                    rest.add(v != cv % (1 << ins.ty[1]))
                if not self.infeasible(rest):
                    self.goto(fr, ins.x['default'], b, env, rest, region, header, outs, work)
                return
            if op == 'ret':
                v = None
                if ins.args:
                    v = self.val(ins.args[0], ins.ty, env, st)
                outs.append(Out('ret', st, env, val=v))
                return
            if op == 'unreachable':
                self.ob('unreachable', 'unreachable code is not reached', st, z3.BoolVal(False))
                return
            if op in ('resume', 'landingpad'):
                raise Unsupported('exception path')
            if op in ('call', 'invoke'):
                res = self.call(fr, ins, env, st)
                nxt = []
                for o in res:
                    if o.kind == 'ret':
                        e2 = env if len(res) == 1 else dict(env)
                        if ins.dst:
                            e2[ins.dst] = o.val
                        nxt.append((e2, o.st))
                    else:
                        outs.append(o)
                if op == 'invoke':
                    for e2, s2 in nxt:
                        self.goto(fr, ins.x['normal'], b, e2, s2, region, header, outs, work)
                    return
                if not nxt:
                    return
                for e2, s2 in nxt[1:]:
                    work.append((b, i + 1, e2, s2))
                env, st = nxt[0]
                i += 1
                continue
            try:
                self.simple(fr, ins, env, st)
            except Contradiction:
                return
            i += 1

    def branch(self, fr, c, targets, b, env, st, region, header, outs, work):
        c = z3.simplify(c)
        if z3.is_true(c):
            self.goto(fr, targets[0], b, env, st, region, header, outs, work)
            return
        if z3.is_false(c):
            self.goto(fr, targets[1], b, env, st, region, header, outs, work)
            return
        s1, s2 = st, st.copy()
        s1 = st.copy()
        s1.add(c)
        s2.add(z3.Not(c))
        f1 = self.infeasible(s1)
        f2 = False if f1 else self.infeasible(s2)
        if f1:
            self.goto(fr, targets[1], b, env, s2, region, header, outs, work)
        elif f2:
            self.goto(fr, targets[0], b, env, s1, region, header, outs, work)
        else:
            self.goto(fr, targets[1], b, dict(env), s2, region, header, outs, work)
            self.goto(fr, targets[0], b, dict(env), s1, region, header, outs, work)

    # ---------------- simple instructions
    def simple(self, fr, ins, env, st):
        op = ins.op
        A = ins.args
        if op == 'alloca':
            env[ins.dst] = Ptr('%s.%s' % (fr.id, ins.dst), 0)
            return
        if op == 'load':
            env[ins.dst] = self.load(st, self.val(A[0], ('ptr',), env, st), ins.ty, ins.text)
            return
        if op == 'store':
            self.store(st, self.val(A[1], ('ptr',), env, st), self.val(A[0], ins.ty, env, st), ins.ty)
            return
        if op == 'getelementptr':
            env[ins.dst] = self.gep(ins, env, st)
            return
        if op == 'select':
            c = z3.simplify(self.val(A[0], ('i', 1), env, st))
            a, b = self.val(A[1], ins.ty, env, st), self.val(A[2], ins.ty, env, st)
            if z3.is_true(c):
                env[ins.dst] = a
            elif z3.is_false(c):
                env[ins.dst] = b
            elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                env[ins.dst] = z3.If(c, a, b)
            elif isinstance(a, EPtr) and isinstance(b, EPtr) and a.loc == b.loc and a.kind == b.kind:
                env[ins.dst] = EPtr(a.loc, a.kind, tuple(z3.If(c, x, y) for x, y in zip(a.idx, b.idx)))
            elif self.entails(st, c):
                env[ins.dst] = a
            elif self.entails(st, z3.Not(c)):
                env[ins.dst] = b
            elif isinstance(a, (Sym, PSel)) and isinstance(b, (Sym, PSel)):
                env[ins.dst] = PSel(c, a, b)
            else:
                raise Unsupported('select of pointers')
            return
        if op == 'icmp':
            env[ins.dst] = self.icmp(st, ins.x['pred'], ins.ty, self.val(A[0], ins.ty, env, st), self.val(A[1], ins.ty, env, st))
            return
        if op == 'fcmp':
            a, b = self.val(A[0], ins.ty, env, st), self.val(A[1], ins.ty, env, st)
            p = ins.x['pred']
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                 'gt': lambda: a > b, 'ge': lambda: a >= b}
            if p == 'ord':
                r = z3.BoolVal(True)
            elif p == 'uno':
                r = z3.BoolVal(False)
            else:
                r = f[p[1:]]()
            env[ins.dst] = r
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(A[0], ins.ty, env, st), self.val(A[1], ins.ty, env, st)
            if a is UNDEF or b is UNDEF:
                raise Unsupported('arithmetic on undef')
            v = env[ins.dst] = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}[op](a, b)
            if self.K is not None and self.K.fieldfacts and op in ('fmul', 'fdiv'):
                st.pc.append(z3.Implies(z3.And(a > 0, b > 0), v > 0))       # Lean, mul_positive and div_positive
                if op == 'fdiv' and not isnum(a) and not isnum(b):
                    st.pc.append(v == fmul(a, fdiv(R(1), b)))                   # Lean, div_is_mul
            for t, y in ((a, b), (b, a)):
                if op == 'fmul' and z3.is_const(t) and t.eq(TOL) and not isnum(y):
                    # 0 <= TOL < 1 (assumption on the settable tolerance; the default is 1e-6)
                    st.pc.append(z3.And(z3.Implies(y > 0, z3.And(FMUL(TOL, y) >= 0, FMUL(TOL, y) < y)), z3.Implies(y == 0, FMUL(TOL, y) == 0),
                                        fmul(t, y) == FMUL(TOL, y)))
            return
        if op == 'fneg':
            env[ins.dst] = fneg(self.val(A[0], ins.ty, env, st))
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[ins.dst] = self.arith(st, op, ins.ty, self.val(A[0], ins.ty, env, st), self.val(A[1], ins.ty, env, st), ins)
            return
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'):
            env[ins.dst] = self.cast(st, op, ins.x['src'], ins.ty, self.val(A[0], ins.x['src'], env, st))
            return
        if op == 'extractvalue':
            v = self.val(A[0], ins.ty, env, st)
            for k in ins.x['path']:
                v = v[k]
            env[ins.dst] = v
            return
        if op == 'insertvalue':
            v = self.val(A[0], ins.ty, env, st)
            t = self.mod.resolve(ins.ty)
            if v is UNDEF:
                v = tuple([UNDEF] * len(t[1]))
            l = list(v)
            l[ins.x['path'][0]] = self.val(A[1], ins.x['ety'], env, st)
            env[ins.dst] = tuple(l)
            return
        raise Unsupported('instruction ' + op)

    def gep(self, ins, env, st):
        p = self.val(ins.args[0], ('ptr',), env, st)
        idx = [self.val(v, t, env, st) for t, v in ins.x['idx']]
        ty = ins.ty
        if isinstance(p, VTab):
            if isnum(idx[0]):
                return VSlot(p.loc, num(idx[0]) * 8 if ty[0] == 'ptr' else num(idx[0]))
            raise Unsupported('vtable gep')
        if isinstance(p, VTabC):
            return VSlotC(p.sym, p.idx + (num(idx[0]) if ty[0] == 'ptr' else num(idx[0]) // 8))
        sz = self.mod.sizeof(ty)
        if isinstance(p, Ptr) and isinstance(st.mem.get(p.loc), BlkVal):
            p = EPtr(p.loc, 'v', (I(0),))
        if self.part(st, p) is not None and all(isnum(x) for x in idx) and (len(idx) > 1 or num(idx[0]) * sz + p.sub in (0, 8)):
            off, t = num(idx[0]) * sz + p.sub, self.mod.resolve(ty)
            for x in idx[1:]:
                if t[0] != 'struct':
                    raise Unsupported('gep type')
                o, t = self.mod.field_off(t, num(x))
                off, t = off + o, self.mod.resolve(t)
            if off in (0, 8):
                return EPtr(p.loc, p.kind, p.idx, off)
            raise Unsupported('element gep')
        if isinstance(p, EPtr) and p.kind == 'row':
            if len(idx) == 1 and sz == 16 and p.sub == 0:
                d = self.toS(st, idx[0], 64)
                return EPtr(p.loc, 'row', (z3.simplify(p.idx[0] + d) if isnum(d) else p.idx[0] + d,))
            if all(isnum(x) for x in idx):
                off, t = p.sub + num(idx[0]) * sz, self.mod.resolve(ty)
                for x in idx[1:]:
                    o, t = self.mod.field_off(t, num(x))
                    off, t = off + o, self.mod.resolve(t)
                return EPtr(p.loc, 'row', (p.idx[0] + off // 16 if off // 16 else p.idx[0],), off % 16)
            raise Unsupported('gep on a list of lists')
        if isinstance(p, EPtr):
            if len(idx) == 1:
                loc, v = self.elem_obj(st, p.loc)
                elt = v.elt if v is not None and not isinstance(v, tuple) else 'd'
                es = ESIZE.get(elt, 8)
                if sz == es:
                    d = self.toS(st, idx[0], 64)
                elif sz == 1 and isnum(idx[0]) and num(idx[0]) % es == 0:
                    d = I(num(idx[0]) // es)
                elif sz == 1:
                    d = idx[0] / es
                else:
                    raise Unsupported('element gep')
                if p.kind == 'cell' and p.sub == 0:
                    return EPtr(p.loc, 'cell', (p.idx[0], z3.simplify(p.idx[1] + d) if isnum(d) else p.idx[1] + d))
                if p.kind == 'v':
                    return EPtr(p.loc, 'v', (z3.simplify(p.idx[0] + d) if isnum(d) else p.idx[0] + d,), p.sub)
                if isnum(d) and num(d) == 0:
                    return p
            raise Unsupported('gep on a matrix element')
        if p is NULL:
            if all(isnum(x) and num(x) == 0 for x in idx):
                return NULL
            self.ob('memory', 'arithmetic on a null pointer', st, z3.And(*[x == 0 for x in idx]))
            return NULL
        if isinstance(p, Ptr):
            if not all(isnum(x) for x in idx):
                raise Unsupported('dynamic gep')
            off = num(idx[0]) * sz
            t = self.mod.resolve(ty)
            for x in idx[1:]:
                if t[0] == 'struct':
                    o, t = self.mod.field_off(t, num(x))
                    off += o
                elif t[0] == 'arr':
                    off += num(x) * self.mod.sizeof(t[2])
                    t = t[2]
                else:
                    raise Unsupported('gep type')
                t = self.mod.resolve(t)
            return Ptr(p.base, p.off + off)
        if isinstance(p, Sym):
            return p
        raise Unsupported('gep on %r' % (p,))

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undef')
        if ty[0] == 'ptr':
            if pred not in ('eq', 'ne'):
                raise Unsupported('pointer order')
            def res(e):
                return e if pred == 'eq' else z3.Not(e)
            if isinstance(a, Ptr) and isinstance(st.mem.get(a.loc), BlkVal):
                a = EPtr(a.loc, 'v', (I(0),))
            if isinstance(b, Ptr) and isinstance(st.mem.get(b.loc), BlkVal):
                b = EPtr(b.loc, 'v', (I(0),))
            if a is NULL and b is NULL:
                return res(z3.BoolVal(True))
            if a is NULL:
                a, b = b, a
            if b is NULL:
                if isinstance(a, EPtr):
                    loc, v = self.elem_obj(st, a.loc)
                    if isinstance(v, BlkVal) and v.nullable:
                        return res(v.size == 0)
                    if isinstance(v, VecVal):
                        return res(v.size == 0)
                return res(z3.BoolVal(False))
            if isinstance(a, EPtr) and isinstance(b, EPtr):
                la, lb = self.elem_obj(st, a.loc)[0], self.elem_obj(st, b.loc)[0]
                if la != lb:
                    return res(z3.BoolVal(False))
                e = z3.And(*[x == y for x, y in zip(a.idx, b.idx)]) if len(a.idx) > 1 else a.idx[0] == b.idx[0]
                if self.cmplog is not None and len(a.idx) == 1:
                    self.cmplog.append((a.idx[0], b.idx[0]))
                return res(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return res(z3.BoolVal(a.loc == b.loc))
            if isinstance(a, Sym) and isinstance(b, Sym):
                return res(z3.BoolVal(a.name == b.name))
            return res(z3.BoolVal(False))
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undef')
        n = ty[1]
        if n == 1:
            return (a == b) if pred == 'eq' else (a != b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported('comparison of pointer integers')
        if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
            a, b = self.toU(st, a, n), self.toU(st, b, n)
        else:
            a, b = self.toS(st, a, n), self.toS(st, b, n)
        if self.cmplog is not None:
            self.cmplog.append((a, b))
        k = pred[-2:]
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()

    def linfact(self, st, s, x):
        """the sum of a product and a column: name it as a linear index"""
        for a, b in ((s, x), (x, s)):
            if z3.is_app(a) and a.num_args() == 2 and a.decl().eq(PROD):
                u, v = a.arg(0), a.arg(1)
                st.pc.append(LIN(u, b, v) == a + b)
                if not u.eq(v):
                    st.pc.append(LIN(v, b, u) == a + b)
                for r, c in ((u, v), (v, u)):          # the quotient and the remainder of an in-range column
                    if self.entails(st, z3.And(r >= 0, 0 <= b, b < c)):
                        st.pc.append(z3.And(DV(a + b, c) == r, MD(a + b, c) == b))
                        break

    def arith(self, st, op, ty, a, b, ins):
        n = ty[1]
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                pa, pb = a.p, b.p
                if isinstance(pa, EPtr) and isinstance(pb, EPtr) and pa.loc == pb.loc:
                    es = ESIZE[self.elem_obj(st, pa.loc)[1].elt]
                    return (pa.idx[0] - pb.idx[0]) * es
            raise Unsupported('pointer arithmetic on integers')
        if n == 1:
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.Xor(a, b) if not z3.is_true(z3.simplify(b)) else z3.Not(a)
            raise Unsupported('i1 ' + op)
        if n == 32 and op in ('add', 'sub', 'mul') and 'nsw' in ins.x.get('flags', ()):
            sa, sb = self.toS(st, a, n), self.toS(st, b, n)
            r = imul(sa, sb) if op == 'mul' else sa + sb if op == 'add' else sa - sb
            if isnum(sa) or isnum(sb):
                r = z3.simplify(r)
            rng = z3.And(r >= -(1 << 31), r < (1 << 31))
            if not (self.K and self.K.intrange):
                self.ob('overflow', 'int %s does not overflow' % op, st, rng, inst=self.read_inst(st, rng))
            st.pc.append(rng)
            return r
        if op == 'add':
            self.linfact(st, a, b)
            r = z3.simplify(a + b) if isnum(a) or isnum(b) else a + b
            return self.norm(st, r, n)
        if op == 'sub':
            r = z3.simplify(a - b) if isnum(a) or isnum(b) else a - b
            return self.norm(st, r, n)
        if op == 'mul':
            if isnum(a) or isnum(b):
                return self.norm(st, prod(a, b), n)
            ua, ub = self.toU(st, a, n), self.toU(st, b, n)
            r = prod(ua, ub)
            lim = (1 << 62) if n == 64 else (1 << n) - 1
            self.ob('overflow', 'product of sizes does not wrap', st, r <= lim)
            st.pc.append(z3.And(r >= 0, r <= lim)) if self.dry else st.pc.append(z3.And(r >= 0, r <= lim))
            return r
        if op in ('udiv', 'urem'):
            ua, ub = self.toU(st, a, n), self.toU(st, b, n)
            if isnum(ub) and num(ub):
                return ua / ub if op == 'udiv' else ua % ub
            self.ob('division', 'divisor is not zero', st, ub != 0)
            return dv(ua, ub) if op == 'udiv' else md(ua, ub)
        if op in ('sdiv', 'srem'):
            if isnum(b) and num(b) > 0:
                sa = self.toS(st, a, n)
                if self.entails(st, sa >= 0):
                    return sa / b if op == 'sdiv' else sa % b
                d = num(b)
                if op == 'sdiv' and 'exact' in ins.x.get('flags', ()):
                    return sa / b
            if op == 'sdiv' and n == 32:
                sa, sb = self.toS(st, a, n), self.toS(st, b, n)
                g = z3.And(sb != 0, z3.Not(z3.And(sb == -1, sa == -(1 << 31))))
                self.ob('division', 'the int quotient is defined', st, g, inst=self.read_inst(st, g))
                r = idiv(sa, sb)
                st.pc.append(z3.And(r >= -(1 << 31), r < (1 << 31)))
                return r
            raise Unsupported(op)
        if op == 'shl' and isnum(b):
            return self.norm(st, a * (1 << num(b)), n)
        if op == 'and' and isnum(b) and (num(b) + 1) & num(b) == 0:
            return self.toU(st, a, n) % (num(b) + 1)
        if op == 'lshr' and isnum(b):
            return self.toU(st, a, n) / (1 << num(b))
        if op == 'ashr' and isnum(b):
            return self.toS(st, a, n) / (1 << num(b))
        if op == 'xor' and isnum(b) and num(b) == -1:
            return -1 - self.toS(st, a, n)
        raise Unsupported('integer ' + op)

    def cast(self, st, op, src, dst, v):
        if v is UNDEF:
            return UNDEF
        if op == 'freeze' or op == 'bitcast':
            return v
        if op == 'zext':
            if src[1] == 1:
                if v.get_id() in self.boolof and dst[1] == 8:
                    return self.boolof[v.get_id()][1]
                return z3.If(v, I(1), I(0))
            return self.toU(st, v, src[1])
        if op == 'sext':
            if src[1] == 1:
                return z3.If(v, I(-1), I(0))
            return self.toS(st, v, src[1])
        if op == 'trunc':
            if dst[1] == 1:
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and isnum(v.arg(1)) and isnum(v.arg(2)) and num(v.arg(1)) == 1 and num(v.arg(2)) == 0:
                    return v.arg(0)
                if src[1] == 8:
                    b = v != 0             # bool in memory holds 0 or 1
                    self.boolof[b.get_id()] = (b, v)
                    return b
                return v % 2 == 1
            u = self.toU(st, v, src[1])
            if self.entails(st, u < (1 << dst[1])):
                return u
            return u % (1 << dst[1])
        if op == 'sitofp':
            if isnum(v):
                return R(num(self.toS(st, v, src[1])))
            t = z3.simplify(self.toS(st, v, src[1]))
            if t.decl().kind() == z3.Z3_OP_ITE and isnum(t.arg(1)) and isnum(t.arg(2)):
                return z3.If(t.arg(0), R(num(t.arg(1))), R(num(t.arg(2))))
            return z3.ToReal(self.toS(st, v, src[1]))
        if op == 'uitofp':
            if src[1] == 1:
                return z3.If(v, R(1), R(0))
            return z3.ToReal(self.toU(st, v, src[1])) if not isnum(v) else R(num(self.toU(st, v, src[1])))
        if op == 'fptosi':        # towards zero
            t, n = self.F2S(v), dst[1]
            a = z3.ToReal(t)
            st.pc.append(z3.And(t >= -(1 << (n - 1)), t < (1 << (n - 1)), z3.If(v >= 0, z3.And(t >= 0, a <= v, v < a + 1), z3.And(t <= 0, a >= v, v > a - 1))))
            self.trusted.add('float-to-integer conversion in range')
            return z3.If(t < 0, t + (1 << n), t)
        if op == 'fptoui':
            f = z3.Function('f2i', Real, Int)
            r = f(v)
            st.pc.append(z3.And(r >= 0, r < (1 << 62)))
            st.pc.append(z3.Implies(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1)))
            self.trusted.add('float-to-integer conversion in range')
            return r
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and isinstance(st.mem.get(v.loc), BlkVal):
                v = EPtr(v.loc, 'v', (I(0),))
            return PInt(v)
        if op in ('fpext', 'fptrunc'):
            return v
        raise Unsupported(op)

    # ---------------- calls
    def call(self, fr, ins, env, st):
        cal = ins.x['callee']
        args = ins.args
        if cal[0] == 'g':
            sym = cal[1]
        else:
            f = self.val(cal, ('ptr',), env, st)
            if isinstance(f, VFn):
                vals = [self.val(v, t, env, st) for t, v, at in args]
                return self.vcall(st, f, vals, ins)
            if isinstance(f, Sym):
                sym = f.name
            else:
                raise Unsupported('indirect call')
        if sym.startswith('llvm.'):
            return self.intrinsic(fr, sym, ins, env, st)
        sym = self.mod.aliases.get(sym, sym)
        vals = [self.val(v, t, env, st) for t, v, at in args]
        return self.callsym(sym, vals, st, ins, [at for t, v, at in args])

    def callsym(self, sym, vals, st, ins, attrs):
        for q, v in enumerate(vals):
            if isinstance(v, PSel):      # one text or another
                outs = []
                for c, x in ((v.c, v.a), (z3.Not(v.c), v.b)):
                    s2 = st.copy()
                    s2.pc.append(c)
                    if not self.entails(s2, z3.BoolVal(False)):
                        outs += self.callsym(sym, vals[:q] + [x] + vals[q + 1:], s2, ins, attrs)
                return outs
        c = self.contracts.get(canon(sym))
        if c is not None and c is not self.skip_contract:
            self.usedc.add(c.name)
            self.calls.add(canon(sym))
            rec = self.root is not None and canon(sym) == canon(self.root)
            if rec and self.K.measure is None:
                raise Unsupported('recursive call of a function without a measure')
            try:
                return c.apply(self, st, vals, attrs, ins, rec)
            except Contradiction:
                return []
        r = self.builtin(sym, vals, st, ins)
        if r is not None:
            return r
        fn = self.mod.func(sym)
        if fn is None:
            raise Unsupported('call to ' + demangle(sym)[:150])
        if self.depth > 40:
            raise Unsupported('recursion through ' + demangle(sym)[:100])
        return self.inline(fn, vals, st)

    def inline(self, fn, vals, st):
        self.inlined.add(fn.sym)
        env = {}
        for (t, nm, at), v in zip(fn.params, vals):
            env[nm] = v
        self.depth += 1
        self.symstack.append(fn.sym)
        fr = Frame(fn, 'f%d' % next(self.cnt))
        try:
            outs = self.run(fr, fn.entry, None, env, st)
        finally:
            self.depth -= 1
            self.symstack.pop()
        return outs

    def vcall(self, st, f, vals, ins):
        name = self.contracts.slots.get(f.slot)
        if name is None:
            raise Unsupported('virtual slot %d' % f.slot)
        loc = f.loc
        if name in ('rows', 'cols', 'size', 'empty'):
            m = self.absmat(st, loc)
            v = {'rows': lambda: m.rows, 'cols': lambda: m.cols, 'size': lambda: prod(m.rows, m.cols),
                 'empty': lambda: z3.Or(m.rows == 0, m.cols == 0)}[name]()
            if name == 'size':
                st.pc.append(z3.And(v >= 0, v <= (1 << 62)))
            return [Out('ret', st, val=v)]
        if name in ('index', 'index_const'):
            m = self.absmat(st, loc)
            i = self.toU(st, vals[1], 64)
            self.ob('bounds', 'linear index inside the matrix', st, z3.And(i >= 0, i < prod(m.rows, m.cols)))
            return [Out('ret', st, val=self.mkcell(st, loc, dv(i, m.cols), md(i, m.cols)))]
        if name in ('at', 'at_const', 'call', 'call_const'):
            m = self.absmat(st, loc)
            r, c = self.toU(st, vals[1], 64), self.toU(st, vals[2], 64)
            self.ob('bounds', 'row and column inside the matrix', st, z3.And(r >= 0, r < m.rows, c >= 0, c < m.cols))
            return [Out('ret', st, val=self.mkcell(st, loc, r, c))]
        if name in ('dtor', 'dtor_del'):
            raise Unsupported('virtual destructor')
        raise Unsupported('virtual ' + name)

    def mkcell(self, st, loc, r, c):
        v = st.mem.get(loc)
        if isinstance(v, VTabC):
            return EPtr(loc, 'rc', (r, c))
        v = self.obj(st, loc)
        if isinstance(v, ViewVal):
            return self.mkcell(st, v.tgt, v.rs + r, v.cs + c)
        if isinstance(v, CofVal):
            return self.mkcell(st, v.tgt, r + z3.If(r >= v.p, I(1), I(0)), c + z3.If(c >= v.q, I(1), I(0)))
        return EPtr(loc, 'rc', (r, c))

    def mkvelem(self, st, loc, i):
        return EPtr(loc, 'v', (i,))

    STDVEC = re.compile(r'(?:\S.* )?std::vector<(unsigned long|double|malg::Vector<double>), std::allocator<(?:unsigned long|double|malg::Vector<double>) ?> ?>::(~?\w+|operator\[\]|operator=)(?:<.*>)?\((.*)\)( const)?$')
    def stdvec(self, dm, vals, st, ins):
        """std::vector of size_t, of double and of Vector<double> as sequences: the operations of the standard, with their
        preconditions.  A sequence of Vectors is a content with two indices (element, position); all its elements have the
        same length (an obligation whenever one is added)."""
        m = self.STDVEC.match(dm)
        if not m:
            return None
        ety, f, par = m.group(1), m.group(2), m.group(3)
        el = {'unsigned long': 'z', 'double': 'd'}.get(ety, 'v')
        me = 'std::vector<%s, std::allocator<%s> >' % (ety, ety + ' ' if el == 'v' else ety)
        loc = vals[0].loc if vals and f_ptr(vals[0]) else None
        v = st.mem.get(loc) if loc is not None else None
        isstd = lambda o: isinstance(o, VecVal) and o.std or isinstance(o, MatVal) and o.cls == 'list'
        if f != 'vector' and not isstd(v):
            if el == 'd':
                return None                  # a vector whose representation is open: the code itself is executed
            raise Unsupported('std::vector expected')
        if loc is None:
            raise Unsupported('std::vector at an unknown place')
        self.trusted.add('std::vector<%s> behaves as the C++ standard says' % ety)
        zero = R(0) if el == 'd' else I(0)
        new = lambda n, C: VecVal(n, C, el, True)
        newl = lambda n, d, C: MatVal(n, d, C, 'd', 'list')
        def drop():                          # references to the elements are no longer valid
            for l2 in [l for l in st.mem if l[0].startswith('el:%s:%d:' % loc)]:
                w = st.mem.pop(l2)
                if isinstance(w, EPtr):
                    st.mem.pop(w.loc, None)
        def vecat(p):                        # the Vector an argument refers to
            o = self.obj(st, p.loc) if isinstance(p, Ptr) else None
            if not isinstance(o, VecVal) or o.std or o.elt != 'd':
                raise Unsupported('Vector expected')
            return o
        if f == 'vector':
            al = 'std::allocator<%s> const&' % (ety + ' ' if el == 'v' else ety)
            par = '' if par == al else par[:-len(al) - 2] if par.endswith(', ' + al) else par
            if isstd(v):
                raise Unsupported('std::vector constructed twice')
            if par == '':
                st.mem[loc] = newl(I(0), I(0), CLam(2, Real, lambda i, j: R(0))) if el == 'v' else new(I(0), CLam(1, zero.sort(), lambda i: zero))
                return [Out('ret', st)]
            if par in (me + ' const&', me + '&&') and isinstance(vals[1], Ptr):
                o = st.mem.get(vals[1].loc)
                if isstd(o):
                    st.mem[loc] = o.withC(o.C)
                    if par.endswith('&&'):
                        st.mem[vals[1].loc] = newl(I(0), I(0), o.C) if el == 'v' else new(I(0), o.C)
                    return [Out('ret', st)]
            if par.startswith('unsigned long') and el in 'dv':
                n = self.toU(st, vals[1], 64)
                self.ob('pre', 'number of elements of a std::vector', st, n <= MAXLEN)
                if par == 'unsigned long' and el == 'd':
                    st.mem[loc] = new(n, CLam(1, Real, lambda i: R(0)))
                    return [Out('ret', st)]
                if par == 'unsigned long, double const&':
                    x = self.load(st, vals[2], ('f', 'double'))
                    st.mem[loc] = new(n, CLam(1, Real, lambda i: x))
                    return [Out('ret', st)]
                if par == 'unsigned long, malg::Vector<double> const&':
                    o = vecat(vals[2])
                    st.mem[loc] = newl(n, o.size, CLam(2, Real, lambda i, j: o.C.read(j)))
                    return [Out('ret', st)]
            if el == 'd':
                return None
            raise Unsupported('std::vector constructor ' + par)
        it = lambda i: EPtr(loc, 'v', (i,))
        pos = lambda p: p.idx[0] if isinstance(p, EPtr) and p.loc == loc and p.sub == 0 else None
        n = v.rows if el == 'v' else v.size
        def at(i):
            if el != 'v':
                return it(i)
            b = 'el:%s:%d:%d' % (*loc, next(self.cnt))
            C, i = v.C, z3.simplify(i)
            st.mem[(b, 0)] = VecVal(v.cols, CLam(1, Real, lambda j: C.read(i, j)))
            return Ptr(b, 0)
        if f == '~vector':
            drop()
            del st.mem[loc]
            return [Out('ret', st)]
        if f in ('size', 'empty'):
            st.pc.append(z3.And(n >= 0, n < MAXLEN))
            return [Out('ret', st, val=n if f == 'size' else n == 0)]
        if f in ('begin', 'cbegin', 'data', 'end', 'cend') and el != 'v':
            return [Out('ret', st, val=it(n if 'end' in f else I(0)))]
        if f in ('operator[]', 'at', 'front', 'back'):
            i = self.toU(st, vals[1], 64) if len(vals) > 1 else I(0) if f == 'front' else n - 1
            self.ob('bounds', 'index inside the std::vector', st, z3.And(i >= 0, i < n))
            return [Out('ret', st, val=at(i))]
        if f in ('emplace_back', 'push_back'):
            st.pc.append(z3.And(n >= 0, n < MAXLEN))
            if el == 'v':
                if len(vals) != 2:
                    raise Unsupported('emplace_back')
                o = vecat(vals[1])
                self.ob('model', 'the elements of a sequence of Vectors have the same length', st, z3.Or(n == 0, v.cols == o.size))
                C, oc = v.C, o.C
                if par.endswith('&&') or re.search(r'emplace_back<malg::Vector<double>>', dm.replace(' >', '>')):
                    if vals[1].base.startswith('el:'):
                        raise Unsupported('element moved out of a std::vector')
                    st.mem[vals[1].loc] = VecVal(I(0), CLam(1, Real, lambda i: R(0)))
                drop()
                st.mem[loc] = newl(n + 1, z3.If(n == 0, o.size, v.cols), CLam(2, Real, lambda i, j: ite(i == n, oc.read(j), C.read(i, j))))
                v = st.mem[loc]
                return [Out('ret', st, val=at(n))]
            x = self.toU(st, self.load(st, vals[1], ('i', 64)), 64) if el == 'z' else self.load(st, vals[1], ('f', 'double'))
            st.mem[loc] = new(n + 1, CSto(v.C, (n,), x))
            return [Out('ret', st, val=it(n))]
        if f == 'pop_back':
            self.ob('bounds', 'pop_back of a non-empty std::vector', st, n > 0)
            drop()
            st.mem[loc] = newl(n - 1, v.cols, v.C) if el == 'v' else new(n - 1, v.C)
            return [Out('ret', st)]
        if f == 'clear':
            drop()
            st.mem[loc] = newl(I(0), I(0), v.C) if el == 'v' else new(I(0), v.C)
            return [Out('ret', st)]
        if f == 'reserve':
            drop()
            return [Out('ret', st)]
        if f == 'resize' and len(vals) == 2 and el != 'v':
            n2, C = self.toU(st, vals[1], 64), v.C
            st.mem[loc] = new(n2, CLam(1, zero.sort(), lambda i: z3.If(i < n, C.read(i), zero)))
            return [Out('ret', st)]
        if f == 'erase' and el != 'v':
            ps = []
            for p in vals[1:]:
                if isinstance(p, Ptr):           # iterator passed in memory
                    p = self.load(st, p, ('ptr',))
                ps.append(pos(p))
            if None in ps:
                raise Unsupported('iterator of another container')
            p, q = ps if len(ps) == 2 else (ps[0], ps[0] + 1)
            self.ob('bounds', 'erased range inside the std::vector', st, z3.And(0 <= p, p <= q, q <= n))
            C, d = v.C, q - p
            st.mem[loc] = new(n - d, CLam(1, zero.sort(), lambda i: C.read(z3.If(i < p, i, i + d))))
            return [Out('ret', st, val=it(p))]
        raise Unsupported('std::vector::' + f)

    # ---------------- streams
    # A file stream is the sequence of the tokens in it: content(i, 0) is the kind of token i (0 integer number, 1 real
    # number, 2 + c the character c), content(i, 1) its value.  An output stream (loc) has `sep` at loc + 8: 1 when the
    # next number would not run into the last one; an input stream has its position there.  loc + 16: the precision.
    # Padding to a field width only adds blanks.  DEC(p, x): the value read back from x written with precision p.
    # EI(n), IV(x): an integer as the value of a token and back, IV(EI(n)) = n.
    DEC = z3.Function('DEC', Int, Real, Real)
    CDEC = z3.Function('CDEC', Int, Real, Real, Real)
    F2S = z3.Function('F2S', Real, Int)
    EI, IV = z3.Function('EI', Int, Real), z3.Function('IV', Real, Int)
    def stream(self, dm, vals, st, ins):
        d2 = dm.replace('operator<<', 'operator@@').replace('operator>>', 'operator%%')
        while re.search(r'<[^<>]*>', d2):
            d2 = re.sub(r'<[^<>]*>', '', d2)
        m = re.match(r'(?:[^()]* )?std::((?:\w+::)*)(~?\w+|operator@@|operator%%) ?\((.*)\)(?: const)?$', d2)
        if not m:
            return None
        cls, f, par = m.group(1).replace('__cxx11::', '')[:-2], m.group(2).replace('@', '<').replace('%', '>'), m.group(3)
        if not (cls in ('basic_string', 'basic_ostream', 'basic_istream', 'basic_stringstream', 'basic_ios', 'basic_ofstream', 'basic_ifstream', 'ios_base')
                or cls == '' and f in ('setw', 'setprecision', 'operator<<', 'operator>>')):
            return None
        self.trusted.add('file streams keep the sequence of numbers and characters written (see exec.py, streams)')
        me = vals[0] if vals else None
        if f in ('setw', 'setprecision'):
            return [Out('ret', st, val=vals[0])]
        if cls == 'basic_string':
            if f in ('length', 'size'):
                n = fresh('strlen')
                st.pc.append(z3.And(n >= 0, n < (1 << 31)))
                return [Out('ret', st, val=n)]
            if f in ('basic_string', '~basic_string'):
                return [Out('ret', st)]
            raise Unsupported('std::string::' + f)
        if isinstance(me, Sym) and re.search(r'4c(out|err|log)$', me.name) and f in ('operator<<', 'put', 'flush'):
            return [Out('ret', st, val=me)]        # the console
        def find(p):
            if isinstance(p, Ptr):
                for d in (0, -16, 4096):
                    v = st.mem.get((p.base, p.off - d))
                    if isinstance(v, MatVal) and v.cls == 'stream':
                        return (p.base, p.off - d)
            raise Unsupported('stream expected')
        if cls == 'basic_stringstream':
            if f == 'basic_stringstream' and par == '':
                st.mem[me.loc] = VTabC('sstream', 0)
                # its content is kept at its ostream part
                st.mem[(me.base, me.off + 16)] = MatVal(I(0), I(2), CLam(2, Real, lambda i, j: R(0)), 'd', 'stream')
                st.mem[(me.base, me.off + 24)], st.mem[(me.base, me.off + 32)], st.mem[(me.base, me.off + 40)] = I(1), I(6), I(0)
                return [Out('ret', st)]
            if f == '~basic_stringstream':
                for d in (0, 16, 24, 32, 40):
                    st.mem.pop((me.base, me.off + d), None)
                return [Out('ret', st)]
            if f == 'str' and par == '':     # a string is the sequence of what was written
                if len(vals) == 2 and isinstance(vals[0], Ptr):
                    loc = find(vals[1])
                    st.mem[vals[0].loc] = st.mem[loc]
                return [Out('ret', st)]
            if f == 'str':                   # any content may follow
                st.mem[(me.base, me.off + 16)] = MatVal(I(0), I(2), CLam(2, Real, lambda i, j: R(0)), 'd', 'stream')
                st.mem[(me.base, me.off + 24)] = I(1)
                return [Out('ret', st)]
            raise Unsupported('std::stringstream::' + f)
        loc = find(me)
        v, sp, pp = st.mem[loc], (loc[0], loc[1] + 8), (loc[0], loc[1] + 16)
        if cls == 'ios_base' and f == 'precision':
            old = st.mem[pp]
            if par:
                st.mem[pp] = self.toS(st, vals[1], 64)
            return [Out('ret', st, val=old)]
        if cls == 'ios_base' and f == 'width':
            return [Out('ret', st, val=I(0))]
        def put(kind, x):
            """one more token; unknown when it may run into the one before"""
            v, sep = st.mem[loc], st.mem[sp]
            n, C = v.rows, v.C
            bad = fresh('garbled', Real)
            st.mem[loc] = MatVal(n + 1, v.cols, CLam(2, Real, lambda i, j: ite(i == n, ite(j == 0, ite(sep == 1, kind, R(-1)), ite(sep == 1, x, bad)), C.read(i, j))), 'd', 'stream')
            st.mem[sp] = I(0)
        def chars(t):
            for q, ch in enumerate(t):
                if q and ch not in ' \t\n\r\f\v':     # characters do not run into each other
                    st.mem[sp] = I(1)
                if ch in ' \t\n\r\f\v':
                    st.mem[sp] = I(1)
                else:
                    if ch in '[](){};:=,"i':      # ends a number
                        st.mem[sp] = I(1)
                    put(R(2 + ord(ch)), R(0))
                    st.mem[sp] = I(1) if not (ch.isdigit() or ch in '+-.eE') else I(0)
        if f == 'operator<<':
            x = vals[1] if len(vals) > 1 else None
            if 'char const*' in par:
                if not isinstance(x, Sym):
                    raise Unsupported('text written to a stream')
                if x.name.startswith('text:'):
                    put(R(200), R(0))
                    return [Out('ret', st, val=me)]
                g = re.search(r'c"(.*)\\00"', self.mod.globals.get(x.name, ''))
                if g is None:
                    if 'zeroinitializer' not in self.mod.globals.get(x.name, ''):
                        raise Unsupported('text written to a stream')
                    return [Out('ret', st, val=me)]
                chars(re.sub(r'\\([0-9A-F]{2})', lambda q: chr(int(q.group(1), 16)), g.group(1)))
            elif par.endswith(('_Setw',)):
                pass
            elif par.endswith('_Setprecision'):
                st.mem[pp] = self.toS(st, x, 32)
            elif par.endswith(' char') and isnum(z3.simplify(x)):
                chars(chr(num(z3.simplify(x))))
            elif par.endswith(' char') and z3.is_app_of(z3.simplify(x), z3.Z3_OP_ITE):
                outs = []
                c, a, b = z3.simplify(x).children()
                for g, y in ((c, a), (z3.Not(c), b)):
                    s2 = st.copy()
                    s2.pc.append(g)
                    if not self.entails(s2, z3.BoolVal(False)):
                        outs += self.stream(dm, [me, y] + list(vals[2:]), s2, ins)
                return outs
            elif par in ('double', 'float') and not isnum(st.mem.get((loc[0], loc[1] + 24), I(0))):
                raise Unsupported('a number with or without a sign')
            elif par in ('double', 'float') and num(st.mem.get((loc[0], loc[1] + 24), I(0))):
                st.mem[sp] = I(1)        # the sign keeps it apart
                put(R(203), self.DEC(st.mem[pp], x))
            elif par in ('double', 'float'):
                put(R(1), self.DEC(st.mem[pp], x))
            elif par.endswith('std::complex const&') and isinstance(x, (Ptr, EPtr)):
                y = EPtr(x.loc, x.kind, x.idx, 8) if isinstance(x, EPtr) else Ptr(x.base, x.off + 8)
                put(R(201), self.CDEC(st.mem[pp], *(self.load(st, q, ('f', 'double')) for q in (x, y))))
            elif isinstance(x, Sym) and 'showpos' in x.name:
                st.mem[(loc[0], loc[1] + 24)] = I(0 if 'noshowpos' in x.name else 1)
            elif par in ('int', 'unsigned int', 'long', 'unsigned long'):
                w = 32 if 'int' in par else 64
                put(R(0), self.EI(self.toU(st, x, w) if 'unsigned' in par else self.toS(st, x, w)))
            elif isinstance(x, Sym) and 'endl' in x.name:
                chars('\n')
            elif isinstance(x, Sym) and 'flush' in x.name:
                pass
            else:
                raise Unsupported('stream output of ' + par)
            return [Out('ret', st, val=me)]
        if f == 'put' and isnum(z3.simplify(vals[1])):
            chars(chr(num(z3.simplify(vals[1]))))
            return [Out('ret', st, val=me)]
        if f == 'flush':
            return [Out('ret', st, val=me)]
        if f == 'operator>>':
            p, C = st.mem[sp], v.C
            kind, x = C.read(p, I(0)), C.read(p, I(1))
            self.ob('stream', 'something is left to read', st, z3.And(p >= 0, p < v.rows))
            par = par.split(', ')[-1] if cls == '' else par
            if par == 'char&':
                self.ob('stream', 'a character is read where one was written', st, z3.And(kind >= 2, kind < 130))
                c = z3.simplify(z3.ToInt(kind) - 2)
                self.store(st, vals[1], c, ('i', 8))
            elif par in ('double&', 'float&'):
                self.ob('stream', 'a number is read where one was written', st, z3.Or(kind == 0, kind == 1))
                self.store(st, vals[1], x, ('f', 'double'))
            elif par in ('int&', 'unsigned long&'):
                self.ob('stream', 'an integer is read where one was written', st, kind == 0)
                self.store(st, vals[1], self.IV(x), ('i', 32 if par == 'int&' else 64))
                lo, hi = (-(1 << 31), 1 << 31) if par == 'int&' else (0, W64)
                self.ob('stream', 'the integer read is in range', st, z3.And(self.IV(x) >= lo, self.IV(x) < hi))
            else:
                raise Unsupported('stream input of ' + par)
            st.mem[sp] = p + 1
            return [Out('ret', st, val=me)]
        raise Unsupported('stream operation ' + f)

    def intrinsic(self, fr, sym, ins, env, st):
        def val(i):
            t, v, at = ins.args[i]
            return self.val(v, t, env, st)
        if sym.startswith('llvm.lifetime') or sym.startswith('llvm.dbg') or sym.startswith('llvm.assume') or sym.startswith('llvm.experimental.noalias'):
            return [Out('ret', st)]
        if sym.startswith('llvm.fabs'):
            return [Out('ret', st, val=fabs_(val(0)))]
        if sym == 'llvm.abs.i32':
            x = self.toS(st, val(0), 32)
            g = x > -(1 << 31)
            self.ob('overflow', 'the absolute value of an int is an int', st, g, inst=self.read_inst(st, g))
            st.pc.append(g)
            return [Out('ret', st, val=z3.If(x < 0, -x, x))]
        if sym.startswith('llvm.memcpy') or sym.startswith('llvm.memmove'):
            d, s, n = val(0), val(1), val(2)
            def elem(p):
                return EPtr(p.loc, 'v', (I(0),)) if isinstance(p, Ptr) and isinstance(st.mem.get(p.loc), BlkVal) else p
            d, s = elem(d), elem(s)
            if (isinstance(d, EPtr) or isinstance(s, EPtr)) and isnum(n) and num(n) == 16:      # one complex number
                xs = []
                for k in (0, 8):
                    q = EPtr(s.loc, s.kind, s.idx, k) if isinstance(s, EPtr) else Ptr(s.base, s.off + k)
                    if isinstance(q, EPtr) and self.part(st, q) is None:
                        raise Unsupported('memcpy')
                    xs.append(self.load(st, q, ('f', 'double')))
                if not all(is_real(x) for x in xs):
                    raise Unsupported('memcpy')
                if isinstance(d, EPtr):
                    if self.part(st, d) != 0:
                        raise Unsupported('memcpy')
                    self.store(st, d, tuple(xs), None)
                else:
                    for k, x in zip((0, 8), xs):
                        self.store(st, Ptr(d.base, d.off + k), x, ('f', 'double'))
                return [Out('ret', st)]
            if isinstance(d, Ptr) and isinstance(s, Ptr) and isnum(n):
                for (b, o), v in list(st.mem.items()):
                    if b == s.base and s.off <= o < s.off + num(n):
                        if isinstance(v, (MatVal, VecVal, BlkVal)):
                            raise Unsupported('memcpy of an object')
                        st.mem[(d.base, d.off + o - s.off)] = v
                return [Out('ret', st)]
            raise Unsupported('memcpy')
        if sym.startswith('llvm.memset'):
            d, n = val(0), val(2)
            if not isinstance(d, Ptr) or not isnum(n):
                raise Unsupported('memset')
            for (b, o), v in list(st.mem.items()):       # the range counts as unset: reading it is not supported
                if b == d.base and d.off <= o < d.off + num(n):
                    if isinstance(v, (MatVal, VecVal, BlkVal)):
                        raise Unsupported('memset of an object')
                    del st.mem[(b, o)]
            return [Out('ret', st)]
        if sym.startswith('llvm.expect'):
            return [Out('ret', st, val=val(0))]
        m = re.match(r'llvm\.(sqrt|exp|log|pow|floor|ceil|fmuladd)\.', sym)
        if m:
            if m.group(1) == 'fmuladd':
                return [Out('ret', st, val=fadd(fmul(val(0), val(1)), val(2)))]
            return [Out('ret', st, val=self.mathfn(m.group(1), [val(i) for i in range(len(ins.args))]))]
        if sym.startswith('llvm.umin'):
            a, b = self.toU(st, val(0), 64), self.toU(st, val(1), 64)
            return [Out('ret', st, val=zmin(a, b))]
        if sym.startswith('llvm.umax'):
            a, b = self.toU(st, val(0), 64), self.toU(st, val(1), 64)
            return [Out('ret', st, val=zmax(a, b))]
        if sym.startswith('llvm.is.constant'):
            return [Out('ret', st, val=z3.BoolVal(False))]
        raise Unsupported('intrinsic ' + sym)

    def mathfn(self, name, a):
        self.trusted.add('std::%s is a deterministic function of its arguments' % name)
        return mathuf(name, len(a))(*a)

    def builtin(self, sym, vals, st, ins):
        if sym in ('__cxa_allocate_exception',):
            return [Out('ret', st, val=Ptr('exc%d' % next(self.cnt), 0))]
        if sym == '__cxa_throw':
            t = vals[1].name if isinstance(vals[1], Sym) else '?'
            return [Out('throw', st, val=t)]
        if re.match(r'_ZNSt(13runtime_error|16invalid_argument|12out_of_range|11logic_error|12length_error|12domain_error)[CD][12]E', sym):
            return [Out('ret', st)]
        if sym == '__assert_fail':
            self.ob('assert', 'assertion holds', st, z3.BoolVal(False))
            return []
        if sym == 'exit':
            return [Out('process-exit', st, val=vals[0])]
        if sym in ('abort', '_ZSt9terminatev', '__clang_call_terminate'):
            self.ob('abort', 'the process does not abort', st, z3.BoolVal(False))
            return []
        if sym == 'free':
            p = vals[0]
            if p is NULL:
                return [Out('ret', st)]
            if isinstance(p, Ptr):
                p = EPtr(p.loc, 'v', (I(0),))
            if isinstance(p, EPtr):
                blk = st.mem.get(p.loc)
                if isinstance(blk, BlkVal) and blk.heap:
                    self.ob('memory', 'freed pointer is the start of its block', st, p.idx[0] == 0)
                    del st.mem[p.loc]
                    return [Out('ret', st)]
            self.ob('memory', 'free of a live heap block', st, z3.BoolVal(False))
            return []
        if sym in ('realloc', 'malloc', 'calloc'):
            if sym == 'realloc':
                p, n = vals[0], vals[1]
            elif sym == 'malloc':
                p, n = NULL, vals[0]
            else:
                raise Unsupported('calloc')
            n = self.toU(st, n, 64)
            elt = 'd'
            for fs in reversed(self.symstack):
                mm = re.search(r'VectorI([a-z])E', fs)
                if mm:
                    elt = {'d': 'd', 'b': 'b', 'i': 'i', 'm': 'z', 'f': 'f'}.get(mm.group(1))
                    if elt is None:
                        raise Unsupported('allocation of elements of type ' + mm.group(1))
                    break
                if 'VectorISt7complexIdE' in fs:
                    elt = 'c'
                    break
                if re.search(r'VectorI', fs):
                    raise Unsupported('allocation of elements of a class type')
            cnt = None
            if isnum(n):
                cnt = I(num(n) // ESIZE[elt])
            else:
                s = n
                if z3.is_mul(s) and s.num_args() == 2:
                    for u, v in ((s.arg(0), s.arg(1)), (s.arg(1), s.arg(0))):
                        if isnum(u) and num(u) == ESIZE[elt]:
                            cnt = v
            if ESIZE[elt] == 1:
                cnt = n
            if cnt is None:
                cnt = n / ESIZE[elt]
            new = BlkVal(cnt, CUF('fresh', 1, ELT[elt]), elt, True)
            self.trusted.add('realloc/malloc succeed')
            if p is not NULL:
                if isinstance(p, Ptr):
                    p = EPtr(p.loc, 'v', (I(0),))
                blk = st.mem.get(p.loc) if isinstance(p, EPtr) else None
                if not (isinstance(blk, BlkVal) and blk.heap):
                    self.ob('memory', 'realloc of a live heap block', st, z3.BoolVal(False))
                    return []
                self.ob('memory', 'reallocated pointer is the start of its block', st, p.idx[0] == 0)
                old, osz, fr = blk.C, blk.size, new.C
                new.C = CLam(1, old.sort, lambda i: z3.If(i < osz, old.read(i), fr.read(i)))
                del st.mem[p.loc]
            self.ob('memory', 'allocation is not of zero bytes', st, cnt > 0)
            bb = 'heap%d' % next(self.cnt)
            st.mem[(bb, 0)] = new
            return [Out('ret', st, val=EPtr((bb, 0), 'v', (I(0),)))]
        if re.match(r'_ZNSt13random_device[CD][12]Ev$|_ZNSt23mersenne_twister_engine\w+C[12]Em$', sym):
            return [Out('ret', st)]
        if sym == '_ZNSt13random_deviceclEv':
            v = fresh('seed')
            st.add(z3.And(v >= 0, v < 2**32))
            return [Out('ret', st, val=v)]
        m = re.match(r'_ZNSt(25uniform_real|24uniform_int)_distributionI([dfi])EclISt23mersenne_twister_engine', sym)
        if m:
            self.trusted.add('the std::uniform distributions return numbers between their limits')
            p, t = vals[0], {'d': ('f', 'double'), 'f': ('f', 'float'), 'i': ('i', 32)}[m.group(2)]
            a, b = (self.load(st, Ptr(p.base, p.off + k), t) for k in (0, {'d': 8}.get(m.group(2), 4)))
            if t[0] == 'i':
                a, b = self.toS(st, a, 32), self.toS(st, b, 32)
            self.ob('pre', 'the limits of the distribution are in order', st, a <= b)
            v = fresh('rnd', Int if t[0] == 'i' else Real)
            st.add(z3.And(a <= v, v <= b))
            return [Out('ret', st, val=v)]
        dm = demangle(sym)
        r = self.stdvec(dm, vals, st, ins) if 'std::vector<' in dm else None
        if r is not None:
            return r
        r = self.stream(dm, vals, st, ins) if 'std::' in dm else None
        if r is not None:
            return r
        m = re.match(r'(?:\w+(?: long| int)? ?const& |.*\b)?std::(min|max)<(unsigned long|double|int|unsigned int|long)>\(', dm)
        if m and len(vals) == 2 and ins.ty[0] == 'ptr':
            t = ('f', 'double') if m.group(2) == 'double' else ('i', 32 if 'int' in m.group(2) else 64)
            a, b = self.load(st, vals[0], t), self.load(st, vals[1], t)
            if t[0] == 'i':
                f = self.toU if 'unsigned' in m.group(2) else self.toS
                a, b = f(st, a, t[1]), f(st, b, t[1])
            p = Ptr('mm%d' % next(self.cnt), 0)
            st.mem[p.loc] = zmin(a, b) if m.group(1) == 'min' else zmax(a, b)
            return [Out('ret', st, val=p)]
        if sym == '__divdc3':
            self.trusted.add('__divdc3 is the quotient of complex numbers')
            return [Out('ret', st, val=tuple(f(*vals) for f in CDIV))]
        if sym == '__muldc3':
            x = cmul(CX(vals[0], vals[1]), CX(vals[2], vals[3]))
            return [Out('ret', st, val=(RE(x), IM(x)))]
        if sym == 'cabs':
            return [Out('ret', st, val=self.mathfn('hypot', vals))]
        if sym in ('vx_cf1', 'vx_cf2'):      # the user's function on complex numbers
            return [Out('ret', st, val=tuple(mathuf(sym + k, len(vals))(*vals) for k in ('_re', '_im')))]
        if sym in ('vx_uf1', 'vx_uf2'):      # the user's function: any deterministic function of its arguments
            return [Out('ret', st, val=mathuf(sym, len(vals))(*vals))]
        m = re.match(r'(sqrt|exp|pow|log|copysign|floor|ceil|log2)f?$', sym)
        if m:
            return [Out('ret', st, val=self.mathfn(m.group(1), vals))]
        m = re.match(r'(?:std::)?(abs|fabs)\(', dm)
        if m and not self.mod.defined(sym):
            return [Out('ret', st, val=fabs_(vals[0]))]
        if re.match(r'(std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<|std::ostream::operator<<|std::ostream::_M_insert|std::basic_ostream<char.*>::operator<<)', dm) and not self.mod.defined(sym):
            self.trusted.add('writing a message to std::cerr has no effect on the matrices')
            return [Out('ret', st, val=vals[0])]
        if 'std::operator<< <std::char_traits<char>' in dm:
            self.trusted.add('writing a message to std::cerr has no effect on the matrices')
            return [Out('ret', st, val=vals[0])]
        return None
