"""Contracts: one specification per function, used to verify its body and at every call of it."""
import re, itertools, time
import z3
from ir import Unsupported, demangle
from core import *
from exec import *
from loops import LoopExec

SORT = {'c': Cx, 'd': Real, 'f': Real, 'i': Int, 'b': Int, 'z': Int}

class MatSpec:
    def __init__(self, rows, cols, fn, elt='d'):
        self.rows, self.cols, self.fn, self.elt = toi(rows), toi(cols), fn, elt
    def value(self):
        return MatVal(self.rows, self.cols, CLam(2, SORT[self.elt], self.fn), self.elt, 'Matrix')
class AnySpec:
    """a matrix (two dims) or vector (one) whose elements all satisfy P; nothing else is said of them"""
    def __init__(self, dims, P, elt='d'):
        self.dims, self.P, self.elt = [toi(d) for d in dims], P, elt
    def value(self):
        C = CUF('any', len(self.dims), SORT[self.elt])
        return MatVal(*self.dims, C, self.elt, 'Matrix') if len(self.dims) == 2 else VecVal(self.dims[0], C, self.elt)
class SomeSpec:
    """fn(n) for some n >= 0: one of the numbers at hand where it is checked; to a caller it is dflt, a function of the operands"""
    def __init__(self, fn, dflt):
        self.fn, self.dflt = fn, dflt
def ilelem(ex, st, p, i, el):
    ld = lambda off, t: ex.load(st, Ptr(p.base, p.off + off), t)
    if el == 'c':
        return CX(ld(16 * i, ('f', 'double')), ld(16 * i + 8, ('f', 'double')))
    return ex.toS(st, ld(4 * i, ('i', 32)), 32) if el == 'i' else ld(8 * i, ('f', 'double'))
class ListSpec:
    """std::vector of Vectors of length dim"""
    def __init__(self, size, dim, fn):
        self.size, self.dim, self.fn = toi(size), toi(dim), fn
    def value(self):
        return MatVal(self.size, self.dim, CLam(2, Real, self.fn), 'd', 'list')
class VecSpec:
    def __init__(self, size, fn, elt='d', std=False):
        self.size, self.fn, self.elt, self.std = toi(size), fn, elt, std
    def value(self):
        return VecVal(self.size, CLam(1, SORT[self.elt], self.fn), self.elt, self.std)
class ViewSpec:
    def __init__(self, tgt, rs, re, cs, ce):
        self.a = (tgt, rs, re, cs, ce)
class CofSpec:
    def __init__(self, tgt, p, q):
        self.a = (tgt, p, q)
class Gone:
    pass
class RefSpec:
    def __init__(self, name):
        self.name = name
class CellSpec:
    def __init__(self, name, idx):
        self.name, self.idx = name, tuple(toi(x) for x in idx)
class AllSpec:
    """bool result: true iff P holds for every index below dims"""
    def __init__(self, dims, P, neg=False, guard=None):
        self.dims, self.P, self.neg = [toi(d) for d in dims], P, neg
        self.guard = guard if guard is not None else z3.BoolVal(True)      # true iff guard and P everywhere
class TupSpec:
    """aggregate in memory: list of (byte offset, spec)"""
    def __init__(self, parts):
        self.parts = parts
class RegSpec:
    """aggregate in registers"""
    def __init__(self, parts):
        self.parts = parts

def toi(x):
    return I(x) if isinstance(x, int) else x

def ob_state(o):
    s = State()
    s.pc, s.q = list(o.pc), list(o.q)
    return s

class K:
    """contract context"""
    def __init__(self, c, mode, st, objs):
        self.c, self.mode, self.st = c, mode, st
        self.objs = objs
        for k, v in objs.items():
            setattr(self, k, v)
        self.req, self.thr, self.ext, self.outs, self.ens, self.alls = [], [], [], {}, [], []
        self.rets = None
        self.reqall = []
        self.defs, self.defqs, self.insts, self.inducts = [], [], [], []
        # hints for the loop rule (never assumed, always checked)
        self.goals, self.accs, self.acc_consts, self.realcands, self.preds, self.regions = [], [], [], [], [], []
        self.phicands, self.phicands_outer, self.bounds, self.dims, self.points, self.shifts = [], [], [], [], [], []
        self.accshifts = [0]
        self.swaps = False
        self.flagspec = None         # what a flag accumulates, if it is not the result
        self.statecands_c = []        # the same with a complex number (two adjacent parts)
        self.snap, self.statecands, self.matpreds, self.cellpreds = False, [], [], []
        self.lemmas = lambda st, g: ([], [])     # instances of lemmas proved in lean/Lemmas.lean, for the terms of a goal
        self.no_termination = self.maythrow = self.fieldfacts = self.intrange = False
        self.entrycands = []          # facts about a real variable, its value before the loop and counters
        self.measure = None           # what decreases when the function calls itself
        self.flagw = None             # an element that decides an answer accumulated in a flag
        self.foldext = False          # equality of folds and polynomial identities during the invariant search
        self.vars = []
        for v in objs.values():
            if isinstance(v, MatVal):
                self.dims.append(v.cols)
            if is_int(v):
                self.points.append(v)
    def requires(self, f):
        self.req.append(f)
    def requires_all(self, dims, P):
        self.reqall.append(([toi(d) for d in dims], P))
    def define(self, f):
        """fact about ghost symbols of this contract (a conservative definition: see note at its use)"""
        self.defs.append(f)
    def define_all(self, nd, fn):
        self.defqs.append(QFact(nd, fn))
    def ghost(self, name, sort=Int):
        return fresh('g_' + name, sort)
    def throws(self, f):
        self.thr.append(f)
    def induct(self, label, nkeys, fn):
        """lemma for all n >= 0 and all keys, proved by induction on n; then available as a fact"""
        self.inducts.append((label, nkeys, fn))
    def exits(self, f):
        self.ext.append(f)
    def mat(self, rows, cols, fn, elt='d', goal=True):
        if not isinstance(cols, int) and not any(cols.eq(d) for d in self.dims):
            self.dims.append(cols)
        if goal:
            self.goals.append(('g%d' % len(self.goals), 2, fn))
        return MatSpec(rows, cols, fn, elt)
    def vec(self, size, fn, elt='d', goal=True, std=False):
        if goal:
            self.goals.append(('g%d' % len(self.goals), 1, fn))
        return VecSpec(size, fn, elt, std)
    def goal(self, nd, fn):
        self.goals.append(('g%d' % len(self.goals), nd, fn))
    def ret(self, s):
        self.rets = s
    def out(self, name, s):
        self.outs[name] = s
    def ensures(self, label, fn):
        self.ens.append((label, fn))
    def ensures_all(self, label, dims, fn):
        """fn(ret, *idx) for all idx below dims"""
        self.alls.append((label, [toi(d) for d in dims], fn))
    def ret_all(self, dims, P, guard=None):
        self.rets = AllSpec(dims, P, guard=guard)
        self.preds.append(('P%d' % len(self.preds), len(dims), self.rets.dims, P, 0))
    def ret_any(self, dims, P):
        self.rets = AllSpec(dims, lambda *i: z3.Not(P(*i)), True)
        self.preds.append(('P%d' % len(self.preds), len(dims), self.rets.dims, self.rets.P, 0))
    def pred(self, dims, P, nphi=0):
        self.preds.append(('P%d' % len(self.preds), len(dims), [toi(d) for d in dims], P, nphi))
    def fold(self, nkeys, base, step, acc=True, name='fold', sort=Real):
        f = Fold(nkeys, base, step, sort, name=name)
        if acc:
            self.accs.append((name + str(len(self.accs)), nkeys, f))
            if sort == Cx:
                for nm, part in (('re', RE), ('im', IM)):
                    self.accs.append((nm + name + str(len(self.accs)), nkeys, lambda *a, part=part: part(f(*a))))
        return f
    def acc(self, nkeys, f, name='acc'):
        self.accs.append((name + str(len(self.accs)), nkeys, f))
    def region(self, name, nphi, f, rx=None):
        self.regions.append((name, rx, nphi, f))

class Contract:
    def __init__(self, name, code, params, spec, props=(), alias=(), trusted=None, poly=False, timeout=None, note='', uses=(), last=True, cost=1, pre='', client=False):
        # code: C++ text of the wrapper(s) instantiating the function, '$' is the wrapper's name
        self.code = [code] if isinstance(code, str) else list(code)
        self.pre, self.client = pre, client           # client: the text itself is proved, over the contracts of what it calls
        self.name, self.spec, self.props = name, spec, tuple(props.split() if isinstance(props, str) else props)
        self.via = ['vx_%s%s' % (name, '_%d' % i if i else '') for i in range(len(self.code))]
        self.uses = list(uses.split() if isinstance(uses, str) else uses)
        self.last = last
        self.params = [tuple(p.split(':')) for p in params.split()]
        self.alias, self.trusted, self.poly = list(alias), trusted, poly
        self.sym = {}
        self.timeout = timeout
        self.note = note
        self.cost = cost

    # -------------------------------------------------- parameters as abstract values
    def bind(self, ex, st, vals, sret):
        """abstract values of the arguments at a call"""
        objs, locs = {}, {}
        vs = vals[1:] if sret else vals
        j = 0
        for name, kind in self.params:
            v = vs[j]
            k, _, elt = kind.partition('.')
            if k in ('mat', 'Mat', 'vec', 'sv', 'list', 'stream', 'view', 'cof'):
                if isinstance(v, EPtr):
                    raise Unsupported('object reference expected')
                if v is NULL or not isinstance(v, Ptr):
                    raise Unsupported('object reference expected, got %r' % (v,))
                o = ex.obj(st, v.loc, True)
                if k in ('mat',) and not isinstance(o, MatVal):
                    o = ex.absmat(st, v.loc)
                if k == 'Mat' and not isinstance(o, MatVal):
                    raise Unsupported('matrix expected')
                if k in ('view', 'cof') and isinstance(o, ViewVal if k == 'view' else CofVal):
                    t = 'T2' if 'T' in locs else 'T'
                    locs[t], objs[t] = o.tgt, ex.absmat(st, o.tgt)
                    a = ex.absmat(st, v.loc)
                    a.raw = o
                    o = a
                elif k in ('view', 'cof'):
                    raise Unsupported('view expected')
                if o is None:
                    raise Unsupported('object expected at %s for %s.%s' % (v.loc, self.name, name))
                objs[name], locs[name] = o, v.loc
                if k == 'stream':
                    o = objs[name] = o.withC(o.C)
                    o.at, o.precision = st.mem[(v.base, v.off + 8)], st.mem[(v.base, v.off + 16)]
            elif k in ('sys', 'css'):  # StateSpace<double>: A, B, C, D; DiscreteStateSpace<double> also has sample_time
                for i, f in enumerate('ABCD'):
                    o = ex.obj(st, (v.base, v.off + 40 * i), True)
                    if not isinstance(o, MatVal):
                        raise Unsupported('state space expected')
                    objs[f], locs[f] = o, (v.base, v.off + 40 * i)
                if k == 'sys':
                    t = [ex.load(st, Ptr(v.base, v.off + o), ('f', 'double')) for o in ((160, 168) if elt == 'c' else (160,))]
                    objs['sample_time'] = CX(*t) if elt == 'c' else t[0]
            elif k in ('new', 'del', 'obj'):
                locs[name] = v.loc
                if k == 'del' and elt[:1] == 'M' and not isinstance(st.mem.get(v.loc), MatVal):
                    # a matrix about to be destroyed only needs a valid storage vector
                    b, o = v.loc
                    if not isinstance(ex.obj(st, (b, o + 24)), VecVal):
                        raise Unsupported('destruction of an unknown object')
                    for d in (8, 16, 24):
                        st.mem.pop((b, o + d), None)
                elif k in ('del', 'obj'):
                    objs[name] = ex.obj(st, v.loc, True)
            elif k == 'ptr':
                objs[name] = v
                if isinstance(v, Ptr):
                    locs[name] = v.loc
            elif k == 'D':
                objs[name] = ex.load(st, v, ('f', 'double'))
            elif k == 'x':            # std::complex<double> by value: two registers
                objs[name] = CX(v, vs[j + 1])
                j += 1
            elif k == 'X':
                if not isinstance(v, (Ptr, EPtr)):
                    raise Unsupported('complex number expected')
                if isinstance(v, EPtr) and ex.part(st, v) != 0:
                    raise Unsupported('complex number expected')
                objs[name] = CX(*[ex.load(st, EPtr(v.loc, v.kind, v.idx, o) if isinstance(v, EPtr) else Ptr(v.base, v.off + o), ('f', 'double')) for o in (0, 8)])
            elif k == 'B':
                objs[name] = ex.toU(st, ex.load(st, v, ('i', 8)), 8)
            elif k == 'N':
                objs[name] = ex.toU(st, ex.load(st, v, ('i', 64)), 64)
            elif k == 'n':
                objs[name] = ex.toU(st, v, 64)
            elif k == 'u':
                objs[name] = ex.toU(st, v, 32)
            elif k == 'i':
                objs[name] = ex.toS(st, v, 32)
            elif k == 'I':
                objs[name] = ex.toS(st, ex.load(st, v, ('i', 32)), 32)
            elif k in ('d', 'b'):
                objs[name] = v
            elif k == 'il':       # const std::initializer_list<double>& / const std::vector<double>&
                objs[name] = self.bind_il(ex, st, v, elt[-1] if elt[-1:] in ('i', 'c') else 'd')
            else:
                raise Unsupported('parameter kind ' + kind)
            j += 1
        return objs, locs

    def apply(self, ex, st, vals, attrs, ins, rec=False):
        sret = bool(attrs) and any('sret' in a for a in attrs)
        objs, locs = self.bind(ex, st, vals, sret)
        k = K(self, 'call', st, objs)
        k.locs = locs
        self.spec(k)
        if rec:
            ex.ob('termination', 'the measure decreases at a recursive call', st, z3.And(k.measure >= 0, k.measure < ex.K.measure))
        for i, f in enumerate(k.req):
            ex.ob('pre', '%s: precondition %d' % (self.name, i), st, f)
        for dims, P in k.reqall:
            sk = tuple(fresh('sk') for _ in dims)
            s2 = st.copy()
            s2.pc += [z3.And(x >= 0, x < d) for x, d in zip(sk, dims)]
            ex.ob('pre', self.name + ': precondition on every element', s2, P(*sk), inst=[sk])
        outs = []
        thr, ext = disj(k.thr), disj(k.ext)
        if k.thr:
            s2 = st.copy()
            s2.add(thr)
            if not ex.infeasible(s2):
                outs.append(Out('throw', s2, val='contract'))
            st.add(z3.Not(thr))
            if ex.infeasible(st):
                return outs
        if k.maythrow:
            outs.append(Out('throw', st.copy(), val='contract'))
        if k.ext:
            s2 = st.copy()
            s2.add(ext)
            if not ex.infeasible(s2):
                outs.append(Out('process-exit', s2))
            st.add(z3.Not(ext))
            if ex.infeasible(st):
                return outs
        val = None
        for f in k.defs:
            st.add(f)
        st.q += k.defqs
        for n, s in k.outs.items():
            self.place(ex, st, locs[n], s, objs, locs)
        if k.rets is not None:
            if sret or any(kind == 'new' for _, kind in self.params):
                loc = vals[0].loc if sret else locs[next(n for n, kind in self.params if kind == 'new')]
                self.place(ex, st, loc, k.rets, objs, locs)
                if not sret and ins.ty[0] == 'ptr':
                    val = Ptr(*loc)
            else:
                val = self.retval(ex, st, k.rets, locs, ins.ty)
        for label, f in k.ens:
            st.add(f(val))
        for label, dims, f in k.alls:
            def q(*idx, val=val, dims=dims, f=f):
                return z3.Implies(z3.And(*[z3.And(i >= 0, i < n) for i, n in zip(idx, dims)]), f(val, *idx))
            st.q.append(QFact(len(dims), q))
        outs.append(Out('ret', st, val=val))
        return outs

    def place(self, ex, st, loc, s, objs, locs):
        if loc[0].startswith('el:'):
            raise Unsupported('write through a reference to an element of a std::vector')
        for d in (8, 16, 24, 32):
            if isinstance(st.mem.get(loc), (VTabC,)):
                st.mem.pop((loc[0], loc[1] + d), None)
        if isinstance(s, (MatSpec, VecSpec, ListSpec)):
            st.mem[loc] = s.value()
        elif isinstance(s, AnySpec):
            v = st.mem[loc] = s.value()
            st.q.append(QFact(len(s.dims), lambda *i, v=v, s=s: z3.Implies(z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(i, s.dims)]), s.P(v.C.read(*i)))))
        elif isinstance(s, SomeSpec):
            self.place(ex, st, loc, s.dflt, objs, locs)
        elif isinstance(s, (MatVal, VecVal)):
            st.mem[loc] = s
        elif isinstance(s, ViewSpec):
            t = s.a[0]
            st.mem[loc] = ViewVal(locs[t] if isinstance(t, str) else t, *s.a[1:])
        elif isinstance(s, CofSpec):
            t = s.a[0]
            st.mem[loc] = CofVal(locs[t] if isinstance(t, str) else t, *s.a[1:])
        elif isinstance(s, Gone) or s is Gone:
            st.mem.pop(loc, None)
        elif isinstance(s, TupSpec):
            for off, p in s.parts:
                if isinstance(p, z3.ExprRef):
                    st.mem[(loc[0], loc[1] + off)] = p
                else:
                    self.place(ex, st, (loc[0], loc[1] + off), p, objs, locs)
        else:
            raise Unsupported('placing %r' % (s,))

    def retval(self, ex, st, s, locs, ty):
        if isinstance(s, RefSpec):
            return Ptr(*locs[s.name])
        if isinstance(s, CellSpec):
            loc = locs[s.name]
            if len(s.idx) == 2:
                return ex.mkcell(st, loc, *s.idx)
            return EPtr(loc, 'v', s.idx)
        if isinstance(s, AllSpec):
            b = fresh('all', Bool)
            ws = [fresh('wit') for _ in s.dims]
            ex.wits.append(tuple(ws))
            dom = [z3.And(w >= 0, w < d) for w, d in zip(ws, s.dims)]
            st.add(z3.Or(b, z3.Not(s.guard), z3.And(*dom, z3.Not(s.P(*ws)))))
            st.add(z3.Implies(b, s.guard))
            def q(*idx):
                return z3.Implies(z3.And(b, *[z3.And(i >= 0, i < d) for i, d in zip(idx, s.dims)]), s.P(*idx))
            st.q.append(QFact(len(s.dims), q))
            return z3.Not(b) if s.neg else b
        if isinstance(s, RegSpec):
            return tuple(self.retval(ex, st, p, locs, None) for p in s.parts)
        if isinstance(s, z3.ExprRef):
            return s
        if s == 'real':
            return fresh('ret', Real)
        if s == 'int':
            v = fresh('ret')
            st.pc.append(z3.And(v >= 0, v < W64))
            return v
        if s == 'bool':
            return fresh('ret', Bool)
        raise Unsupported('return value %r' % (s,))

    def bind_il(self, ex, st, v, el):
        p = ex.load(st, v, ('ptr',))
        n = ex.load(st, Ptr(v.base, v.off + 8), ('i', 64))
        if isinstance(p, Ptr) and isinstance(st.mem.get(p.loc), z3.ExprRef) and isnum(n) and num(n) <= 16:
            xs = [ilelem(ex, st, p, i, el) for i in range(num(n))]
            def rd(i):
                r = xs[-1]
                for j in range(len(xs) - 2, -1, -1):
                    r = z3.If(i == j, xs[j], r)
                return r
            return VecVal(n, CLam(1, SORT[el], rd), el)
        if isinstance(p, Ptr):
            p = EPtr(p.loc, 'v', (I(0),))
        if p is NULL:
            return VecVal(I(0), CLam(1, SORT[el], lambda i: CX(R(0), R(0)) if el == 'c' else SORT[el].cast(0)), el)
        if isinstance(n, EPtr):      # std::vector: _M_start, _M_finish
            n = n.idx[0] - p.idx[0]
        C, i0 = ex.elem_obj(st, p.loc)[1].C, p.idx[0]
        return VecVal(n, CLam(1, C.sort, lambda i: C.read(i0 + i)), el)

    # -------------------------------------------------- verification of the body
    def setup(self, ex, st, fn, alias):
        objs, locs, vals, init = {}, {}, [], {}
        ps = list(fn.params)
        sret = bool(ps) and 'sret' in ps[0][2]
        if sret:
            vals.append(Ptr('ret', 0))
            locs['ret'] = ('ret', 0)
        names = dict()
        for name, kind in self.params:
            k, _, elt = kind.partition('.')
            elt = elt or 'd'
            if alias and name == alias[1]:
                a = alias[0]
                vals.append(Ptr(*locs[a]))
                objs[name], locs[name] = objs[a], locs[a]
                continue
            if k in ('sys', 'css'):
                for i, f in enumerate('ABCD'):
                    r, c = z3.Int(f + '.rows'), z3.Int(f + '.cols')
                    st.pc += [r >= 0, c >= 0, r <= MAXDIM, c <= MAXDIM]
                    locs[f] = (name, 40 * i)
                    objs[f] = init[f] = st.mem[locs[f]] = MatVal(r, c, CUF(f, 2, SORT[elt]), elt, 'Matrix')
                if k == 'sys':
                    objs['sample_time'] = init['sample_time'] = z3.Const('sample_time', SORT[elt])
                    locs['sample_time'] = (name, 160)
                    if elt == 'c':
                        st.mem[(name, 160)], st.mem[(name, 168)] = RE(objs['sample_time']), IM(objs['sample_time'])
                    else:
                        st.mem[(name, 160)] = objs['sample_time']
                vals.append(Ptr(name, 0))
                continue
            if k in ('mat', 'Mat'):
                r, c = z3.Int(name + '.rows'), z3.Int(name + '.cols')
                st.pc += [r >= 0, c >= 0, r <= MAXDIM, c <= MAXDIM]
                o = MatVal(r, c, CUF(name, 2, SORT[elt]), elt, 'MatrixBase' if k == 'mat' else 'Matrix')
            elif k in ('vec', 'sv'):
                n = z3.Int(name + '.size')
                st.pc += [n >= 0, n <= MAXLEN]
                o = VecVal(n, CUF(name, 1, SORT[elt]), elt, k == 'sv')
            elif k == 'list':
                n, d = z3.Int(name + '.size'), z3.Int(name + '.dim')
                st.pc += [n >= 0, n <= MAXLEN, d >= 0, d <= MAXLEN]
                o = MatVal(n, d, CUF(name, 2, Real), 'd', 'list')
            elif k == 'stream':
                n = z3.Int(name + '.tokens')
                st.pc += [n >= 0, n < MAXLEN]
                o = MatVal(n, I(2), CUF(name, 2, Real), 'd', 'stream')
                o.at, o.precision = z3.Int(name + '.at'), z3.Int(name + '.precision')
                st.mem[(name, 8)], st.mem[(name, 16)] = o.at, o.precision
                st.pc += [o.at >= 0, o.at <= n, o.precision >= 0, o.precision < (1 << 31)]
            elif k in ('d', 'D'):
                o = z3.Real(name)
            elif k in ('x', 'X'):
                o = CX(z3.Real(name + '.re'), z3.Real(name + '.im'))
            elif k in ('n', 'N', 'u', 'i', 'I'):
                o = z3.Int(name)
                bits = {'n': 64, 'N': 64, 'u': 32}.get(k)
                st.pc += [o >= 0, o < (1 << bits)] if bits else [o >= -(1 << 31), o < (1 << 31)]
            elif k == 'b':
                o = z3.Bool(name)
            elif k == 'B':
                o = z3.Int(name)
                st.pc += [o >= 0, o <= 1]
            elif k == 'new':
                o = None
            elif k == 'txt':       # const char *: one piece of text
                o = Sym('text:' + name)
            elif k == 'nil':       # const std::initializer_list<std::initializer_list<double>>&
                n, L = z3.Int(name + '.size'), z3.Function(name + '.len', Int, Int)
                st.pc += [n >= 0, n <= MAXLEN]
                o = RowsVal(n, L, CUF(name, 2, SORT[elt]), elt)
            elif k == 'il':
                n = z3.Int(name + '.size')
                st.pc += [n >= 0, n <= MAXLEN]
                el = elt[-1] if elt[-1] in 'ic' else 'd'
                o = VecVal(n, CUF(name, 1, SORT[el]), el)
            elif k == 'del':
                n = None
                o = self.del_obj(st, name, elt)
            elif k == 'view':
                t = 'T2' if 'T' in locs else 'T'         # a second view looks at another matrix
                x = t[1:]
                tr, tc = z3.Int(t + '.rows'), z3.Int(t + '.cols')
                st.pc += [tr >= 0, tc >= 0, tr <= MAXDIM, tc <= MAXDIM]
                st.mem[(t, 0)] = MatVal(tr, tc, CUF(t, 2, SORT[elt[0]]), elt[0], 'MatrixBase' if elt[1:] else 'Matrix')         # 'dg': a view of any kind of matrix
                rs, re_, cs, ce = z3.Ints(' '.join(n + x for n in ('rs', 're', 'cs', 'ce')))
                st.pc += [rs >= 0, cs >= 0, rs < re_, cs < ce, re_ < W64, ce < W64, rs <= tr, cs <= tc]
                o = ViewVal((t, 0), rs, re_, cs, ce)
                locs[t] = (t, 0)
                objs[t] = st.mem[(t, 0)]
                init[t] = st.mem[(t, 0)]
            elif k == 'cof':
                tr, tc = z3.Int('T.rows'), z3.Int('T.cols')
                st.pc += [tr >= 1, tc >= 1, tr <= MAXDIM, tc <= MAXDIM]
                st.mem[('T', 0)] = MatVal(tr, tc, CUF('T', 2, SORT[elt[0]]), elt[0], 'MatrixBase' if elt[1:] else 'Matrix')         # 'dg': a view of any kind of matrix
                p, q = z3.Ints('exr exc')
                st.pc += [p >= 0, p < tr, q >= 0, q < tc]
                o = CofVal(('T', 0), p, q)
                locs['T'] = ('T', 0)
                objs['T'] = st.mem[('T', 0)]
                init['T'] = st.mem[('T', 0)]
            else:
                raise Unsupported('parameter kind ' + kind)
            if k in ('mat', 'Mat', 'vec', 'sv', 'list', 'stream', 'view', 'cof', 'new', 'del'):
                loc = (name, 0)
                locs[name] = loc
                vals.append(Ptr(*loc))
                if o is not None:
                    st.mem[loc] = o
                    objs[name] = o
                    if k in ('view', 'cof'):
                        objs[name] = ex.absmat(st, loc)
                        objs[name].raw = o
                    if k != 'del':
                        init[name] = o
            elif k == 'x':
                vals += [RE(o), IM(o)]
                objs[name] = o
            elif k == 'X':
                st.mem[(name, 0)], st.mem[(name, 8)] = RE(o), IM(o)
                vals.append(Ptr(name, 0))
                objs[name] = o
            elif k in ('D', 'N', 'I', 'B'):
                st.mem[(name, 0)] = o
                vals.append(Ptr(name, 0))
                objs[name] = o
            elif k == 'nil':
                st.mem[(name + '#', 0)] = o
                st.mem[(name, 0)] = EPtr((name + '#', 0), 'row', (I(0),))
                st.mem[(name, 8)] = o.size
                vals.append(Ptr(name, 0))
                objs[name] = o
            elif k == 'il':
                st.mem[(name + '#', 0)] = BlkVal(o.size, o.C, o.elt, False)
                st.mem[(name, 0)] = EPtr((name + '#', 0), 'v', (I(0),))
                st.mem[(name, 8)] = o.size if elt[0] != 'v' else EPtr((name + '#', 0), 'v', (o.size,))
                vals.append(Ptr(name, 0))
                objs[name] = o
            else:
                vals.append(o)
                objs[name] = o
        return objs, locs, vals, init

    def del_obj(self, st, name, elt):
        n = z3.Int(name + '.size')
        if elt[:1] == 'M':
            e = elt[1:] or 'd'
            r, c = z3.Int(name + '.rows'), z3.Int(name + '.cols')
            st.pc += [r >= 0, c >= 0, r < W64, c < W64, n >= 0, n <= MAXLEN]
            st.mem[(name, 8)], st.mem[(name, 16)] = r, c
            st.mem[(name, 24)] = VecVal(n, CUF(name, 1, SORT[e]), e)
            return VTabC('matrix' if e == 'd' else 'matrix_' + e, 2)
        st.pc += [n >= 0, n <= MAXLEN]
        return VecVal(n, CUF(name, 1, SORT[elt]), elt)

    def verify(self, mod, sym, contracts, cache, log, alias=None, budget=None):
        fn = mod.func(sym)
        if fn is None:
            raise Unsupported('no body for ' + sym)
        POLY[0] = self.poly
        nm = self.name + ('[%s=%s]' % alias if alias else '')
        ex = LoopExec(mod, contracts, nm, cache, log)
        ex.skip_contract = None
        if budget:
            ex.deadline = time.time() + budget
        st = State()
        objs, locs, vals, init = self.setup(ex, st, fn, alias)
        k = K(self, 'verify', st, objs)
        k.locs = locs
        k.alias = alias
        self.spec(k)
        for f in k.req:
            st.add(f)
        for dims, P in k.reqall:
            st.q.append(QFact(len(dims), lambda *idx, dims=dims, P=P: z3.Implies(z3.And(*[z3.And(i >= 0, i < n) for i, n in zip(idx, dims)]), P(*idx))))
        for f in k.defs:
            st.add(f)
        st.q += k.defqs
        for label, nk, f in k.inducts:
            n, keys = fresh('n'), [fresh('k') for _ in range(nk)]
            s2 = st.copy()
            ex.ob('lemma', label + ': base', s2, f(I(0), *keys), inst=[tuple(keys)])
            s2 = s2.copy()
            s2.pc += [n >= 0, f(n, *keys)]
            ex.ob('lemma', label + ': step', s2, f(n + 1, *keys), inst=[tuple(keys), (n,)])
            st.q.append(QFact(nk + 1, lambda n, *keys, f=f: z3.Implies(n >= 0, f(n, *keys))))
        ex.K = k
        # vacuity: the precondition is satisfiable
        if ex.light.query(st.pc, []) == z3.unsat:
            raise Unsupported('contract of %s is vacuous' % self.name)
        st0 = st.copy()
        ex.root = sym
        outs = ex.inline(fn, vals, st)
        thr, ext = disj(k.thr), disj(k.ext)
        nret = 0
        for o in outs:
            s = o.st
            if o.kind == 'throw':
                if not k.maythrow:
                    ex.ob('throw', 'exception only when specified', s, thr)
                self.frame(ex, s, init, locs, 'unchanged when an exception is thrown')
                continue
            if o.kind == 'process-exit':
                ex.ob('exit', 'process exit only when specified', s, ext)
                continue
            nret += 1
            if k.thr:
                ex.ob('throw', 'returns normally only when no exception is specified', s, z3.Not(thr))
            if k.ext:
                ex.ob('exit', 'returns normally only when no process exit is specified', s, z3.Not(ext))
            rv = o.val
            if k.rets is not None and 'ret' not in locs and not any(kind == 'new' for _, kind in self.params):
                self.checkval(ex, s, rv, k.rets, 'result', locs, k)
            keep = {n: v for n, v in init.items() if n not in k.outs}
            if alias:
                for n in k.outs:
                    for m in list(keep):
                        if locs[m] == locs[n]:
                            del keep[m]
            self.frame(ex, s, keep, locs, 'unchanged')
            for n, sp in k.outs.items():
                self.check(ex, s, locs[n], sp, n, objs, locs, k)
            if k.rets is not None:
                if 'ret' in locs:
                    self.check(ex, s, locs['ret'], k.rets, 'result', objs, locs, k)
                elif any(kind == 'new' for _, kind in self.params):
                    self.check(ex, s, locs[next(n for n, kind in self.params if kind == 'new')], k.rets, 'object', objs, locs, k)
            for label, f in k.ens:
                g = f(rv)
                facts, ins = k.lemmas(s, g)
                s2 = s.copy()
                s2.pc += facts
                ex.ob('post', label, s2, g, inst=self.insts(s) + ins)
            for label, dims, f in k.alls:
                sk = tuple(fresh('sk') for _ in dims)
                s2 = s.copy()
                s2.pc += [z3.And(x >= 0, x < d) for x, d in zip(sk, dims)]
                ex.ob('post', label, s2, f(rv, *sk), inst=[sk])
            self.leaks(ex, s)
        if nret == 0 and not k.thr:
            raise Unsupported('no path returns')
        if nret and not any(o.kind == 'ret' and not ex.infeasible(o.st) for o in outs):
            raise Unsupported('every returning path is infeasible')
        POLY[0] = False
        return ex

    def insts(self, s):
        t = s.terms[-4:]
        return [(x,) for x in t] + list(itertools.permutations(t, 2))

    def frame(self, ex, st, init, locs, what):
        for n, v in init.items():
            now = st.mem.get(locs[n])
            if now is v:
                continue
            if isinstance(v, z3.ExprRef) and v.sort() == Cx:
                b, o = locs[n]
                for x, y in ((now, RE(v)), (st.mem.get((b, o + 8)), IM(v))):
                    ex.ob('frame', '%s is %s' % (n, what), st, x == y if isinstance(x, z3.ExprRef) else z3.BoolVal(False))
                continue
            if isinstance(v, z3.ExprRef):
                ex.ob('frame', '%s is %s' % (n, what), st, now == v if isinstance(now, z3.ExprRef) else z3.BoolVal(False))
                continue
            if isinstance(v, (ViewVal, CofVal)):
                if type(now) is type(v):
                    continue
                ex.ob('frame', '%s is %s' % (n, what), st, z3.BoolVal(False))
                continue
            now = ex.obj(st, locs[n])
            if now is v:
                continue
            if now is None:
                ex.ob('frame', '%s is still alive' % n, st, z3.BoolVal(False))
                continue
            self.same(ex, st, now, v, 'frame', '%s is %s' % (n, what))

    def same(self, ex, st, have, want, kind, label):
        if type(have) is not type(want):
            ex.ob(kind, label + ' (object kind)', st, z3.BoolVal(False))
            return
        if isinstance(want, VecVal) and have.std != want.std:
            ex.ob(kind, label + ' (kind of vector)', st, z3.BoolVal(False))
            return
        if have.C.sort != want.C.sort:
            ex.ob(kind, label + ': element type (only empty objects may differ)', st, (have.size == 0) if not isinstance(want, MatVal) else have.rows * have.cols == 0)
            return
        if isinstance(want, MatVal):
            ex.ob(kind, label + ': rows', st, have.rows == want.rows)
            if 'list' in (have.cls, want.cls):
                ex.ob(kind, label + ': length of the elements', st, samedims(have, want))
            else:
                ex.ob(kind, label + ': cols', st, have.cols == want.cols)
            r, c = fresh('r'), fresh('c')
            s2 = st.copy()
            s2.pc += [r >= 0, r < want.rows, c >= 0, c < want.cols]
            ex.ob(kind, label + ': every element', s2, eqv(have.C.read(r, c), want.C.read(r, c)), inst=[(r, c)], wit=('cell', r, c))
        else:
            ex.ob(kind, label + ': size', st, have.size == want.size)
            i = fresh('i')
            s2 = st.copy()
            s2.pc += [i >= 0, i < want.size]
            ex.ob(kind, label + ': every element', s2, eqv(have.C.read(i), want.C.read(i)), inst=[(i,)], wit=('elem', i))

    def check(self, ex, st, loc, sp, label, objs, locs, k):
        if isinstance(sp, (MatSpec, VecSpec, ListSpec, MatVal, VecVal)):
            have = ex.obj(st, loc)
            want = sp.value() if isinstance(sp, (MatSpec, VecSpec, ListSpec)) else sp
            if have is None:
                ex.ob('post', label + ' exists', st, z3.BoolVal(False))
                return
            self.same(ex, st, have, want, 'post', label)
        elif isinstance(sp, SomeSpec):
            cands = []
            for t in reversed(st.terms[-8:]):
                for u in (t, t - 1, t + 1):
                    if not any(z3.simplify(u).eq(z3.simplify(w)) for w in cands):
                        cands.append(u)
            obs = None
            for t in cands or [I(0)]:
                s2 = st.copy()
                n0 = len(ex.obs)
                ex.ob('post', label + ': the number of terms is not negative', s2, t >= 0)
                self.check(ex, s2, loc, sp.fn(t), label, objs, locs, k)
                new, ex.obs[n0:] = ex.obs[n0:], []
                if all(ex.proves(z, o.goal, inst=o.inst) for o, z in zip(new, map(ob_state, new))):
                    ex.obs += new
                    return
                obs = obs or new
            ex.obs += obs
        elif isinstance(sp, AnySpec):
            have = ex.obj(st, loc)
            want = sp.value()
            if have is None or type(have) is not type(want) or have.C.sort != want.C.sort:
                ex.ob('post', label + ' has the right type', st, z3.BoolVal(False))
                return
            s2 = st.copy()
            sk = tuple(fresh('sk') for _ in sp.dims)
            for nm, a, b in zip(('rows', 'cols') if len(sk) == 2 else ('size',), sp.dims, (have.rows, have.cols) if len(sk) == 2 else (have.size,)):
                ex.ob('post', '%s: %s' % (label, nm), st, b == a)
            s2.pc += [z3.And(x >= 0, x < d) for x, d in zip(sk, sp.dims)]
            ex.ob('post', label + ': every element', s2, sp.P(have.C.read(*sk)), inst=[sk], wit=('cell' if len(sk) == 2 else 'elem',) + sk)
        elif sp is Gone or isinstance(sp, Gone):
            # the storage may hold anything, but no heap block may be left (leak check)
            v = st.mem.get(loc)
            if isinstance(v, VTabC) and isinstance(st.mem.get((loc[0], loc[1] + 24)), VecVal):
                v = st.mem[(loc[0], loc[1] + 24)]
            for d in (0, 8, 16, 24, 32):
                st.mem.pop((loc[0], loc[1] + d), None)
            if isinstance(v, (MatVal, VecVal)):
                ex.ob('leak', label + ' is destroyed', st, z3.BoolVal(False))
        elif isinstance(sp, (ViewSpec, CofSpec)):
            have = ex.obj(st, loc)
            t = sp.a[0]
            tl = locs[t] if isinstance(t, str) else t
            fields = ('rs', 're', 'cs', 'ce') if isinstance(sp, ViewSpec) else ('p', 'q')
            cls = ViewVal if isinstance(sp, ViewSpec) else CofVal
            if not isinstance(have, cls) or have.tgt != tl:
                ex.ob('post', label + ' refers to its matrix', st, z3.BoolVal(False))
                return
            for f, w in zip(fields, sp.a[1:]):
                ex.ob('post', '%s.%s' % (label, f), st, getattr(have, f) == w)
        elif isinstance(sp, TupSpec):
            for off, p in sp.parts:
                l2 = (loc[0], loc[1] + off)
                if isinstance(p, z3.ExprRef):
                    v = st.mem.get(l2)
                    if v is None or not isinstance(v, z3.ExprRef):
                        ex.ob('post', '%s+%d is set' % (label, off), st, z3.BoolVal(False))
                    else:
                        ex.ob('post', '%s+%d' % (label, off), st, v == p)
                else:
                    self.check(ex, st, l2, p, '%s+%d' % (label, off), objs, locs, k)
        else:
            raise Unsupported('checking %r' % (sp,))

    def checkval(self, ex, st, rv, sp, label, locs, k):
        if isinstance(sp, RefSpec):
            ok = isinstance(rv, Ptr) and rv.loc == locs[sp.name]
            ex.ob('post', 'returns a reference to ' + sp.name, st, z3.BoolVal(ok))
        elif isinstance(sp, CellSpec):
            want = ex.mkcell(st, locs[sp.name], *sp.idx) if len(sp.idx) == 2 else EPtr(locs[sp.name], 'v', sp.idx)
            if not isinstance(rv, EPtr):
                ex.ob('post', 'returns the element', st, z3.BoolVal(False))
                return
            if rv.loc == want.loc:
                ex.ob('post', 'returns the element', st, z3.And(*[a == b for a, b in zip(rv.idx, want.idx)]))
            elif want.kind == 'rc' and rv.kind == 'v' and rv.loc == (want.loc[0], want.loc[1] + 24):
                cols = ex.toU(st, st.mem[(want.loc[0], want.loc[1] + 16)], 64)
                ex.ob('post', 'returns the row-major element', st, rv.idx[0] == lin(want.idx[0], want.idx[1], cols))
            elif rv.kind == 'v' and want.kind == 'v' and ex.elem_obj(st, want.loc)[0] == ex.elem_obj(st, rv.loc)[0]:
                ex.ob('post', 'returns the element', st, rv.idx[0] == want.idx[0])
            else:
                ex.ob('post', 'returns the element', st, z3.BoolVal(False))
        elif isinstance(sp, AllSpec):
            b = z3.Not(rv) if sp.neg else rv
            sk = tuple(fresh('sk') for _ in sp.dims)
            s2 = st.copy()
            s2.pc += [z3.And(x >= 0, x < d) for x, d in zip(sk, sp.dims)]
            s2.add(b)
            inst = [sk] + ([(sk[1], sk[0])] if len(sk) == 2 else [])
            if not z3.is_true(sp.guard):
                s4 = st.copy()
                s4.add(b)
                ex.ob('post', 'answers yes only for the right shape', s4, sp.guard)
            ex.ob('post', 'answers yes only when it holds everywhere', s2, sp.P(*sk), inst=inst)
            s3 = st.copy()
            s3.add(z3.Not(b))
            ts = st.terms[-6:] + k.points[:3]
            alts = [z3.Not(sp.guard)]
            for tup in list(itertools.product(ts, repeat=len(sp.dims))) + [w for w in ex.wits[-6:] if len(w) == len(sp.dims)]:
                alts.append(z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(tup, sp.dims)], z3.Not(sp.P(*tup))))
            if k.flagw:
                alts.append(z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(k.flagw, sp.dims)], z3.Not(sp.P(*k.flagw))))
            ex.ob('post', 'answers no only with a counterexample at hand', s3, disj(alts))
        elif isinstance(sp, RegSpec):
            for i, p in enumerate(sp.parts):
                self.checkval(ex, st, rv[i], p, '%s.%d' % (label, i), locs, k)
        elif sp in ('real', 'int', 'bool') if isinstance(sp, str) else False:
            pass
        elif isinstance(sp, z3.ExprRef):
            if not isinstance(rv, z3.ExprRef):
                ex.ob('post', label, st, z3.BoolVal(False))
                return
            if is_int(rv):
                w = getattr(k, 'retbits', 64)
                rv = ex.toS(st, rv, w) if getattr(k, 'ret_signed', False) else ex.toU(st, rv, w)
            ex.ob('post', label, st, rv == sp, inst=self.insts(st))
        else:
            raise Unsupported('checking value %r' % (sp,))

    def leaks(self, ex, st):
        for loc, v in list(st.mem.items()):
            if isinstance(v, BlkVal) and v.heap:
                owned = any(isinstance(w, EPtr) and w.loc == loc for w in st.mem.values())
                if owned:
                    continue
                if v.nullable:
                    ex.ob('leak', 'no heap block is left behind', st, v.size == 0)
                else:
                    ex.ob('leak', 'no heap block is left behind', st, z3.BoolVal(False))

class Registry(dict):
    def __init__(self):
        super().__init__()
        self.slots = {}
        self.byname = {}

ALL = []
def contract(name, code, params, props=(), **kw):
    def deco(f):
        c = Contract(name, code, params, f, props, **kw)
        assert c.name not in [x.name for x in ALL], c.name
        ALL.append(c)
        return f
    return deco

def callee_of(mod, wrapper):
    """the function a wrapper exercises: the first defined, non-destructor call in it"""
    fn = mod.func(wrapper)
    if fn is None:
        raise Unsupported('wrapper %s missing' % wrapper)
    cands = []
    for b in fn.order:
        for ins in fn.blocks[b].insts:
            if ins.op in ('call', 'invoke') and ins.x['callee'][0] == 'g':
                s = ins.x['callee'][1]
                if s.startswith('llvm.') or not mod.defined(s) or canon(s).endswith('D2Ev'):
                    if wrapper.startswith('vx_dtor') and canon(s).endswith('D2Ev'):
                        cands.append(s)
                    continue
                if 'malg' in s or re.match(r'_Z(pl|mi|ml|dv)I', s):          # the operators on complex numbers are global
                    cands.append(s)
    if not cands:
        raise Unsupported('no callee in wrapper ' + wrapper)
    # the last malg call is the function under proof (earlier ones prepare arguments)
    return mod.aliases.get(cands[-1] if not wrapper.endswith('_first') else cands[0], cands[-1] if not wrapper.endswith('_first') else cands[0])

SLOTS = [('vx_slot_rows', 'rows'), ('vx_slot_cols', 'cols'), ('vx_slot_size', 'size'), ('vx_slot_empty', 'empty'),
         ('vx_slot_data', 'data'), ('vx_slot_cdata', 'data_const'),
         ('vx_slot_index', 'index'), ('vx_slot_cindex', 'index_const'), ('vx_slot_call', 'call'), ('vx_slot_ccall', 'call_const'),
         ('vx_slot_at', 'at'), ('vx_slot_cat', 'at_const')]

def registry(mod, contracts=None):
    reg = Registry()
    for w, n in SLOTS:
        fn = mod.func(w)
        if fn is None:
            raise Unsupported('slot wrapper ' + w)
        slot = None
        for b in fn.order:
            for ins in fn.blocks[b].insts:
                if ins.op == 'getelementptr' and ins.ty == ('ptr',):
                    slot = ins.x['idx'][0][1][1]
        if slot is None:
            raise Unsupported('slot of ' + n)
        reg.slots[slot] = n
    for c in contracts if contracts is not None else ALL:
        for w in c.via:
            if not mod.defined(w):
                continue
            s = w if c.client else callee_of(mod, w)
            c.sym[w] = s
            reg[canon(s)] = c
        reg.byname[c.name] = c
    return reg

def discharge(obs, timeout=8000, second=None):
    """proves the pending obligations; returns the failed ones"""
    light, heavy = PathSolver(False, 1500), PathSolver(True, timeout)
    failed = []
    for o in obs:
        if o.status is not None:
            if o.status != 'proved':
                failed.append(o)
            continue
        t = time.time()
        how = prove_ext(light, heavy, o.pc, o.q, o.goal, o.inst)
        ok = how is not None
        o.backend = how or 'z3'
        o.time = time.time() - t
        o.status = 'proved' if ok else 'failed'
        if not ok:
            failed.append(o)
    return failed
