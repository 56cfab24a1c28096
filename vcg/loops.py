"""Loop handling: modified sets, Houdini inference of counter invariants, content summaries, quantified predicates."""
import re, itertools, time
import z3
from ir import Unsupported
from core import *
from exec import *

class Phi:
    def __init__(self, key, entry, bits, ty):
        self.key, self.entry, self.bits, self.ty = key, entry, bits, ty
        self.name = key if isinstance(key, str) else 'mem:%s+%d' % key[1]

def part_of(a, b):
    """a and b hold the real and the imaginary part of one complex variable"""
    if a.startswith('mem:') and b.startswith('mem:'):
        (x, i), (y, j) = a.rsplit('+', 1), b.rsplit('+', 1)
        return x == y and int(j) == int(i) + 8
    return a != b and '.sroa' in a and a.split('.sroa')[0] == b.split('.sroa')[0]

class Refold(Exception):
    def __init__(self, loc):
        self.loc = loc

class LoopExec(Exec):
    p1 = 0
    # ---------------------------------------------------------------- helpers
    def freshlike(self, st, ph, v):
        if v is UNDEF:
            t = ph.ty
            if t[0] == 'i' and t[1] == 1:
                return fresh('phi', Bool)
            if t[0] == 'i':
                x = fresh('phi')
                st.pc.append(z3.And(x >= 0, x < (1 << t[1])))
                return x
            if t[0] == 'f':
                return fresh('phi', Real)
            return UNDEF          # as before the first iteration; a use of it is refused
        if is_int(v):
            x = fresh('phi')
            # a loop whose termination is assumed is assumed to stop before its 64-bit counters wrap, too
            short = ph.bits == 64 and self.K is not None and self.K.no_termination
            st.pc.append(z3.And(x >= 0, x < (1 << (62 if short else ph.bits))))
            return x
        if is_real(v):
            return fresh('phi', Real)
        if is_bool(v):
            return fresh('phi', Bool)
        if isinstance(v, EPtr):
            return EPtr(v.loc, v.kind, tuple(fresh('phip') for _ in v.idx), v.sub)
        if isinstance(v, tuple):
            raise Unsupported('aggregate loop value')
        return v

    def norm_back(self, st, ph, v):
        if is_int(v):
            return self.toU(st, v, ph.bits)
        return v

    def havoc(self, st, loc, v0, v1):
        if isinstance(v0, MatVal):
            ok = isinstance(v1, MatVal) and v1.rows.eq(v0.rows) and v1.cols.eq(v0.cols)
            if ok:
                return v0.withC(CUF('hv', 2, v0.C.sort))
            r, c = fresh('hr'), fresh('hc')
            top = MAXLEN if v0.cls == 'list' else (1 << 62) if v0.cls == 'stream' else MAXDIM
            st.pc.append(z3.And(r >= 0, c >= 0, r <= top, c <= top))
            return MatVal(r, c, CUF('hv', 2, v0.C.sort), v0.elt, v0.cls)
        if isinstance(v0, VecVal):
            ok = isinstance(v1, VecVal) and v1.size.eq(v0.size)
            if ok:
                return v0.withC(CUF('hv', 1, v0.C.sort))
            n = fresh('hn')
            st.pc.append(z3.And(n >= 0, n <= MAXLEN))
            return VecVal(n, CUF("hv", 1, v0.C.sort), v0.elt, v0.std)
        if isinstance(v0, BlkVal):
            b = v0.withC(CUF('hv', 1, v0.C.sort))
            if isinstance(v1, BlkVal) and not v1.size.eq(v0.size):
                raise Unsupported('block resized in a loop')
            return b
        raise Unsupported('modified object of kind %r in a loop' % (v0,))

    def phis_of(self, fr, h, pred, env, st):
        out = []
        for ins in fr.fn.blocks[h].insts:
            if ins.op != 'phi':
                break
            v = next((v for v, b in ins.x['inc'] if b == pred), None)
            if v is None:
                raise Unsupported('loop phi without incoming')
            x = self.val(v, ins.ty, env, st)
            bits = ins.ty[1] if ins.ty[0] == 'i' else 64
            if is_int(x):
                x = self.toU(st, x, bits)
            out.append(Phi(ins.dst, x, bits, ins.ty))
        return out

    def back_vals(self, fr, h, phis, o):
        d = {}
        for ph in phis:
            if isinstance(ph.key, tuple):
                d[ph.key] = self.norm_back(o.st, ph, o.st.mem.get(ph.key[1]))
                continue
            ins = next(i for i in fr.fn.blocks[h].insts if i.dst == ph.key)
            v = next(v for v, b in ins.x['inc'] if b == o.pred)
            d[ph.key] = self.norm_back(o.st, ph, self.val(v, ins.ty, o.env, o.st))
        return d

    def modset(self, fr, h, phis, env, st):
        """locations a loop iteration can change (dry runs until stable); also logs the comparisons"""
        region = fr.fn.loops[h]
        mods = {}
        cmps = []
        mark = next(core._cnt)
        for rnd in range(5):
            s, e = st.copy(), dict(env)
            for ph in phis:
                e[ph.key] = self.freshlike(s, ph, ph.entry)
            for loc, (v0, v1) in mods.items():
                self.put_havoc(s, loc, v0, v1)
            saved, self.cmplog = self.cmplog, []
            self.dry += 1
            self.loopstack.append([])
            mem0 = dict(s.mem)
            p1, self.p1 = self.p1, 0
            try:
                outs = self.run(fr, h, None, e, s, region, h)
                new = {}
                for o in outs:
                    if o.kind != 'back':
                        continue
                    for loc, v0 in mem0.items():
                        v1 = o.st.mem.get(loc)
                        if v1 is not v0:
                            if isinstance(v0, (MatVal, VecVal)) and v1 is not None and type(v1) is not type(v0):
                                v1 = self.obj(o.st, loc)
                                if v1 is v0:
                                    continue
                            if isinstance(v0, EPtr) and isinstance(v1, VecVal):
                                raise Refold(loc)
                            if isinstance(v0, z3.ExprRef) and isinstance(v1, z3.ExprRef) and v0.eq(v1):
                                continue
                            if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.loc == v1.loc:
                                continue
                            if isinstance(v0, EPtr) and isinstance(v1, EPtr) and v0.loc == v1.loc and v0.kind == v1.kind and v0.sub == v1.sub \
                                    and len(v0.idx) == len(v1.idx) and all(a.eq(b) for a, b in zip(v0.idx, v1.idx)):
                                continue
                            if isinstance(v0, BlkVal) and isinstance(v1, BlkVal) and v0.C is v1.C and v0.size.eq(v1.size) \
                                    and v0.heap == v1.heap and v0.nullable == v1.nullable and v0.elt == v1.elt:
                                continue
                            if loc not in mods:
                                new[loc] = (st.mem[loc], v1)
                            else:
                                v00, v11 = mods[loc]
                                if isinstance(v11, MatVal) and isinstance(v1, MatVal) and (v1.rows.eq(v11.rows) != v1.rows.eq(v00.rows)):
                                    pass
            finally:
                self.p1 = p1
                self.loopstack.pop()
                self.dry -= 1
                cmps, self.cmplog = self.cmplog, saved
            if saved is not None:
                saved.extend(cmps)
            if not new:
                break
            mods.update(new)
        else:
            raise Unsupported('modified set does not stabilise')
        return mods, cmps, mark

    def put_havoc(self, s, loc, v0, v1):
        if isinstance(v0, z3.ExprRef):
            b = self.slot_bits.get(loc, 64) if is_int(v0) else 64
            ph = Phi(('mem', loc), v0, b, ('i', b))
            s.mem[loc] = self.freshlike(s, ph, v0)
        elif v1 is None:
            del s.mem[loc]
        elif isinstance(v0, (Ptr, EPtr)) or v0 is NULL:
            if isinstance(v0, EPtr) and isinstance(v1, EPtr) and v0.loc == v1.loc:
                s.mem[loc] = EPtr(v0.loc, v0.kind, tuple(fresh('phip') for _ in v0.idx))
            elif type(v0) is type(v1) or v0 is NULL:
                del s.mem[loc]      # scratch pointer slot, rewritten in every iteration
            else:
                raise Unsupported('pointer slot changes in a loop')
        elif isinstance(v0, (MatVal, VecVal, BlkVal)):
            s.mem[loc] = self.havoc(s, loc, v0, v1)
        elif isinstance(v0, (ViewVal, CofVal)) or v0 is UNDEF:
            del s.mem[loc]
        else:
            raise Unsupported('slot %s changes in a loop' % (loc,))

    def loop(self, fr, h, pred, env, st):
        self.close_all(st)
        for i in range(12):
            st2 = st.copy()
            try:
                return self.loop1(fr, h, pred, env, st2)
            except Refold as e:
                if not isinstance(self.obj(st, e.loc), VecVal):
                    raise Unsupported('pointer slot changes in a loop')
        raise Unsupported('pointer slot changes in a loop')

    def loop1(self, fr, h, pred, env, st):
        phis = self.phis_of(fr, h, pred, env, st)
        if self.dry and self.p1:
            return self.loop_infer(fr, h, phis, env, st, True)
        if self.dry:
            mods, cmps, mark = self.modset(fr, h, phis, env, st)
            s, e = st.copy(), dict(env)
            lf = []
            for ph in phis:
                e[ph.key] = self.freshlike(s, ph, ph.entry)
                lf += self.intterms(e[ph.key])
            for loc, (v0, v1) in mods.items():
                self.put_havoc(s, loc, v0, v1)
            self.loopstack.append([(t, None) for t in lf])
            try:
                outs = self.run(fr, h, None, e, s, fr.fn.loops[h], h)
            finally:
                self.loopstack.pop()
            return [o for o in outs if o.kind != 'back']
        return self.loop_infer(fr, h, phis, env, st)

    def intterms(self, v):
        if is_int(v):
            return [v]
        if isinstance(v, EPtr):
            return list(v.idx)
        return []

    # ---------------------------------------------------------------- the loop rule
    def loop_infer(self, fr, h, phis, env, st, p1only=False):
        region = fr.fn.loops[h]
        lname = '%s/%s' % (self.short(fr.fn.sym), h.strip('%'))
        mods, cmps, mark = self.modset(fr, h, phis, env, st)
        regions, memphis, scratch = [], [], []
        for loc, (v0, v1) in mods.items():
            if isinstance(v0, z3.ExprRef) or isinstance(v0, EPtr) and isinstance(v1, EPtr) and v0.loc == v1.loc and v0.kind == v1.kind:
                b = self.slot_bits.get(loc, 64) if is_int(v0) else 64
                memphis.append(Phi(('mem', loc), self.toU(st, v0, b) if b < 64 else v0, b, ('i', b)))
            elif isinstance(v0, (MatVal, VecVal, BlkVal)) and v1 is not None:
                regions.append((loc, v0, v1))
            else:
                scratch.append((loc, v0, v1))
        allphis = phis + memphis
        self.flag_witness(allphis, st)
        # int slots
        slots = []
        for ph in allphis:
            if is_int(ph.entry) or (ph.entry is UNDEF and ph.ty[0] == 'i' and ph.ty[1] > 1):
                slots.append((ph.name, lambda d, k=ph.key: d[k], ph.entry))
            elif isinstance(ph.entry, EPtr):
                for j in range(len(ph.entry.idx)):
                    slots.append(('%s[%d]' % (ph.name, j), lambda d, k=ph.key, j=j: d[k].idx[j], ph.entry.idx[j]))
        entry = {ph.key: ph.entry for ph in allphis}
        outers = [x for l in self.loopstack for x in l]
        # loop-invariant terms compared in the loop
        X, seen = [], set()
        def addX(t):
            if isnum(t) and num(t) > (1 << 62):
                return
            if t.get_id() not in seen and not any(int(n.rsplit('!', 1)[1]) >= mark for n in consts_of(t) if '!' in n):
                seen.add(t.get_id())
                X.append(t)
        for a, b in cmps:
            addX(a)
            addX(b)
        if self.K is not None:
            for t in self.K.bounds:
                addX(t)
        X = X[:14]

        def build(surv, summaries=None, accs=(), qs=(), scs=()):
            s, e, vals = st.copy(), dict(env), {}
            for ph in allphis:
                v = self.freshlike(s, ph, ph.entry)
                vals[ph.key] = v
                if isinstance(ph.key, tuple):
                    s.mem[ph.key[1]] = v
                else:
                    e[ph.key] = v
            for loc, v0, v1 in scratch:
                self.put_havoc(s, loc, v0, v1)
            for lab, f in surv:
                s.add(f(vals))
            for loc, v0, v1 in regions:
                sm = summaries.get(loc) if summaries else None
                if sm is None:
                    s.mem[loc] = self.havoc(s, loc, v0, v1)
                else:
                    s.mem[loc] = sm[1](vals)
            if self.K is not None and self.K.snap:
                for loc, v0, v1 in regions:
                    if isinstance(v0, MatVal):
                        s.snaps += [v0, s.mem[loc]]
            for lab, f in accs:
                s.add(f(vals))
            for lab, f in scs:
                s.add(f(vals, s))
            for lab, q in qs:
                s.q.append(q(vals, s) if lab.startswith('@') else q(vals))
            lf = []
            for n, g, en in slots:
                lf.append((g(vals), en))
                s.terms.append(g(vals))
            return s, e, vals, lf

        def runbody(s, e, lf):
            self.loopstack.append(lf)
            try:
                return self.run(fr, h, None, e, s, region, h)
            finally:
                self.loopstack.pop()

        # --- phase 1: counters
        cands = self.phi_cands(slots, X, outers)
        init_ok = []
        for lab, f in cands:
            try:
                if self.proves(st, f(entry)):
                    init_ok.append((lab, f))
            except (AttributeError, z3.Z3Exception):
                pass
        surv = init_ok
        deep = False
        while True:
            s, e, vals, lf = build(surv)
            mk = next(core._cnt)
            self.dry += 1
            p1, self.p1 = self.p1, 1 if deep else 0
            try:
                outs = runbody(s, e, lf)
            finally:
                self.dry -= 1
                self.p1 = p1
            bad = set()
            nested = False
            for o in outs:
                if o.kind != 'back':
                    continue
                bv = self.back_vals(fr, h, allphis, o)
                for n, g, en in slots:
                    try:
                        if any('!' in c and int(c.rsplit('!', 1)[1]) >= mk for c in consts_of(g(bv))):
                            nested = True
                    except AttributeError:
                        pass
                for lab, f in surv:
                    if lab in bad:
                        continue
                    try:
                        g = f(bv)
                        if not self.proves(o.st, g, heavy=has_uf(g)):
                            bad.add(lab)
                    except (AttributeError, z3.Z3Exception):
                        bad.add(lab)
            if not bad:
                break
            if nested and not deep:
                deep = True        # an inner loop advances a counter of this loop: infer its invariants too
                continue
            surv = [(l, f) for l, f in surv if l not in bad]
        if p1only:
            return [o for o in outs if o.kind != 'back']
        # drop redundant survivors is not needed; they are all true
        # --- phase 2: contents, accumulators, predicates
        acc0 = []
        facc, fpred = self.flag_cands(allphis, slots, outers)
        for lab, f in self.acc_cands(allphis, slots, outers) + facc:
            try:
                if self.proves(st, f(entry)):
                    acc0.append((lab, f))
            except (AttributeError, z3.Z3Exception, TypeError):
                pass
        q0 = []
        for lab, nd, q in self.pred_cands(slots, outers) + fpred:
            sk = tuple(fresh('sk') for _ in range(nd))
            try:
                if self.proves(st, q(entry).fn(*sk), inst=[sk]):
                    q0.append((lab, q, nd))
            except (AttributeError, z3.Z3Exception, TypeError):
                pass
        for lab, nd, q in self.matpred_cands(slots, outers, st) + self.cellpred_cands(slots, outers, st):
            sk = tuple(fresh('sk') for _ in range(nd))
            try:
                if self.proves(st, q(entry, st).fn(*sk), inst=[sk]):
                    q0.append((lab, q, nd))
            except (AttributeError, z3.Z3Exception, TypeError):
                pass
        sc0 = []
        for lab, f in self.state_cands(allphis, slots, regions):
            if self.proves_state(st, f, entry):
                sc0.append((lab, f))
        gens = {}
        for loc, v0, v1 in regions:
            gens[loc] = self.region_cands(fr, lname, loc, v0, v1, slots, outers, entry, st, surv)
        # several regions with content summaries of their own: their combinations are tried first
        combos = []
        expl = {}
        if self.K is not None and len(regions) > 1 and self.K.regions:
            for loc in gens:
                expl[loc], rest = [], []
                for c in gens[loc]:
                    if not c[2]:
                        rest = [c]
                        break
                    expl[loc].append(c)
                gens[loc] = itertools.chain(expl[loc], rest, gens[loc])
            many = [l for l in expl if expl[l]]
            if len(many) > 1:
                combos = [dict(zip(many, x)) for x in itertools.islice(itertools.product(*[expl[l] for l in many]), 24)]
                if len(combos) == 1:
                    combos = []
        choice = {}
        def first():
            for loc in gens:
                choice[loc] = next(gens[loc], None)
        if combos:
            choice = {loc: None for loc in gens}
            choice.update(combos.pop(0))
            more = True
        else:
            first()
            more = False
        final = None
        while final is None:
            accs, qs, scs = list(acc0), list(q0), list(sc0)
            while True:
                mark_ob = len(self.obs)
                s, e, vals, lf = build(surv, choice, accs, [(l, q) for l, q, nd in qs], scs)
                outs = runbody(s, e, lf)
                badr, bada, badq, bads = set(), set(), set(), set()
                done = []
                for o in outs:
                    if o.kind != 'back':
                        continue
                    bv = self.back_vals(fr, h, allphis, o)
                    for lab, f in surv:        # the counter invariants hold again here: use them as lemmas
                        g = f(bv)
                        if has_uf(g) and self.proves(o.st, g):
                            o.st.pc.append(g)
                    for loc, v0, v1 in regions:
                        if choice[loc] is None or loc in badr:
                            continue
                        r = self.same_content(o.st, loc, choice[loc][1](bv))
                        if r is not True:
                            badr.add(loc)
                        else:
                            done.append(('content of %s: %s' % (loc[0], choice[loc][0]), o.st))
                    if badr:
                        break
                    for lab, f in accs:
                        if lab not in bada and not self.proves(o.st, f(bv)):
                            bada.add(lab)
                    for lab, f in scs:
                        if lab not in bads and not self.proves_state(o.st, f, bv):
                            bads.add(lab)
                    for lab, q, nd in qs:
                        if lab in badq:
                            continue
                        sk = tuple(fresh('sk') for _ in range(nd))
                        insts = [sk] + ([(sk[1], sk[0])] if nd == 2 else [])
                        if not self.proves(o.st, (q(bv, o.st) if lab.startswith('@') else q(bv)).fn(*sk), inst=insts):
                            badq.add(lab)
                if badr:
                    del self.obs[mark_ob:]
                    if combos:
                        choice.update(combos.pop(0))
                    elif more:
                        more = False
                        first()
                    else:
                        for loc in badr:
                            choice[loc] = next(gens[loc], None)
                    break
                if not bada and not badq and not bads:
                    final = (outs, vals, s)
                    break
                del self.obs[mark_ob:]
                accs = [(l, f) for l, f in accs if l not in bada]
                scs = [(l, f) for l, f in scs if l not in bads]
                qs = [(l, q, nd) for l, q, nd in qs if l not in badq]
        outs, vals, s = final
        for loc in choice:
            lab = choice[loc][0] if choice[loc] else None
            self.log('   loop %s region %s: %s' % (lname, loc, lab))
            if lab:
                self.cache[(lname, self.rname(loc))] = lab
        self.log('   loop %s: phi %s acc %s pred %s' % (lname, [l for l, f in surv], [l for l, f in accs + scs], [l for l, q, n in qs]))
        # record what was established
        for lab, f in surv + accs + scs:
            for k in ('inv-init', 'inv-preserved'):
                o = Ob(self.name, k, '%s: %s' % (lname, lab), st, z3.BoolVal(True))
                o.status, o.backend = 'proved', 'z3'
                self.obs.append(o)
        for lab in [choice[l][0] for l in choice if choice[l]] + [l for l, q, n in qs]:
            for k in ('inv-init', 'inv-preserved'):
                o = Ob(self.name, k, '%s: %s' % (lname, lab), st, z3.BoolVal(True))
                o.status, o.backend = 'proved', 'z3'
                self.obs.append(o)
        self.termination(fr, h, lname, allphis, slots, X, vals, outs)
        return [o for o in outs if o.kind != 'back']

    def proves_state(self, st, f, vals):
        try:
            g = f(vals, st)
        except (AttributeError, TypeError, z3.Z3Exception):
            return False
        s2 = st.copy()
        facts, inst = self.K.lemmas(s2, g)
        s2.pc += facts
        return self.proves(s2, g, inst=inst)

    def state_cands(self, phis, slots, regions):
        """facts that relate a real variable, a counter and the content of a matrix"""
        out = []
        if self.K is None:
            return out
        for name, fn in self.K.statecands:
            for ph in phis:
                if not is_real(ph.entry):
                    continue
                for n, g, en in slots:
                    if en is UNDEF:
                        continue
                    for loc, v0, v1 in regions:
                        if isinstance(v0, MatVal):
                            out.append(('%s(%s,%s,%s)' % (name, ph.name, n, loc[0]), lambda d, st, ph=ph, g=g, loc=loc, fn=fn: fn(d[ph.key], g(d), self.obj(st, loc))))
        for name, fn in self.K.statecands_c:
            reals = [ph for ph in phis if is_real(ph.entry)]
            for p1, p2 in ((x, y) for x in reals for y in reals if part_of(x.name, y.name)):
                for n, g, en in slots:
                    if en is UNDEF:
                        continue
                    for loc, v0, v1 in regions:
                        if isinstance(v0, MatVal) and v0.C.sort == Cx:
                            out.append(('%s(%s,%s,%s)' % (name, p1.name, n, loc[0]), lambda d, st, p1=p1, p2=p2, g=g, loc=loc, fn=fn: fn(CX(d[p1.key], d[p2.key]), g(d), self.obj(st, loc))))
        return out

    def matpred_cands(self, slots, outers, st):
        """progress predicates over the content of local matrices"""
        out = []
        if self.K is None or not self.K.matpreds:
            return out
        locs = [l for l, v in st.mem.items() if l[0].startswith('f') and isinstance(v, MatVal) and v.C.sort in (Real, Cx)]
        for name, fn in self.K.matpreds:
            for loc in locs:
                for oi, (o, oe) in enumerate(outers):
                    for lab, f in self.forms1(None, slots, outers):
                        def q(d, st2, f=f, fn=fn, loc=loc, o=o):
                            M = self.obj(st2, loc)
                            return QFact(1, lambda i: z3.Implies(z3.And(i >= 0, i < M.rows, f(d, i)), fn(M, i, o)))
                        out.append(('@%s(%s,o%d)@%s' % (name, loc[0], oi, lab), 1, q))
        return out

    def cellpred_cands(self, slots, outers, st):
        """every element of a local matrix or vector in the processed part satisfies P"""
        out = []
        for P in (self.K.cellpreds if self.K is not None else ()):
            for loc, v in st.mem.items():
                if not isinstance(v, (MatVal, VecVal)) or loc[0].startswith('arg'):
                    continue
                nd = 2 if isinstance(v, MatVal) else 1
                for lab, f in self.forms2(v.rows, v.cols, slots, outers) if nd == 2 else self.forms1(v.size, slots, outers):
                    def q(d, st2, f=f, loc=loc, nd=nd, P=P):
                        M = self.obj(st2, loc)
                        dims = (M.rows, M.cols) if nd == 2 else (M.size,)
                        return QFact(nd, lambda *i: z3.Implies(z3.And(f(d, *i), *[z3.And(x >= 0, x < n) for x, n in zip(i, dims)]), P(M.C.read(*i))))
                    out.append(('@@cell(%s)@%s' % (loc[0], lab), nd, q))
        return out

    def rname(self, loc):
        return '%s+%d' % (loc[0].split('.', 1)[-1], loc[1])

    def short(self, sym):
        return sym[:60]

    def termination(self, fr, h, lname, phis, slots, X, vals, outs):
        backs = [(o, self.back_vals(fr, h, phis, o)) for o in outs if o.kind == 'back']
        ok = not backs
        if not ok:
            for n, g, en in slots:
                p = g(vals)
                for x in X:
                    if all(self.entails(o.st, z3.And(g(bv) > p, p < x)) for o, bv in backs):
                        ok = True
                        break
                    if is_int(x) and all(self.entails(o.st, z3.And(g(bv) > p, p <= x)) for o, bv in backs):
                        ok = True
                        break
                if not ok and all(self.entails(o.st, z3.And(g(bv) < p, g(bv) >= 0)) for o, bv in backs):
                    ok = True
                if ok:
                    break
        if not ok and self.K is not None and self.K.no_termination:
            self.trusted.add('termination of %s (%s)' % (self.name, self.K.no_termination))
            return
        o = Ob(self.name, 'termination', lname, backs[0][0].st if backs else State(), z3.BoolVal(ok))
        if ok:
            o.status, o.backend = 'proved', 'z3'
        else:
            o.status = 'failed'
        self.obs.append(o)

    def same_content(self, st, loc, want):
        have = self.obj(st, loc)
        if have is None or type(have) is not type(want):
            return False
        if isinstance(want, MatVal):
            if not self.proves(st, samedims(have, want)):
                return False
            if have.C is want.C:
                return True
            r, c = fresh('r'), fresh('c')
            st2 = st.copy()
            st2.pc += [r >= 0, r < want.rows, c >= 0, c < want.cols]
            return self.cell_eq(st2, have.C.read(r, c), want.C.read(r, c), [(r, c)])
        n = want.size
        if not self.proves(st, have.size == want.size):
            return False
        if have.C is want.C:
            return True
        i = fresh('i')
        st2 = st.copy()
        st2.pc += [i >= 0, i < n]
        return self.cell_eq(st2, have.C.read(i), want.C.read(i), [(i,)])

    def cell_eq(self, st, a, b, inst):
        return self.proves(st, eqv(a, b), inst=inst)

    # ---------------------------------------------------------------- candidates
    def phi_cands(self, slots, X, outers):
        out = []
        for n, g, en in slots:
            if en is UNDEF:
                continue
            def add(lab, f):
                out.append(('%s %s' % (n, lab), f))
            add('>=entry', lambda d, g=g, en=en: g(d) >= en)
            add('<=entry', lambda d, g=g, en=en: g(d) <= en)
            for i, x in enumerate(X):
                if x.eq(en):
                    continue
                xs = str(x).replace('\n', ' ')[:40]
                add('<=' + xs, lambda d, g=g, x=x: g(d) <= x)
                add('<' + xs, lambda d, g=g, x=x: g(d) < x)
                add('>=' + xs, lambda d, g=g, x=x: g(d) >= x)
                add('<=' + xs + '|entry', lambda d, g=g, x=x, en=en: z3.Or(g(d) <= x, g(d) == en))
            for n2, g2, en2 in slots:
                if n2 == n or en2 is UNDEF:
                    continue
                if n < n2:
                    add('lockstep ' + n2, lambda d, g=g, g2=g2, en=en, en2=en2: g(d) - g2(d) == en - en2)
                    add('antistep ' + n2, lambda d, g=g, g2=g2, en=en, en2=en2: g(d) + g2(d) == en + en2)
                add('<=' + n2, lambda d, g=g, g2=g2: g(d) <= g2(d))
                add('<' + n2, lambda d, g=g, g2=g2: g(d) < g2(d))
                if self.K is not None:
                    for ci, C in enumerate(self.K.dims):
                        add('lin(%s,%d)' % (n2, ci), lambda d, g=g, g2=g2, en=en, C=C: g(d) == lin(g2(d), I(0), C))
                        for oi, (o, oe) in enumerate(outers):
                            add('lin(o%d,%s,%d)' % (oi, n2, ci), lambda d, g=g, g2=g2, o=o, C=C: g(d) == lin(o, g2(d), C))
        if self.K is not None:
            for ar, name, f in self.K.phicands:
                for combo in itertools.permutations(slots + self.gone(slots), ar):
                    if any(c[2] is UNDEF for c in combo):
                        continue
                    out.append(('%s(%s)' % (name, ','.join(c[0] for c in combo)), lambda d, f=f, combo=combo: f(*[c[1](d) for c in combo])))
            for ar, name, f in self.K.phicands_outer:
                for combo in itertools.permutations(slots, ar):
                    if any(c[2] is UNDEF for c in combo):
                        continue
                    for oi, (o, oe) in enumerate(outers):
                        out.append(('%s(%s;o%d)' % (name, ','.join(c[0] for c in combo), oi), lambda d, f=f, combo=combo, o=o: f(o, *[c[1](d) for c in combo])))
        used = set()                        # a label names one candidate
        for q, (lab, f) in enumerate(out):
            if lab in used:
                out[q] = ('%s #%d' % (lab, q), f)
            used.add(out[q][0])
        return out

    def acc_cands(self, phis, slots, outers):
        out = []
        if self.K is None:
            return out
        reals = [ph for ph in phis if is_real(ph.entry)]
        bools = [ph for ph in phis if is_bool(ph.entry)]
        ints = [ph for ph in phis if is_int(ph.entry) and ph.bits == 32]
        def sort_of(f, ar):
            try:
                return f(*[I(0)] * (ar + 1)).sort()
            except (AttributeError, z3.Z3Exception):
                return None
        accs = [(name, ar, f, sort_of(f, ar)) for name, ar, f in self.K.accs]
        for ph in reals + ints:
            for name, ar, f, so in accs:
                if so != ph.entry.sort():
                    continue
                if so == Int:            # loop values are kept unsigned
                    f = lambda *q, f=f, ph=ph: z3.If(f(*q) < 0, f(*q) + (1 << ph.bits), f(*q))
                for n, g, en in slots + self.gone(slots):
                    if en is UNDEF or n == ph.name and so == Int:
                        continue
                    others = [(n2, g2) for n2, g2, e2 in slots if n2 != n and e2 is not UNDEF] + \
                             [('o%d' % i, lambda d, o=o: o) for i, (o, oe) in enumerate(outers)] + \
                             [('k%d' % i, lambda d, o=o: o) for i, o in enumerate(self.K.points)]
                    for combo in itertools.permutations(others, ar):
                        def mk(shift):
                            return lambda d, ph=ph, g=g, combo=combo, f=f: d[ph.key] == f(g(d) + shift, *[c[1](d) for c in combo])
                        for sh in self.K.accshifts:
                            out.append(('%s==%s(%s%+d%s)' % (ph.name, name, n, sh, ''.join(',' + c[0] for c in combo)), mk(sh)))
                if ar == 0:
                    pass
            if is_int(ph.entry):
                continue
            for name, f in self.K.acc_consts:
                out.append(('%s==%s' % (ph.name, name), lambda d, ph=ph, f=f: d[ph.key] == f()))
            for name, ar, f in self.K.realcands + [(n, a, lambda x, *j, f=f, e=ph.entry: f(x, e, *j)) for n, a, f in self.K.entrycands if is_real(ph.entry)]:
                cs = [(n2, g2) for n2, g2, e2 in slots if e2 is not UNDEF] + [('o%d' % i, lambda d, o=o: o) for i, (o, oe) in enumerate(outers)]
                for combo in itertools.permutations(cs, ar):
                    out.append(('%s %s(%s)' % (ph.name, name, ','.join(c[0] for c in combo)), lambda d, ph=ph, f=f, combo=combo: f(d[ph.key], *[c[1](d) for c in combo])))
        return out

    def flags(self, phis):
        """loop values that hold a truth value"""
        for ph in phis:
            if is_bool(ph.entry):
                yield ph.name, lambda d, k=ph.key: d[k]
            elif is_int(ph.entry) and ph.bits == 8:
                yield ph.name, lambda d, k=ph.key: d[k] != 0

    def flag_witness(self, phis, st):
        """an answer that is accumulated in a flag: names an element that decides it"""
        K = self.K
        sp = None if K is None else K.flagspec or K.rets
        if not getattr(sp, 'dims', None) or not any(self.flags(phis)):
            return
        nd = len(sp.dims)
        if not K.flagw:
            K.flagw = tuple(fresh('w') for _ in range(nd))
            K.insts = K.insts or [K.flagw]
        w = K.flagw
        bad = lambda i: z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(i, sp.dims)], z3.Not(sp.P(*i)))
        st.q.append(QFact(nd, lambda *i: z3.Implies(bad(i), bad(w))))

    def flag_cands(self, phis, slots, outers):
        K, accs, preds = self.K, [], []
        if K is None or not K.flagw:
            return accs, preds
        sp, w = K.flagspec or K.rets, K.flagw
        nd = len(sp.dims)
        forms = self.forms1(sp.dims[0], slots, outers) if nd == 1 else self.forms2(sp.dims[0], sp.dims[1], slots, outers)
        for n, g in self.flags(phis):
            for neg in (False, True):
                h = (lambda d, g=g: z3.Not(g(d))) if neg else g
                accs.append(('%s%s decided' % ('!' if neg else '', n), lambda d, h=h: z3.Or(h(d), z3.And(*[z3.And(x >= 0, x < m) for x, m in zip(w, sp.dims)], z3.Not(sp.P(*w))))))
                for lab, f in forms:
                    def q(d, f=f, h=h):
                        return QFact(nd, lambda *i: z3.Implies(z3.And(h(d), f(d, *i), *[z3.And(x >= 0, x < m) for x, m in zip(i, sp.dims)]), sp.P(*i)))
                    preds.append(('flag %s%s@%s' % ('!' if neg else '', n, lab), nd, q))
        return accs, preds

    def gone(self, slots):
        """how far a counter that does not start at a constant has come down"""
        return [(n + '~', lambda d, g=g, en=en: en - g(d), I(0)) for n, g, en in slots if en is not UNDEF and not isnum(en)]

    def forms1(self, size, slots, outers):
        """progress predicates over one index"""
        K = self.K
        out = []
        for n, g, en in slots:
            if en is UNDEF:
                continue
            if isnum(en) and num(en) == 0:
                out.append(('i<%s' % n, lambda d, i, g=g: i < g(d)))
            else:
                out.append(('e<=i<%s' % n, lambda d, i, g=g, en=en: z3.And(i >= en, i < g(d))))
                out.append(('i<%s-e' % n, lambda d, i, g=g, en=en: i < g(d) - en))
                out.append(('i<%s' % n, lambda d, i, g=g: i < g(d)))
                out.append(('%s<i<=e' % n, lambda d, i, g=g, en=en: z3.And(i > g(d), i <= en)))
                out.append(('%s<=i<e' % n, lambda d, i, g=g, en=en: z3.And(i >= g(d), i < en)))
                out.append(('i>=%s' % n, lambda d, i, g=g: i >= g(d)))
                out.append(('i>%s' % n, lambda d, i, g=g: i > g(d)))
                out.append(('e<=i+1<%s' % n, lambda d, i, g=g, en=en: z3.And(i + 1 >= en, i + 1 < g(d))))
            for k, s in enumerate(K.shifts if K else ()):
                out.append(('i-s%d<%s' % (k, n), lambda d, i, g=g, en=en, s=s: z3.And(i >= s, i < s + g(d) - en)))
        return out

    def oterms(self, slots, outers):
        K = self.K
        out = []
        for i, (o, oe) in enumerate(outers):
            out.append(('o%d' % i, lambda d, o=o: o))
            if oe is not None and oe is not UNDEF and not (isnum(oe) and num(oe) == 0):
                out.append(('o%d-e' % i, lambda d, o=o, oe=oe: o - oe))
                out.append(('o%d-1' % i, lambda d, o=o: o - 1))
            for k, s in enumerate(K.shifts if K else ()):
                out.append(('o%d+s%d' % (i, k), lambda d, o=o, s=s: o + s))
        for k, s in enumerate(K.points if K else ()):
            out.append(('k%d' % k, lambda d, s=s: s))
        for n, g, en in slots:
            if en is not UNDEF:
                out.append((n, lambda d, g=g: g(d)))
        return out

    def forms2(self, rows, cols, slots, outers):
        out = []
        f1 = self.forms1(None, slots, outers)
        for lab, f in f1:
            out.append(('r:' + lab, lambda d, r, c, f=f: f(d, r)))
        for n, g, en in slots:
            if en is not UNDEF:
                out.append(('lin<%s' % n, lambda d, r, c, g=g: lin(r, c, cols) < g(d)))
                if not (isnum(en) and num(en) == 0):
                    out.append(('lin>=%s' % n, lambda d, r, c, g=g: lin(r, c, cols) >= g(d)))
        ot = self.oterms(slots, outers)
        for ol, o in ot:
            for lab, f in f1:
                if ol in lab:
                    continue
                out.append(('r=%s,c:%s' % (ol, lab), lambda d, r, c, f=f, o=o: z3.And(r == o(d), f(d, c))))
        for lab, f in f1:
            out.append(('c:' + lab, lambda d, r, c, f=f: f(d, c)))
        for ol, o in ot:
            for lab, f in f1:
                if ol in lab:
                    continue
                out.append(('c=%s,r:%s' % (ol, lab), lambda d, r, c, f=f, o=o: z3.And(c == o(d), f(d, r))))
        for ol, o in ot:
            if ol.startswith('o'):
                for lab, f in f1:
                    out.append(('r<%s|r=%s,c:%s' % (ol, ol, lab), lambda d, r, c, f=f, o=o: z3.Or(r < o(d), z3.And(r == o(d), f(d, c)))))
                    out.append(('c<%s|c=%s,r:%s' % (ol, ol, lab), lambda d, r, c, f=f, o=o: z3.Or(c < o(d), z3.And(c == o(d), f(d, r)))))
        return out

    def pred_cands(self, slots, outers):
        out = []
        K = self.K
        if K is None:
            return out
        for name, nd, dims, fn, nphi in K.preds:
            combos = [()]
            if nphi:
                combos = list(itertools.permutations([s for s in slots if s[2] is not UNDEF], nphi))
            forms = self.forms1(dims[0], slots, outers) if nd == 1 else self.forms2(dims[0], dims[1], slots, outers)
            for combo in combos:
                for lab, f in forms:
                    def q(d, f=f, fn=fn, combo=combo, dims=dims, nd=nd):
                        extra = [c[1](d) for c in combo]
                        def inst(*idx):
                            dom = [z3.And(i >= 0, i < n) for i, n in zip(idx, dims)]
                            return z3.Implies(z3.And(*dom, f(d, *idx)), fn(*idx, *extra))
                        return QFact(nd, inst)
                    out.append(('%s%s@%s' % (name, [c[0] for c in combo] if combo else '', lab), nd, q))
        return out

    def region_cands(self, fr, lname, loc, v0, v1, slots, outers, entry, st, surv):
        """content summaries; each is (label, vals -> object); only those that hold initially are produced"""
        K = self.K
        if K is None:
            return
        nd = 2 if isinstance(v0, MatVal) else 1
        if v0.C.sort not in (Real, Int, Cx):
            return
        explicit = set()
        E = v0.C
        cands = []
        reshaped = isinstance(v0, MatVal) and isinstance(v1, MatVal) and not (v1.rows.eq(v0.rows) and v1.cols.eq(v0.cols)) \
            or isinstance(v0, VecVal) and isinstance(v1, VecVal) and not v1.size.eq(v0.size)
        for name, rx, ar, f in K.regions:
            if rx and not re.search(rx, self.rname(loc)):
                continue
            base = [(n, g) for n, g, en in slots + self.gone(slots) if en is not UNDEF]
            oth = [('o%d' % i, lambda d, o=o: o) for i, (o, oe) in enumerate(outers)]
            pool = base + oth
            for combo in itertools.permutations(pool, ar):
                if ar and not any(c in base for c in combo):
                    continue
                explicit.add('%s(%s)' % (name, ','.join(c[0] for c in combo)))
                cands.append(('%s(%s)' % (name, ','.join(c[0] for c in combo)),
                              lambda d, f=f, combo=combo: f(v0, *[c[1](d) for c in combo])))
        if not reshaped:
            goals = [g for g in K.goals if g[1] == nd]
            forms = self.forms1(v0.size, slots, outers) if nd == 1 else self.forms2(v0.rows, v0.cols, slots, outers)
            for gname, _, gf in goals:
                for lab, f in forms:
                    def mk(d, f=f, gf=gf):
                        return v0.withC(CLam(nd, E.sort, lambda *x: z3.If(f(d, *x), gf(*x), E.read(*x))))
                    cands.append(('%s on %s' % (gname, lab), mk))
            # one cell holds a partial fold
            ot = self.oterms(slots, outers)
            for name, ar, f in K.accs:
                for n, g, en in slots:
                    if en is UNDEF:
                        continue
                    pool = [o for o in ot if o[0] != n]
                    cellpool = itertools.permutations(pool, nd) if nd == 2 else [(o,) for o in pool]
                    for cell in cellpool:
                        keysets = [cell] if ar == nd else ([()] if ar == 0 else [])
                        for keys in keysets:
                            for sh in K.accshifts:
                                def mk(d, f=f, g=g, cell=cell, keys=keys, sh=sh):
                                    v = f(g(d) + sh, *[k[1](d) for k in keys])
                                    cc = [o[1](d) for o in cell]
                                    return v0.withC(CLam(nd, E.sort, lambda *x: z3.If(z3.And(*[a == b for a, b in zip(x, cc)]), v, E.read(*x))))
                                cands.append(('%s(%s%+d) at (%s)' % (name, n, sh, ','.join(o[0] for o in cell)), mk))
            # a part of the cells holds a partial fold each
            for name, ar, f in K.accs:
                if ar != nd:
                    continue
                ts = [(n, g) for n, g, en in slots if en is not UNDEF] + [('o%d' % i, lambda d, o=o: o) for i, (o, oe) in enumerate(outers)]
                if nd == 2:
                    fs = [('r=o%d' % i, lambda d, r, c, o=o: r == o) for i, (o, oe) in enumerate(outers)] + [('c=o%d' % i, lambda d, r, c, o=o: c == o) for i, (o, oe) in enumerate(outers)]
                else:
                    fs = []
                fs = [('all', lambda d, *x: z3.BoolVal(True))] + fs + forms
                for tn, t in ts:
                    for lab, fm in fs:
                        if tn in lab or tn[0] != 'o' and lab in [x[0] for x in forms]:
                            continue
                        for sh in sorted(set(K.accshifts) | {0, 1}) if tn[0] == 'o' else K.accshifts:
                            def mk(d, f=f, t=t, fm=fm, sh=sh):
                                return v0.withC(CLam(nd, E.sort, lambda *x: z3.If(fm(d, *x), f(t(d) + sh, *x), E.read(*x))))
                            cands.append(('%s(%s%+d) on %s' % (name, tn, sh, lab), mk))
        pref = self.cache.get((lname, self.rname(loc)))
        cands.sort(key=lambda c: (c[0] not in explicit, c[0] != pref))
        for lab, f in cands:
            try:
                o = f(entry)
            except (AttributeError, TypeError, z3.Z3Exception):
                continue
            if type(o) is not type(v0) and not isinstance(o, type(v0)) or o.C.nd != v0.C.nd or o.C.sort != v0.C.sort:
                continue
            s2 = st.copy()
            try:
                ok = self.same_obj_init(s2, v0, o)
            except (AttributeError, z3.Z3Exception):           # a goal of another element type
                continue
            if ok:
                yield (lab, f, lab in explicit)

    def same_obj_init(self, st, v0, o):
        if isinstance(o, MatVal):
            if not (o.rows is v0.rows and o.cols is v0.cols) and not self.proves(st, samedims(v0, o)):
                return False
            r, c = self.probe          # occurs nowhere else
            st.pc += [r >= 0, r < v0.rows, c >= 0, c < v0.cols]
            return self.cell_eq(st, o.C.read(r, c), v0.C.read(r, c), [(r, c)])
        if not o.size is v0.size and not self.proves(st, o.size == v0.size):
            return False
        i = self.probe[0]
        st.pc += [i >= 0, i < v0.size]
        return self.cell_eq(st, o.C.read(i), v0.C.read(i), [(i,)])
