"""Parser for the textual LLVM IR that clang 18 emits for the driver (subset, fails loudly)."""
import re, subprocess, functools

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ types
# ('i', n) ('f', 'double') ('ptr',) ('struct', [types]) ('arr', n, t) ('void',) ('named', name) ('fn',) ('meta',)

class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}      # symbol -> Function (lazy)
        self._ftext = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._parse_top(text)

    def _parse_top(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self._ftext[m.group(1).strip('"')] = lines[i:j]
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                name, t = l.split(' = type ', 1)
                self.types[name] = t.strip()
            elif l.startswith('@'):
                name = l.split(' = ', 1)[0][1:].strip('"')
                m = re.search(r' = .*\balias\b.*ptr @("[^"]*"|[\w.$-]+)\s*$', l)
                if m:
                    self.aliases[name] = m.group(1).strip('"')
                self.globals[name] = l
            i += 1
        self._tcache = {}

    def func(self, sym):
        sym = self.aliases.get(sym, sym)
        if sym in self.funcs:
            return self.funcs[sym]
        if sym not in self._ftext:
            return None
        f = Function(self, sym, self._ftext[sym])
        self.funcs[sym] = f
        return f

    def defined(self, sym):
        return self.aliases.get(sym, sym) in self._ftext

    def resolve(self, t):
        if t[0] == 'named':
            if t[1] not in self._tcache:
                s = self.types[t[1]]
                if s == 'opaque':
                    r = ('opaque',)
                else:
                    r, rest = parse_type(s)
                self._tcache[t[1]] = r
            return self.resolve(self._tcache[t[1]]) if self._tcache[t[1]][0] == 'named' else self._tcache[t[1]]
        return t

    def sizeof(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k == 'f':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.sizeof(t[2])
        if k == 'struct':
            off = 0
            for e in t[1]:
                off = align(off, self.alignof(e)) + self.sizeof(e)
            return align(off, self.alignof(t))
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'struct':
            return max([1] + [self.alignof(e) for e in t[1]])
        if k == 'arr':
            return self.alignof(t[2])
        return self.sizeof(t)

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for n, e in enumerate(t[1]):
            off = align(off, self.alignof(e))
            if n == i:
                return off, e
            off += self.sizeof(e)
        raise Unsupported('field')

def align(o, a):
    return (o + a - 1) // a * a

def parse_type(s):
    """returns (type, rest)"""
    s = s.lstrip()
    m = re.match(r'i(\d+)\b', s)
    if m:
        return ('i', int(m.group(1))), s[m.end():]
    for f in ('double', 'float', 'x86_fp80'):
        if re.match(f + r'\b', s):
            return ('f', f), s[len(f):]
    if re.match(r'ptr\b', s):
        return ('ptr',), s[3:]
    if re.match(r'void\b', s):
        return ('void',), s[4:]
    if re.match(r'metadata\b', s):
        return ('meta',), s[8:]
    if s[0] == '%':
        m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
        return ('named', m.group(0)), s[m.end():]
    if s[0] == '{' or s.startswith('<{'):
        packed = s[0] == '<'
        rest = s[2:] if packed else s[1:]
        els = []
        rest = rest.lstrip()
        while rest[0] != '}':
            t, rest = parse_type(rest)
            els.append(t)
            rest = rest.lstrip()
            if rest[0] == ',':
                rest = rest[1:].lstrip()
        return ('struct', els), rest[2 if packed else 1:]
    if s[0] == '[':
        m = re.match(r'\[(\d+) x ', s)
        t, rest = parse_type(s[m.end():])
        rest = rest.lstrip()
        assert rest[0] == ']'
        return ('arr', int(m.group(1)), t), rest[1:]
    if s[0] == '<':
        raise Unsupported('vector type')
    raise Unsupported('type: ' + s[:60])

ATTR = re.compile(r'\s*(?:noundef|nonnull|signext|zeroext|inreg|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|nofree|writable|dead_on_unwind|dead_on_return|nest|swiftself|allocptr|'
                  r'dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|align \d+|align\(\d+\)|range\([^)]*\)|nofpclass\([^)]*\)|captures\([^)]*\)|allocalign|initializes\(.*?\)\))(?=\s|,|\)|$|%|@)')

def skip_attrs(s):
    """skips parameter attributes; returns (attrs dict, rest)"""
    at = {}
    while True:
        s2 = s.lstrip()
        m = re.match(r'(sret|byval|byref|elementtype)\(', s2)
        if m:
            t, rest = parse_type(s2[m.end():])
            rest = rest.lstrip()
            assert rest[0] == ')'
            at[m.group(1)] = t
            s = rest[1:]
            continue
        m = ATTR.match(s)
        if not m:
            return at, s
        w = m.group(0).strip()
        at[w.split('(')[0]] = True
        s = s[m.end():]

# ------------------------------------------------------------------ operands
# ('c', int) ('fc', text) ('null',) ('undef',) ('l', name) ('g', name) ('cexpr', text) ('agg',..)

def parse_val(s, ty=None):
    s = s.lstrip()
    if s[0] == '%':
        m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
        return ('l', m.group(0)), s[m.end():]
    if s[0] == '@':
        m = re.match(r'@("[^"]*"|[\w.$-]+)', s)
        return ('g', m.group(1).strip('"')), s[m.end():]
    m = re.match(r'(true|false)\b', s)
    if m:
        return ('c', 1 if m.group(1) == 'true' else 0), s[m.end():]
    m = re.match(r'null\b', s)
    if m:
        return ('null',), s[4:]
    m = re.match(r'(undef|poison)\b', s)
    if m:
        return ('undef',), s[m.end():]
    m = re.match(r'zeroinitializer\b', s)
    if m:
        return ('zero',), s[m.end():]
    m = re.match(r'0x[0-9A-Fa-f]+', s)
    if m:
        return ('fc', m.group(0)), s[m.end():]
    m = re.match(r'-?\d+\.\d+(e[+-]?\d+)?', s)
    if m:
        return ('fc', m.group(0)), s[m.end():]
    m = re.match(r'-?\d+', s)
    if m:
        if ty is not None and ty[0] == 'f':
            return ('fc', m.group(0)), s[m.end():]
        return ('c', int(m.group(0))), s[m.end():]
    m = re.match(r'(getelementptr|inttoptr|ptrtoint|bitcast|add|sub)\b', s)
    if m:
        # constant expression: take balanced parentheses
        p = s.index('(')
        d = 0
        for q in range(p, len(s)):
            if s[q] == '(':
                d += 1
            elif s[q] == ')':
                d -= 1
                if d == 0:
                    return ('cexpr', s[:q + 1]), s[q + 1:]
    if s[0] == '{':
        d = 0
        for q in range(len(s)):
            if s[q] == '{':
                d += 1
            elif s[q] == '}':
                d -= 1
                if d == 0:
                    return ('agg', s[:q + 1]), s[q + 1:]
    if s[0] == '[' or s.startswith('c"'):
        return ('agg', s), ''
    raise Unsupported('operand: ' + s[:60])

def parse_tv(s):
    t, rest = parse_type(s)
    at, rest = skip_attrs(rest)
    v, rest = parse_val(rest, t)
    return t, v, rest

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'text', 'line')
    def __init__(self, op, dst, text):
        self.op, self.dst, self.text = op, dst, text
        self.ty = None
        self.args = []
        self.x = {}
    def __repr__(self):
        return self.text.strip()

def comma(s):
    s = s.lstrip()
    assert s[0] == ',', s
    return s[1:]

FLAGS = re.compile(r'\s*(nuw|nsw|exact|disjoint|inbounds|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|nneg|samesign|nusw)\b')

def skip_flags(s):
    fl = set()
    while True:
        m = FLAGS.match(s)
        if not m:
            return fl, s
        fl.add(m.group(1))
        s = s[m.end():]

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'freeze'}

def parse_inst(l):
    t = l.strip()
    dst = None
    m = re.match(r'(%("[^"]*"|[\w.$-]+)) = ', t)
    s = t
    if m:
        dst = m.group(1)
        s = t[m.end():]
    m = re.match(r'(tail |musttail |notail )?(\w+)', s)
    op = m.group(2)
    ins = Inst(op, dst, l)
    r = s[m.end():]
    if op in BIN:
        fl, r = skip_flags(r)
        ins.x['flags'] = fl
        ins.ty, a, r = parse_tv(r)
        b, r = parse_val(comma(r), ins.ty)
        ins.args = [a, b]
    elif op == 'fneg':
        fl, r = skip_flags(r)
        ins.ty, a, r = parse_tv(r)
        ins.args = [a]
    elif op in ('icmp', 'fcmp'):
        fl, r = skip_flags(r)
        m = re.match(r'\s*(\w+)', r)
        ins.x['pred'] = m.group(1)
        ins.ty, a, r = parse_tv(r[m.end():])
        b, r = parse_val(comma(r), ins.ty)
        ins.args = [a, b]
    elif op in CAST:
        fl, r = skip_flags(r)
        st, a, r = parse_tv(r)
        ins.x['src'] = st
        ins.args = [a]
        if op == 'freeze':
            ins.ty = st
        else:
            r = r.lstrip()
            assert r.startswith('to ')
            ins.ty, r = parse_type(r[3:])
    elif op == 'alloca':
        m = re.match(r'\s*inalloca\b', r)
        ins.ty, r = parse_type(r)
        m = re.match(r'\s*,\s*(i\d+) ', r)
        if m:
            raise Unsupported('dynamic alloca')
    elif op == 'load':
        if re.match(r'\s*atomic', r):
            raise Unsupported('atomic')
        r = re.sub(r'^\s*volatile\b', '', r)
        ins.ty, r = parse_type(r)
        _, a, r = parse_tv(comma(r))
        ins.args = [a]
    elif op == 'store':
        if re.match(r'\s*atomic', r):
            raise Unsupported('atomic')
        r = re.sub(r'^\s*volatile\b', '', r)
        ins.ty, v, r = parse_tv(r)
        _, a, r = parse_tv(comma(r))
        ins.args = [v, a]
    elif op == 'getelementptr':
        fl, r = skip_flags(r)
        ins.ty, r = parse_type(r)
        _, a, r = parse_tv(comma(r))
        ins.args = [a]
        idx = []
        while r.lstrip().startswith(',') and not r.lstrip()[1:].lstrip().startswith('!'):
            t2, v, r = parse_tv(comma(r))
            idx.append((t2, v))
        ins.x['idx'] = idx
    elif op == 'br':
        r = r.strip()
        m = re.match(r'label (%("[^"]*"|[\w.$-]+))', r)
        if m:
            ins.x['targets'] = [m.group(1)]
        else:
            _, c, r = parse_tv(r)
            ins.args = [c]
            ins.x['targets'] = re.findall(r'label (%(?:"[^"]*"|[\w.$-]+))', r)
    elif op == 'switch':
        ins.ty, c, r = parse_tv(r)
        ins.args = [c]
        m = re.match(r'\s*,\s*label (%("[^"]*"|[\w.$-]+))', r)
        ins.x['default'] = m.group(1)
        ins.x['cases'] = None  # filled by multi-line join
        body = r[r.index('[') + 1:r.rindex(']')]
        cs = re.findall(r'i\d+ (-?\d+), label (%(?:"[^"]*"|[\w.$-]+))', body)
        ins.x['cases'] = [(int(a), b) for a, b in cs]
    elif op == 'ret':
        r = r.strip()
        if r.startswith('void'):
            ins.ty = ('void',)
        else:
            ins.ty, a, r = parse_tv(r)
            ins.args = [a]
    elif op == 'phi':
        fl, r = skip_flags(r)
        ins.ty, r = parse_type(r)
        inc = []
        r = r.lstrip()
        while r.startswith('['):
            v, r2 = parse_val(r[1:], ins.ty)
            r2 = comma(r2)
            m = re.match(r'\s*(%("[^"]*"|[\w.$-]+))\s*\]', r2)
            inc.append((v, m.group(1)))
            r = r2[m.end():].lstrip()
            if r.startswith(',') and r[1:].lstrip().startswith('['):
                r = r[1:].lstrip()
            else:
                break
        ins.x['inc'] = inc
    elif op == 'select':
        fl, r = skip_flags(r)
        _, c, r = parse_tv(r)
        ins.ty, a, r = parse_tv(comma(r))
        _, b, r = parse_tv(comma(r))
        ins.args = [c, a, b]
    elif op in ('call', 'invoke'):
        fl, r = skip_flags(r)
        r = re.sub(r'^\s*(fastcc|ccc|coldcc)\b', '', r)
        at, r = skip_attrs(r)
        ins.ty, r = parse_type(r)
        r = r.lstrip()
        if r[0] == '(':   # full function type (varargs)
            d = 0
            for q in range(len(r)):
                if r[q] == '(':
                    d += 1
                elif r[q] == ')':
                    d -= 1
                    if d == 0:
                        break
            r = r[q + 1:]
        if r.lstrip().startswith('asm'):
            raise Unsupported('inline asm')
        cal, r = parse_val(r)
        ins.x['callee'] = cal
        r = r.lstrip()
        assert r[0] == '(', r
        r = r[1:].lstrip()
        args = []
        while r[0] != ')':
            t2, r = parse_type(r)
            if t2[0] == 'meta':
                # skip metadata operand
                q = re.match(r'\s*(!\w+|[^,)]*)', r)
                r = r[q.end():].lstrip()
                args.append((t2, ('undef',), {}))
            else:
                a2, r = skip_attrs(r)
                v, r = parse_val(r, t2)
                args.append((t2, v, a2))
                r = r.lstrip()
            if r[0] == ',':
                r = r[1:].lstrip()
        ins.args = args
        if op == 'invoke':
            m = re.search(r'to label (%("[^"]*"|[\w.$-]+))\s+unwind label (%("[^"]*"|[\w.$-]+))', r)
            ins.x['normal'] = m.group(1)
            ins.x['unwind'] = m.group(3)
    elif op in ('extractvalue',):
        ins.ty, a, r = parse_tv(r)
        ins.args = [a]
        ins.x['path'] = [int(z) for z in re.findall(r',\s*(\d+)', r)]
    elif op == 'insertvalue':
        ins.ty, a, r = parse_tv(r)
        t2, b, r = parse_tv(comma(r))
        ins.args = [a, b]
        ins.x['ety'] = t2
        ins.x['path'] = [int(z) for z in re.findall(r',\s*(\d+)', r)]
    elif op in ('unreachable', 'landingpad', 'resume'):
        pass
    else:
        raise Unsupported('instruction ' + op)
    return ins

class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []
        self.preds = []

class Function:
    def __init__(self, mod, sym, lines):
        self.mod = mod
        self.sym = sym
        head = lines[0]
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
        pre = head[len('define '):m.start()]
        pre = re.sub(r'\b(dso_local|linkonce_odr|internal|weak_odr|weak|hidden|unnamed_addr|local_unnamed_addr|available_externally|private|noundef|nonnull|zeroext|signext|noalias|fastcc|align \d+|dereferenceable\(\d+\)|range\([^)]*\))', ' ', pre)
        self.ret, _ = parse_type(pre.strip())
        r = head[m.end():].lstrip()
        self.params = []
        while r[0] != ')':
            if r.startswith('...'):
                r = r[3:]
                continue
            t, r = parse_type(r)
            at, r = skip_attrs(r)
            r = r.lstrip()
            m = re.match(r'%("[^"]*"|[\w.$-]+)', r)
            if m:
                nm = m.group(0)
                r = r[m.end():].lstrip()
            else:
                nm = '%' + str(len(self.params))
            self.params.append((t, nm, at))
            if r[0] == ',':
                r = r[1:].lstrip()
        # body
        self.blocks = {}
        self.order = []
        cur = None
        nparams_unnamed = sum(1 for p in self.params if re.match(r'%\d+$', p[1]))
        i = 1
        body = lines[1:]
        # join multi-line switch / invoke / landingpad
        joined = []
        k = 0
        while k < len(body):
            l = body[k]
            if l.strip().startswith('switch ') and ']' not in l:
                while ']' not in body[k]:
                    k += 1
                    l += ' ' + body[k].strip()
            elif ' invoke ' in ' ' + l and 'unwind label' not in l:
                while 'unwind label' not in l:
                    k += 1
                    l += ' ' + body[k].strip()
            elif 'landingpad ' in l:
                while k + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[k + 1]):
                    k += 1
                    l += ' ' + body[k].strip()
            joined.append(l)
            k += 1
        for l in joined:
            if not l.strip():
                continue
            m = re.match(r'("[^"]*"|[\w.$-]+):', l)
            if m and not l.startswith(' '):
                cur = Block('%' + m.group(1))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%entry$')
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            ins = parse_inst(l)
            cur.insts.append(ins)
        self.entry = self.order[0]
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = list(t.x['targets'])
            elif t.op == 'switch':
                b.succ = [t.x['default']] + [c for _, c in t.x['cases']]
            elif t.op == 'invoke':
                b.succ = [t.x['normal']]      # unwind edges: exceptional exit, not followed
        for b in self.blocks.values():
            for s in b.succ:
                self.blocks[s].preds.append(b.name)
        self._loops()

    def _loops(self):
        # reachable blocks, dominators, natural loops
        seen, stack = set(), [self.entry]
        post = []
        it = {}
        def dfs():
            st = [(self.entry, iter(self.blocks[self.entry].succ))]
            seen.add(self.entry)
            while st:
                n, itr = st[-1]
                for s in itr:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.blocks[s].succ)))
                        break
                else:
                    post.append(n)
                    st.pop()
        dfs()
        rpo = post[::-1]
        self.rpo = rpo
        dom = {n: set(rpo) for n in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo:
                if n == self.entry:
                    continue
                ps = [p for p in self.blocks[n].preds if p in seen]
                d = set.intersection(*[dom[p] for p in ps]) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        self.dom = dom
        self.loops = {}
        for n in rpo:
            for s in self.blocks[n].succ:
                if s in dom[n]:
                    body = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.blocks[x].preds if p in seen)
        # retreating edges that are not back edges => irreducible
        idx = {n: k for k, n in enumerate(rpo)}
        for n in rpo:
            for s in self.blocks[n].succ:
                if idx[s] <= idx[n] and s not in dom[n]:
                    raise Unsupported('irreducible control flow in ' + self.sym)

@functools.lru_cache(None)
def demangle(sym):
    return subprocess.run(['c++filt', sym], capture_output=True, text=True).stdout.strip()

def compile_ir(src, include, out_prefix, extra=()):
    ll, l2 = out_prefix + '.ll', out_prefix + '.2.ll'
    cmd = ['clang++-18', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
           '-S', '-emit-llvm', '-w', '-I', include, src, '-o', ll, *extra]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('driver does not compile:\n' + r.stderr[:4000])
    r = subprocess.run(['opt-18', '-passes=function(sroa),loop-simplify', '-S', ll, '-o', l2], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('opt failed:\n' + r.stderr[:2000])
    with open(l2) as f:
        return Module(f.read())
