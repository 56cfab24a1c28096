#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: proves the contracts of one property on /repo's current source.

1. compiles a driver that only instantiates /repo's functions and takes their LLVM IR (extraction);
2. generates and discharges every obligation of every function of the property (vcg/);
3. runs the replay harness of the property on the real code: turns a failed obligation into a failing
   input, and is the (labelled) bounded check of what the proofs do not cover.
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, re, select, resource
V = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if 'z3' not in sys.modules:
    try:
        import z3
    except ImportError:
        os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.join(V, 'vcg'))
import driver, spec, core, ir
from ir import Unsupported
from exec import canon

REPO = os.environ.get('MALG_REPO', '/repo')
EVID = os.environ.get('MALG_EVIDENCE', os.path.join(V, 'evidence'))
INC = os.path.join(REPO, 'include')
JOBS = int(os.environ.get('MALG_JOBS', str(os.cpu_count() or 4)))

BOUNDED = json.load(open(os.path.join(V, 'bounded.json'))) if os.path.exists(os.path.join(V, 'bounded.json')) else {}

ASSUMPTIONS = [
    'double arithmetic is treated as exact real arithmetic (no rounding, no overflow, no NaN/infinity)',
    'matrix dimensions are at most 2^%d and vector sizes at most 2^%d on entry, so products of dimensions fit in size_t; every size computation inside the functions is then checked not to wrap' % (core.MAXDIM.bit_length() - 1, core.MAXLEN.bit_length() - 1),
    'int elements: every sum, difference, product and negation formed stays in the range of int (stated as a precondition, its uses are obligations; assumed at every step of the determinant of an int matrix); products and quotients of int elements are uninterpreted functions of the operands (commutative product)',
    'complex elements are pairs of reals; complex quotient and modulus are uninterpreted functions of the parts; sqrt, exp, pow and the functions passed to element_wise_function are uninterpreted',
    'the tolerance of malg::feq lies in [0,1)',
    'realloc succeeds (the library does not check it)',
    'scalar parameters passed by reference and elements written do not overlap unless the contract is also proved for the aliased call (aliased matrix/vector operands are proved separately where listed)',
    'a view operand denotes a matrix object whose virtual operations meet the interface contract (proved for Matrix, View and CofactorView in P03, P05, P06)',
    'clang++-18 -O1-level SSA construction preserves the semantics of the source; the instantiations proved are the ones listed under functions (elements double, int, std::complex<double>, and mixtures of them)',
    'std::vector, std::pair/tuple, iostream and <cmath> behave as specified (inlined where header-only, otherwise uninterpreted)',
]

def known():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) group=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out

# ---------------------------------------------------------------- proofs
def job(mod, reg, c, w, al, budget, tier):
    t = time.time()
    r = dict(contract=c.name, wrapper=w, alias=al, function=ir.demangle(c.sym[w])[:300], status='proved', obligations=0, discharged=0,
             kinds={}, backends={}, failed=[], note='')
    try:
        ex = c.verify(mod, c.sym[w], reg, {}, lambda *a: None, al, budget)
        bad = spec.discharge(ex.obs)
        r['obligations'] = len(ex.obs)
        r['discharged'] = len(ex.obs) - len(bad)
        for o in ex.obs:
            r['kinds'][o.kind] = r['kinds'].get(o.kind, 0) + 1
            b = o.backend or 'z3'
            if o.status == 'proved':
                r['backends'][b] = r['backends'].get(b, 0) + 1
        seen = set()
        for o in bad:
            if (o.kind, o.label) not in seen:
                seen.add((o.kind, o.label))
                r['failed'].append(dict(kind=o.kind, label=o.label, goal=str(o.goal)[:600], path=[str(p)[:300] for p in o.pc[-25:]]))
        if bad:
            r['status'] = 'failed'
        r['uses'] = sorted(ex.usedc)
        r['sym'], r['calls'] = canon(ex.root), sorted(ex.calls - {canon(ex.root)})
        r['inlined'] = sorted(ir.demangle(s)[:160] for s in ex.inlined if s != ex.root)
        r['trusted'] = sorted(ex.trusted)
        if tier == 'thorough' and not bad:
            r['cvc5'] = second(ex.obs)
    except Unsupported as e:
        r['status'], r['note'] = 'unsupported', str(e)[:300]
    except RecursionError:
        r['status'], r['note'] = 'unsupported', 'recursion limit'
    except Exception as e:
        import traceback
        r['status'], r['note'] = 'unsupported', ('%s: %s' % (type(e).__name__, e))[:300]
        r['trace'] = traceback.format_exc()[-1500:]
    r['solver_s'] = round(core.STATS.time, 3)
    r['queries'] = core.STATS.queries
    r['wall_s'] = round(time.time() - t, 3)
    return r

def mutual(res):
    """results of functions that reach themselves through the contracts of other functions (their proofs would be circular)"""
    g = {}
    for r in res:
        g.setdefault(r.get('sym'), set()).update(r.get('calls', ()))
    out = []
    for r in res:
        seen, todo = set(), list(r.get('calls', ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        if r.get('sym') in seen and r['status'] == 'proved':
            out.append(r)
    return out

def second(obs):
    """re-discharges the explicit obligations with cvc5 (second back end)"""
    import z3
    n = dict(agreed=0, unknown=0, disagreed=0)
    for o in obs[:400]:
        if o.backend != 'z3' or z3.is_true(o.goal):
            continue
        s = z3.Solver()
        for a in core.AXIOMS:
            s.add(a)
        for p in o.pc:
            s.add(p)
        for q in o.q:
            for tup in o.inst:
                if len(tup) == q.nd:
                    f = q.fn(*tup)
                    if f is not None:
                        s.add(f)
        s.add(z3.Not(o.goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=5000', '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=10)
            a = p.stdout.strip().splitlines()[:1]
        except subprocess.TimeoutExpired:
            a = ['unknown']
        k = 'agreed' if a == ['unsat'] else 'disagreed' if a == ['sat'] else 'unknown'
        n[k] += 1
    return n

class Pool:
    def __init__(self, n):
        self.n, self.run, self.todo, self.res = n, {}, [], []
    def add(self, fn, fallback, limit):
        self.todo.append((fn, fallback, limit))
    def start(self):
        while self.todo and len(self.run) < self.n:
            fn, fb, limit = self.todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    sys.setrecursionlimit(20000)
                    data = json.dumps(fn()).encode()
                    f = os.fdopen(w, 'wb')
                    f.write(data)
                    f.close()
                finally:
                    os._exit(0)
            os.close(w)
            self.run[r] = [pid, b'', fb, time.time() + limit]
    def wait(self):
        self.start()
        while self.run:
            rd, _, _ = select.select(list(self.run), [], [], 0.5)
            for r in rd:
                b = os.read(r, 1 << 16)
                if b:
                    self.run[r][1] += b
                    continue
                pid, data, fb, _ = self.run.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    self.res.append(json.loads(data))
                except ValueError:
                    self.res.append(dict(fb, note='the prover process ended without an answer'))
            for r in list(self.run):
                pid, data, fb, dl = self.run[r]
                if time.time() > dl:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    os.close(r)
                    del self.run[r]
                    self.res.append(dict(fb, note='time budget exhausted'))
            self.start()
        return self.res

# ---------------------------------------------------------------- replay on the real code
def replay_build(pid, work):
    src = os.path.join(V, 'replay', pid + '.cpp')
    if not os.path.exists(src):
        return None
    exe = os.path.join(work, 'replay_' + pid)
    cmd = ['clang++', '-w', '-std=c++17', '-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-I' + INC, '-I' + os.path.join(V, 'replay'), src, '-o', exe]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), exe, cmd

def replay_run(exe, work, seed, scale, limit):
    d = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', TMPDIR=d)
    p = subprocess.run([exe, '--seed', str(seed), '--scale', str(scale), '--limit', str(limit)], cwd=d, env=env, capture_output=True, text=True,
                       errors='replace', timeout=limit * 40 + 60)
    return p.returncode, p.stdout, p.stderr

def parse_replay(out):
    groups, fails, tot = {}, [], dict(evals=0, distinct=0, checks=0)
    for l in out.splitlines():
        m = re.match(r'OK group=(\S+) evals=(\d+) distinct=(\d+) checks=(\d+)', l)
        if m:
            groups[m.group(1)] = dict(status='ok', evals=int(m.group(2)), distinct=int(m.group(3)), checks=int(m.group(4)))
        m = re.match(r'FAIL group=(\S+) (.*)', l)
        if m:
            groups[m.group(1)] = dict(status='fail', detail=m.group(2)[:3000])
            fails.append((m.group(1), m.group(2)))
        m = re.match(r'TOTAL evals=(\d+) distinct=(\d+) checks=(\d+)', l)
        if m:
            tot = dict(evals=int(m.group(1)), distinct=int(m.group(2)), checks=int(m.group(3)))
    return groups, fails, tot

def lean_check(work):
    """the arithmetic lemmas the obligations use, proved in Lean"""
    src = os.path.join(V, 'lean', 'Lemmas.lean')
    if not os.path.exists(src):
        return None
    return subprocess.Popen(['lean', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='malgcheck.')
    code = 1
    try:
        code = run(pid, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def run(pid, tier, seed, t0, work):
    quick = tier != 'thorough'
    os.makedirs(EVID, exist_ok=True)
    driver.load_contracts()
    mine = [c for c in spec.ALL if pid in c.props]
    if not quick:      # thorough: the contracts the property's functions are checked against are proved again too
        mine += [c for c in spec.ALL if 'base' in c.props and c not in mine]
    cs = driver.closure([c.name for c in mine])
    rb = replay_build(pid, work)
    lean = lean_check(work) if not quick else None
    notes, build_err = [], None
    res = []
    t_build = time.time()
    mod = None
    if mine:
        try:
            mod = driver.build(cs, work, INC)
            reg = spec.registry(mod, cs)
        except Exception as e:
            build_err = str(e)[-3000:]
    t_build = time.time() - t_build
    if mod is not None:
        pool = Pool(JOBS)
        budget = 100 if quick else 600
        js = []
        for c in mine:
            for w in c.via:
                for al in [None] + c.alias:
                    fb = dict(contract=c.name, wrapper=w, alias=al, function=c.name, status='unsupported', obligations=0, discharged=0,
                              kinds={}, backends={}, failed=[], note='', solver_s=0, queries=0, wall_s=budget)
                    if w not in c.sym:
                        fb['note'] = 'wrapper not in the module'
                        res.append(fb)
                        continue
                    js.append((-c.cost, c, w, al, fb))
        js.sort(key=lambda x: x[0])
        for _, c, w, al, fb in js:
            pool.add(lambda c=c, w=w, al=al: job(mod, reg, c, w, al, budget, tier), fb, budget + 60)
        res += pool.wait()
        for r in mutual(res):
            r['status'], r['note'] = 'unsupported', 'calls itself through another function under contract: no measure for that'
    # ---- replay
    groups, fails, tot, rlog = {}, [], dict(evals=0, distinct=0, checks=0), ''
    rerr = None
    proved_ok = build_err is None and all(r['status'] == 'proved' for r in res)
    if rb:
        p, exe, cmd = rb
        out, _ = p.communicate()
        if p.returncode != 0:
            rerr = 'the replay harness does not compile against this tree:\n' + ' '.join(cmd) + '\n' + out[-6000:]
        else:
            runs = [(seed, 1)] if quick else [(seed + k, 12) for k in range(4)]
            if quick and not proved_ok:
                runs = [(seed, 1), (seed + 1, 6)]
            for sd, sc in runs:
                try:
                    rc, so, se = replay_run(exe, work, sd, sc, 60 if quick else 300)
                except subprocess.TimeoutExpired:
                    rlog += 'replay run seed %d: time limit\n' % sd
                    continue
                g, f, tt = parse_replay(so)
                for k, v in g.items():
                    if k not in groups or v['status'] != 'ok':
                        groups[k] = v
                    elif groups[k]['status'] == 'ok':
                        for q in ('evals', 'distinct', 'checks'):
                            groups[k][q] += v[q]
                fails += [x for x in f if x[0] not in [y[0] for y in fails]]
                for k in tot:
                    tot[k] += tt[k]
                rlog += so + se[-6000:]
                if rc != 0 and not f:
                    fails.append(('run', 'replay harness ended with status %d: %s' % (rc, se[-1500:])))
                if fails:
                    break
    kn = [(g, d) for p, g, d in known() if p == pid]
    kf = [(g, d) for g, d in kn if any(f[0] == g for f in fails)]
    fails = [f for f in fails if f[0] not in [g for g, d in kf]]
    failed = [r for r in res if r['status'] == 'failed']
    unsup = [r for r in res if r['status'] == 'unsupported']
    lean_res = None
    if lean:
        out, _ = lean.communicate()
        ax = re.findall(r"'(\S+)' depends on axioms: \[([^\]]*)\]", out) + [(n, '') for n in re.findall(r"'(\S+)' does not depend on any axioms", out)]
        bad = [n for n, a in ax if not set(a.replace(',', ' ').split()) <= {'propext', 'Classical.choice', 'Quot.sound'}]
        src = open(os.path.join(V, 'lean', 'Lemmas.lean')).read()
        sizes = 'a ≤ 2 ^ %d) (h2 : b ≤ 2 ^ %d) : a * b ≤ 2 ^ %d' % (2 * (core.MAXDIM.bit_length() - 1,) + (core.MAXLEN.bit_length() - 1,)) in src
        miss = sorted({n for n in core.AXIOM_LEAN if '(' not in n} - {n for n, a in ax})
        lean_res = dict(rc=lean.returncode or (1 if bad or miss or not ax or not sizes else 0), theorems=len(ax), with_other_axioms=bad, missing=miss,
                        axioms=[dict(axiom=x, theorem=y) for x, y in zip(core.AXIOM_NAMES, core.AXIOM_LEAN)], output=out[-600:])
    rpath = os.path.join(EVID, pid + '.replay.txt')
    violations = []
    def write(txt):
        open(rpath, 'w').write(txt)
    line = None
    if fails or failed or rerr or (build_err and rerr):
        txt = 'property %s, tier %s, seed %d, repository %s\n\n' % (pid, tier, seed, REPO)
        for g, d in fails:
            txt += 'FAILING INPUT (real code, %s/replay/%s.cpp group %s):\n  %s\n\n' % (V, pid, g, d)
            violations.append('replay %s: %s' % (g, d[:300]))
        for r in failed:
            txt += 'FAILED OBLIGATIONS of %s%s\n  function %s\n' % (r['wrapper'], ' aliased %s' % (r['alias'],) if r['alias'] else '', r['function'])
            for f in r['failed']:
                txt += '  [%s] %s\n     goal: %s\n     path:\n' % (f['kind'], f['label'], f['goal']) + ''.join('        %s\n' % q for q in f['path'])
                violations.append('obligation %s [%s] %s' % (r['wrapper'], f['kind'], f['label']))
            txt += '\n'
        if build_err:
            txt += 'EXTRACTION FAILED:\n%s\n\n' % build_err
        if rerr:
            txt += rerr + '\n'
            violations.append('does not compile: ' + rerr[-400:])
        txt += '\nreplay log:\n' + rlog
        write(txt)
        line = 'VIOLATION property=%s replay=%s' % (pid, rpath)
        if not fails and not rerr:
            line += ' no-failing-input-found'
    elif os.path.exists(rpath):
        os.unlink(rpath)
    # ---- evidence
    kinds, backs = {}, {}
    for r in res:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in r['backends'].items():
            backs[k] = backs.get(k, 0) + v
    trusted = sorted({t for r in res for t in r.get('trusted', [])})
    own = {r['contract'] for r in res if r['status'] == 'proved'}
    deps = sorted({u for r in res for u in r.get('uses', [])} - own)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=sum(r['obligations'] for r in res), discharged=sum(r['discharged'] for r in res),
            checker_cmd='/verif/check.py %s --tier %s' % (pid, tier),
            trusted_base=['vcg (VC generator over LLVM IR, /verif/vcg)', 'clang++-18/opt-18 (source to SSA)', 'z3 %s' % core.z3.get_version_string(),
                          'Lean 4 + Mathlib for the arithmetic and algebra lemmas (/verif/lean/Lemmas.lean)'] + trusted,
            functions_under_contract=len(res), functions_proved=sum(r['status'] == 'proved' for r in res),
            functions=[dict(function=r['function'], contract=r['contract'], alias=r['alias'], status=r['status'], obligations=r['obligations'],
                            discharged=r['discharged'], solver_s=r['solver_s'], queries=r['queries'], note=r['note'], inlined=r.get('inlined', []),
                            cvc5=r.get('cvc5')) for r in sorted(res, key=lambda r: r['wrapper'])],
            obligations_by_kind=kinds, discharged_by_backend=backs,
            solver_s=round(sum(r['solver_s'] for r in res), 2), solver_queries=sum(r['queries'] for r in res),
            contracts_assumed_here_proved_elsewhere=deps,
            not_proved=[dict(contract=r['contract'], function=r['function'], why=r['note']) for r in unsup],
            extraction=dict(how='clang++-18 -std=c++17 -O1 -Xclang -disable-llvm-passes on a driver that only calls the library functions, then opt-18 sroa and loop-simplify; nothing is dropped from their bodies',
                            seconds=round(t_build, 2), error=build_err),
            bounded=dict(what='replay of the real code against independent oracles (not counted as proved)', functions=BOUNDED.get(pid, []), groups=groups, **tot),
            lean=lean_res),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=violations)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    # ---- verdict
    for g, d in kf:
        print('KNOWN-FINDING: property=%s group=%s %s' % (pid, g, d))
    print('%s %s: %d functions under contract, %d proved, %d failed, %d not reached by the verifier; obligations %d/%d; replay %d inputs (%d distinct); %.1fs' % (
        pid, tier, len(res), ev['coverage']['functions_proved'], len(failed), len(unsup), ev['coverage']['discharged'], ev['coverage']['obligations'],
        tot['evals'], tot['distinct'], time.time() - t0))
    for r in unsup:
        print('  not proved (bounded replay only): %s %s: %s' % (r['wrapper'], r['alias'] or '', r['note']))
    if build_err:
        print('  extraction failed (bounded replay only): ' + build_err[-300:].replace('\n', ' '))
    if lean_res and lean_res['rc']:
        print('  Lean lemmas not checked: ' + lean_res['output'][-300:])
    if line:
        for v in violations[:10]:
            print('  ' + v[:400].replace('\n', ' '))
        print(line)
        return 1
    return 0

if __name__ == '__main__':
    main()
