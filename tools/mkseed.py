#!/usr/bin/env python3
"""Plants the bugs of tools/seeds/*.py: writes and validates /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json).

usage: mkseed.py [--check] ID...    (no ID: all that are not there yet)
A seed file calls S(id, property, file, [(old, new), ...], needs, what, demo) where demo is the body of main().
Validation in a scratch copy: patch applies, removed lines are the original repository's, it builds, the stable
tests pass, the demo passes without and fails with the patch; --check also runs the property's check on it.
"""
import sys, os, subprocess, json, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a9836fd'
SEEDS = {}
def S(id, prop, file, edits, needs, what, demo):
    assert id not in SEEDS, id
    SEEDS[id] = (prop, file, edits, needs, what, demo)
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
DEMO_SH = '''#!/bin/sh
# exit 0: the property holds for the demonstrated input; nonzero: it is broken. Run with cwd /repo.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude "$d/demo.cpp" -o "$w/demo" || exit 3
cd "$w" && timeout 60 ./demo
'''
PRE = '''#include <malg/matrix.hpp>
#include <malg/view.hpp>
#include <malg/vector.hpp>
#include <malg/math.hpp>
#include <malg/utility.hpp>
#include <malg/complex_math.hpp>
#include <malg/linalg.hpp>
#include <malg/control/control.hpp>
#include <malg/io.hpp>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <sstream>
using namespace malg;
typedef Matrix<double> M;
typedef Vector<double> Ve;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); std::exit(1); } } while (0)
template <class F> bool refuses(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
int main()
{
'''
def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
def make(id, check):
    prop, file, edits, needs, what, demo = SEEDS[id]
    d = os.path.join(V, 'seeded', id)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        r = os.path.join(w, 'repo')
        sh(['git', 'clone', '-q', '/repo', r])
        p = os.path.join(r, 'include', 'malg', file)
        s = open(p).read()
        for old, new in edits:
            if s.count(old) != 1:
                return 'edit text occurs %d times: %r' % (s.count(old), old[:80])
            s = s.replace(old, new)
        open(p, 'w').write(s)
        diff = sh('git diff', r).stdout
        # removed lines must be lines of the original repository
        bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', 'include/malg/' + file], r).stdout.splitlines()
        basefull = sh(['git', 'rev-parse', BASE], r).stdout.strip()
        old_no, orig, mine = 0, 0, 0
        for l in diff.splitlines():
            if l.startswith('@@'):
                old_no = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('---') or l.startswith('+++'):
                pass
            elif l.startswith('-'):
                h = bl[old_no - 1].split()[0].lstrip('^')
                if sh(['git', 'merge-base', '--is-ancestor', h, BASE], r).returncode == 0:
                    orig += 1
                else:
                    mine += 1
                old_no += 1
            elif l.startswith(' '):
                old_no += 1
        if orig == 0 or mine:
            return 'removed lines: %d original, %d of fix commits' % (orig, mine)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + demo.strip('\n') + '\n    return 0;\n}\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(['sh', os.path.join(d, 'demo.sh')], r)
        if a.returncode == 0:
            return 'demo passes with the patch'
        if a.returncode == 3:
            return 'demo does not compile with patch: ' + a.stderr[-1500:]
        b = sh(['sh', os.path.join(d, 'demo.sh')], '/repo')
        if b.returncode:
            return 'demo fails without the patch: ' + (b.stdout + b.stderr)[-1500:]
        # build and tests in the copy
        bs = open('/opt/vp/build.sh').read().replace('/repo', r)
        ts = open('/opt/vp/test.sh').read().replace('/opt/vp/build.sh', os.path.join(w, 'b.sh')).replace('/repo', r)
        open(os.path.join(w, 'b.sh'), 'w').write(bs)
        open(os.path.join(w, 't.sh'), 'w').write(ts)
        x = sh(['bash', os.path.join(w, 'b.sh')], r)
        if x.returncode:
            return 'build fails: ' + (x.stdout + x.stderr)[-1500:]
        o = os.path.join(w, 'o.json')
        sh(['bash', os.path.join(w, 't.sh'), o], r)
        try:
            res = json.load(open(o))
        except Exception as e:
            return 'tests gave no result'
        bl = json.load(open('/opt/vp/BASELINE.json'))
        base = bl.get('stable') or bl.get('stable_tests') or bl.get('passed') or []
        passed = set(res.get('passed', []))
        lost = [t for t in base if t not in passed]
        if not base or lost:
            return 'stable tests lost: %s' % lost
        msg = 'ok (demo: %s)' % (a.stdout.strip().splitlines() or a.stderr.strip().splitlines()[:1] or ['?'])[-1][:100]
        if check:
            c = sh([os.path.join(V, 'check.py'), prop], V, dict(os.environ, MALG_REPO=r, MALG_EVIDENCE=w), 900)
            last = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += '\n      check exit %d %s\n        %s' % (c.returncode, ' '.join(last), '\n        '.join(x[:260] for x in c.stdout.splitlines()[:6]))
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    args = sys.argv[1:]
    check = '--check' in args
    ids = [a for a in args if not a.startswith('-')] or [i for i in SEEDS if not os.path.exists(os.path.join(V, 'seeded', i, 'meta.json'))]
    full = [i for i in SEEDS for a in ids if i == a or (a.endswith('*') and i.startswith(a[:-1]))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3 if check else 6) as ex:
        for i, m in zip(full, ex.map(lambda i: make(i, check), full)):
            print(i, SEEDS[i][0], m)
            if not m.startswith('ok'):
                shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
