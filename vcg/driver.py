"""Builds the driver translation unit (only instantiates the library's functions) and runs contracts."""
import os, sys, time, subprocess, importlib, hashlib, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import ir, core, spec
from ir import Unsupported

PRELUDE = '''#include <cassert>
#include <stdexcept>
#include <limits>
#include <new>
#include <tuple>
#include <complex>
#include <malg/matrix.hpp>
#include <malg/view.hpp>
#include <malg/vector.hpp>
#include <malg/math.hpp>
#include <malg/linalg.hpp>
#include <malg/control/control.hpp>
#include <malg/io.hpp>
using namespace malg;
typedef MatrixBase<double> MB; typedef Matrix<double> MD; typedef Vector<double> VD; typedef std::size_t Z;
typedef std::complex<double> X; typedef MatrixBase<X> MBX; typedef Matrix<X> MX; typedef Vector<X> VX;
typedef MatrixBase<int> MBI; typedef Matrix<int> MI; typedef Vector<int> VI;
typedef MatrixBase<bool> MBO; typedef Matrix<bool> MO; typedef Vector<bool> VO; typedef MatrixBase<Z> MBZ; typedef Matrix<Z> MZ; typedef Vector<Z> VZ; typedef std::vector<Z> SV; typedef std::vector<VD> LV; typedef control::DiscreteStateSpace<double> DS; typedef control::StateSpace<double> SS; typedef View<MD> VW; typedef View<const MD> VWC; typedef CofactorView<MD> CV; typedef CofactorView<const MB> CVC; typedef View<MI> VWI; typedef View<const MI> VWCI; typedef CofactorView<MI> CVI; typedef CofactorView<const MBI> CVCI; typedef View<MX> VWX; typedef View<const MX> VWCX; typedef CofactorView<MX> CVX; typedef CofactorView<const MBX> CVCX; typedef View<MB> VWB; typedef View<MBI> VWBI; typedef View<MBX> VWBX; typedef CofactorView<MB> CVB; typedef CofactorView<MBI> CVBI; typedef CofactorView<MBX> CVBX;
extern "C" {
Z vx_slot_rows(const MB&m){return m.rows();}
Z vx_slot_cols(const MB&m){return m.cols();}
Z vx_slot_size(const MB&m){return m.size();}
bool vx_slot_empty(const MB&m){return m.empty();}
double* vx_slot_data(MB&m){return m.data();}
const double* vx_slot_cdata(const MB&m){return m.data();}
double& vx_slot_index(MB&m,Z i){return m[i];}
const double& vx_slot_cindex(const MB&m,Z i){return m[i];}
double& vx_slot_call(MB&m,Z i,Z j){return m(i,j);}
const double& vx_slot_ccall(const MB&m,Z i,Z j){return m(i,j);}
double& vx_slot_at(MB&m,Z i,Z j){return m.at(i,j);}
const double& vx_slot_cat(const MB&m,Z i,Z j){return m.at(i,j);}
'''

def load_contracts():
    if spec.ALL:
        return
    g = {'__name__': 'contracts'}
    exec('from spec import *\nfrom core import *\nimport z3\n', g)
    lib = dict(g)
    for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))):
        if f.endswith('.py') and not f.startswith('_'):
            src = open(os.path.join(ROOT, 'contracts', f)).read()
            exec(compile(src, os.path.join('contracts', f), 'exec'), g)
            bad = [n for n in lib if g.get(n) is not lib[n] and not n.startswith('_')]
            assert not bad, (f, bad)         # the contract files share one name space

def closure(names):
    by = {c.name: c for c in spec.ALL}
    out, todo = [], list(names)
    base = [c.name for c in spec.ALL if 'base' in c.props]
    todo = base + todo
    seen = set()
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.add(n)
        c = by[n]
        out.append(c)
        todo += c.uses
    return out

def source(cs):
    out = [PRELUDE]
    for c in cs:
        if c.pre:
            out.append('} ' + c.pre + ' extern "C" {')
        for w, code in zip(c.via, c.code):
            out.append(code.replace('$', w))
    out.append('}')
    return '\n'.join(out) + '\n'

def build(cs, work, include='/repo/include', tag='drv'):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, tag + '.cpp')
    open(src, 'w').write(source(cs))
    mod = ir.compile_ir(src, include, os.path.join(work, tag))
    return mod

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('-p', '--prop')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--work', default='/tmp/w/drv')
    ap.add_argument('--include', default='/repo/include')
    ap.add_argument('--only', help='verify these alone (with every contract of the group in view)')
    ap.add_argument('--budget', type=float, default=120)
    a = ap.parse_args()
    load_contracts()
    if a.prop:
        a.names += [c.name for c in spec.ALL if a.prop in c.props]
    cs = closure(a.names)
    t = time.time()
    try:
        mod = build(cs, a.work, a.include)
    except Exception as e:
        print(e)
        sys.exit(2)
    reg = spec.registry(mod, cs)
    print('build %.1fs' % (time.time() - t))
    import traceback
    for n in (a.only.split(',') if a.only else a.names):
        c = reg.byname[n]
        for w in c.via:
            for al in [None] + c.alias:
                t = time.time()
                nm = w + (str(al) if al else '')
                try:
                    ex = c.verify(mod, c.sym[w], reg, {}, print if a.v else (lambda *x: None), al, a.budget)
                    t1 = time.time() - t
                    bad = spec.discharge(ex.obs)
                    print('%-28s %s  obs %d  %.1fs+%.1fs' % (nm, 'OK' if not bad else 'FAIL', len(ex.obs), t1, time.time() - t - t1))
                    seen = set()
                    for o in bad:
                        if (o.kind, o.label) not in seen:
                            seen.add((o.kind, o.label))
                            print('     ', o.kind, o.label, str(o.goal)[:200].replace('\n', ' '))
                            if a.v:
                                for p in o.pc: print('         ', str(p).replace('\n', ' ')[:200])
                except Unsupported as e:
                    print('%-28s UNSUPPORTED %s (%.1fs)' % (nm, e, time.time() - t))
                    if a.v: traceback.print_exc()
                except Exception as e:
                    print('%-28s ERROR %s' % (nm, e))
                    print(''.join(traceback.format_exc().splitlines(True)[-12:]))
