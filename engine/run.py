"""Compile a unit (real source + contracts) to LLVM IR and discharge its obligations."""
import importlib.util
import json
import re
import os
import subprocess
import sys
import time
import faulthandler, signal
faulthandler.register(signal.SIGUSR1)
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'units'))
import z3
import sym
import ir
REPO = os.environ.get('IRV_REPO', '/repo')


def load_spec(unit):
    p = os.path.join(ROOT, 'units', unit + '.py')
    sp = importlib.util.spec_from_file_location('unit_' + unit, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def compile_unit(unit, out, spec, extra=()):
    cmd = ['clang++', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti',
           '-fno-access-control', '-fno-threadsafe-statics', '-g', '-w', '-S', '-emit-llvm',
           '-I' + os.path.join(ROOT, 'spec', 'std')]
    cmd += ['-I' + os.path.join(ROOT, d) for d in getattr(spec, 'INCLUDES', [])]
    cmd += ['-I' + REPO + '/include', '-I' + REPO + '/src']
    if hasattr(spec, 'GENERATE'):
        gen = out + '.gen'
        os.makedirs(gen, exist_ok=True)
        try:
            spec.GENERATE(REPO, gen, [os.path.join(ROOT, 'spec', 'std')])
        except Exception as e:
            return 1, 'extraction failed: %r' % e, ''
        cmd += ['-I' + gen]
    cmd += list(getattr(spec, 'FLAGS', [])) + list(extra)
    cmd += [os.path.join(ROOT, 'units', getattr(spec, 'SOURCE', unit) + '.cpp'), '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr, ' '.join(cmd)


def check_lemmas(E):
    """induction step of every lemma about a recursive specification function:
    the claim at the recursive occurrences implies the claim at the application"""
    out = []
    for nm, d in E.sf.items():
        if not d.get('lemma'):
            continue
        un = d['unfold']
        n = un.__code__.co_argcount
        F = z3.Function(nm, *([z3.IntSort()] * (n + 1)))
        xs = [z3.Int('lem%d' % i) for i in range(n)]
        body = un(*xs)
        rec = [a for a in E.apps(body).values() if a.decl().name() == nm]
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(F(*xs) == body)
        for a in E.apps(body).values():
            dd = E.sf.get(a.decl().name())
            if dd and 'range' in dd:
                s.add(a >= dd['range'][0], a <= dd['range'][1])
        for a in rec:
            s.add(*d['axiom'](a, *a.children()))
        s.add(z3.Not(z3.And(*d['axiom'](F(*xs), *xs))))
        t = time.time()
        r = str(s.check())
        out.append(('lemma.' + nm, r == 'unsat', time.time() - t))
    return out


def bind_contracts(M, table):
    """functions of the real source that are replaced at call sites by their contract"""
    if not table:
        return {}
    names = [n for n, f in M.functions.items() if n.startswith('_Z') and not f.decl]
    dem = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    out = {}
    drop = set(filter(None, os.environ.get('IRV_WITHOUT', '').split(',')))
    for n, d in zip(names, dem):
        for rx, c in table.items():
            if c not in drop and re.fullmatch(rx, d):
                out[n] = c
    return out


def run_harness(unit, harness, ll, budget=float(os.environ.get("IRV_BUDGET", "600")), debug=False):
    ir.Function.ROTATE = False
    t = time.time()
    res = run_cut(unit, harness, ll, budget, debug)
    # the same obligations again with loops cut before their step, and with more candidate invariants
    for rot, rich in ((True, False), (False, True)):
        if res['status'] != 'failed' or rot and not res.get('rotatable') or rich and not any(str(v).startswith('inv') for v in res['loops'].values()):
            continue
        used = time.time() - t
        if budget - used < max(20, 2 * res['time']):
            break
        ir.Function.ROTATE = rot
        r2 = run_cut(unit, harness, ll, budget - used - 5, debug, dict(rich=rich))
        ir.Function.ROTATE = False
        if r2['status'] == 'proved':
            r2['time'] = round(time.time() - t, 2)
            res = r2
    return res


def run_cut(unit, harness, ll, budget, debug=False, more=()):
    spec = load_spec(unit)
    t0 = time.time()
    res = dict(unit=unit, harness=harness, status='error', obligations={}, failed=[], covers={})
    try:
        M = ir.Module(ll)
        E = sym.Engine(M, dict(spec.SPEC), dict(getattr(spec, 'OPTS', {}), **dict(more)))
        E.deadline = time.time() + budget
        E.contracts = bind_contracts(M, getattr(spec, 'CONTRACTS', {}).get(harness, {}))
        res['lemmas'] = check_lemmas(E)
        ends = E.run_function(harness)
        obls = E.discharge()
        cnt = {}
        for o in obls:
            c = cnt.setdefault(o.id, dict(proved=0, failed=0, unknown=0, time=0.0))
            c[o.status] += 1
            c['time'] += o.time
            if o.status != 'proved':
                res['failed'].append(dict(id=o.id, loc=o.loc, status=o.status, fn=o.fn, model=o.model,
                                          goal=str(o.goal)[:600]))
        for nm, ok, t in res['lemmas']:
            c = cnt.setdefault(nm, dict(proved=0, failed=0, unknown=0, time=0.0))
            c['proved' if ok else 'failed'] += 1
            if not ok:
                res['failed'].append(dict(id=nm, loc='spec', status='failed', fn=nm, model=None, goal=''))
        res['obligations'] = cnt
        res['covers'] = E.covers
        res['paths'] = len(ends)
        res['loops'] = E.stats['loops']
        res['queries'] = E.stats['queries']
        res['solver_time'] = round(E.stats['qtime'], 2)
        res['rotatable'] = any(M.functions[f].rotated for f in E.stats['functions'] if f in M.functions and not M.functions[f].decl and M.functions[f].loops)
        res['functions'] = sorted(E.stats['functions'])
        res['contracts_used'] = sorted(E.stats['contracts'])
        res['externals'] = sorted(E.stats['externals'])
        res['status'] = 'failed' if res['failed'] else 'proved'
        if not ends and not res['failed']:
            raise sym.Unsupported('no path reaches the end of the harness (vacuous)')
    except sym.Unsupported as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
        if debug:
            traceback.print_exc()
    except Exception as e:
        res['status'] = 'error'
        res['reason'] = traceback.format_exc()
    res['time'] = round(time.time() - t0, 2)
    return res


if __name__ == '__main__':
    unit, harness = sys.argv[1], sys.argv[2]
    ll = sys.argv[3] if len(sys.argv) > 3 else None
    if ll is None:
        ll = '/tmp/irv.%s.%d.ll' % (unit, os.getpid())
        rc, err, cmd = compile_unit(unit, ll, load_spec(unit))
        if rc:
            print(err[:4000])
            sys.exit(2)
    r = run_harness(unit, harness, ll, debug=True)
    if os.environ.get('IRV_JSON'):
        json.dump(r, open(os.environ['IRV_JSON'], 'w'))
    for k, v in sorted(r['obligations'].items()):
        print('%-50s %s' % (k, v))
    for f in r['failed'][:12]:
        print('FAILED', f['id'], f['loc'], f['status'], f['goal'][:200])
    print({k: v for k, v in r.items() if k not in ('obligations', 'failed', 'functions')})
