#!/opt/veriftools/pyvenv/bin/python3
"""Soundness fuzzing of the verifier: random C++ programs (memory of mixed widths, aliasing, loops, callees,
globals, virtual calls, heap) are run natively on random inputs; the verifier must never prove the claim that
the observed execution does not happen, and must prove the true claim where there is no loop.
usage: fuzz.py seed count"""
import os, random, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine')
os.chdir(ROOT)
import run as irv
import json
seed, count = int(sys.argv[1]), int(sys.argv[2])

PRE = r'''
#ifdef NATIVE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
static unsigned long IN[8];
static bool __spec_choice_(int i) { return IN[i] & 1; }
#else
#include <spec.h>
#endif
#include <string.h>
#include <new>
struct Sh { virtual unsigned long f(unsigned long x) { return x + 1; } unsigned long m; Sh() : m(3) {} };
struct Sq : Sh { unsigned long f(unsigned long x) override { m += x; return m ^ x; } };
struct P { unsigned a; unsigned char b[6]; short s; };
extern "C" { unsigned long g_a, g_b; int g_i; unsigned char g_buf[16]; unsigned g_w[4]; P g_p; unsigned long* g_ptr; }
'''


class G:
    def __init__(self, r, loops):
        self.r, self.loops, self.n, self.depth = r, loops, 0, 0
        self.helpers = []
        self.inh = False

    def v(self):
        return self.r.choice(['a', 'b', 'c', 'x0', 'x1', 'g_a', 'g_b', 'static_cast<unsigned long>(g_i)', 'g_w[%d]' % self.r.randrange(4), 'g_buf[%d]' % self.r.randrange(16),
                              'loc[%d]' % self.r.randrange(4), 'g_p.a', 'g_p.b[%d]' % self.r.randrange(6), 'static_cast<unsigned long>(g_p.s)', 'gp->a', 'hp[%d]' % self.r.randrange(3), '*g_ptr'])

    def e(self, d=0):
        k = self.r.randrange(9)
        if d > 2 or k < 3:
            return self.v()
        if k == 3:
            return str(self.r.choice([0, 1, 2, 3, 7, 255, 256, 65535, 0xffffffff, (1 << 63) - 1]) ) + 'UL'
        if k == 4:
            return '(%s %s %s)' % (self.e(d + 1), self.r.choice(['+', '-', '^', '&', '|']), self.e(d + 1))
        if k == 5:
            return '(%s %s %d)' % (self.e(d + 1), self.r.choice(['>>', '<<']), self.r.randrange(1, 20))
        if k == 6:
            return '(%s ? %s : %s)' % (self.c(d + 1), self.e(d + 1), self.e(d + 1))
        if k == 7:
            return 'static_cast<%s>(%s)' % (self.r.choice(['unsigned char', 'signed char', 'int', 'unsigned', 'short', 'long']), self.e(d + 1))
        return '(%s %s %d)' % (self.v(), self.r.choice(['/', '%', '*']), self.r.choice([2, 3, 4, 8, 16]))

    def c(self, d=0):
        return '%s %s %s' % (self.e(d + 1), self.r.choice(['<', '<=', '==', '!=', '>', '>=']), self.e(d + 1))

    def lv(self):
        return self.r.choice(['a', 'b', 'c', 'g_a', 'g_b', 'g_i', 'g_w[%d]' % self.r.randrange(4), 'g_buf[%s & 15]' % self.v(), 'loc[%s & 3]' % self.v(), 'g_p.a', 'g_p.b[%s %% 6]' % self.v(), 'g_p.s', 'gp->a', 'hp[%s %% 3]' % self.v(), '*g_ptr'])

    def s(self, d=0):
        k = self.r.randrange(16)
        if k < 6 or d > 2:
            return '%s %s %s;' % (self.lv(), self.r.choice(['=', '=', '+=', '^=']), self.e())
        if k == 6:
            return 'if (%s) { %s } else { %s }' % (self.c(), self.s(d + 1), self.s(d + 1))
        if k == 7:
            n = self.r.choice([1, 2, 3, 4, 5, 8]); o = self.r.randrange(16 - n + 1)
            return 'memcpy(g_buf + %d, &%s, %d);' % (o, self.r.choice(['g_a', 'b', 'c', 'g_p']), n)
        if k == 8:
            n = self.r.choice([1, 2, 3, 4, 5, 8])
            return 'memcpy(&%s, g_buf + %d, %d);' % (self.r.choice(['a', 'g_b', 'g_p', 'loc[1]']), self.r.randrange(16 - n + 1), n)
        if k == 9:
            return 'switch (%s & 3) { case 0: %s break; case 1: %s case 2: %s break; default: %s }' % (self.v(), self.s(d + 1), self.s(d + 1), self.s(d + 1), self.s(d + 1))
        if k == 10:
            return 'a ^= sh->f(%s);' % self.e()
        if k == 11:
            return 'g_ptr = %s ? &g_a : %s;' % (self.c(), '&g_b' if self.inh else self.r.choice(['&loc[0]', '&hp[1]', '&g_b', '&b']))
        if k == 12 and self.helpers and d < 2:
            return 'b += h%d(%s, &%s);' % (self.r.randrange(len(self.helpers)), self.e(), self.r.choice(['g_a', 'loc[2]', 'c', 'hp[0]', '*g_ptr']))
        if k == 13:
            return 'gp = %s ? &g_p : &lp;' % self.c()
        if k >= 14 and self.loops and d < 2:
            self.n += 1
            i = 'i%d' % self.n
            bound = self.r.choice(['(%s & 7)' % self.v(), '(x0 & 3)', '(x1 %% 5)', '4'])
            bound = bound.replace('%%', '%')
            body = ' '.join(self.s(d + 1) for _ in range(self.r.randrange(1, 4)))
            brk = 'if (%s) %s;' % (self.c(), self.r.choice(['break', 'continue'])) if self.r.random() < .4 else ''
            return '{ unsigned long n%s = %s; for (unsigned long %s = 0; %s < n%s; %s++) { %s %s a += %s; } }' % (i, bound, i, i, i, i, body, brk, i)
        return '%s = %s;' % (self.lv(), self.e())

    def helper(self):
        n = len(self.helpers)
        self.inh = True
        body = ' '.join(self.s(1) for _ in range(self.r.randrange(1, 5)))
        t = ('static unsigned long h%d(unsigned long x0, unsigned long* q) { unsigned long a = x0, b = *q, c = 5, x1 = *q; unsigned long loc[4] = {1, 2, x0, 4}; P lp; memset(&lp, 0, sizeof lp); P* gp = &g_p; unsigned long* hp = loc; Sh s0; Sh* sh = &s0; %s *q = a; return a + b + c; }\n' % (n, body))
        self.helpers.append(t)
        self.inh = False
        return t

    def program(self, idx):
        hs = ''.join(self.helper() for _ in range(self.r.randrange(0, 3)))
        body = '\n  '.join(self.s() for _ in range(self.r.randrange(3, 8)))
        return 'namespace n%d {\n%s' % (idx, hs) + '''static unsigned long body(unsigned long x0, unsigned long x1, bool z) {
  g_a = 1; g_b = 2; g_i = -3; memset(g_buf, 5, sizeof g_buf); for (int k = 0; k < 4; k++) g_w[k] = k; memset(&g_p, 0, sizeof g_p);
  unsigned long a = 0, b = x1, c = x0; unsigned long loc[4] = {9, 8, 7, 6}; P lp; memset(&lp, 1, sizeof lp); P* gp = &lp;
  unsigned long* hp = static_cast<unsigned long*>(::operator new(24)); hp[0] = 1; hp[1] = 2; hp[2] = 3; g_ptr = &loc[3];
  Sh s0; Sq s1; Sh* sh = z ? &s0 : static_cast<Sh*>(&s1);
  %s
  unsigned long r = %s;
  g_ptr = &g_a; ::operator delete(hp);
  return r;
}
}
''' % (body, self.r.choice(['a', 'b', 'c', 'g_a', 'g_b', 'static_cast<unsigned long>(g_i)', 'loc[0]', 'loc[3]', 'hp[1]', 'lp.a', 'g_p.a', 'g_p.s', 's1.m', 'g_w[2]', 'g_buf[3]', 'g_p.b[2]', 'lp.b[1]', '*g_ptr', 'gp->a']))


def main():
    tmp = tempfile.mkdtemp(prefix='irvfuzz.')
    src, native, exp = PRE, '', []
    rs = random.Random(seed)
    progs = []
    for i in range(count):
        loops = i % 2 == 1
        progs.append((i, loops, [rs.choice([0, 1, 2, 3, 5, 255, rs.getrandbits(8), rs.getrandbits(64)]) for _ in range(2)] + [rs.getrandbits(1)]))
        src += G(random.Random(rs.getrandbits(32)), loops).program(i)
    body = src
    with open(tmp + '/n.cpp', 'w') as o:
        o.write('#define NATIVE\n' + body + 'int main() {\n' + ''.join('printf("%%lu\\n", n%d::body(%dUL, %dUL, %d));\n' % (i, a[0], a[1], a[2]) for i, l, a in progs) + '}\n')
    r = subprocess.run(['clang++', '-std=c++11', '-w', '-O1', '-fwrapv', tmp + '/n.cpp', '-o', tmp + '/n'], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[:2000]); return 1
    out = [int(x) for x in subprocess.run([tmp + '/n'], capture_output=True, text=True).stdout.split()]
    with open(tmp + '/v.cpp', 'w') as o:
        o.write(body)
        for (i, l, a), res in zip(progs, out):
            o.write('''extern "C" void harness_never%d() { unsigned long x0 = __spec_nondet_u64(), x1 = __spec_nondet_u64(); bool z = __spec_nondet_bool(); %s unsigned long r = n%d::body(x0, x1, z);
  __spec_assert(!((x0 == %dUL) & (x1 == %dUL) & (z == %s) & (r == %dUL)), "never"); }
''' % (i, '' if i % 3 else '__spec_assume((x0 == %dUL) & (x1 == %dUL));' % (a[0], a[1]), i, a[0], a[1], 'true' if a[2] else 'false', res))
            o.write('''extern "C" void harness_always%d() { unsigned long r = n%d::body(%dUL, %dUL, %s); __spec_assert(r == %dUL, "always"); }
''' % (i, i, a[0], a[1], 'true' if a[2] else 'false', res))
    class S: SPEC = {}; OPTS = dict(nomerge=False)
    ll = tmp + '/v.ll'
    cmd = ['clang++', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-g', '-w', '-S', '-emit-llvm', '-I' + ROOT + '/spec/std', tmp + '/v.cpp', '-o', ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[:2000]); return 1

    def one(h):
        js = tmp + '/' + h + '.json'
        try:
            subprocess.run([sys.executable, ROOT + '/engine/run.py', 'selftest', h, ll], env=dict(os.environ, IRV_JSON=js, IRV_BUDGET='100', IRV_NOMERGE=os.environ.get('NM', '')), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
            return json.load(open(js))
        except Exception as e:
            return dict(status='timeout', reason=repr(e), failed=[])
    bad = 0
    tally = {}
    jobs = [('harness_%s%d' % (k, i), k, l) for i, l, a in progs for k in ('never', 'always')]
    with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as tp:
        for (h, k, l), r in zip(jobs, tp.map(lambda j: one(j[0]), jobs)):
            st = r['status']
            ids = {f['id'] for f in r['failed']}
            tally[(k, l, st)] = tally.get((k, l, st), 0) + 1
            wrong = (k == 'never' and (st == 'proved' or (st == 'failed' and 'never' not in ids))) or (k == 'always' and not l and st == 'failed')
            if wrong:
                bad += 1
                print('WRONG', h, st, sorted(ids)[:3], tmp)
            if st not in ('proved', 'failed') and os.environ.get('V'):
                print(h, st, str(r.get('reason'))[-200:])
    print(tally)
    if not bad:
        shutil.rmtree(tmp)
    return 1 if bad else 0


sys.exit(main())
