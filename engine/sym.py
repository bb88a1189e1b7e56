"""irv: deductive verifier over LLVM IR.

Weakest-precondition style verification by path-wise symbolic execution with
loop summarisation by inductive invariants (inferred by Houdini from templates,
or given as contracts by the harness), mathematical integers with explicit
machine wrap-around, a region-based memory model and z3 as the back end.
Nothing is unrolled to a bound: a loop is executed concretely only while an exit
test of the loop itself is decided by constants, otherwise it is havocked under
an invariant that is proved on entry and on every back edge.
"""
import itertools
import os
import sys
import time
import z3
from ir import Module
import merge

sys.setrecursionlimit(60000)
DEBUG = int(os.environ.get('IRV_DEBUG', '0'))


def _raw(n):
    return getattr(z3.z3core, n).__defaults__[0].f


GET_ID, GET_KIND, TO_APP, NUM_ARGS, GET_ARG, GET_DECL, DECL_KIND = map(_raw, (
    'Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_to_app', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_app_decl',
    'Z3_get_decl_kind'))
APP_AST = z3.Z3_APP_AST
EMPTY = (frozenset(), {})
z3.z3core.Elementaries.Check = lambda self, ctx: None    # speed: no error poll after every call
RAW_ASSERT = z3.z3core.Z3_solver_assert.__defaults__[0].f


class Unsupported(Exception):
    pass


def dbg(lvl, *a):
    if DEBUG >= lvl:
        print(*a, file=sys.stderr)
        sys.stderr.flush()


# ----------------------------------------------------------------- values ----
class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(s, rid, off):
        s.rid, s.off = rid, off

    def __repr__(s):
        return "&%s+%s" % (s.rid, s.off)


NULL = Ptr(0, 0)


def isz(x):
    return isinstance(x, z3.ExprRef)


def same(a, b):
    """structural identity of values"""
    if a is b:
        return True
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and same(a.off, b.off)
    if isinstance(a, Seq) or isinstance(b, Seq):
        return isinstance(a, Seq) and isinstance(b, Seq) and a.fn is b.fn and same(a.lo, b.lo) and same(a.hi, b.hi)
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class Seq:
    """immutable sequence value: elements at absolute coordinates [lo,hi)"""
    __slots__ = ('esz', 'lo', 'hi', 'fn', 'nul')

    def __init__(s, esz, lo, hi, fn):
        s.esz, s.lo, s.hi, s.fn = esz, lo, hi, fn

    def size(s):
        return sub(s.hi, s.lo)

    def __repr__(s):
        return "Seq[%s..%s)" % (s.lo, s.hi)


def S(e):
    """light simplification: constants become Python values"""
    if not isz(e):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if not isz(e):
        return e
    return S(z3.simplify(e))


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a + b)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a - b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, bool) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
        return S(z3.simplify(z3.If(c, zb(a), zb(b))))
    return S(z3.If(c, zi(a), zi(b)))


def eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if same(a, b):
        return True
    return simp(a == b)


def And_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not_(x):
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def lt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return simp(a < b)


def le(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(a <= b)


# content functions
def lit_fn(vals, base=0):
    vals = list(vals)

    def f(i):
        if isinstance(i, int):
            k = i - base
            return vals[k] if 0 <= k < len(vals) else 0
        r = 0
        for k in range(len(vals) - 1, -1, -1):
            r = ite(eq(i, k + base), vals[k], r)
        return r
    f.lit = (vals, base)
    return f


def ovr_fn(base, idx, val):
    if isinstance(idx, int):
        # keep chains of concrete overrides flat
        tab = {}
        b = base
        o = getattr(base, 'ovr', None)
        if o is not None:
            tab = dict(o[1])
            b = o[0]
        tab[idx] = val

        def f(i):
            if isinstance(i, int):
                return tab[i] if i in tab else b(i)
            r = b(i)
            for k, v in tab.items():
                r = ite(eq(i, k), v, r)
            return r
        f.ovr = (b, tab)
        return f

    def f(i):
        e = eq(i, idx)
        if e is True:
            return val
        if e is False:
            return base(i)
        return ite(e, val, base(i))
    return f


def splice_fn(base, start, n, src, sstart):
    """base with [start,start+n) replaced by src(sstart + (i-start))"""
    def f(i):
        c = And_(le(start, i), lt(i, add(start, n)))
        if c is True:
            return src(add(sstart, sub(i, start)))
        if c is False:
            return base(i)
        return ite(c, src(add(sstart, sub(i, start))), base(i))
    return f


def shift_fn(src, d):
    if isinstance(d, int) and d == 0:
        return src
    return lambda i: src(add(i, d))


# ----------------------------------------------------------------- memory ----
def bit_of(x):
    """the condition of a 0/1 valued term, if it has that form"""
    if isinstance(x, int):
        return bool(x) if x in (0, 1) else None
    if isz(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            a, b = a.as_long(), b.as_long()
            if (a, b) == (1, 0):
                return c
            if (a, b) == (0, 1):
                return simp(z3.Not(c))
    return None


class Region:
    __slots__ = ('size', 'cells', 'arr', 'label', 'kind', 'alive', 'owner', 'zero', 'const', 'align', 'aux')

    def __init__(s, size, label, kind, align=16):
        s.size, s.label, s.kind = size, label, kind
        s.cells = {}
        s.arr = None        # (esz, fn over byte offset / esz)
        s.alive = True
        s.owner = None
        s.zero = ()         # ranges known zero
        s.const = False
        s.align = align
        s.aux = None

    def clone(s, owner):
        r = Region(s.size, s.label, s.kind, s.align)
        r.cells = dict(s.cells)
        r.arr, r.alive, r.zero, r.const, r.aux = s.arr, s.alive, s.zero, s.const, s.aux
        r.owner = owner
        return r


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'prev', 'regs', 'allocas', 'dst', 'site', 'varargs', 'ret_hook')

    def __init__(s, fn, dst, site):
        s.fn, s.dst, s.site = fn, dst, site
        s.block = 0
        s.ip = 0
        s.prev = None
        s.regs = [None] * (fn.nregs or (fn.blocks and fn.nregs))
        s.allocas = []
        s.varargs = None
        s.ret_hook = None

    def clone(s):
        f = Frame.__new__(Frame)
        f.fn, f.dst, f.site = s.fn, s.dst, s.site
        f.block, f.ip, f.prev = s.block, s.ip, s.prev
        f.regs = list(s.regs)
        f.allocas = list(s.allocas)
        f.varargs = s.varargs
        f.ret_hook = s.ret_hook
        return f


class Regions(dict):
    def __missing__(s, k):
        return DEAD


DEAD = Region(0, 'dead', 'stack')
DEAD.alive = False


class State:
    def __init__(s):
        s.regions = Regions()
        s.frames = []
        s.pc = []
        s.next_rid = 1
        s.arrived = False
        s.loopiter = {}
        s.tested = set()
        s.nforks = 0
        s.iter0 = {}
        s.bases = {}
        s.views = {}
        s.retval = None
        s.token = object()
        s.labels = {}
        s.trace = []
        s.assumed_false = False
        s.glob = {}
        s.notes = {}

    def clone(s):
        t = State.__new__(State)
        t.regions = Regions(s.regions)
        t.frames = [f.clone() for f in s.frames]
        t.pc = list(s.pc)
        t.next_rid = s.next_rid
        t.arrived = s.arrived
        t.loopiter = dict(s.loopiter)
        t.tested = set(s.tested)
        t.nforks = s.nforks
        t.iter0 = dict(s.iter0)
        t.bases = dict(s.bases)
        t.views = dict(s.views)
        t.retval = s.retval
        t.token = object()
        s.token = object()
        t.labels = dict(s.labels)
        t.trace = list(s.trace)
        t.assumed_false = s.assumed_false
        t.glob = dict(s.glob)
        t.notes = dict(s.notes)
        return t

    def wr(s, rid):
        r = s.regions[rid]
        if r.owner is not s.token:
            r = r.clone(s.token)
            s.regions[rid] = r
        return r

    def new_region(s, size, label, kind, align=16, rid=None):
        if rid is None:
            rid = s.next_rid
            s.next_rid += 1
        if kind in ('heap', 'va'):
            used = {r.label for r in s.regions.values() if r.alive and r.kind == kind}
            n, l = 0, label
            while l in used:
                n += 1
                l = "%s#%d" % (label, n)
            label = l
        r = Region(size, label, kind, align)
        r.owner = s.token
        s.regions[rid] = r
        return rid


class Obl:
    __slots__ = ('id', 'pc', 'goal', 'loc', 'status', 'trace', 'fn', 'model', 'time', 'kind')

    def __init__(s, id, pc, goal, loc, trace, fn, kind):
        s.id, s.pc, s.goal, s.loc, s.trace, s.fn, s.kind = id, pc, goal, loc, trace, fn, kind
        s.status = None
        s.model = None
        s.time = 0


class LoopCtx:
    def __init__(s, depth, header, blocks, key):
        s.depth, s.header, s.blocks, s.key = depth, header, blocks, key


class Engine:
    def __init__(self, module, specfuncs=None, opts=None):
        self.m = module
        self.opts = dict(unroll=5000, tmo=20000, htmo=4000, max_paths=200000, mem_id='MEM')
        self.opts.update(opts or {})
        self.sf = specfuncs or {}
        self.obls = []
        self.covers = {}
        self.fresh_n = itertools.count()
        self.noncounted = set()
        self.loopmemo = {}
        self.stats = dict(paths=0, queries=0, qtime=0.0, instrs=0, loops={}, functions=set(),
                          externals=set(), inv={}, hpasses=0, contracts=set())
        self.contracts = {}
        self.appcache = {}
        self.keep = []
        self.rangeids = set()
        self.nodeinfo = {}
        self.closures = {}
        self.mods_only = False
        self.modseed = {}
        self.modsknown = set()
        self.dropseed = {}
        self.builtins = {}
        self.arrival = {}
        self.pure_cache = {}
        self.deadline = None
        self.gidcache = {}
        import builtins_ as B
        B.register(self)

    # ---- fresh -----------------------------------------------------------
    def fresh(self, st, width, hint='v'):
        v = z3.Int("%s!%d" % (hint, next(self.fresh_n)))
        for c in (v >= 0, v < (1 << width)):
            st.pc.append(c)
            self.rangeids.add(c.get_id())
            self.keep.append(c)
        return v

    def fresh_bool(self, hint='b'):
        return z3.Bool("%s!%d" % (hint, next(self.fresh_n)))

    def fresh_fn(self, st, width, hint='A'):
        F = z3.Function("%s!%d" % (hint, next(self.fresh_n)), z3.IntSort(), z3.IntSort())
        self.sf[F.name()] = dict(range=(0, (1 << width) - 1))
        f = lambda i: F(zi(i))
        f.uf = F
        return f

    def fresh_seq(self, st, esz, hint='q', lo=None):
        l = 0 if lo == 0 else z3.Int("%s.lo!%d" % (hint, next(self.fresh_n)))
        h = z3.Int("%s.hi!%d" % (hint, next(self.fresh_n)))
        if isz(l):
            st.pc.append(l >= 0)
        st.pc.append(h >= l)
        st.pc.append(h < (1 << 62))
        return Seq(esz, l, h, self.fresh_fn(st, 8 * esz, hint))

    # ---- solver ----------------------------------------------------------
    def info(self, e):
        """(symbols, UF applications {id: expr}) of an expression, memoised per DAG node"""
        try:
            return e._inf
        except AttributeError:
            pass
        memo = self.nodeinfo
        ctx = e.ctx.ref()
        root = e.ast
        rid = GET_ID(ctx, root)
        r = memo.get(rid)
        if r is None:
            self.keep.append(e)
            stack = [(root, rid)]
            while stack:
                n, i = stack[-1]
                if i in memo:
                    stack.pop()
                    continue
                if GET_KIND(ctx, n) != APP_AST:
                    memo[i] = EMPTY
                    stack.pop()
                    continue
                ap = TO_APP(ctx, n)
                na = NUM_ARGS(ctx, ap)
                kids, miss = [], False
                for j in range(na):
                    c = GET_ARG(ctx, ap, j)
                    ci = GET_ID(ctx, c)
                    kids.append(ci)
                    if ci not in memo:
                        stack.append((c, ci))
                        miss = True
                if miss:
                    continue
                stack.pop()
                d = GET_DECL(ctx, ap)
                uf = DECL_KIND(ctx, d) == z3.Z3_OP_UNINTERPRETED
                syms, apps = EMPTY
                for ci in kids:
                    s2, a2 = memo[ci]
                    if not s2 <= syms:
                        syms = syms | s2 if syms else s2
                    if a2:
                        if not apps:
                            apps = a2
                        elif a2 is not apps:
                            apps = dict(apps)
                            apps.update(a2)
                if uf:
                    x = z3.z3._to_expr_ref(z3.z3core.Ast(n) if not isinstance(n, z3.z3core.Ast) else n, e.ctx)
                    syms = syms | {x.decl().name()}
                    if na:
                        apps = dict(apps)
                        apps[i] = x
                memo[i] = (syms, apps)
            r = memo[rid]
        e._inf = r
        return r

    def apps(self, e):
        return self.info(e)[1]

    def symset(self, e):
        return self.info(e)[0]

    def axioms(self, exprs):
        todo = {}
        for e in exprs:
            if isz(e):
                todo.update(self.info(e)[1])
        res = {}
        for i, a in todo.items():
            c = self.closures.get(i)
            if c is None:
                c = self.closures[i] = self.closure(a)
            res.update(c)
        return list(res.values())

    def closure(self, a):
        res = {}
        done = {a.get_id()}
        todo = [a]
        for level in range(4):
            nxt = {}
            for x in todo:
                for ax in self.instance(x, level):
                    self.keep.append(ax)
                    res[ax.get_id()] = ax
                    for j, b in self.info(ax)[1].items():
                        if j not in done:
                            done.add(j)
                            nxt[j] = b
            if not nxt:
                break
            todo = list(nxt.values())
        return res

    def instance(self, a, level):
        d = self.sf.get(a.decl().name())
        out = []
        if d:
            if 'range' in d:
                lo, hi = d['range']
                out.append(a >= lo)
                out.append(a <= hi)
            if 'axiom' in d:
                out.extend([x for x in d['axiom'](a, *a.children()) if isz(x)])
            if 'unfold' in d and (level == 0 or level == 1 and d.get('depth', 1) > 1):
                out.append(a == d['unfold'](*a.children()))
        return out

    def slice(self, pc, goal_exprs):
        """constraints connected to the goal through shared symbols"""
        want = set()
        for g in goal_exprs:
            if isz(g):
                want |= self.symset(g)
        rest = list(pc)
        infos = [self.symset(c) for c in pc]
        used = [False] * len(pc)
        ch = True
        idx = range(len(pc))
        while ch:
            ch = False
            left = []
            for i in idx:
                y = infos[i]
                if not y or not want.isdisjoint(y):
                    used[i] = True
                    if not y <= want:
                        want |= y
                        ch = True
                else:
                    left.append(i)
            idx = left
        return [c for i, c in enumerate(pc) if used[i]]

    def check(self, pc, extra, tmo=None, want_model=False, slice_=True):
        """satisfiability of pc /\\ extra"""
        ex = []
        for e in extra:
            if e is True:
                continue
            if e is False:
                return ('unsat', None) if want_model else 'unsat'
            ex.append(e)
        t0 = time.time()
        cs = pc
        if slice_ and ex:
            cs = self.slice(pc, ex)
        ax = self.axioms(list(cs) + ex)
        if slice_ and ex and len(cs) < len(pc):
            # axioms may connect further constraints
            cs2 = self.slice(pc, ex + ax)
            if len(cs2) > len(cs):
                cs = cs2
                ax = self.axioms(list(cs) + ex)
        s = z3.SolverFor('QF_UFLIA') if False else z3.SimpleSolver()
        s.set('timeout', tmo or self.opts['tmo'])
        cr, sv = s.ctx.ref(), s.solver
        for l in (cs, ex, ax):
            for c in l:
                RAW_ASSERT(cr, sv, c.ast)
        r = str(s.check())
        if r == 'unknown':
            s2 = z3.Solver()
            s2.set('timeout', (tmo or self.opts['tmo']))
            s2.add(s.assertions())
            r = str(s2.check())
            s = s2
        dt = time.time() - t0
        self.stats['queries'] += 1
        self.stats['qtime'] += dt
        if dt > 2:
            dbg(2, "slow query %.1fs %s" % (dt, r))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof exceeded")
        if want_model:
            return r, (s.model() if r == 'sat' else None)
        return r

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        if self.mods_only:
            return True
        return self.check(st.pc, [cond], tmo=self.opts['htmo']) != 'unsat'

    def valid(self, st, cond, tmo=None):
        if isinstance(cond, bool):
            return cond
        if self.mods_only:
            return False
        return self.check(st.pc, [z3.Not(cond)], tmo=tmo or self.opts['htmo']) == 'unsat'

    def concretize(self, st, t):
        """a Python int if the path condition determines the term"""
        t = simp(t)
        if not isz(t) or self.mods_only:
            return t
        cs = self.slice(st.pc, [t])
        r, m = self.check(cs, [z3.Int('cz!') == t], want_model=True, slice_=False)
        if r != 'sat':
            return t
        v = m.eval(t, model_completion=True)
        if not z3.is_int_value(v):
            return t
        if self.valid(st, t == v):
            return v.as_long()
        return t

    # ---- obligations -------------------------------------------------------
    def loc(self, st):
        f = st.frames[-1] if st.frames else None
        # innermost location inside /repo, else innermost
        best = None
        for f in reversed(st.frames):
            b = f.fn.blocks[f.block]
            ip = min(max(f.ip - 1, 0), len(b) - 1)
            l = b[ip].loc
            if l:
                if best is None:
                    best = l
                if '/repo/' in l[0]:
                    return "%s:%d" % l
        return "%s:%d" % best if best else '?'

    def oblige(self, st, cond, id, kind='assert'):
        cond = simp(cond) if isz(cond) else cond
        self.obls.append(Obl(id, list(st.pc), cond, self.loc(st), None,
                             st.frames[-1].fn.name if st.frames else '', kind))
        if cond is True:
            return True
        if cond is False:
            st.assumed_false = True
            return False
        st.pc.append(cond)
        return True

    def mem(self, st, cond, what):
        if cond is True:
            self.obls.append(Obl(self.opts['mem_id'] + '.' + what, None, True, None, None, None, 'mem'))
            return True
        return self.oblige(st, cond, self.opts['mem_id'] + '.' + what, 'mem')

    def assume(self, st, cond):
        cond = simp(cond) if isz(cond) else cond
        if cond is True:
            return
        if cond is False:
            st.assumed_false = True
            return
        if z3.is_and(cond):
            for c in cond.children():
                st.pc.append(c)
        else:
            st.pc.append(cond)

    # ---- globals -------------------------------------------------------------
    def global_ptr(self, st, name):
        rid = st.glob.get(name)
        if rid is None:
            ty, ini, const, align = self.m.global_info(name)
            rid = st.new_region(self.m.sizeof(ty) if ty[0] != 'x' else 8, '@' + name, 'global', align or 16, rid='g:' + name)
            st.glob[name] = rid
            if ini is not None:
                self.init_const(st, rid, 0, ini, ty)
            r = st.wr(rid)
            r.const = const
        return Ptr(rid, 0)

    def fn_ptr(self, st, name):
        k = 'fn:' + name
        rid = st.glob.get(k)
        if rid is None:
            rid = st.new_region(1, k, 'func', rid=k)
            st.wr(rid).aux = name
            st.glob[k] = rid
        return Ptr(rid, 0)

    def init_const(self, st, rid, off, op, ty):
        k = op[0]
        r = st.wr(rid)
        if k == 'str':
            b = op[1]
            esz = self.m.sizeof(ty[2]) if ty[0] == 'arr' else 1
            if esz == 1:
                for i, c in enumerate(b):
                    r.cells[off + i] = (1, c)
                return
        if k == 'zero' or k == 'undef':
            if k == 'zero':
                r.zero = r.zero + ((off, off + self.m.sizeof(ty)),)
            return
        if k == 'agg':
            if ty[0] == 'st':
                for o, e, t in zip(ty[4], op[1], ty[1]):
                    self.init_const(st, rid, off + o, e, t)
            else:
                sz = self.m.sizeof(ty[2])
                for i, e in enumerate(op[1]):
                    self.init_const(st, rid, off + i * sz, e, ty[2])
            return
        v = self.val(st, None, op)
        st.wr(rid).cells[off] = (self.m.sizeof(ty), v)

    # ---- operand evaluation ----------------------------------------------------
    def val(self, st, fr, op):
        k = op[0]
        if k == 'r':
            return fr.regs[op[1]]
        if k == 'i':
            if op[1] == 1:
                return bool(op[2])
            return op[2]
        if k == 'null':
            return NULL
        if k == 'f':
            return op[2]
        if k == 'g':
            return self.global_ptr(st, op[1])
        if k == 'fn':
            return self.fn_ptr(st, op[1])
        if k == 'undef' or k == 'zero':
            return self.zero_of(op[1])
        if k == 'agg':
            return tuple(self.val(st, fr, x) for x in op[1])
        if k == 'ce':
            if op[1] == 'gep':
                p = self.val(st, fr, op[2][0])
                if isinstance(p, int):
                    return p + op[4][0]
                return Ptr(p.rid, add(p.off, op[4][0]))
            if op[1] in ('trunc', 'zext', 'sext') and not isinstance(self.val(st, fr, op[2][0]), Ptr):
                v = self.val(st, fr, op[2][0])
                if isinstance(v, int) and 0 <= v < 1 << 15:
                    return v
            if op[1] in ('add', 'sub') and all(isinstance(self.val(st, fr, x), int) for x in op[2]):
                a, b = [self.val(st, fr, x) for x in op[2]]
                return (a + b if op[1] == 'add' else a - b)
            if op[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.val(st, fr, op[2][0])
            if op[1] == 'sub':
                a, b = [self.val(st, fr, x) for x in op[2]]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                    return sub(a.off, b.off)
        raise Unsupported("operand %r" % (op,))

    def zero_of(self, ty):
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k == 'ptr':
            return NULL
        if k == 'f':
            return 0
        if k == 'st':
            return tuple(self.zero_of(t) for t in ty[1])
        if k in ('arr', 'vec'):
            return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        raise Unsupported("zero %r" % (ty,))

    # ---- integer arithmetic ------------------------------------------------------
    def wrap(self, v, w):
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        M = 1 << w
        v = simp(v)
        if not isz(v):
            return v & (M - 1)
        return v

    def signed(self, v, w):
        M = 1 << w
        if isinstance(v, int):
            return v - M if v >= M // 2 else v
        return z3.If(v < M // 2, v, v - M)

    def unsigned(self, v, w):
        M = 1 << w
        if isinstance(v, int):
            return v % M
        return z3.If(v < 0, v + M, v)

    def base_of(self, st, rid):
        b = st.bases.get(rid)
        if b is None:
            r = st.regions[rid]
            if rid == 0:
                return 0
            q = z3.Int("base.%s!%d" % (r.label, next(self.fresh_n)))
            b = q * r.align if r.align > 1 else q
            st.pc.append(q > 0)
            size = r.size
            for o, ob in list(st.bases.items()):
                orr = st.regions[o]
                st.pc.append(z3.Or(b + size <= ob, ob + orr.size <= b))
            st.pc.append(b + size < (1 << 63))
            st.pc.append(b >= 4096)
            st.bases[rid] = b
        return b

    def as_int(self, st, v):
        if isinstance(v, Ptr):
            if v.rid == 0:
                return v.off
            return add(self.base_of(st, v.rid), v.off)
        if isinstance(v, bool):
            return int(v)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def address_cases(self, st, v, most=8):
        """an address computed from one block's address, when it can be only a few offsets from it
        (rounding up to an alignment the block need not have): one case per offset, else None"""
        syms = self.symset(v)
        hit = [(rid, b) for rid, b in st.bases.items() if self.symset(b) & syms]
        if len(hit) != 1:
            return None
        rid, b = hit[0]
        off = simp(v - b)
        if not isz(off):
            return None
        cs = self.slice(st.pc, [off])
        t = z3.Int('cz!')
        vals = []
        while True:
            r, m = self.check(cs, [t == off] + [off != k for k in vals], want_model=True, slice_=False)
            if r == 'unsat':
                break
            if r != 'sat' or len(vals) == most:
                return None
            k = m.eval(off, model_completion=True)
            if not z3.is_int_value(k):
                return None
            vals.append(k.as_long())
        if not vals:
            return None
        if len(vals) == 1:
            return [(True, Ptr(rid, vals[0]))]
        vals.sort()
        return [(off == k, Ptr(rid, k)) for k in vals]

    def int_to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return Ptr(0, v) if v else NULL
        syms = self.symset(v)
        for rid, b in st.bases.items():
            if self.symset(b) & syms:
                off = simp(v - b)
                off = self.concretize(st, off)
                if not isz(off):
                    return Ptr(rid, off)
        for rid, b in st.bases.items():
            off = simp(v - b)
            if self.valid(st, z3.And(v - b >= 0, v - b <= st.regions[rid].size)):
                return Ptr(rid, off)
        raise Unsupported("inttoptr of unknown address")

    def binop(self, st, op, a, b, w):
        if w == 1:
            return self.boolop(op, a, b)
        # pointer-ish integers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                r = sub(a.off, b.off)
                return r % (1 << w) if isinstance(r, int) else simp(z3.If(r < 0, r + (1 << w), r))
            a, b = self.as_int(st, a), self.as_int(st, b)
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, op, a, b, w)
        if op == 'add':
            if isinstance(b, int) and b >= M // 2:      # subtraction of a constant
                c = M - b
                return simp(z3.If(a >= c, a - c, a - c + M))
            if isinstance(a, int) and a >= M // 2:
                c = M - a
                return simp(z3.If(b >= c, b - c, b - c + M))
            s = a + b
            return self.nowrap(st, s, s < M, s - M)
        if op == 'sub':
            s = a - b
            return self.nowrap(st, s, s >= 0, s + M)
        if op == 'mul':
            if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                return 0
            if isinstance(a, int) and a == 1:
                return b
            if isinstance(b, int) and b == 1:
                return a
            if isinstance(b, int) and b > M // 2 or isinstance(a, int) and a > M // 2:
                s = self.signed(a, w) * self.signed(b, w)
                return simp(s % M)
            s = a * b
            if self.valid(st, s < M, tmo=1000):
                return simp(s)
            return simp(s % M)
        if op in ('udiv', 'urem'):
            self.mem(st, Not_(eq(b, 0)), 'div_by_zero')
            return simp(a / b if op == 'udiv' else a % b) if isz(a) else simp(zi(a) / b if op == 'udiv' else zi(a) % b)
        if op in ('sdiv', 'srem'):
            self.mem(st, Not_(eq(b, 0)), 'div_by_zero')
            sa, sb = self.signed(a, w), self.signed(b, w)
            sa, sb = zi(sa), zi(sb)
            ab = z3.If(sa >= 0, sa, -sa)
            bb = z3.If(sb >= 0, sb, -sb)
            q = ab / bb
            q = z3.If((sa >= 0) == (sb >= 0), q, -q)
            r = q if op == 'sdiv' else sa - q * sb
            return simp(z3.If(r < 0, r + M, r))
        if op in ('and', 'or', 'xor'):
            x, y = bit_of(a), bit_of(b)
            if x is None and y is not None and self.valid(st, a <= 1, tmo=1000):
                x = a == 1
            if y is None and x is not None and self.valid(st, b <= 1, tmo=1000):
                y = b == 1
            if x is not None and y is not None:
                r = self.boolop(op, x, y)
                return int(r) if isinstance(r, bool) else simp(z3.If(r, z3.IntVal(1), z3.IntVal(0)))
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0:
                        return 0
                    if y == M - 1:
                        return x
                    if (y & (y + 1)) == 0:
                        return simp(x % (y + 1))
                    inv = (M - 1) ^ y
                    if (inv & (inv + 1)) == 0:          # clear low bits
                        return simp(x - x % (inv + 1))
                    if (y & (y - 1)) == 0:              # single bit
                        return simp(((x / y) % 2) * y)
                    if (inv & (inv - 1)) == 0:          # clear one bit
                        return simp(x - ((x / inv) % 2) * inv)
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0:
                        return x
                    if (y & (y - 1)) == 0:
                        return simp(z3.If((x / y) % 2 == 1, x, x + y))
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0:
                        return x
                    if y == M - 1:
                        return simp(M - 1 - x)
                    if y == 1:
                        return simp(z3.If(x % 2 == 0, x + 1, x - 1))
        if op == 'shl' and isinstance(b, int):
            if b >= w:
                return 0
            s = a * (1 << b)
            if self.valid(st, s < M, tmo=1000):
                return simp(s)
            return simp(s % M)
        if op == 'lshr' and isinstance(b, int):
            return simp(a / (1 << b))
        if op == 'ashr' and isinstance(b, int):
            s = self.signed(a, w) / (1 << b)
            return simp(z3.If(s < 0, s + M, s))
        # sound over-approximation: an uninterpreted function of the operands
        F = z3.Function('bit_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.sf.setdefault(F.name(), dict(range=(0, M - 1)))
        return F(zi(a), zi(b))

    def nowrap(self, st, s, cond, alt):
        s = simp(s)
        if not isz(s):
            # constant result
            c = simp(cond)
            return s if c is True else simp(alt)
        c = simp(cond)
        if c is True:
            return s
        if c is False:
            return simp(alt)
        if self.valid(st, c, tmo=1500):
            return s
        return simp(z3.If(c, s, alt))

    def cbin(self, st, op, a, b, w):
        M = 1 << w
        if op == 'add':
            return (a + b) % M
        if op == 'sub':
            return (a - b) % M
        if op == 'mul':
            return (a * b) % M
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not self.mem(st, b != 0, 'div_by_zero'):
                return 0
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = self.signed(a, w), self.signed(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) % M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) % M if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (self.signed(a, w) >> min(b, w)) % M
        raise Unsupported(op)

    def boolop(self, op, a, b):
        if op == 'and' or op == 'mul':
            return And_(a, b)
        if op == 'or':
            return Or_(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return Not_(a) if b else a
            return simp(z3.Xor(a, b))
        raise Unsupported("i1 " + op)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(st, pred, a, b)
        w = ty[1]
        if w == 1:
            if pred in ('eq', 'ne'):
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    r = a if b else Not_(a)
                else:
                    r = simp(a == b)
                return r if pred == 'eq' else Not_(r)
            a = int(a) if isinstance(a, bool) else z3.If(a, 1, 0)
            b = int(b) if isinstance(b, bool) else z3.If(b, 1, 0)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return Not_(eq(a, b))
        if pred[0] == 's':
            # x s< C with small constants: avoid ite where possible
            a, b = self.signed(a, w), self.signed(b, w)
        p = pred[1:]
        if not isz(a) and not isz(b):
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        return simp({'gt': zi(a) > b, 'ge': zi(a) >= b, 'lt': zi(a) < b, 'le': zi(a) <= b}[p])

    def ptrcmp(self, st, pred, a, b):
        if not isinstance(a, Ptr):
            a = self.int_to_ptr(st, a) if (isinstance(a, int)) else a
        if not isinstance(b, Ptr):
            b = self.int_to_ptr(st, b) if (isinstance(b, int)) else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                x, y = a.off, b.off
                if pred == 'eq':
                    return eq(x, y)
                if pred == 'ne':
                    return Not_(eq(x, y))
                p = pred[1:]
                return {'gt': lambda: lt(y, x), 'ge': lambda: le(y, x), 'lt': lambda: lt(x, y),
                        'le': lambda: le(x, y)}[p]()
            if pred in ('eq', 'ne'):
                # distinct objects (one-past-the-end aliasing with a neighbour excluded)
                return pred == 'ne'
        x, y = self.as_int(st, a), self.as_int(st, b)
        if pred == 'eq':
            return eq(x, y)
        if pred == 'ne':
            return Not_(eq(x, y))
        p = pred[1:]
        return {'gt': lambda: lt(y, x), 'ge': lambda: le(y, x), 'lt': lambda: lt(x, y),
                'le': lambda: le(x, y)}[p]()

    def cast(self, st, op, v, src, dst):
        if op in ('zext', 'sext', 'trunc'):
            ws, wd = src[1], dst[1]
            if isinstance(v, Ptr):
                if op == 'trunc':
                    v = self.as_int(st, v)
                else:
                    return v
            if ws == 1:
                if op == 'zext':
                    return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
                return ((1 << wd) - 1 if v else 0) if isinstance(v, bool) else \
                    z3.If(v, z3.IntVal((1 << wd) - 1), z3.IntVal(0))
            if op == 'zext':
                return v
            if op == 'sext':
                if isinstance(v, int):
                    return self.signed(v, ws) % (1 << wd)
                if self.valid(st, v < (1 << (ws - 1)), tmo=1500):
                    return v
                return simp(z3.If(v < (1 << (ws - 1)), v, v + ((1 << wd) - (1 << ws))))
            if wd == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                    c, a, b = v.arg(0), v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    return S(c) if (a, b) == (1, 0) else Not_(S(c)) if (a, b) == (0, 1) else bool(a)
                return simp(v % 2 == 1)
            if isinstance(v, int):
                return v & ((1 << wd) - 1)
            if self.valid(st, v < (1 << wd), tmo=1500):
                return v
            return simp(v % (1 << wd))
        if op in ('ptrtoint',):
            return v                                   # keep provenance
        if op == 'inttoptr':
            return self.int_to_ptr(st, v)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'):
            return self.fpcast(st, op, v, src, dst)
        raise Unsupported(op)

    def fpcast(self, st, op, v, src, dst):
        import struct
        if isinstance(v, int):
            if op in ('sitofp', 'uitofp'):
                x = self.signed(v, src[1]) if op == 'sitofp' else v
                return struct.unpack('<Q', struct.pack('<d', float(x)))[0] if dst[1] == 64 else \
                    struct.unpack('<I', struct.pack('<f', float(x)))[0]
        F = z3.Function('fp_%s_%s_%s' % (op, src[1], dst[1]), z3.IntSort(), z3.IntSort())
        self.sf.setdefault(F.name(), dict(range=(0, (1 << dst[1]) - 1)))
        return F(zi(v))

    # ---- memory access -------------------------------------------------------------
    def access(self, st, p, n, write=False):
        """bounds/lifetime obligations; returns region or None when impossible"""
        if isinstance(p, Ptr) and p.rid == 0:
            self.mem(st, False, 'null_deref')
            return None
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(st, p)
        r = st.regions[p.rid]
        if not r.alive:
            self.mem(st, False, 'use_after_free')
            return None
        if r.kind == 'view':
            if 'guards' in st.notes:
                self.check_guard(st, r.aux[0], r.aux[1], 8)
            return r
        if 'guards' in st.notes:
            self.check_guard(st, p.rid, p.off, n)
        if r.kind == 'func':
            self.mem(st, False, 'data_access_to_code')
            return None
        if isinstance(p.off, int) and isinstance(r.size, int) and isinstance(n, int):
            ok = 0 <= p.off and p.off + n <= r.size
            if not ok:
                self.mem(st, False, 'out_of_bounds')
                return None
            self.obls.append(Obl(self.opts['mem_id'] + '.in_bounds', None, True, None, None, None, 'mem'))
        else:
            if not self.mem(st, simp(z3.And(zi(p.off) >= 0, zi(p.off) + n <= r.size)), 'in_bounds'):
                return None
        if write and r.const:
            self.mem(st, False, 'write_to_const')
            return None
        return r

    def check_guard(self, st, rid, off, n):
        """lock discipline: a guarded cell is only touched while its mutex is held"""
        if not st.notes.get('guard_on'):
            return
        for grid, goff, gn, h in st.notes['guards']:
            if grid != rid:
                continue
            if isinstance(off, int) and isinstance(n, int) and (off + n <= goff or goff + gn <= off):
                continue
            c = st.regions[h.rid].cells.get(h.off)
            held = c[1] if c else False
            if isinstance(held, int):
                held = bool(held)
            elif z3.is_int(held):
                held = held != 0
            self.oblige(st, held, 'LOCK.guarded_access_under_lock')

    def view_owner(self, st, r):
        """(owner region, cell value Seq)"""
        orid, ooff = r.aux
        o = st.regions[orid]
        if not o.alive:
            self.mem(st, False, 'use_after_free')
            return None
        c = o.cells.get(ooff)
        if c is None or not isinstance(c[1], Seq):
            self.mem(st, False, 'use_after_free')
            return None
        return c[1]

    def seq_at(self, st, p):
        """Seq stored at pointer"""
        r = self.access(st, p, 8)
        if r is None:
            return None
        c = r.cells.get(p.off)
        if c is None or not isinstance(c[1], Seq):
            raise Unsupported("sequence expected at %s (%s)" % (p, r.label))
        return c[1]

    def load(self, st, p, ty):
        k = ty[0]
        if k == 'st':
            return tuple(self.load(st, Ptr(p.rid, add(p.off, o)), t) for o, t in zip(ty[4], ty[1]))
        if k == 'arr':
            sz = self.m.sizeof(ty[2])
            return tuple(self.load(st, Ptr(p.rid, add(p.off, i * sz)), ty[2]) for i in range(ty[1]))
        n = self.m.sizeof(ty)
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(st, p)
        r = self.access(st, p, n)
        if r is None:
            return self.zero_of(ty)
        if r.kind == 'view':
            q = self.view_owner(st, r)
            if q is None:
                return self.zero_of(ty)
            if n != q.esz:
                raise Unsupported("view load size")
            idx = p.off if q.esz == 1 else (p.off // q.esz if isinstance(p.off, int) else simp(p.off / q.esz))
            # strings expose a terminating NUL
            if q.esz == 1:
                if not self.mem(st, And_(le(q.lo, idx), le(idx, q.hi)), 'seq_in_bounds'):
                    return self.zero_of(ty)
                at_end = eq(idx, q.hi)
                if at_end is True:
                    return 0
                v = q.fn(idx)
                if at_end is False or self.valid(st, lt(idx, q.hi)):
                    return v
                return ite(at_end, 0, v)
            if not self.mem(st, And_(le(q.lo, idx), lt(idx, q.hi)), 'seq_in_bounds'):
                return self.zero_of(ty)
            return q.fn(idx)
        v = self.rd(st, r, p, n, ty)
        return self.coerce(st, v, ty)

    def coerce(self, st, v, ty):
        if ty[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Seq):
                raise Unsupported("sequence read as pointer")
            return self.int_to_ptr(st, v)
        if ty[0] == 'i' and ty[1] == 1:
            if isinstance(v, int) and not isinstance(v, bool):
                return bool(v & 1)
            if isz(v) and not z3.is_bool(v):
                return simp(v % 2 == 1)
        return v

    def rd(self, st, r, p, n, ty):
        off = p.off
        if r.arr is not None:
            esz, fn = r.arr
            if esz == n:
                if isinstance(off, int):
                    return fn(off // esz)
                return fn(off if esz == 1 else simp(off / esz))
            if isinstance(off, int) and n > esz:
                parts = [fn(off // esz + j) for j in range(n // esz)]
                tot = 0
                for j, x in enumerate(parts):
                    if isinstance(x, Ptr):
                        raise Unsupported('ptr part')
                    tot = add(tot, x * (1 << (8 * esz * j)))
                return tot
            raise Unsupported("array load size %s/%s" % (n, esz))
        if isz(off):
            o2 = self.concretize(st, off)
            if isz(o2):
                self.to_arr(st, p.rid, n)
                return self.rd(st, st.regions[p.rid], p, n, ty)
            off = o2
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # overlapping?
        ov = [(o, s_, v) for o, (s_, v) in r.cells.items() if o < off + n and o + s_ > off]
        if not ov:
            for a, b in r.zero:
                if a <= off and off + n <= b:
                    return 0 if ty[0] != 'ptr' else NULL
            # uninitialised: an arbitrary value, remembered
            if ty[0] == 'ptr':
                self.mem(st, False, 'uninitialised_pointer')
                return NULL
            v = self.fresh(st, 8 * n, 'uninit')
            rr = st.wr(p.rid)
            rr.cells[off] = (n, v)
            return v
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + n:
            o, s_, v = ov[0]
            if isinstance(v, int):
                return (v >> (8 * (off - o))) & ((1 << (8 * n)) - 1)
            if isz(v):
                return simp((v / (1 << (8 * (off - o)))) % (1 << (8 * n)))
        # assemble bytes
        tot = 0
        pos = off
        while pos < off + n:
            c = r.cells.get(pos)
            if c is None:
                z = any(a <= pos < b for a, b in r.zero)
                if not z:
                    x = self.fresh(st, 8, 'uninit')
                    st.wr(p.rid).cells[pos] = (1, x)
                    r = st.regions[p.rid]
                    tot = add(tot, x * (1 << (8 * (pos - off))))
                pos += 1
                continue
            s_, v = c
            if pos + s_ > off + n or isinstance(v, (Ptr, Seq)):
                raise Unsupported("overlapping load at %s+%s size %s in %s" % (p.rid, off, n, r.label))
            tot = add(tot, v * (1 << (8 * (pos - off))) if isz(v) else v << (8 * (pos - off)))
            pos += s_
        return tot

    def to_arr(self, st, rid, n):
        r = st.wr(rid)
        if r.arr is not None:
            return
        esz = n
        cells = {}
        for o, (s_, v) in r.cells.items():
            if s_ != esz or o % esz:
                if isinstance(v, int) and s_ % esz == 0:
                    for j in range(s_ // esz):
                        cells[(o // esz) + j] = (v >> (8 * esz * j)) & ((1 << (8 * esz)) - 1)
                    continue
                raise Unsupported("mixed-size symbolic access to %s (%s)" % (r.label, getattr(st, "_dbg", "")))
            cells[o // esz] = v
        if isinstance(r.size, int) and any(a == 0 and b == r.size for a, b in r.zero):
            base = lambda i: 0
        elif isinstance(r.size, int) and len(cells) * esz >= r.size:
            base = lambda i: 0
        else:
            base = self.fresh_fn(st, 8 * esz, 'mem.' + r.label)
            for a, b in r.zero:
                base = splice_fn(base, a // esz, (b - a) // esz, lambda i: 0, 0)
        if cells:
            n_ = max(cells) + 1
            if len(cells) == n_ and isinstance(r.size, int) and n_ * esz >= r.size:
                fn = lit_fn([cells[i] for i in range(n_)])
            else:
                fn = base
                for i in sorted(cells):
                    fn = ovr_fn(fn, i, cells[i])
        else:
            fn = base
        r.cells = {}
        r.zero = ()
        r.arr = (esz, fn)

    def store(self, st, p, v, ty):
        k = ty[0]
        if k == 'st':
            for o, t, x in zip(ty[4], ty[1], v):
                self.store(st, Ptr(p.rid, add(p.off, o)), x, t)
            return
        if k == 'arr':
            sz = self.m.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.rid, add(p.off, i * sz)), v[i], ty[2])
            return
        n = self.m.sizeof(ty)
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(st, p)
        r = self.access(st, p, n, True)
        if r is None:
            return
        if k == 'i' and ty[1] == 1:
            v = self.as_int(st, v)
        if r.kind == 'view':
            q = self.view_owner(st, r)
            if q is None:
                return
            idx = p.off if q.esz == 1 else (p.off // q.esz if isinstance(p.off, int) else simp(p.off / q.esz))
            if not self.mem(st, And_(le(q.lo, idx), lt(idx, q.hi)), 'seq_in_bounds'):
                return
            orid, ooff = r.aux
            st.wr(orid).cells[ooff] = (8, Seq(q.esz, q.lo, q.hi, ovr_fn(q.fn, idx, v)))
            return
        off = p.off
        if isz(off):
            off = self.concretize(st, off)
        if isz(off) and r.arr is None:
            st._dbg = str(p.off)[:200]
            self.to_arr(st, p.rid, n)
        r = st.wr(p.rid)
        if r.arr is not None:
            esz, fn = r.arr
            if esz == n:
                r.arr = (esz, ovr_fn(fn, off if esz == 1 else (off // esz if isinstance(off, int) else simp(off / esz)), v))
                return
            if isinstance(off, int) and n % esz == 0 and not isinstance(v, (Ptr, Seq)):
                for j in range(n // esz):
                    b = (v >> (8 * esz * j)) & ((1 << (8 * esz)) - 1) if isinstance(v, int) else \
                        simp((v / (1 << (8 * esz * j))) % (1 << (8 * esz)))
                    fn = ovr_fn(fn, off // esz + j, b)
                r.arr = (esz, fn)
                return
            raise Unsupported("array store size")
        self.kill(r, off, n)
        r.cells[off] = (n, v)

    def kill(self, r, off, n):
        """remove cells overlapping [off,off+n) (splitting concrete ones)"""
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            return
        ov = [(o, c) for o, c in r.cells.items() if o < off + n and o + c[0] > off]
        for o, (s_, v) in ov:
            del r.cells[o]
            if o < off or o + s_ > off + n:
                if isinstance(v, (Ptr, Seq)):
                    continue
                for j in range(s_):
                    if not (off <= o + j < off + n):
                        r.cells[o + j] = (1, (v >> (8 * j)) & 255 if isinstance(v, int)
                                          else simp((v / (1 << (8 * j))) % 256))

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        n = self.concretize(st, n) if isz(n) else n
        if isz(n):
            return self.memcpy_sym(st, d, s, n)
        sr = self.access(st, s, n)
        dr = self.access(st, d, n, True)
        if sr is None or dr is None:
            return
        if sr.kind == 'view' or dr.kind == 'view' or sr.arr is not None or dr.arr is not None \
                or isz(s.off) or isz(d.off):
            return self.memcpy_sym(st, d, s, n)
        items = []
        for o, (s_, v) in sr.cells.items():
            if o >= s.off and o + s_ <= s.off + n:
                items.append((o - s.off, s_, v))
            elif o < s.off + n and o + s_ > s.off:
                if isinstance(v, (Ptr, Seq)):
                    raise Unsupported("partial pointer copy")
                for j in range(s_):
                    if s.off <= o + j < s.off + n:
                        items.append((o + j - s.off, 1, (v >> (8 * j)) & 255 if isinstance(v, int)
                                      else simp((v / (1 << (8 * j))) % 256)))
        zr = []
        for a, b in sr.zero:
            lo, hi = max(a, s.off), min(b, s.off + n)
            if lo < hi:
                zr.append((lo - s.off, hi - s.off))
        w = st.wr(d.rid)
        self.kill(w, d.off, n)
        w.cells.pop(d.off, None) if n != 0 and d.off in w.cells and w.cells[d.off][0] == n else None
        nz = []
        for a, b in w.zero:
            if b <= d.off or a >= d.off + n:
                nz.append((a, b))
            else:
                if a < d.off:
                    nz.append((a, d.off))
                if b > d.off + n:
                    nz.append((d.off + n, b))
        w.zero = tuple(nz) + tuple((a + d.off, b + d.off) for a, b in zr)
        for o, s_, v in items:
            w.cells[d.off + o] = (s_, v)

    def bytes_fn(self, st, p, n):
        """content function (relative index -> byte) of n bytes at p, with obligations"""
        if isinstance(n, int) and n == 0:
            return lambda i: 0
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(st, p)
        r0 = st.regions.get(p.rid)
        if r0 is not None and r0.kind == 'view':
            q = self.view_owner(st, r0)
            if q is None or q.esz != 1:
                raise Unsupported("bytes of view")
            self.mem(st, simp(z3.Or(zi(n) == 0, z3.And(zi(q.lo) <= zi(p.off), zi(p.off) + n <= zi(q.hi) + 1))), 'seq_in_bounds')
            hi = q.hi
            base = q.fn
            off = p.off
            if self.valid(st, zi(off) + n <= zi(hi)) if (isz(off) or isz(n) or isz(hi)) else off + n <= hi:
                return shift_fn(base, off)
            return lambda i: ite(eq(add(i, off), hi), 0, base(add(i, off)))
        if isinstance(n, int):
            r = self.access(st, p, n)
        else:
            if p.rid == 0:
                self.mem(st, simp(n == 0), 'null_deref')
                return lambda i: 0
            r = st.regions[p.rid]
            if not r.alive:
                self.mem(st, False, 'use_after_free')
                return None
            self.mem(st, simp(z3.Or(n == 0, z3.And(zi(p.off) >= 0, zi(p.off) + n <= r.size))), 'in_bounds')
        if r is None:
            return None
        self.to_arr(st, p.rid, 1)
        esz, fn = st.regions[p.rid].arr
        if esz != 1:
            raise Unsupported("bytes of wide array")
        return shift_fn(fn, p.off)

    def memcpy_sym(self, st, d, s, n):
        src = self.bytes_fn(st, s, n)
        if src is None:
            return
        self.put_bytes(st, d, n, src)

    def put_bytes(self, st, d, n, src):
        """write n bytes src(0..n-1) at d"""
        if not isinstance(d, Ptr):
            d = self.int_to_ptr(st, d)
        if d.rid == 0:
            self.mem(st, eq(n, 0), 'null_deref')
            return
        r = st.regions[d.rid]
        if r.kind == 'view':
            q = self.view_owner(st, r)
            if q is None:
                return
            self.mem(st, simp(z3.Or(zi(n) == 0, z3.And(zi(q.lo) <= zi(d.off), zi(d.off) + n <= zi(q.hi)))), 'seq_in_bounds')
            orid, ooff = r.aux
            st.wr(orid).cells[ooff] = (8, Seq(1, q.lo, q.hi, splice_fn(q.fn, d.off, n, src, 0)))
            return
        if not r.alive:
            self.mem(st, False, 'use_after_free')
            return
        self.mem(st, simp(z3.Or(zi(n) == 0, z3.And(zi(d.off) >= 0, zi(d.off) + n <= r.size))), 'in_bounds')
        self.to_arr(st, d.rid, 1)
        r = st.wr(d.rid)
        if r.arr[0] != 1:
            raise Unsupported("byte write to wide array")
        r.arr = (1, splice_fn(r.arr[1], d.off, n, src, 0))

    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0:
            return
        if isz(n):
            self.put_bytes(st, d, n, lambda i: v)
            return
        r = self.access(st, d, n, True)
        if r is None:
            return
        r = st.wr(d.rid)
        if r.arr is not None or isz(d.off):
            self.put_bytes(st, d, n, lambda i: v)
            return
        self.kill(r, d.off, n)
        r.cells.pop(d.off, None) if d.off in r.cells and r.cells[d.off][0] == n else None
        if isinstance(v, int) and v == 0:
            r.zero = r.zero + ((d.off, d.off + n),)
        elif n <= 4096:
            for j in range(n):
                r.cells[d.off + j] = (1, v)
        else:
            raise Unsupported("big memset")

    def cstr(self, st, p):
        """bytes of a concrete C string, or None"""
        r = st.regions.get(p.rid)
        if r is None or isz(p.off):
            return None
        out = bytearray()
        i = p.off
        if r.kind == 'view':
            q = self.view_owner(st, r)
            if q is None or isz(q.hi) or isz(q.lo):
                return None
            for i in range(p.off, q.hi):
                v = q.fn(i)
                if not isinstance(v, int):
                    return None
                if v == 0:
                    break
                out.append(v)
            return bytes(out)
        while True:
            if r.arr is not None:
                v = r.arr[1](i)
            else:
                c = r.cells.get(i)
                if c is None:
                    if any(a <= i < b for a, b in r.zero):
                        break
                    return None
                v = c[1]
                if c[0] != 1:
                    return None
            if not isinstance(v, int):
                return None
            if v == 0:
                break
            out.append(v)
            i += 1
        return bytes(out)

    def view(self, st, p):
        """view region for the sequence stored at p"""
        k = (p.rid, p.off)
        rid = st.views.get(k)
        if rid is None:
            rid = st.new_region(0, 'view(%s+%s)' % (st.regions[p.rid].label, p.off), 'view',
                                rid='v:%s+%s' % k)
            st.wr(rid).aux = k
            st.views[k] = rid
        return rid

    # ---- execution -------------------------------------------------------------------
    def call(self, st, name, args, dst, site, varargs=None):
        fn = self.m.functions.get(name)
        if fn is None or fn.decl:
            raise Unsupported("external function %s" % name)
        self.stats['functions'].add(name)
        f = Frame(fn, dst, site)
        np = fn.nparams
        f.regs = [None] * fn.nregs if fn._blocks is not None else None
        if f.regs is None:
            fn.blocks
            f.regs = [None] * fn.nregs
        for i in range(np):
            f.regs[i] = args[i]
        f.varargs = args[np:]
        if len(st.frames) > 400:
            raise Unsupported("recursion too deep in %s" % name)
        st.frames.append(f)
        if 0 in fn.loops:
            pass

    def do_return(self, st, v):
        f = st.frames.pop()
        for rid in f.allocas:
            del st.regions[rid]
        if not st.frames:
            st.retval = v
            return
        c = st.frames[-1]
        if f.dst is not None:
            c.regs[f.dst] = v

    def goto(self, st, fr, target):
        fr.prev = fr.block
        fr.block = target
        fr.ip = 0
        st.arrived = True

    def event(self, st, ctx):
        """called when st.arrived; returns event tuple or None"""
        fr = st.frames[-1]
        d = len(st.frames)
        if ctx is not None and d == ctx.depth and ctx.header is not None:
            if fr.block == ctx.header:
                return 'back'
            if fr.block not in ctx.blocks:
                return 'exit'
        if fr.block in fr.fn.loops:
            return 'loop'
        return None

    def explore(self, starts, ctx):
        work = list(starts)
        backs, exits = [], []
        n = 0
        while work:
            st = work.pop()
            if st.assumed_false:
                continue
            n += 1
            if self.mods_only and n > 2000:
                break
            if n > self.opts['max_paths']:
                raise Unsupported("too many paths")
            if ctx is not None and len(st.frames) < ctx.depth:
                exits.append(st)
                continue
            if not st.frames:
                exits.append(st)
                continue
            if st.arrived:
                ev = self.event(st, ctx)
                if ev == 'back':
                    st.arrived = False
                    backs.append(st)
                    continue
                if ev == 'exit':
                    exits.append(st)
                    continue
                if ev == 'loop':
                    work.extend(self.handle_loop(st))
                    continue
                st.arrived = False
            if self.mods_only:
                try:
                    work.extend(self.run(st, ctx))
                except Unsupported as e:
                    dbg(4, 'mods: path dropped: %s' % e)
                continue
            work.extend(self.run(st, ctx))
            self.stats['paths'] += 1
        return backs, exits

    def run(self, st, ctx):
        """execute until a block transition that is an event, a fork, or the end of
        the outermost frame; returns successor states"""
        while True:
            if st.assumed_false:
                return []
            if not st.frames:
                return [st]
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            nd = len(st.frames)
            while fr.ip < len(blk):
                ins = blk[fr.ip]
                fr.ip += 1
                self.stats['instrs'] += 1
                r = self.step(st, fr, ins)
                if isinstance(r, list):  # forked (st itself may have ended inside a callee)
                    return r
                if st.assumed_false:
                    return []
                if r is not None:
                    break               # control transferred inside this state
            # control transfer happened (br/ret/call)
            if not st.frames:
                return [st]
            if ctx is not None and len(st.frames) < ctx.depth:
                return [st]
            if st.arrived:
                fr = st.frames[-1]
                if fr.block in fr.fn.loops or (ctx is not None and ctx.header is not None and len(st.frames) == ctx.depth):
                    return [st]
                st.arrived = False

    def step(self, st, fr, I):
        op = I.op
        if op == 'load':
            p = self.val(st, fr, I.ops[0])
            fr.regs[I.dst] = self.load(st, p, I.ty)
            return None
        if op == 'store':
            v = self.val(st, fr, I.ops[0])
            p = self.val(st, fr, I.ops[1])
            self.store(st, p, v, I.x)
            return None
        if op == 'gep':
            p = self.val(st, fr, I.ops[0])
            if not isinstance(p, Ptr):
                p = self.int_to_ptr(st, p)
            off = add(p.off, I.x[0])
            for scale, o, w in I.x[1]:
                v = self.val(st, fr, o)
                if isinstance(v, Ptr):
                    v = self.as_int(st, v)
                v = self.signed_idx(st, v, w)
                off = add(off, v * scale if isz(v) else v * scale)
            fr.regs[I.dst] = Ptr(p.rid, off)
            return None
        if op == 'call':
            return self.do_call(st, fr, I)
        if op == 'alloca':
            ty, al = I.x
            n = self.m.sizeof(ty)
            cnt = self.val(st, fr, I.ops[0])
            if not isinstance(cnt, int):
                raise Unsupported("dynamic alloca")
            k = sum(1 for f in st.frames if f.fn is fr.fn) - 1
            rid = st.new_region(n * cnt, "%s.%s%s" % (fr.fn.name[-60:], fr.fn.regname.get(I.dst, I.dst),
                                                      '^%d' % k if k else ''), 'stack', al or 8)
            fr.allocas.append(rid)
            fr.regs[I.dst] = Ptr(rid, 0)
            return None
        if op == 'br':
            if not I.ops:
                self.goto(st, fr, I.x[0])
                return True
            c = self.val(st, fr, I.ops[0])
            return self.branch(st, fr, c, I.x[0], I.x[1])
        if op == 'icmp':
            a = self.val(st, fr, I.ops[0])
            b = self.val(st, fr, I.ops[1])
            fr.regs[I.dst] = self.icmp(st, I.x[0], I.x[1], a, b)
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl',
                  'lshr', 'ashr'):
            a = self.val(st, fr, I.ops[0])
            b = self.val(st, fr, I.ops[1])
            fr.regs[I.dst] = self.binop(st, op, a, b, I.ty[1])
            return None
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp',
                  'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            v = self.val(st, fr, I.ops[0])
            if op == 'inttoptr' and isz(v) and not self.mods_only:
                alts = self.address_cases(st, v)
                if alts:
                    return self.fork(st, [(c, (lambda q: lambda s: self.setreg(s, I.dst, q))(q)) for c, q in alts])
            fr.regs[I.dst] = self.cast(st, op, v, I.x, I.ty)
            return None
        if op == 'ret':
            v = self.val(st, fr, I.ops[0]) if I.ops else None
            self.do_return(st, v)
            return True
        if op == 'phi':
            # evaluate all phis of the block simultaneously
            blk = fr.fn.blocks[fr.block]
            i = fr.ip - 1
            vals = []
            while blk[i].op == 'phi':
                for b, o in blk[i].x:
                    if b == fr.prev:
                        vals.append((blk[i].dst, self.val(st, fr, o)))
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.ip = i
            return None
        if op == 'select':
            c = self.val(st, fr, I.ops[0])
            if isinstance(c, bool):
                fr.regs[I.dst] = self.val(st, fr, I.ops[1] if c else I.ops[2])
                return None
            a = self.val(st, fr, I.ops[1])
            b = self.val(st, fr, I.ops[2])
            if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
                return self.fork(st, [(c, lambda s: self.setreg(s, I.dst, a)),
                                      (Not_(c), lambda s: self.setreg(s, I.dst, b))])
            fr.regs[I.dst] = ite(c, a, b)
            return None
        if op == 'switch':
            v = self.val(st, fr, I.ops[0])
            dflt, cases = I.x
            if isinstance(v, int):
                t = dflt
                for cv, b in cases:
                    if cv == v:
                        t = b
                        break
                self.goto(st, fr, t)
                return True
            alts = []
            nots = []
            for cv, b in cases:
                e = eq(v, cv)
                alts.append((e, (lambda bb: lambda s: self.goto(s, s.frames[-1], bb))(b)))
                nots.append(Not_(e))
            alts.append((And_(*nots), lambda s: self.goto(s, s.frames[-1], dflt)))
            return self.fork(st, alts)
        if op == 'extractvalue':
            v = self.val(st, fr, I.ops[0])
            for i in I.x:
                v = v[i]
            fr.regs[I.dst] = v
            return None
        if op == 'insertvalue':
            a = self.val(st, fr, I.ops[0])
            v = self.val(st, fr, I.ops[1])

            def ins(t, path):
                if not path:
                    return v
                l = list(t)
                l[path[0]] = ins(l[path[0]], path[1:])
                return tuple(l)
            fr.regs[I.dst] = ins(a, I.x)
            return None
        if op == 'unreachable':
            self.mem(st, False, 'unreachable_reached')
            return []
        if op == 'fcmp':
            fr.regs[I.dst] = self.fcmp(st, I.x, self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1]))
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            xs = [zi(self.val(st, fr, o)) for o in I.ops]
            F = z3.Function('fp_%s_%d' % (op, I.ty[1]), *([z3.IntSort()] * (len(xs) + 1)))
            self.sf.setdefault(F.name(), dict(range=(0, (1 << I.ty[1]) - 1)))
            fr.regs[I.dst] = F(*xs)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = self.val(st, fr, I.ops[0])
            v = self.val(st, fr, I.ops[1])
            old = self.load(st, p, I.ty)
            if I.x == 1:
                new = self.binop(st, 'add', old, v, I.ty[1])
            elif I.x == 2:
                new = self.binop(st, 'sub', old, v, I.ty[1])
            elif I.x == 0:
                new = v
            else:
                raise Unsupported('atomicrmw')
            self.store(st, p, new, I.ty)
            fr.regs[I.dst] = old
            return None
        raise Unsupported("instruction %s" % op)

    def fcmp(self, st, pred, a, b):
        import struct
        if isinstance(a, int) and isinstance(b, int):
            x, y = [struct.unpack('<d', struct.pack('<Q', v))[0] for v in (a, b)]
            nan = x != x or y != y
            c = pred[1:]
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(c)
            if r is not None:
                return (not nan and r) if pred[0] == 'o' else (nan or r)
        F = z3.Function('fcmp_' + pred, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return F(zi(a), zi(b))

    def signed_idx(self, st, v, w):
        if isinstance(v, int):
            return self.signed(v, w)
        if self.valid(st, v < (1 << (w - 1)), tmo=1500):
            return v
        return simp(self.signed(v, w))

    def setreg(self, s, dst, v):
        s.frames[-1].regs[dst] = v

    def fork(self, st, alts):
        """alts: list of (cond, action(state)); returns feasible successor states"""
        feas = []
        for c, act in alts:
            if c is False:
                continue
            if c is True or self.feasible(st, c):
                feas.append((c, act))
        out = []
        if len(feas) > 1:
            st.nforks += 1
        for i, (c, act) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.clone()
            out.append((s, c, act))
        # clone happened before mutation: apply afterwards
        res = []
        for s, c, act in out:
            self.assume(s, c)
            r = act(s)
            if isinstance(r, list):
                res.extend(r)
            else:
                res.append(s)
        return res

    def branch(self, st, fr, c, t, f):
        lp = self.exit_loops(st, fr, t, f)
        if isinstance(c, bool):
            for k in lp:
                if st.iter0.get(k) == st.nforks:
                    st.tested.add(k)
            self.goto(st, fr, t if c else f)
            return True
        # decided by the path condition?
        ft = self.feasible(st, c)
        nc = Not_(c)
        ff = self.feasible(st, nc) if ft else True
        if ft and not ff:
            self.assume(st, c)
            self.goto(st, fr, t)
            return True
        if not ft:
            if not self.feasible(st, nc):
                return []
            self.assume(st, nc)
            self.goto(st, fr, f)
            return True
        st.nforks += 1
        s2 = st.clone()
        self.assume(st, c)
        self.goto(st, fr, t)
        self.assume(s2, nc)
        self.goto(s2, s2.frames[-1], f)
        return [st, s2]

    def exit_loops(self, st, fr, t, f):
        """keys of loops of this frame which this branch may leave"""
        out = []
        b = fr.block
        for h, body in fr.fn.loops.items():
            if b in body and ((t in body) != (f in body)):
                out.append((len(st.frames), h))
        return out

    def do_call(self, st, fr, I):
        cal = I.x
        args = [self.val(st, fr, o) if o[0] != 'md' else None for o in I.ops]
        if cal[0] == 'fn':
            name = cal[1]
        else:
            p = self.val(st, fr, cal)
            if not isinstance(p, Ptr) or p.rid == 0:
                self.mem(st, False, 'null_call')
                return []
            r = st.regions[p.rid]
            if r.kind != 'func':
                self.mem(st, False, 'call_of_data')
                return []
            name = r.aux
        return self.call_named(st, fr, name, args, I)

    def call_named(self, st, fr, name, args, I):
        b = self.builtins.get(name)
        if b is None and name.startswith('llvm.'):
            base = '.'.join(name.split('.')[:2])
            b = self.builtins.get(base)
        if b is None and name.startswith('__uf_'):
            b = self.uf_call
        if b is not None:
            return b(st, fr, args, I, name)
        c = self.contracts.get(name)
        if c is not None and not any(f.fn.name == c for f in st.frames):
            self.stats['contracts'].add((name, c))
            name = c
        fn = self.m.functions.get(name)
        if fn is None or fn.decl:
            raise Unsupported("external function %s" % name)
        self.call(st, name, args, I.dst, (fr.fn.name, fr.block, fr.ip))
        if fn.simple:
            return True
        d = len(st.frames)
        _, exits = self.explore([st], LoopCtx(d, None, None, None))
        if self.mods_only:
            return loops.thin(exits)
        m = merge.merge(self, exits)
        if DEBUG >= 2 and len(exits) > 1:
            dbg(2, "%scall %s: %d exits -> %d" % ('  ' * d, name, len(exits), len(m)))
        return m

    def uf_call(self, st, fr, args, I, name):
        nm = name[5:]
        d = self.sf.get(nm)
        args = [self.as_int(st, a) for a in args]
        if d and 'macro' in d:
            v = d['macro'](*[zi(a) for a in args])
        else:
            F = z3.Function(nm, *([z3.IntSort()] * (len(args) + 1)))
            v = F(*[zi(a) for a in args])
            if not args and I.ty[0] == 'i':
                st.pc.append(z3.And(v >= 0, v < (1 << I.ty[1])))
            if not d or 'range' not in d and 'unfold' not in d and 'axiom' not in d:
                if I.ty[0] == 'i' and I.ty[1] > 1:
                    self.sf[nm] = dict(range=(0, (1 << I.ty[1]) - 1))
        if I.ty == ('i', 1):
            if not z3.is_bool(v):
                v = simp(v != 0)
        elif z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        fr.regs[I.dst] = S(v)
        return None

    # ---- pure evaluation of a function in a state (for contracts/invariants) -------
    def eval_pure(self, st, name, args):
        """value of a pure boolean function, all paths merged"""
        s = st.clone()
        depth0 = len(s.frames)
        saved = s.frames
        # run in isolation: a fresh frame stack
        s.frames = []
        s.arrived = False
        npc = len(s.pc)
        mark = len(self.obls)
        self.call(s, name, args, None, ('pure', 0, 0))
        _, ends = self.explore([s], None)
        del self.obls[mark:]
        res = []
        side = []
        for e in ends:
            delta = e.pc[npc:]
            v = e.retval
            if not isinstance(v, bool) and not z3.is_bool(v):
                v = simp(v != 0) if isz(v) else bool(v)
            res.append(And_(*(delta + [v])))
        return simp(zb(Or_(*res)))

    # ---- loops ---------------------------------------------------------------------
    def callkey(self, st):
        return '/'.join("%s@%s" % (f.fn.name[-40:], f.block) for f in st.frames)

    def handle_loop(self, st):
        return loops.handle_loop(self, st)

    # ---- running a harness ------------------------------------------------------------
    def run_function(self, name):
        st = State()
        r = Region(0, 'null', 'null')
        st.regions[0] = r
        # every mutable global exists from the start (a loop must see those it is the first to touch)
        for g in list(self.m.globals):
            if not g.startswith('llvm.') and not self.m.global_info(g)[2]:
                self.global_ptr(st, g)
        self.call(st, name, [], None, ('entry', 0, 0))
        _, ends = self.explore([st], None)
        return ends

    def discharge(self, only=None):
        """solve all recorded obligations"""
        res = []
        for o in self.obls:
            if only is not None and not only(o):
                continue
            if o.goal is True:
                o.status = 'proved'
                res.append(o)
                continue
            t0 = time.time()
            if o.goal is False:
                r, m = self.check(o.pc, [], want_model=True, slice_=False)
            else:
                r, m = self.check(o.pc, [z3.Not(o.goal)], want_model=True)
                if r == 'sat':
                    # confirm with the full path condition
                    r, m = self.check(o.pc, [z3.Not(o.goal)], want_model=True, slice_=False)
            o.time = time.time() - t0
            o.status = 'proved' if r == 'unsat' else ('failed' if r == 'sat' else 'unknown')
            if m is not None:
                o.model = {str(d): str(m[d])[:200] for d in m.decls()[:80]}
            res.append(o)
        return res


import loops
