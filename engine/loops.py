"""Loop handling: constant-trip execution, otherwise inductive invariants.

The invariant of a loop is the conjunction of
  * the contract clauses the harness gives with __spec_loop_inv, and
  * the largest inductive subset (Houdini) of template instances over the cells
    the loop modifies.
Every surviving clause is proved on entry and on every back edge in this run.
"""
import itertools
import z3
import sym
import merge
from sym import (Ptr, NULL, Seq, Unsupported, LoopCtx, isz, same, simp, zi, add, sub, eq, le, lt,
                 And_, Or_, Not_, dbg, splice_fn)


class Memo:
    def __init__(s):
        s.mods = set()
        s.dropped = set()
        s.ptralts = {}
        s.modsdone = False
        s.backdropped = set()


def handle_loop(E, st):
    st.arrived = False
    fr = st.frames[-1]
    depth = len(st.frames)
    h = fr.block
    key = E.callkey(st)
    ctx = LoopCtx(depth, h, fr.fn.loops[h], key)
    lk = (depth, h)
    if E.mods_only:
        return mods_loop(E, st, ctx)
    forced = loop_forced(E, st, fr, h)
    if not forced and key not in E.noncounted:
        cur, done = [st], []
        it = 0
        while cur:
            snaps = [c.clone() for c in cur]
            mark = len(E.obls)
            for c in cur:
                c.tested.discard(lk)
                c.iter0[lk] = c.nforks
            backs, exits = E.explore(cur, ctx)
            if all(lk in b.tested for b in backs) and it < E.opts['unroll']:
                done += exits
                cur = merge.merge(E, backs) if len(backs) > 1 else backs
                for c in cur:
                    c.arrived = False
                it += 1
                continue
            # the loop is not decided by constants: by invariant from here on
            del E.obls[mark:]
            if it == 0:
                E.noncounted.add(key)
            for c in snaps:
                done += invariant_loop(E, c, ctx)
            return merge.merge(E, done)
        E.stats['loops'].setdefault(key.split('/')[-1], 'counted')
        return merge.merge(E, done)
    return merge.merge(E, invariant_loop(E, st, ctx))


def mods_loop(E, S0, ctx):
    """over-approximate what the loop modifies; no obligations, no invariants"""
    sk = ctx.key.split('/')[-1]
    mem = E.modseed.setdefault(sk, set())
    memo = Memo()
    memo.mods |= mem
    mark = len(E.obls)
    H = S0.clone()
    havoc(E, S0, H, memo, ctx)
    exits, cur = [], [H]
    for it in range(2):
        nxt = []
        for h0 in cur:
            b, e = E.explore([h0.clone()], ctx)
            nxt += b
            exits += e
            for x in b:
                try:
                    memo.mods |= diff(E, H, x, memo.mods)
                except Unsupported:
                    pass
        cur = thin(nxt, 2)
        for c in cur:
            c.arrived = False
    del E.obls[mark:]
    mem |= memo.mods
    return thin(exits)


def thin(states, n=3):
    g = {}
    for s in states:
        g.setdefault(merge.key(s), []).append(s)
    return [s for l in g.values() for s in l[:n]]


def loop_forced(E, st, fr, h):
    """the straight-line start of the loop contains a __spec_loop marker call"""
    body = fr.fn.loops[h]
    b, seen = h, set()
    while b not in seen and b in body:
        seen.add(b)
        for I in fr.fn.blocks[b]:
            if I.op == 'call' and I.x[0] == 'fn' and I.x[1] in ('__spec_loop', '__spec_loop_inv'):
                return True
        t = fr.fn.blocks[b][-1]
        if t.op != 'br' or t.ops:
            return False
        b = t.x[0]
        if b in fr.fn.loops:
            return False
    return False


def label_cells(st):
    """label -> (rid, off) for addressing cells across passes"""
    return {r.label: rid for rid, r in st.regions.items() if r.alive}


def diff(E, H, B, mods):
    """cells of regions existing in H that differ in B"""
    out = set()
    for rid, hr in H.regions.items():
        br = B.regions.get(rid)
        if br is None:
            if hr.alive and hr.kind == 'heap':
                raise Unsupported("object vanished")
            continue
        if br is hr or hr.kind in ('func', 'view', 'null'):
            continue
        if hr.alive and not br.alive:
            raise Unsupported("loop frees pre-existing object %s" % hr.label)
        if not hr.alive:
            continue
        if br.arr is not None or hr.arr is not None:
            if hr.arr is None or br.arr is None or hr.arr[1] is not br.arr[1]:
                out.add((hr.label, 'arr'))
            continue
        for off in set(hr.cells) | set(br.cells):
            a = hr.cells.get(off)
            b = br.cells.get(off)
            if b is None:
                # became covered by something else
                continue
            if a is None:
                # first written in the loop (uninitialised at entry, or zero range)
                if any(x <= off and off + b[0] <= y for x, y in hr.zero):
                    if isinstance(b[1], int) and b[1] == 0:
                        continue
                    if isinstance(b[1], Ptr) and b[1].rid == 0:
                        continue
                out.add((hr.label, off))
                continue
            if a[0] != b[0]:
                raise Unsupported("cell size changes in loop: %s+%s" % (hr.label, off))
            if not same(a[1], b[1]):
                out.add((hr.label, off))
    return out


class Var:
    """an integer-valued observable of the state"""
    __slots__ = ('name', 'get', 'width', 'entry', 'ghost', 'mod', 'kind')

    def __init__(s, name, get, entry, mod, ghost=False, kind='int', width=64):
        s.name, s.get, s.entry, s.mod, s.ghost, s.kind, s.width = name, get, entry, mod, ghost, kind, width


def cellval(st, rid, off):
    r = st.regions[rid]
    c = r.cells.get(off)
    if c is None:
        for a, b in r.zero:
            if a <= off < b:
                return 0
        return None
    return c[1]


def invariant_loop(E, S0, ctx):
    fr = S0.frames[-1]
    if fr.fn.blocks[ctx.header][0].op == 'phi':
        raise Unsupported("loop-carried register")
    if ctx.header in fr.fn.rotated.values():
        # cut before the step: no register of the body may be carried over the cut
        for b in ctx.blocks:
            for I in fr.fn.blocks[b]:
                if I.dst is not None:
                    fr.regs[I.dst] = None
    base = ctx.key
    n = E.arrival.get(base, 0)
    E.arrival[base] = n + 1
    mkey = "%s~%d" % (base, n)
    memo = E.loopmemo.get(mkey)
    if memo is None:
        memo = E.loopmemo[mkey] = Memo()
    sk = base.split('/')[-1]
    if not memo.mods:
        memo.mods |= E.modseed.get(sk, set())
        if E.opts.get('seed', True):
            memo.dropped |= E.dropseed.get(sk, set())
    if sk in E.modsknown:
        memo.modsdone = True
    if not memo.modsdone:
        # first: what does the loop modify (superset), cheaply
        E.mods_only = True
        try:
            st0 = S0.clone()
            mods_loop(E, st0, ctx)
            memo.mods |= E.modseed.get(sk, set())
        finally:
            E.mods_only = False
        memo.modsdone = True
        E.modsknown.add(sk)
    entry_checked = {}
    npass = 0
    while True:
        npass += 1
        E.stats['hpasses'] += 1
        if npass > 120:
            raise Unsupported("invariant inference does not converge")
        mark = len(E.obls)
        sub_arr = {k: v for k, v in E.arrival.items() if k.startswith(base + '/') or k == base}
        for k in list(E.arrival):
            if k.startswith(base + '/'):
                del E.arrival[k]
        H = S0.clone()
        vars_, heads = havoc(E, S0, H, memo, ctx)
        prehavoc_ptrs(E, S0, H, memo)
        while True:
            cands = make_cands(E, S0, H, vars_, memo)
            cands = [c for c in cands if c[0] not in memo.dropped]
            # entry filter; a dropped clause makes room for weaker ones
            todo = [c for c in cands if c[0] not in entry_checked]
            bad = filter_cands(E, S0, todo) if todo else set()
            for c in todo:
                entry_checked[c[0]] = c[0] not in bad
            memo.dropped |= bad
            if not bad:
                break
        for c in cands:
            if c[2] == 'content':
                continue
            E.assume(H, c[1](H))
        apply_content(E, H, cands)
        H.notes['hav:' + base] = True
        newmods = set()
        backs, exits = [], []
        for h0 in expand_ptrs(E, H, memo):
            b, e = E.explore([h0.clone()], ctx)
            backs += b
            exits += e
            for x in b:
                newmods |= diff(E, h0, x, memo.mods)
        for x in backs:
            ptr_alts(E, H, x, memo, newmods)
        grown = newmods - memo.mods
        if grown:
            dbg(2, "loop %s pass %d: new modified %s" % (base.split('/')[-1], npass, sorted(map(str, grown))[:6]))
            memo.mods |= grown
            E.modseed.setdefault(sk, set()).update(grown)
            entry_checked = {}
            memo.dropped = set()
            memo.backdropped = set()
            del E.obls[mark:]
            continue
        if memo.ptralts.pop('_grew', None):
            del E.obls[mark:]
            continue
        bad = set()
        live = cands
        for b in backs:
            x = filter_cands(E, b, live)
            bad |= x
            live = [c for c in live if c[0] not in x]
        if bad:
            dbg(3, "loop %s pass %d: dropped %d of %d" % (base.split('/')[-1], npass, len(bad), len(cands)))
            memo.dropped |= bad
            memo.backdropped |= bad
            del E.obls[mark:]
            continue
        # explicit contract invariants: recorded as obligations at back edges by the
        # __spec_loop_inv builtin (entry) and here
        for b in backs:
            for fnname, args, ident in b.notes.get('inv:' + str((ctx.depth, ctx.header)), []):
                g = E.eval_pure(b, fnname, args)
                E.oblige(b, g, ident + '.inv_preserved', 'invariant')
        break
    E.modseed.setdefault(sk, set()).update(memo.mods)
    E.dropseed.setdefault(sk, set()).update(memo.backdropped)
    E.stats['loops'][base.split('/')[-1]] = 'invariant(%d clauses)' % len(cands)
    E.stats['inv'][mkey] = [c[0] for c in cands]
    if sym.DEBUG >= 2:
        dbg(2, "loop %s: %d clauses after %d passes, %d backs %d exits" % (
            base.split('/')[-1], len(cands), npass, len(backs), len(exits)))
        if sym.DEBUG >= 3:
            for c in cands:
                dbg(3, "    ", c[0])
    return exits


# ------------------------------------------------------------------ havoc -----
def havoc(E, S0, H, memo, ctx):
    lab = label_cells(S0)
    vars_ = []
    memo.hv = {}
    for (label, off) in sorted(memo.mods, key=str):
        rid = lab.get(label)
        if rid is None:
            continue
        r0 = S0.regions[rid]
        if not r0.alive:
            continue
        if off == 'arr':
            esz = r0.arr[0] if r0.arr else None
            if esz is None:
                # entry in cell form, array in the loop: bytes
                E.to_arr(S0, rid, 1)
                E.to_arr(H, rid, 1)
                esz = S0.regions[rid].arr[0]
            w = H.wr(rid)
            w.arr = (esz, E.fresh_fn(H, 8 * esz, 'h.' + label[-20:]))
            continue
        if r0.arr is not None:
            continue
        c = r0.cells.get(off)
        v0 = c[1] if c else None
        if c is None:
            # uninitialised or zero at entry; size from what the loop wrote
            sz = memo.ptralts.get(('size', label, off), None)
            z = any(a <= off < b for a, b in r0.zero)
            v0 = 0 if z else None
            if sz is None:
                sz = memo_size(E, memo, label, off)
            if v0 is None:
                # dead on entry (local of the body): any value will do
                w = H.wr(rid)
                w.cells.pop(off, None)
                continue
            c = (sz, v0)
        w = H.wr(rid)
        if isinstance(v0, Seq):
            q = E.fresh_seq(H, v0.esz, 'h', lo=0 if isinstance(v0.lo, int) and v0.lo == 0 and
                            not memo.ptralts.get(('lomoves', label, off)) else None)
            w.cells[off] = (8, q)
        elif isinstance(v0, Ptr):
            alts = memo.ptralts.get((label, off))
            if alts is None:
                alts = memo.ptralts[(label, off)] = []
            memo.hv[(label, off)] = 'ptr'
        else:
            w.cells[off] = (c[0], E.fresh(H, 8 * c[0], 'h.' + str(label)[-24:] + '+' + str(off)))
    return vars_, None


def memo_size(E, memo, label, off):
    return memo.ptralts.get(('sz', label, off), 8)


def ptr_alts(E, H, B, memo, newmods):
    """remember the alternatives a modified pointer cell can take"""
    lab = label_cells(H)
    for (label, off) in set(memo.mods) | newmods:
        rid = lab.get(label)
        if rid is None or off == 'arr' or rid not in B.regions:
            continue
        c = B.regions[rid].cells.get(off)
        if c is None:
            continue
        memo.ptralts[('sz', label, off)] = c[0]
        v = c[1]
        h = H.regions[rid].cells.get(off)
        if isinstance(v, Seq) and h is not None and isinstance(h[1], Seq) and not same(v.lo, h[1].lo):
            if not memo.ptralts.get(('lomoves', label, off)):
                memo.ptralts[('lomoves', label, off)] = True
                memo.ptralts['_grew'] = True
        if isinstance(v, Ptr):
            alts = memo.ptralts.setdefault((label, off), [])
            if isz(v.off):
                tag = ('sym', B.regions[v.rid].label if v.rid in H.regions else None, v.rid)
                if v.rid not in H.regions:
                    raise Unsupported("loop stores pointer to object created inside the loop (%s+%s -> %s)" %
                                      (label, off, B.regions[v.rid].label))
                if not any(a[0] == 'sym' and a[1] == v.rid for a in alts):
                    alts[:] = [a for a in alts if a[1] != v.rid]
                    alts.append(('sym', v.rid, None))
                    memo.ptralts['_grew'] = True
            else:
                if v.rid not in H.regions or (v.rid != 0 and not H.regions[v.rid].alive):
                    r0 = H.regions[rid].cells.get(off)
                    raise Unsupported("loop stores pointer to object created inside the loop (%s+%s -> %s)" %
                                      (label, off, B.regions[v.rid].label))
                h = H.regions[rid].cells.get(off)
                if any(a[1] == v.rid and (a[0] == 'sym' or a[2] == v.off) for a in alts):
                    continue
                cur = [a for a in alts if a[1] == v.rid and a[0] == 'con']
                if len(cur) >= 2:
                    alts[:] = [a for a in alts if a[1] != v.rid]
                    alts.append(('sym', v.rid, None))
                else:
                    alts.append(('con', v.rid, v.off))
                if (label, off) in memo.mods or (label, off) in newmods:
                    memo.ptralts['_grew'] = True


def prehavoc_ptrs(E, S0, H, memo):
    """a pointer that only walks within one object: its offset takes part in the inference"""
    lab = label_cells(H)
    memo.pre = set()
    for (label, off), kind in list(memo.hv.items()):
        rid = lab.get(label)
        if kind != 'ptr' or rid is None:
            continue
        alts = memo.ptralts.get((label, off), [])
        c = H.regions[rid].cells.get(off)
        if c and isinstance(c[1], Ptr) and c[1].rid != 0 and alts and all(a[0] == 'sym' and a[1] == c[1].rid for a in alts):
            H.wr(rid).cells[off] = (8, Ptr(c[1].rid, E.fresh(H, 62, 'hp')))
            memo.pre.add((label, off))


def expand_ptrs(E, H, memo):
    """fork the head state over the alternatives of modified pointer cells"""
    lab = label_cells(H)
    states = [H]
    for (label, off), kind in list(memo.hv.items()):
        if kind != 'ptr':
            continue
        rid = lab.get(label)
        if rid is None:
            continue
        if (label, off) in memo.pre:
            continue
        alts = memo.ptralts.get((label, off), [])
        nxt = []
        for s in states:
            c = s.regions[rid].cells.get(off)
            v0 = c[1]
            opts = [('con', v0.rid, v0.off)]
            if any(a[0] == 'sym' and a[1] == v0.rid for a in alts):
                opts = []
            for a in alts:
                if a[0] == 'con' and opts and a[1] == v0.rid and same(a[2], v0.off):
                    continue
                opts.append(a)
            for a in opts:
                t = s.clone()
                if a[0] == 'con':
                    p = Ptr(a[1], a[2])
                else:
                    p = Ptr(a[1], E.fresh(t, 62, 'hp'))
                t.wr(rid).cells[off] = (8, p)
                nxt.append(t)
        states = nxt
    return states


# --------------------------------------------------------------- candidates ----
def seq_cells(st):
    for rid, r in st.regions.items():
        if r.alive and r.arr is None:
            for off, c in r.cells.items():
                if isinstance(c[1], Seq):
                    yield rid, r.label, off, c[1]


def collect_vars(E, S0, H, memo):
    """modified and relevant unmodified integer observables"""
    lab = label_cells(S0)
    mods = set(memo.mods)
    out = []
    fr = S0.frames[-1]
    frame_rids = set(fr.allocas)
    # frames above the innermost that hold modified cells also matter
    modrids = {lab[l] for l, o in mods if l in lab}
    touched = set(modrids)
    seqs = []
    for rid in sorted(frame_rids | touched | {r for n, r in S0.glob.items() if n.startswith('g_')}, key=str):
        r = S0.regions.get(rid)
        if r is None or not r.alive:
            continue
        ghost = r.label.startswith('@g_')
        if r.arr is not None:
            continue
        offs = set(r.cells)
        for l, o in mods:
            if l == r.label and o != 'arr':
                offs.add(o)
        for off in sorted(offs):
            v = cellval(S0, rid, off)
            m = (r.label, off) in mods
            if v is None:
                continue
            if isinstance(v, Ptr):
                hv = cellval(H, rid, off) if m and v.rid != 0 else None
                if isinstance(hv, Ptr) and hv.rid == v.rid and (r.label, off) in getattr(memo, 'pre', ()):
                    # offset observable, only meaningful while the region is the same
                    def pget(s, rid=rid, off=off, base=v.rid):
                        q = cellval(s, rid, off)
                        return q.off if isinstance(q, Ptr) and q.rid == base else -1
                    out.append(Var("off(%s+%s)" % (r.label, off), pget, v.off, True, False, 'coord'))
                continue
            if isinstance(v, Seq):
                seqs.append((rid, off, m, r.label))
                continue
            if not m and isinstance(v, int):
                if not ghost and v > 1:
                    pass
            w = r.cells[off][0] * 8 if off in r.cells else 64
            out.append(Var("%s+%s" % (r.label, off),
                           (lambda rid, off: lambda s: cellval(s, rid, off))(rid, off), v, m, ghost, 'int', w))
    if E.opts.get('rich'):
        # sequences the frame points to, not modified by the loop
        have = {(x[0], x[1]) for x in seqs}
        for rid, label, off, q in list(seq_cells(S0)):
            if (rid, off) not in have and rid in memo_ptr_targets(S0):
                seqs.append((rid, off, False, label))
    for rid, off, m, label in seqs:
        q0 = cellval(S0, rid, off)
        nm = "%s+%s" % (label, off)

        def mk(rid, off, f):
            return lambda s: f(cellval(s, rid, off))
        out.append(Var('lo(%s)' % nm, mk(rid, off, lambda q: q.lo), q0.lo, m, False, 'coord'))
        out.append(Var('hi(%s)' % nm, mk(rid, off, lambda q: q.hi), q0.hi, m, False, 'coord'))
        out.append(Var('size(%s)' % nm, mk(rid, off, lambda q: q.size()), q0.size(), m, False, 'size'))
    # derived: ghost - size(seq)
    der = []
    pos = E.opts.get('positions', ())
    ghosts = [v for v in out if v.ghost and v.width >= 32 and v.name.split('+')[0][1:] in pos]
    sizes = [v for v in out if v.kind == 'size']
    for g in ghosts:
        for z in sizes:
            if g.mod or z.mod:
                der.append(Var('%s-%s' % (g.name, z.name),
                               (lambda g, z: lambda s: sub(g.get(s), z.get(s)))(g, z),
                               sub(g.entry, z.entry), True, True, 'derived'))
    return out + der, seqs


def make_cands(E, S0, H, _v, memo):
    """template instances; weaker ones only once the stronger one that implies them was dropped"""
    vars_, seqs = collect_vars(E, S0, H, memo)
    memo.vars = vars_
    memo.seqs = seqs
    mod = [v for v in vars_ if v.mod]
    cands = []
    D = memo.dropped

    def addc(name, f, kind='rel'):
        """returns True if the candidate is (still) in the set"""
        if name in D:
            return False
        cands.append((name, f, kind))
        return True
    loose = []
    for x in mod:
        x0 = x.entry
        if addc('%s==entry' % x.name, (lambda x, x0: lambda s: eq(x.get(s), x0))(x, x0)):
            continue
        loose.append(x)
        addc('%s>=entry' % x.name, (lambda x, x0: lambda s: le(x0, x.get(s)))(x, x0))
        addc('%s<=entry' % x.name, (lambda x, x0: lambda s: le(x.get(s), x0))(x, x0))
        addc('%s<=1' % x.name, (lambda x: lambda s: le(x.get(s), 1))(x))
        if x.kind in ('coord', 'derived'):
            addc('%s>=0' % x.name, (lambda x: lambda s: le(0, x.get(s)))(x))
        addc('%s>=1' % x.name, (lambda x: lambda s: le(1, x.get(s)))(x))
    fixed = [v for v in vars_ if v not in loose]
    big = lambda v: v.width >= 32
    seen_const = set()
    for i, x in enumerate(loose):
        if not big(x):
            continue
        for y in loose[i + 1:]:
            if not big(y):
                continue
            if addc('%s==%s' % (x.name, y.name), (lambda x, y: lambda s: eq(x.get(s), y.get(s)))(x, y)):
                continue
            if addc('%s-%s==entry' % (x.name, y.name),
                    (lambda x, y, c: lambda s: eq(sub(x.get(s), y.get(s)), c))(x, y, sub(x.entry, y.entry))):
                continue
            if x.kind != 'derived' and y.kind != 'derived':
                addc('%s+%s==entry' % (x.name, y.name),
                     (lambda x, y, c: lambda s: eq(add(x.get(s), y.get(s)), c))(x, y, add(x.entry, y.entry)))
            addc('%s<=%s' % (x.name, y.name), (lambda x, y: lambda s: le(x.get(s), y.get(s)))(x, y))
            addc('%s>=%s' % (x.name, y.name), (lambda x, y: lambda s: le(y.get(s), x.get(s)))(x, y))
        for y in fixed:
            if not big(y):
                continue
            k = (x.name, y.entry.get_id() if isz(y.entry) else y.entry)
            if k in seen_const:
                continue
            seen_const.add(k)
            if isinstance(y.entry, int) and y.entry <= 1:
                continue
            addc('%s<=%s' % (x.name, y.name), (lambda x, y: lambda s: le(x.get(s), y.get(s)))(x, y))
            addc('%s>=%s' % (x.name, y.name), (lambda x, y: lambda s: le(y.get(s), x.get(s)))(x, y))
    # flags (8-bit cells): implications between flags, and between flags and sizes
    flags = [v for v in loose if v.width == 8]
    allflags = [v for v in vars_ if v.width == 8 and v.kind == 'int']
    pre = []
    for f in allflags:
        pre.append(('%s==0' % f.name, f, (lambda f: lambda s: eq(f.get(s), 0))(f)))
        pre.append(('%s!=0' % f.name, f, (lambda f: lambda s: Not_(eq(f.get(s), 0)))(f)))
    for z in loose:
        if z.kind == 'size' or z.ghost and z.kind == 'int' and big(z):
            pre.append(('%s==0' % z.name, z, (lambda f: lambda s: eq(f.get(s), 0))(z)))
            pre.append(('%s!=0' % z.name, z, (lambda f: lambda s: Not_(eq(f.get(s), 0)))(z)))
    if len(pre) <= 40:
        for pn, pv, pf in pre:
            for qn, qv, qf in pre:
                if pv is qv or not (pv.mod or qv.mod):
                    continue
                addc('%s=>%s' % (pn, qn),
                     (lambda pf, qf: lambda s: Or_(Not_(pf(s)), qf(s)))(pf, qf))
    for z in loose:
        if z.ghost and z.kind == 'int' and big(z):
            for pn, pv, pf in pre:
                if pv in allflags:
                    addc('%s=>%s==entry' % (pn, z.name),
                         (lambda pf, z, e: lambda s: Or_(Not_(pf(s)), eq(z.get(s), e)))(pf, z, z.entry))
    guards = [(None, None)] + [(pn, pf) for pn, pv, pf in pre if pv in flags]
    # recursive specification functions
    for nm, d in E.sf.items():
        ar = d.get('inv_arity')
        if not ar:
            continue
        F = z3.Function(nm, *([z3.IntSort()] * (ar + 1)))
        xs = [v for v in loose if big(v) and (v.kind == 'derived' or not seqs and v.kind == 'int')]
        ys = [v for v in loose if big(v) and v.kind == 'int' and not v.ghost]
        for x in xs:
            if ar == 1:
                addc('%s(%s)==entry' % (nm, x.name),
                     (lambda F, x, e: lambda s: F(zi(x.get(s))) == e)(F, x, F(zi(x.entry))))
                continue
            for y in ys:
                e = F(zi(x.entry), zi(y.entry))
                if addc('%s(%s,%s)==entry' % (nm, x.name, y.name),
                        (lambda F, x, y, e: lambda s: F(zi(x.get(s)), zi(y.get(s))) == e)(F, x, y, e)):
                    continue
                for pn, pf in guards[1:]:
                    addc('%s=>%s(%s,%s)==entry' % (pn, nm, x.name, y.name),
                         (lambda F, x, y, e, pf: lambda s: Or_(Not_(pf(s)), F(zi(x.get(s)), zi(y.get(s))) == e))(
                             F, x, y, e, pf))
                    for c in d.get('inv_consts', ()):
                        addc('%s=>%s(%s,%d)==entry(%s)' % (pn, nm, x.name, c, y.name),
                             (lambda F, x, c, e, pf: lambda s: Or_(Not_(pf(s)), F(zi(x.get(s)), zi(c)) == e))(
                                 F, x, c, e, pf))
    # candidate predicates supplied by the unit (checked like every other candidate)
    for fnm in E.opts.get('cand_fns', ()):
        if fnm in E.m.functions:
            addc('%s()' % fnm, (lambda fnm: lambda s: E.eval_pure(s, fnm, []))(fnm))
    # content of modified sequences: equals a spec stream or another sequence's entry content, shifted
    content_cands(E, S0, H, memo, vars_, seqs, cands)
    return cands


def streams(E):
    return [(nm, d) for nm, d in E.sf.items() if d.get('stream')]


def content_cands(E, S0, H, memo, vars_, seqs, cands):
    anchors = [v for v in vars_ if v.ghost and v.kind == 'int' and v.width >= 32] + \
              [v for v in vars_ if v.mod and v.kind == 'int' and v.width >= 32 and not v.ghost]
    fixed = [v for v in vars_ if not v.mod and v.width >= 32 and v.kind == 'int']
    targets = []
    for rid, off, m, label in seqs:
        if m:
            targets.append(('seq', rid, off, label))
    lab = label_cells(S0)
    for l, o in memo.mods:
        if o == 'arr' and l in lab and S0.regions[lab[l]].alive:
            targets.append(('arr', lab[l], None, l))
    srcs = []
    for nm, d in streams(E):
        F = z3.Function(nm, z3.IntSort(), z3.IntSort())
        srcs.append((nm, lambda i, F=F: F(zi(i))))
    # entry contents of sequences / arrays (unmodified or modified) as sources
    for rid, label, off, q in seq_cells(S0):
        if any(t[0] == 'seq' and t[1] == rid and t[2] == off for t in targets) or (label, off) in memo.mods or \
           any(s[0] == rid and s[1] == off for s in seqs):
            srcs.append(('entry(%s+%s)' % (label, off), q.fn))
    for rid, r in S0.regions.items():
        if r.alive and r.arr is not None and r.kind in ('stack', 'heap', 'global') and not r.const and \
           ((r.label, 'arr') in memo.mods or rid in memo_ptr_targets(S0)):
            srcs.append(('entry(%s)' % r.label, r.arr[1]))
    memo.content = []
    if len(targets) * len(srcs) == 0:
        return
    for kind, rid, off, label in targets:
        if kind == 'seq':
            ends = [('lo', lambda s, rid=rid, off=off: cellval(s, rid, off).lo),
                    ('hi', lambda s, rid=rid, off=off: cellval(s, rid, off).hi)]
            rng = lambda s, rid=rid, off=off: (cellval(s, rid, off).lo, cellval(s, rid, off).hi)
            read = lambda s, rid=rid, off=off: cellval(s, rid, off).fn
        else:
            ends = [('0', lambda s: 0)]
            read = lambda s, rid=rid: s.regions[rid].arr[1]
            rng = None
        tn = '%s+%s' % (label, off)
        for sn, fn in srcs:
            shifts = [('0', lambda s: 0)]
            for en, ef in ends:
                for a in anchors:
                    shifts.append(('%s-%s' % (a.name, en), (lambda a, ef: lambda s: sub(a.get(s), ef(s)))(a, ef)))
                for a in fixed:
                    shifts.append(('%s-%s' % (a.name, en), (lambda a, ef: lambda s: sub(a.get(s), ef(s)))(a, ef)))
                # other sequences' coordinates
                for v in vars_:
                    if v.kind == 'coord':
                        shifts.append(('%s-%s' % (v.name, en), (lambda a, ef: lambda s: sub(a.get(s), ef(s)))(v, ef)))
                # constant shift fixed at entry
                c0 = ef(S0)
            seen = set()
            if kind == 'seq':
                for shn, sh in shifts:
                    nm = 'content(%s)[k]==%s[k+%s]' % (tn, sn, shn)
                    if nm in seen or nm in memo.dropped:
                        continue
                    seen.add(nm)
                    cands.append((nm, mk_content(E, read, rng, fn, sh), 'content', (kind, rid, off, fn, sh, rng)))
                    if shn == '0':
                        break
                # written element by element: the prefix done so far
                if E.opts.get('rich') and ('size(%s)==entry' % tn) not in memo.dropped:
                    for x in [v for v in vars_ if v.mod and v.kind == 'int' and v.width >= 32]:
                        px = lambda s, rng=rng, x=x: (rng(s)[0], add(rng(s)[0], x.get(s)))
                        for shn, sh in shifts:
                            nm = 'content(%s)[k<%s]==%s[k+%s]' % (tn, x.name, sn, shn)
                            if nm in seen or nm in memo.dropped:
                                continue
                            seen.add(nm)
                            cands.append((nm, mk_content(E, read, px, fn, sh), 'content', (kind, rid, off, fn, sh, px)))
                        if sn == 'entry(%s)' % tn:
                            sx = lambda s, rng=rng, x=x: (add(rng(s)[0], x.get(s)), rng(s)[1])
                            nm = 'content(%s)[k>=%s]==%s[k]' % (tn, x.name, sn)
                            if nm not in memo.dropped:
                                z = lambda s: 0
                                cands.append((nm, mk_content(E, read, sx, fn, z), 'content', (kind, rid, off, fn, z, sx)))
                # grown at the end: the part there on entry, and the part appended since
                h0 = cellval(S0, rid, off).hi
                pre = lambda s, rng=rng, h0=h0: (rng(s)[0], h0)
                post = lambda s, rng=rng, h0=h0: (h0, rng(s)[1])
                if sn == 'entry(%s)' % tn:
                    nm = 'content(%s)[k<hi0]==%s[k]' % (tn, sn)
                    if nm not in memo.dropped:
                        z = lambda s: 0
                        cands.append((nm, mk_content(E, read, pre, fn, z), 'content', (kind, rid, off, fn, z, pre)))
                else:
                    nm = 'content(%s)[k>=hi0]==%s[k-hi0]' % (tn, sn)
                    if nm not in memo.dropped:
                        z = lambda s, h0=h0: sub(0, h0)
                        cands.append((nm, mk_content(E, read, post, fn, z), 'content', (kind, rid, off, fn, z, post)))
            else:
                # array prefix [a0, x) for a modified index x, or suffix
                idx = [v for v in vars_ if v.kind == 'int' and v.width >= 32]
                for x in [v for v in idx if v.mod]:
                    for shn, sh in shifts[:1 + 2 * len(anchors) + len(fixed)] + [(v.name, v.get) for v in vars_ if v.kind == 'coord']:
                        r2 = (lambda x: lambda s: (0, x.get(s)))(x)
                        nm = 'content(%s)[k<%s]==%s[k+%s]' % (tn, x.name, sn, shn)
                        if nm in seen:
                            continue
                        seen.add(nm)
                        cands.append((nm, mk_content(E, read, r2, fn, sh), 'content', (kind, rid, off, fn, sh, r2)))
                    # frame outside [.., x): unchanged from entry
                a0 = S0.regions[rid].arr[1]
                for x in [v for v in idx if v.mod]:
                    r2 = (lambda x: lambda s: (x.get(s), 1 << 62))(x)
                    cands.append(('content(%s)[k>=%s]==entry' % (tn, x.name),
                                  mk_content(E, read, r2, a0, lambda s: 0), 'content', (kind, rid, off, a0, lambda s: 0, r2)))


def memo_ptr_targets(S0):
    out = set()
    for rid in S0.frames[-1].allocas:
        r = S0.regions.get(rid)
        if r is None or not r.alive:
            continue
        for off, c in r.cells.items():
            if isinstance(c[1], Ptr):
                out.add(c[1].rid)
    return out


def mk_content(E, read, rng, fn, sh):
    def f(s):
        k = z3.Int('k!%d' % next(E.fresh_n))
        lo, hi = rng(s)
        body = eq(read(s)(k), fn(add(k, sh(s))))
        if body is True:
            return True
        return z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), sym.zb(body))
    return f


def apply_content(E, H, cands):
    """surviving content clauses become axioms of the havocked content function,
    instantiated at every index at which the content is read"""
    by = {}
    for c in cands:
        if c[2] != 'content':
            continue
        kind, rid, off, fn, sh, rng = c[3]
        lo, hi = rng(H)
        d = sh(H)
        if kind == 'seq':
            uf = cellval(H, rid, off).fn.uf
        else:
            uf = H.regions[rid].arr[1].uf
        by.setdefault(uf.name(), []).append((lo, hi, fn, d))
    for nm, lst in by.items():
        def ax(app, i, lst=lst):
            out = []
            for lo, hi, fn, d in lst:
                c = And_(le(lo, i), lt(i, hi))
                if c is False:
                    continue
                g = sym.zb(eq(app, fn(add(i, d))))
                out.append(g if c is True else z3.Implies(c, g))
            return out
        E.sf[nm] = dict(E.sf[nm], axiom=ax)


def filter_cands(E, st, cands):
    """names of candidates not provable in st"""
    bad = set()
    pend = []
    for c in cands:
        g = c[1](st)
        if g is True:
            continue
        if g is False:
            bad.add(c[0])
            continue
        pend.append((c[0], g))
    # small batches keep the queries easy
    rel = [p for p in pend if 'content(' not in p[0] and '(@' not in p[0]]
    oth = [p for p in pend if p not in rel]
    for i in range(0, len(rel), 40):
        batch(E, st, rel[i:i + 40], bad)
    for i in range(0, len(oth), 4):
        batch(E, st, oth[i:i + 4], bad)
    return bad


def batch(E, st, pend, bad):
    while pend:
        goal = Or_(*[z3.Not(g) for _, g in pend])
        r, m = E.check(st.pc, [goal], tmo=E.opts['htmo'], want_model=True)
        if r == 'unsat':
            return pend
        if r == 'sat':
            nxt = []
            dropped = 0
            for n, g in pend:
                v = m.eval(g, model_completion=True)
                if z3.is_true(v):
                    nxt.append((n, g))
                elif z3.is_false(v):
                    bad.add(n)
                    dropped += 1
                else:
                    nxt.append((n, g))
            if dropped == 0:
                # model does not decide: one by one
                return onebyone(E, st, pend, bad)
            pend = nxt
            continue
        # unknown: split
        if len(pend) == 1:
            bad.add(pend[0][0])
            return []
        h = len(pend) // 2
        a = batch(E, st, pend[:h], bad)
        b = batch(E, st, pend[h:], bad)
        return a + b
    return pend


def onebyone(E, st, pend, bad):
    out = []
    for n, g in pend:
        if E.valid(st, g):
            out.append((n, g))
        else:
            bad.add(n)
    return out
