"""Joining of states that reached the same program point."""
import z3


def key(st):
    k = []
    for f in st.frames:
        blk = f.fn.blocks[f.block]
        k.append((f.fn.name, f.block, f.ip, f.prev if f.ip == 0 and blk[0].op == 'phi' else None))
    return (tuple(k), st.arrived)


def merge(E, states):
    if len(states) < 2 or E.opts.get('nomerge'):
        return states
    groups = {}
    for s in states:
        groups.setdefault(key(s), []).append(s)
    out = []
    for g in groups.values():
        cur = []
        for s in g:
            for i, t in enumerate(cur):
                m = join(E, t, s)
                if m is not None:
                    cur[i] = m
                    break
            else:
                cur.append(s)
        out.extend(cur)
    return out


def join(E, a, b):
    import sym
    from sym import same, Ptr, Seq, isz, And_, ite
    ints = []          # (setter, va, vb)
    seqs = []
    for fa, fb in zip(a.frames, b.frames):
        top = fa is a.frames[-1]
        live = fa.fn.cross if fa.ip == 0 else None
        for i, (x, y) in enumerate(zip(fa.regs, fb.regs)):
            if x is y or (live is not None and i not in live):
                continue
            if x is None or y is None:
                continue
            if same(x, y):
                continue
            if isinstance(x, (Ptr, Seq, tuple)) or isinstance(y, (Ptr, Seq, tuple)):
                return None
            ints.append((('reg', fa, i), x, y))
    ra, rb = a.regions, b.regions
    extra = []
    for rid in set(ra) | set(rb):
        x, y = ra.get(rid), rb.get(rid)
        if x is y:
            continue
        if x is None or y is None:
            z = x if y is None else y
            if z.alive and z.kind in ('heap', 'stack', 'va'):
                return None
            extra.append((rid, z))
            continue
        if x.kind in ('view', 'func'):
            continue
        if x.alive != y.alive:
            return None
        if not x.alive:
            continue
        if not same(x.size, y.size) or x.label != y.label:
            return None
        if (x.arr is None) != (y.arr is None):
            return None
        if x.arr is not None:
            if x.arr[1] is not y.arr[1]:
                return None
            continue
        if x.zero != y.zero and set(x.zero) != set(y.zero):
            return None
        for off in set(x.cells) | set(y.cells):
            c, d = x.cells.get(off), y.cells.get(off)
            if c is None or d is None:
                # undefined on one side (or still covered by a zero range)
                e = c or d
                if any(p <= off < q for p, q in x.zero):
                    if isinstance(e[1], (Ptr, Seq)):
                        return None
                    ints.append((('cell', rid, off, e[0]), c[1] if c else 0, d[1] if d else 0))
                    continue
                if isinstance(e[1], (Ptr, Seq)):
                    return None
                ints.append((('drop', rid, off), 0, 0))
                continue
            if c[0] != d[0]:
                return None
            if same(c[1], d[1]):
                continue
            if isinstance(c[1], Seq) and isinstance(d[1], Seq) and c[1].esz == d[1].esz:
                seqs.append((rid, off, c[1], d[1]))
                continue
            if isinstance(c[1], (Ptr, Seq)) or isinstance(d[1], (Ptr, Seq)):
                return None
            ints.append((('cell', rid, off, c[0]), c[1], d[1]))
    if seqs:
        # states that took visibly different decisions stay apart
        for w, x, y in ints:
            if w[0] != 'drop' and not isz(x) and not isz(y):
                return None
    # path conditions
    n = 0
    pa, pb = a.pc, b.pc
    while n < len(pa) and n < len(pb) and (pa[n] is pb[n] or pa[n].eq(pb[n])):
        n += 1
    # constraints present in both suffixes are common
    ib = {c.get_id() for c in pb[n:]}
    ia = {c.get_id() for c in pa[n:]}
    common = [c for c in pa[n:] if c.get_id() in ib]
    ga = [c for c in pa[n:] if c.get_id() not in ib]
    gb = [c for c in pb[n:] if c.get_id() not in ia]
    # ranges of fresh variables stay unconditional: they only name arbitrary values
    def split(g):
        rng, rest = [], []
        for c in g:
            (rng if c.get_id() in E.rangeids else rest).append(c)
        return rng, rest
    ra_, ga = split(ga)
    rb_, gb = split(gb)
    ints = [t for t in ints]
    need = [t for t in ints if t[0][0] != 'drop']
    if len(need) > 24 or len(seqs) > 3:
        return None
    GA = And_(*ga)
    GB = And_(*gb)
    if GA is True or GB is True:
        if need or seqs:
            if GA is True and GB is True:
                return None
        sel = None
    m = a.clone()
    m.pc = pa[:n] + common + ra_ + rb_
    if need or seqs:
        # the guard must select deterministically: a fresh boolean tied to both sides
        g = E.fresh_bool('m')
        m.pc.append(z3.If(g, sym.zb(GA), sym.zb(GB)))
    else:
        o = sym.Or_(GA, GB)
        if o is not True:
            m.pc.append(z3.simplify(o) if isz(o) else o)
        g = None
    for (where, x, y) in ints:
        if where[0] == 'drop':
            m.wr(where[1]).cells.pop(where[2], None)
            continue
        v = mix(g, x, y)
        if where[0] == 'reg':
            fi = a.frames.index(where[1])
            m.frames[fi].regs[where[2]] = v
        else:
            _, rid, off, sz = where
            m.wr(rid).cells[off] = (sz, v)
    for rid, off, x, y in seqs:
        m.wr(rid).cells[off] = (8, Seq(x.esz, mix(g, x.lo, y.lo) if not same(x.lo, y.lo) else x.lo,
                                       mix(g, x.hi, y.hi) if not same(x.hi, y.hi) else x.hi,
                                       mixfn(g, x.fn, y.fn)))
    for rid, z in extra:
        if rid not in m.regions:
            m.regions[rid] = z
    m.next_rid = max(a.next_rid, b.next_rid)
    m.tested = a.tested & b.tested
    m.nforks = max(a.nforks, b.nforks) + 1
    for k, v in b.bases.items():
        m.bases.setdefault(k, v)
    for k, v in b.views.items():
        m.views.setdefault(k, v)
    for k, v in b.glob.items():
        m.glob.setdefault(k, v)
    for k, v in b.notes.items():
        m.notes.setdefault(k, v)
    E.stats['merges'] = E.stats.get('merges', 0) + 1
    return m


def mix(g, x, y):
    import sym
    isb = lambda v: isinstance(v, bool) or z3.is_bool(v)
    if isb(x) and isb(y):
        return sym.S(z3.simplify(z3.If(g, sym.zb(x), sym.zb(y))))
    if isb(x):
        x = z3.If(x, 1, 0) if sym.isz(x) else int(x)
    if isb(y):
        y = z3.If(y, 1, 0) if sym.isz(y) else int(y)
    return sym.S(z3.If(g, sym.zi(x), sym.zi(y)))


def mixfn(g, f, h):
    import sym
    if f is h:
        return f

    def k(i):
        x, y = f(i), h(i)
        if sym.same(x, y):
            return x
        return mix(g, x, y)
    return k
