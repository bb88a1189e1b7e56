"""Contracts of the specification intrinsics and of C / runtime functions."""
import z3
import sym
from sym import (Ptr, NULL, Seq, Unsupported, isz, same, simp, zi, zb, add, sub, eq, le, lt, ite,
                 And_, Or_, Not_, S, lit_fn, ovr_fn, splice_fn, shift_fn)


def register(E):
    B = E.builtins

    def ret(fr, I, v):
        if I.dst is not None:
            fr.regs[I.dst] = v
        return None

    # --- specification intrinsics ---------------------------------------------
    def nondet(st, fr, a, I, n):
        if I.ty == ('i', 1):
            return ret(fr, I, E.fresh_bool('nd'))
        return ret(fr, I, E.fresh(st, I.ty[1], 'nd'))
    for n in ('bool', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'double'):
        B['__spec_nondet_' + n] = nondet

    def nd_double(st, fr, a, I, n):
        return ret(fr, I, E.fresh(st, 64, 'nd.fp'))
    B['__spec_nondet_double'] = nd_double

    def assume(st, fr, a, I, n):
        E.assume(st, a[0])
        if isz(a[0]) and not E.feasible(st, True if not isz(a[0]) else a[0]):
            st.assumed_false = True
        return None
    B['__spec_assume'] = assume

    def assert_(st, fr, a, I, n):
        ident = E.cstr(st, a[1]).decode()
        E.oblige(st, a[0], ident)
        return None
    B['__spec_assert'] = assert_

    def cover(st, fr, a, I, n):
        ident = E.cstr(st, a[0]).decode()
        if not E.covers.get(ident) and not E.mods_only:
            E.covers[ident] = E.check(st.pc, [], slice_=False) == 'sat'
        return None
    B['__spec_cover'] = cover
    B['__spec_loop'] = lambda st, fr, a, I, n: None

    def fork_bool(st, fr, a, I, n):
        b = E.fresh_bool('choice')
        return E.fork(st, [(b, lambda s: E.setreg(s, I.dst, True)),
                           (z3.Not(b), lambda s: E.setreg(s, I.dst, False))])
    B['__spec_choice'] = fork_bool

    def loop_inv(st, fr, a, I, n):
        """__spec_loop_inv(fn, ctx, id): contract invariant of the enclosing loop"""
        fname = st.regions[a[0].rid].aux
        ident = E.cstr(st, a[2]).decode()
        hav = any(k.startswith('hav:') for k in st.notes)
        depth = len(st.frames)
        key = 'inv:' + str((depth, fr.block))
        lst = [x for x in st.notes.get(key, []) if x[2] != ident]
        st.notes[key] = lst + [(fname, [a[1]], ident)]
        g = E.eval_pure(st, fname, [a[1]])
        E.assume(st, g)
        return None
    B['__spec_loop_inv'] = loop_inv

    def sdump(st, fr, a, I, n):
        return None
    B['__spec_trace'] = sdump

    # region facts
    def is_writable(st, fr, a, I, n):
        p, cnt = a
        if p.rid == 0:
            E.mem(st, eq(cnt, 0), 'null_deref')
            return None
        r = st.regions[p.rid]
        if not r.alive:
            E.mem(st, eq(cnt, 0), 'use_after_free')
            return None
        if r.kind == 'view':
            q = E.view_owner(st, r)
            E.mem(st, simp(z3.Or(zi(cnt) == 0, z3.And(zi(p.off) >= zi(q.lo), zi(p.off) + cnt <= zi(q.hi)))), 'in_bounds')
            return None
        E.mem(st, simp(z3.Or(zi(cnt) == 0, z3.And(zi(p.off) >= 0, zi(p.off) + cnt <= r.size))), 'in_bounds')
        return None
    B['__spec_writable'] = is_writable
    B['__spec_readable'] = is_writable

    def fill(st, fr, a, I, n):
        """__spec_fill(buf, n, "F", start): buf[i] = F(start+i), i<n"""
        p, cnt, nm, start = a
        name = E.cstr(st, nm).decode()
        d = E.sf.get(name)
        if d and 'macro' in d:
            f = d['macro']
            src = lambda i: f(zi(add(start, i)))
        else:
            F = z3.Function(name, z3.IntSort(), z3.IntSort())
            src = lambda i: F(zi(add(start, i)))
        E.put_bytes(st, p, cnt, src)
        return None
    B['__spec_fill'] = fill

    def peek(st, fr, a, I, n):
        """byte i of memory at p (no obligation beyond bounds)"""
        return ret(fr, I, E.load(st, Ptr(a[0].rid, add(a[0].off, a[1])), ('i', 8)))
    B['__spec_peek'] = peek

    def same_obj(st, fr, a, I, n):
        return ret(fr, I, a[0].rid == a[1].rid)
    B['__spec_same_region'] = same_obj

    def alive(st, fr, a, I, n):
        return ret(fr, I, st.regions[a[0].rid].alive)
    B['__spec_alive'] = alive

    def nlive(st, fr, a, I, n):
        c = sum(1 for r in st.regions.values() if r.kind == 'heap' and r.alive)
        return ret(fr, I, c)
    B['__spec_live_heap'] = nlive

    def guard(st, fr, a, I, n):
        st.notes['guards'] = st.notes.get('guards', ()) + ((a[0].rid, a[0].off, a[1], a[2]),)
        return None
    B['__spec_guard'] = guard

    def guard_enable(st, fr, a, I, n):
        old = bool(st.notes.get('guard_on'))
        st.notes['guard_on'] = bool(a[0])
        return ret(fr, I, old)
    B['__spec_guard_enable'] = guard_enable

    # --- sequences -------------------------------------------------------------
    def setseq(st, p, q):
        r = E.access(st, p, 8, True)
        if r is None:
            return
        w = st.wr(p.rid)
        E.kill(w, p.off, 8)
        w.cells[p.off] = (8, q)

    def seq_init(st, fr, a, I, n):
        setseq(st, a[0], Seq(a[1], 0, 0, lit_fn([])))
        return None
    B['__seq_init'] = seq_init

    def seq_nondet(st, fr, a, I, n):
        setseq(st, a[0], E.fresh_seq(st, a[1], 'sq', lo=0))
        return None
    B['__seq_nondet'] = seq_nondet

    def seq_stream(st, fr, a, I, n):
        """__seq_stream(self, esz, "F", start, n): content F(start+i)"""
        p, esz, nm, start, cnt = a
        name = E.cstr(st, nm).decode()
        d = E.sf.get(name)
        if d and 'macro' in d:
            f0 = d['macro']
            f = lambda i: f0(zi(add(start, i)))
        else:
            F = z3.Function(name, z3.IntSort(), z3.IntSort())
            f = lambda i: F(zi(add(start, i)))
        setseq(st, p, Seq(esz, 0, cnt, f))
        return None
    B['__seq_stream'] = seq_stream

    def seq_stream_abs(st, fr, a, I, n):
        """__seq_stream_abs(self, esz, "F", lo, hi): content F(i) at absolute index i"""
        p, esz, nm, lo, hi = a
        name = E.cstr(st, nm).decode()
        d = E.sf.get(name)
        F = d['macro'] if d and 'macro' in d else z3.Function(name, z3.IntSort(), z3.IntSort())
        setseq(st, p, Seq(esz, lo, hi, lambda i: F(zi(i))))
        return None
    B['__seq_stream_abs'] = seq_stream_abs

    def seq_copy(st, fr, a, I, n):
        q = E.seq_at(st, a[1])
        if q is not None:
            setseq(st, a[0], q)
        return None
    B['__seq_copy'] = seq_copy

    def seq_destroy(st, fr, a, I, n):
        r = st.regions.get(a[0].rid)
        if r is not None and r.alive:
            st.wr(a[0].rid).cells.pop(a[0].off, None)
        return None
    B['__seq_destroy'] = seq_destroy

    def seq_size(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        return ret(fr, I, q.size() if q else 0)
    B['__seq_size'] = seq_size
    B['__seq_lo'] = lambda st, fr, a, I, n: ret(fr, I, E.seq_at(st, a[0]).lo)
    B['__seq_hi'] = lambda st, fr, a, I, n: ret(fr, I, E.seq_at(st, a[0]).hi)

    def push_back(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        v = a[1]
        if isinstance(v, Ptr):
            pass
        elif q.esz < 8:
            v = E.cast(st, 'trunc', v, ('i', 64), ('i', 8 * q.esz)) if not isinstance(v, bool) else int(v)
        setseq(st, a[0], Seq(q.esz, q.lo, add(q.hi, 1), ovr_fn(q.fn, q.hi, v)))
        return None
    B['__seq_push_back'] = push_back

    def push_front(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        v = a[1]
        nl = sub(q.lo, 1)
        setseq(st, a[0], Seq(q.esz, nl, q.hi, ovr_fn(q.fn, nl, v)))
        return None
    B['__seq_push_front'] = push_front

    def pop_front(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        if E.mem(st, lt(q.lo, q.hi), 'pop_of_empty'):
            setseq(st, a[0], Seq(q.esz, add(q.lo, 1), q.hi, q.fn))
        return None
    B['__seq_pop_front'] = pop_front

    def pop_back(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        if E.mem(st, lt(q.lo, q.hi), 'pop_of_empty'):
            setseq(st, a[0], Seq(q.esz, q.lo, sub(q.hi, 1), q.fn))
        return None
    B['__seq_pop_back'] = pop_back

    def drop_front(st, fr, a, I, n):
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        k = a[1]
        if E.mem(st, le(add(q.lo, k), q.hi), 'erase_range'):
            setseq(st, a[0], Seq(q.esz, add(q.lo, k), q.hi, q.fn))
        return None
    B['__seq_drop_front'] = drop_front

    def erase(st, fr, a, I, n):
        """__seq_erase(self, abs index from, count)"""
        q = E.seq_at(st, a[0])
        if q is None:
            return None
        i, k = a[1], a[2]
        if E.mem(st, And_(le(q.lo, i), le(add(i, k), q.hi)), 'erase_range'):
            if same(i, q.lo):
                setseq(st, a[0], Seq(q.esz, add(q.lo, k), q.hi, q.fn))
            else:
                f = q.fn
                g = lambda j: ite(lt(j, i), f(j), f(add(j, k)))
                setseq(st, a[0], Seq(q.esz, q.lo, sub(q.hi, k), g))
        return None
    B['__seq_erase'] = erase

    def ref(st, fr, a, I, n):
        """pointer to the element at relative index"""
        p = a[0]
        q = E.seq_at(st, p)
        if q is None:
            return ret(fr, I, NULL)
        rid = E.view(st, p)
        i = add(q.lo, a[1])
        return ret(fr, I, Ptr(rid, i if q.esz == 1 else (i * q.esz if isinstance(i, int) else simp(i * q.esz))))
    B['__seq_ref'] = ref

    def aref(st, fr, a, I, n):
        """pointer to the element at absolute index"""
        p = a[0]
        q = E.seq_at(st, p)
        if q is None:
            return ret(fr, I, NULL)
        rid = E.view(st, p)
        i = a[1]
        return ret(fr, I, Ptr(rid, i if q.esz == 1 else (i * q.esz if isinstance(i, int) else simp(i * q.esz))))
    B['__seq_aref'] = aref

    def append_mem(st, fr, a, I, n):
        """append cnt elements from memory (bytes)"""
        p, src, cnt = a
        q = E.seq_at(st, p)
        if q is None:
            return None
        if q.esz != 1:
            raise Unsupported("append_mem")
        if isinstance(cnt, int) and cnt == 0:
            return None
        f = E.bytes_fn(st, src, cnt)
        if f is None:
            return None
        q = E.seq_at(st, p)
        if isinstance(cnt, int) and isinstance(q.hi, int) and cnt <= 256:
            fn = q.fn
            for j in range(cnt):
                fn = ovr_fn(fn, q.hi + j, f(j))
            setseq(st, p, Seq(1, q.lo, q.hi + cnt, fn))
            return None
        setseq(st, p, Seq(1, q.lo, add(q.hi, cnt), splice_fn(q.fn, q.hi, cnt, f, 0)))
        return None
    B['__seq_append_mem'] = append_mem

    def append_seq(st, fr, a, I, n):
        p, s2 = a
        q = E.seq_at(st, p)
        o = E.seq_at(st, s2)
        if q is None or o is None:
            return None
        cnt = o.size()
        if isinstance(cnt, int) and cnt == 0:
            return None
        if isinstance(q.size(), int) and q.size() == 0 and isinstance(q.lo, int):
            # empty: share the content
            if isinstance(o.lo, int) and o.lo == q.lo:
                setseq(st, p, Seq(q.esz, o.lo, o.hi, o.fn))
                return None
        if isinstance(cnt, int) and isinstance(q.hi, int) and cnt <= 256:
            fn = q.fn
            for j in range(cnt):
                fn = ovr_fn(fn, q.hi + j, o.fn(add(o.lo, j)))
            setseq(st, p, Seq(q.esz, q.lo, q.hi + cnt, fn))
            return None
        setseq(st, p, Seq(q.esz, q.lo, add(q.hi, cnt), splice_fn(q.fn, q.hi, cnt, o.fn, o.lo)))
        return None
    B['__seq_append_seq'] = append_seq

    def sub_seq(st, fr, a, I, n):
        """__seq_sub(dst, src, relpos, cnt): dst = src[pos, pos+cnt)"""
        o = E.seq_at(st, a[1])
        lo = add(o.lo, a[2])
        setseq(st, a[0], Seq(o.esz, 0, a[3], shift_fn(o.fn, lo)))
        return None
    B['__seq_sub'] = sub_seq

    def resize(st, fr, a, I, n):
        p, cnt, v = a
        q = E.seq_at(st, p)
        if q is None:
            return None
        nh = add(q.lo, cnt)
        f, h = q.fn, q.hi
        g = lambda i: ite(lt(i, h), f(i), v)
        setseq(st, p, Seq(q.esz, q.lo, nh, g))
        return None
    B['__seq_resize'] = resize

    def seq_eq(st, fr, a, I, n):
        x, y = E.seq_at(st, a[0]), E.seq_at(st, a[1])
        return ret(fr, I, seqeq(st, x, y))

    def seqeq(st, x, y):
        if x is None or y is None:
            return False
        if same(x, y):
            return True
        nx, ny = x.size(), y.size()
        se = eq(nx, ny)
        if se is False:
            return False
        if same(x.fn, y.fn) and same(x.lo, y.lo):
            return se
        n = nx if isinstance(nx, int) else ny if isinstance(ny, int) else None
        if n is not None and n <= 300:
            return simp(zb(And_(se, *[eq(x.fn(add(x.lo, j)), y.fn(add(y.lo, j))) for j in range(n)])))
        # both symbolic: e => same size ; not e => sizes differ or a witness differs
        ka, kb = (id(x.fn), str(x.lo), str(nx)), (id(y.fn), str(y.lo), str(ny))
        key = ('seqeq', ka, kb) if ka <= kb else ('seqeq', kb, ka)
        cached = E.pure_cache.get(key)
        if cached is not None:
            e = cached[0]
        else:
            e = E.fresh_bool('streq')
            E.pure_cache[key] = (e, x, y)
        k = z3.Int('w!%d' % next(E.fresh_n))
        E.assume(st, z3.Implies(e, zb(se)))
        E.assume(st, z3.Implies(z3.Not(e), z3.Or(zb(Not_(se)), z3.And(
            k >= 0, k < zi(nx), zi(x.fn(add(x.lo, k))) != zi(y.fn(add(y.lo, k)))))))
        return e
    B['__seq_eq'] = seq_eq
    E.seqeq = seqeq

    def seq_hash(st, fr, a, I, n):
        return ret(fr, I, E.fresh(st, 64, 'hash'))
    B['__seq_hash'] = seq_hash

    def mem_eq_stream(st, fr, a, I, n):
        raise Unsupported(n)

    # decimal text of an unsigned number: uninterpreted, injective digits
    def to_dec(st, fr, a, I, n):
        p, v = a
        if isinstance(v, int):
            t = str(v).encode()
            setseq(st, p, Seq(1, 0, len(t), lit_fn(list(t))))
            return None
        DL = z3.Function('DECLEN', z3.IntSort(), z3.IntSort())
        DD = z3.Function('DECDIG', z3.IntSort(), z3.IntSort(), z3.IntSort())
        E.sf.setdefault('DECLEN', dict(range=(1, 20)))
        E.sf.setdefault('DECDIG', dict(range=(48, 57)))
        setseq(st, p, Seq(1, 0, DL(v), lambda i: DD(v, zi(i))))
        return None
    B['__seq_to_dec'] = to_dec

    # --- allocation --------------------------------------------------------------
    def alloc(st, fr, a, I, n):
        size = a[0]
        rid = st.new_region(size, "heap@%s:%s" % (fr.fn.name[-40:], fr.ip), 'heap', 16)
        st.wr(rid).aux = 'array' if n in ('_Znam',) else 'malloc' if n == 'malloc' else 'single'
        return ret(fr, I, Ptr(rid, 0))
    for nm in ('_Znwm', '_Znam', 'malloc'):
        B[nm] = alloc

    def alloc_aligned(st, fr, a, I, n):
        r = alloc(st, fr, a, I, '_Znwm')
        return r
    B['_ZnwmSt11align_val_t'] = alloc_aligned

    def free(st, fr, a, I, n):
        p = a[0]
        if not isinstance(p, Ptr):
            p = E.int_to_ptr(st, p)
        if p.rid == 0:
            return None
        r = st.regions[p.rid]
        if r.kind != 'heap' or (not isz(p.off) and p.off != 0):
            E.mem(st, False, 'bad_free')
            return []
        if not r.alive:
            E.mem(st, False, 'double_free')
            return []
        want = 'array' if n.startswith('_Zda') else 'malloc' if n == 'free' else 'single'
        E.mem(st, r.aux == want, 'free_mismatch')
        w = st.wr(p.rid)
        w.alive = False
        w.cells = {}
        w.arr = None
        return None
    for nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
        B[nm] = free

    def lifetime_end(st, fr, a, I, n):
        p = a[1]
        if isinstance(p, Ptr) and st.regions[p.rid].kind == 'stack' and p.off == 0:
            w = st.wr(p.rid)
            w.cells, w.arr, w.zero = {}, None, ()
        return None
    B['llvm.lifetime.end.p0'] = lifetime_end
    B['llvm.assume'] = lambda st, fr, a, I, n: None

    # --- memory intrinsics ----------------------------------------------------------
    def memcpy(st, fr, a, I, n):
        E.memcpy(st, a[0], a[1], a[2])
        return ret(fr, I, a[0])
    B['llvm.memcpy'] = B['llvm.memmove'] = B['memcpy'] = B['memmove'] = memcpy

    def memset(st, fr, a, I, n):
        v = a[1]
        if not isinstance(v, int):
            v = simp(v % 256)
        else:
            v &= 255
        E.memset(st, a[0], v, a[2])
        return ret(fr, I, a[0])
    B['llvm.memset'] = B['memset'] = memset

    def strlen(st, fr, a, I, n):
        s = E.cstr(st, a[0])
        if s is not None:
            return ret(fr, I, len(s))
        r = st.regions[a[0].rid]
        if r.kind == 'view':
            q = E.view_owner(st, r)
            rest = sub(q.hi, a[0].off)
            v = E.fresh(st, 64, 'strlen')
            E.assume(st, v <= zi(rest))
            E.assume(st, z3.Or(v == zi(rest), zi(q.fn(add(a[0].off, v))) == 0))
            return ret(fr, I, v)
        if r.arr is not None and r.arr[0] == 1:
            v = E.fresh(st, 64, 'strlen')
            f = r.arr[1]
            E.assume(st, zi(f(add(a[0].off, v))) == 0)
            E.assume(st, v < zi(r.size))
            return ret(fr, I, v)
        raise Unsupported("strlen of unknown string")
    B['strlen'] = strlen

    def strchr(st, fr, a, I, n):
        s = E.cstr(st, a[0])
        c = a[1]
        if s is None:
            raise Unsupported("strchr of unknown string")
        if isz(c):
            c = simp(c % 256)
        else:
            c &= 255
        chars = list(s) + [0]
        if isinstance(c, int):
            if c in chars:
                return ret(fr, I, Ptr(a[0].rid, a[0].off + chars.index(c)))
            return ret(fr, I, NULL)
        hit = z3.Or(*[c == x for x in chars])

        def yes(s_):
            j = E.fresh(s_, 32, 'strchr')
            s_.pc.append(j < len(chars))
            s_.pc.append(zi(lit_fn(chars)(j)) == c)
            E.setreg(s_, I.dst, Ptr(a[0].rid, add(a[0].off, j)))
        return E.fork(st, [(hit, yes), (z3.Not(hit), lambda s_: E.setreg(s_, I.dst, NULL))])
    B['strchr'] = strchr

    def memchr(st, fr, a, I, n):
        s = E.cstr(st, a[0])
        c, cnt = a[1], a[2]
        if s is None or isz(cnt):
            raise Unsupported("memchr of unknown memory")
        chars = (list(s) + [0])[:cnt]
        if isz(c):
            c = simp(c % 256)
        else:
            c &= 255
        if isinstance(c, int):
            return ret(fr, I, Ptr(a[0].rid, a[0].off + chars.index(c)) if c in chars else NULL)
        hit = z3.Or(*[c == x for x in chars])

        def yes(s_):
            j = E.fresh(s_, 32, 'memchr')
            s_.pc.append(j < len(chars))
            s_.pc.append(zi(lit_fn(chars)(j)) == c)
            E.setreg(s_, I.dst, Ptr(a[0].rid, add(a[0].off, j)))
        return E.fork(st, [(hit, yes), (z3.Not(hit), lambda s_: E.setreg(s_, I.dst, NULL))])
    B['memchr'] = memchr

    def strcmp(st, fr, a, I, n):
        x, y = E.cstr(st, a[0]), E.cstr(st, a[1])
        if x is None or y is None:
            raise Unsupported("strcmp of unknown strings")
        return ret(fr, I, 0 if x == y else (1 if x > y else (1 << 32) - 1))
    B['strcmp'] = strcmp

    def memcmp(st, fr, a, I, n):
        cnt = a[2]
        if isz(cnt):
            cnt = E.concretize(st, cnt)
        if isz(cnt):
            raise Unsupported("memcmp of symbolic length")
        f, g = E.bytes_fn(st, a[0], cnt), E.bytes_fn(st, a[1], cnt)
        if f is None or g is None:
            return ret(fr, I, 0)
        e = simp(zb(And_(*[eq(f(j), g(j)) for j in range(cnt)])))
        if isinstance(e, bool):
            return ret(fr, I, 0 if e else 1)
        v = E.fresh(st, 32, 'memcmp')
        E.assume(st, (v == 0) == e)
        return ret(fr, I, v)
    B['memcmp'] = memcmp
    B['bcmp'] = memcmp

    def isclass(lo_hi):
        def f(st, fr, a, I, n):
            c = a[0]
            r = Or_(*[And_(le(l, c), le(c, h)) for l, h in lo_hi])
            return ret(fr, I, (1 if r else 0) if isinstance(r, bool) else z3.If(r, z3.IntVal(1), z3.IntVal(0)))
        return f
    B['isdigit'] = isclass([(48, 57)])
    B['isspace'] = isclass([(9, 13), (32, 32)])
    B['isblank'] = isclass([(9, 9), (32, 32)])

    def minmax(st, fr, a, I, n):
        k = n.split('.')[1]
        w = I.ty[1]
        x, y = a
        if k[0] == 's':
            sx, sy = E.signed(x, w), E.signed(y, w)
        else:
            sx, sy = x, y
        c = le(sx, sy)
        return ret(fr, I, ite(c, x, y) if k.endswith('min') else ite(c, y, x))
    for k in ('umin', 'umax', 'smin', 'smax'):
        B['llvm.' + k] = minmax

    def with_overflow(st, fr, a, I, n):
        k = n.split('.')[1]
        w = I.ty[1][0][1]
        M = 1 << w
        x, y = a
        op = {'uadd': 'add', 'usub': 'sub', 'umul': 'mul'}.get(k)
        if op is None:
            op = {'sadd': 'add', 'ssub': 'sub', 'smul': 'mul'}[k]
            sx, sy = E.signed(x, w), E.signed(y, w)
            t = {'add': lambda: sx + sy, 'sub': lambda: sx - sy, 'mul': lambda: sx * sy}[op]()
            ov = Or_(lt(t, -(M // 2)), le(M // 2, t))
        else:
            t = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
            ov = Or_(lt(t, 0), le(M, t))
        r = t % M if isinstance(t, int) else simp(t % M) if op == 'mul' else simp(z3.If(t >= M, t - M, z3.If(t < 0, t + M, t)))
        return ret(fr, I, (r, ov))
    for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        B['llvm.%s' % k] = with_overflow

    def assert_fail(st, fr, a, I, n):
        s = E.cstr(st, a[0]) or b'?'
        E.oblige(st, False, E.opts['mem_id'] + '.assert', 'assert-in-code')
        return []
    B['__assert_fail'] = assert_fail
    for k in ('abort', '__cxa_pure_virtual', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_exit'):
        def die(st, fr, a, I, n):
            E.oblige(st, False, E.opts['mem_id'] + '.abort', 'abort')
            return []
        B[k] = die
    B['llvm.trap'] = B['abort']

    def noop(st, fr, a, I, n):
        return None
    for k in ('llvm.stacksave', 'llvm.stackrestore', 'llvm.experimental', 'llvm.assume', 'llvm.var', 'llvm.prefetch'):
        B[k] = noop

    def expect(st, fr, a, I, n):
        return ret(fr, I, a[0])
    B['llvm.expect'] = expect

    def atexit(st, fr, a, I, n):
        lst = st.notes.get('atexit', ())
        st.notes['atexit'] = lst + ((a[0], a[1]),)
        return ret(fr, I, 0)
    B['__cxa_atexit'] = atexit

    def run_atexit(st, fr, a, I, n):
        """pops and runs the most recent exit handler; returns false when none is left"""
        lst = st.notes.get('atexit', ())
        if not lst:
            return ret(fr, I, False)
        st.notes['atexit'] = lst[:-1]
        f, arg = lst[-1]
        fr.regs[I.dst] = True
        E.call(st, st.regions[f.rid].aux, [arg], None, (fr.fn.name, fr.block, fr.ip))
        return True
    B['__spec_run_one_atexit'] = run_atexit

    # --- varargs -------------------------------------------------------------------
    def va_start(st, fr, a, I, n):
        rid = st.new_region(8, 'va', 'va')
        st.wr(rid).aux = tuple(fr.varargs)
        p = a[0]
        st.wr(p.rid).cells[p.off] = (8, Ptr(rid, 0))
        return None
    B['llvm.va_start'] = va_start
    B['llvm.va_end'] = noop

    def va_int(st, fr, a, I, n):
        """the i-th variable argument of the function making the call"""
        return ret(fr, I, fr.varargs[a[0]])
    B['__spec_va_int'] = va_int

    def va_copy(st, fr, a, I, n):
        p, q = a
        st.wr(p.rid).cells[p.off] = st.regions[q.rid].cells[q.off]
        return None
    B['llvm.va_copy'] = va_copy

    def piece(st, spec, arg):
        """Seq for one conversion"""
        c = spec[-1:]
        if c == b's':
            r = st.regions[arg.rid]
            t = E.cstr(st, arg)
            if t is not None:
                return Seq(1, 0, len(t), lit_fn(list(t)))
            if r.kind == 'view':
                q = E.view_owner(st, r)
                # length up to the first NUL: exact when the string holds none
                L = E.fresh(st, 62, 'slen')
                E.assume(st, L <= zi(sub(q.hi, arg.off)))
                E.assume(st, z3.Or(L == zi(sub(q.hi, arg.off)), zi(q.fn(add(arg.off, L))) == 0))
                return Seq(1, 0, L, shift_fn(q.fn, arg.off))
            raise Unsupported("%s of unknown memory")
        if c in b'dui':
            v = arg
            if isinstance(v, int):
                w = 64 if b'l' in spec or b'z' in spec else 32
                v &= (1 << w) - 1
                if c in b'di':
                    v = E.signed(v, w)
                t = str(v).encode()
                return Seq(1, 0, len(t), lit_fn(list(t)))
            return E.fresh_seq(st, 1, 'num', lo=0)
        if c == b'c':
            return Seq(1, 0, 1, lit_fn([arg]))
        raise Unsupported("printf conversion %r" % spec)

    def format_(st, fmt, args):
        import re
        out = Seq(1, 0, 0, lit_fn([]))

        def app(o):
            nonlocal out
            cnt = o.size()
            if isinstance(cnt, int) and isinstance(out.hi, int):
                fn = out.fn
                for j in range(cnt):
                    fn = ovr_fn(fn, out.hi + j, o.fn(add(o.lo, j)))
                out = Seq(1, 0, out.hi + cnt, fn)
            else:
                out = Seq(1, 0, add(out.hi, cnt), splice_fn(out.fn, out.hi, cnt, o.fn, o.lo))
        pos = 0
        ai = 0
        for m in re.finditer(rb'%(%|[-+ 0#]*[0-9]*(?:\.[0-9]+)?(?:hh|h|ll|l|z|j)?[a-zA-Z])', fmt):
            lit = fmt[pos:m.start()]
            if lit:
                app(Seq(1, 0, len(lit), lit_fn(list(lit))))
            pos = m.end()
            if m.group(1) == b'%':
                app(Seq(1, 0, 1, lit_fn([37])))
                continue
            app(piece(st, m.group(1), args[ai]))
            ai += 1
        lit = fmt[pos:]
        if lit:
            app(Seq(1, 0, len(lit), lit_fn(list(lit))))
        return out

    def do_print(st, fr, I, buf, size, fmtp, args):
        fmt = E.cstr(st, fmtp)
        if fmt is None:
            raise Unsupported("printf with unknown format")
        t = format_(st, fmt, args)
        n_ = t.size()
        if isinstance(size, int) and size == 0:
            return ret(fr, I, n_ if isinstance(n_, int) else E.wrap(n_, 32))
        # min(len, size-1) bytes then NUL
        m = ite(le(n_, sub(size, 1)), n_, sub(size, 1))
        if buf.rid != 0:
            r = st.regions[buf.rid]
            E.mem(st, simp(zb(And_(le(0, buf.off), le(add(buf.off, size), r.size)))) if r.kind != 'view' else True, 'in_bounds')
            E.put_bytes(st, buf, m, shift_fn(t.fn, t.lo))
            E.store(st, Ptr(buf.rid, add(buf.off, m)), 0, ('i', 8))
        return ret(fr, I, n_)

    def vsnprintf(st, fr, a, I, n):
        va = a[3]
        c = st.regions[va.rid].cells.get(va.off)
        p = c[1] if c else va
        return do_print(st, fr, I, a[0], a[1], a[2], list(st.regions[p.rid].aux))
    B['vsnprintf'] = vsnprintf

    def snprintf(st, fr, a, I, n):
        return do_print(st, fr, I, a[0], a[1], a[2], a[3:])
    B['snprintf'] = snprintf
