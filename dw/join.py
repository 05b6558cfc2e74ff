"""Joins, widening and inclusion of abstract states.

Two states are joined when they have the same shape: the same held locks and monitor
states, and an isomorphic reachable heap.  Differing integers get a new symbol; the
relations that hold on both sides are kept."""
from . import lin
from .lin import L, SY, C, S, ZERO, ONE, Facts, fresh, ufn, JORIG
from .values import *

JTAG = 'j'
IDENT = ('lazy', 'param', 'global', 'alloca', 'strbuf', 'elem', 'root')


class Shape:
    __slots__ = ('sig', 'slots', 'num', 'order', 'extra')


def _typed(ex, fr):
    return fr.fn if fr is not None else None


def fill(ex, items):
    """make implicit initial cells explicit where another state has them"""
    from .absint import INITPS
    want = {}
    for env, st in items:
        for oid, o in st.mem.items():
            if not o.lazy and o.kind != 'elem':
                continue
            w = want.setdefault(oid, {})
            for off, (sz, v) in o.cells.items():
                if off not in w:
                    w[off] = (sz, v)
    ini = {}
    for (oid, off), p in INITPS.items():
        ini.setdefault(oid, []).append((off, p))
    for env, st in items:
        for oid, w in want.items():
            o = st.mem.get(oid)
            if o is None or not o.lazy:
                continue
            add = {}
            for off, (sz, v) in w.items():
                if off in o.cells:
                    continue
                if any(co < off + sz and off < co + cs for co, (cs, cv) in o.cells.items()):
                    continue
                nv = ex.init_like(st, o, off, sz, v)
                if nv is not None:
                    add[off] = (sz, nv)
            for off, p in ini.get(oid, ()):
                if off not in o.cells and off not in add and p.id in st.psub:
                    add[off] = (8, p)
            if add:
                o = st.w(oid)
                o.cells.update(add)
        for oid, lst in ini.items():
            if oid in want:
                continue
            o = st.mem.get(oid)
            if o is None:
                continue
            add = {off: (8, p) for off, p in lst if off not in o.cells and p.id in st.psub}
            if add:
                st.w(oid).cells.update(add)


def frame_roots(ex, fr):
    """pointers held by the frames below the current activation: (frame, key, value)"""
    out = []
    f = fr
    first = True
    while f is not None:
        for i, a in enumerate(f.args):
            out.append((('fa', f.depth, i), a))
        if not first or ex.incl_first:
            for k in sorted(f.live_after):
                if k in f.env:
                    out.append((('fe', f.depth, k), f.env[k]))
        first = False
        f = f.parent
    return out


def traverse(ex, fr, env, st, coarse, own_live=False):
    """-> Shape"""
    sh = Shape()
    sig, slots, num, order = [], [], {}, []
    todo = []
    hidden = []
    fn = fr.fn if fr is not None else None

    def obj(oid):
        n = num.get(oid)
        if n is None:
            n = num[oid] = len(order)
            order.append(oid)
            todo.append(oid)
        return n

    def val(where, v, isptr, small):
        v = st.res(v)
        k = v.__class__
        slots.append((where, v))
        if k is L:
            if isptr and v == ZERO:
                sig.append('null')
            elif small and v.isc() and ex.refine_flags:
                sig.append(('b', v.c & 255))
            else:
                sig.append('i')
        elif k is Bool:
            if v.c == T or v.c == F:
                sig.append(('b', 1 if v.c == T else 0) if ex.refine_flags else 'i')
            else:
                sig.append('i')
        elif k is Ptr:
            if v.o not in st.mem:
                sig.append('dead')
            else:
                sig.append(('p', obj(v.o)))
        elif k is PSym:
            sig.append('ps')
        elif k is Fn:
            sig.append(('fn', v.name))
        elif k is Slot:
            sig.append(('sl', obj(v.o), v.off, v.sub))
        elif k is Iter:
            sig.append(('it', obj(v.o), v.off))
        elif k is Agg:
            sig.append(('ag', len(v.v)))
            for i, x in enumerate(v.v):
                val(where + (i,), x, True, False)
        elif k is Str:
            sig.append('s')
        elif k is Cont:
            if coarse:
                sig.append(('c', v.kind, v.fp == v.h, len(v.holes)))
                hidden.extend(x for i, x in v.over)
            else:
                sig.append(('c', v.kind, len(v.over), v.fp == v.h, len(v.holes)))
            if not coarse:
                for i, (ix, x) in enumerate(v.over):
                    x = st.res(x)
                    if x.__class__ is Ptr and x.o in st.mem:
                        sig.append(('p', obj(x.o)))
                    elif x.__class__ is L:
                        sig.append('null' if x == ZERO else 'i')
                    else:
                        sig.append('o')
        elif k is Opaque:
            if v.tag.__class__ is tuple and v.tag[0] in ('vt',):
                sig.append(('o', v.tag))
            elif v.tag.__class__ is tuple and v.tag[0] == 'p2i':
                sig.append('p2i')
                val(where + ('p2i',), v.tag[1], True, False)
            else:
                sig.append('o')
        elif k is tuple:
            sig.append(('t', len(v)))
            for i, x in enumerate(v):
                val(where + (i,), x, True, True)
        else:
            sig.append(('a', v))

    sig.append(st.locks)
    for name in sorted(st.gh):
        sig.append(('gh', name))
        val(('gh', name), st.gh[name], True, True)
    for key, v in frame_roots(ex, fr):
        v = st.res(v)
        if v.__class__ in (Ptr, PSym, Slot, Iter, Agg, Opaque):
            sig.append(key)
            val(key, v, True, False)
    if fn is not None:
        for i in sorted(env, key=str):
            v = env[i]
            if i == 'ret':
                ty = ex.rettype
            else:
                ty = ex.valty(fn, i)
            isptr = ty is None or ty.kind != 'int'
            small = ty is not None and ty.kind == 'int' and ty.bits <= 8 or i in fn.ctl
            sig.append(i)
            if ex.split_ret and v.__class__ is L and (i == 'ret' or i in ex.retids(fn)):
                sig.append('zero' if v == ZERO else 'other')
            val(('env', i), v, isptr, small)
    else:
        for i in sorted(env, key=str):
            ty = ex.rettype
            sig.append(i)
            if ex.split_ret and env[i].__class__ is L:
                sig.append('zero' if env[i] == ZERO else 'other')
            val(('env', i), env[i], ty is None or ty.kind != 'int', ty is not None and ty.kind == 'int' and ty.bits <= 8)
    for oid in sorted(st.mem):
        o = st.mem[oid]
        if o.kind in ('param', 'root') or (o.kind == 'global' and o.lazy):
            obj(oid)
    i = 0
    while i < len(todo):
        oid = todo[i]
        i += 1
        o = st.mem[oid]
        sig.append(('O', num[oid], o.kind, o.alive, o.form, oid if o.kind in IDENT else 0, o.size is None))
        if o.size is not None:
            slots.append((('size', num[oid]), o.size))
        opaque = coarse and ex.generic_class(st, o)
        if opaque:
            sig.append(('G', opaque))
            hidden.extend(v for off, (sz, v) in o.cells.items())
            continue
        offs = sorted(o.cells)
        sig.append(('cells', tuple((x, o.cells[x][0]) for x in offs)))
        for off in offs:
            sz, v = o.cells[off]
            val(('cell', num[oid], off, sz), v, (o.id, off) in ex.ptrcells or v.__class__ is PSym, sz == 1)
        if coarse:
            pass
        else:
            sig.append(('segs', tuple((c[0], c[1] if c[0] == 'ent' else 0) for a, n, c in o.segs)))
    sh.sig, sh.slots, sh.num, sh.order = tuple(sig), slots, num, order
    sh.extra = hidden_reach(st, hidden, num)
    return sh


def ptrs_in(st, v, out):
    v = st.res(v)
    k = v.__class__
    if k in (Ptr, Slot, Iter):
        out.append(v.o)
    elif k is Agg:
        for x in v.v:
            ptrs_in(st, x, out)
    elif k is tuple:
        for x in v:
            ptrs_in(st, x, out)
    elif k is Cont:
        for i, x in v.over:
            ptrs_in(st, x, out)
    elif k is Opaque and v.tag.__class__ is tuple and v.tag[0] == 'p2i':
        ptrs_in(st, v.tag[1], out)


def hidden_reach(st, vals, num):
    seen = set()
    todo = []
    for v in vals:
        ptrs_in(st, v, todo)
    while todo:
        o = todo.pop()
        if o in seen or o in num or o not in st.mem:
            continue
        seen.add(o)
        for sz, v in st.mem[o].cells.values():
            ptrs_in(st, v, todo)
    return seen


def same_hidden(sa, sb, vals):
    """the objects behind the values are untouched copies in both states"""
    for o in hidden_reach(sa, vals, ()):
        if sb.mem.get(o) is not sa.mem[o]:
            return False
    return True


BOUND_LO = (0, -(1 << 31), -(1 << 63))
BOUND_HI = (1, 255, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)

BOUND_WIDE = ((1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)


def _le(f, h, l, x):
    return h is not None and h <= x or f.ent_ge(l.neg().addc(x))


def _bounds(fa, a, fb, b, wide=False):
    la, ha = fa._range0(a)
    lb, hb = fb._range0(b)
    lo = hi = None
    if wide and la is not None and (lb is not None and lb >= la or fb.ent_ge(b.addc(-la))):
        lo = la
    else:
        for x in BOUND_LO:
            if (la is not None and la >= x or fa.ent_ge(a.addc(-x))) and (lb is not None and lb >= x or fb.ent_ge(b.addc(-x))):
                lo = x
                break
    if wide and ha is not None and _le(fb, hb, b, ha):
        hi = ha
    else:
        for x in (BOUND_WIDE if wide else BOUND_HI):
            if _le(fa, ha, a, x) and _le(fb, hb, b, x):
                hi = x
                break
        if hi == (1 << 32) - 1 and not wide:
            # just below the largest 32-bit number: room for what is added to it later
            k, step = 0, 32
            while step:
                if _le(fa, ha, a, hi - k - step) and _le(fb, hb, b, hi - k - step):
                    k += step
                step >>= 1
            hi -= k
    return lo, hi


class Joiner:
    def __init__(self, ex, fr, A, B, shA, shB, wide, late=False):
        self.late = late
        self.ex, self.fr = ex, fr
        (self.ea, self.sa), (self.eb, self.sb) = A, B
        self.shA, self.shB = shA, shB
        self.wide = wide
        self.pairs = []          # (a, b, z)
        self.memo = {}
        self.pspairs = []        # (seq, ia, ib, zi)
        self.psmemo = {}
        self.absorb = []
        self.index = []
        self.conts = {}

    # integers -------------------------------------------------------------
    def num(self, a, b, index=False):
        if a == b:
            return a
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        fa, fb = self.sa.facts, self.sb.facts
        r = None
        for a0, b0, z0 in self.pairs:
            d = a - a0
            if d.isc() and fb.ent_eq(b - b0 - d):
                r = z0 + d
                break
        if r is None:
            for a0, b0, z0 in self.pairs:
                d = a - a0
                if not d.isc() and len(d.t) <= 3 and fb.ent_eq(b - b0 - d):
                    r = z0 + d
                    break
                d = a + a0
                if len(d.t) <= 3 and fb.ent_eq(b + b0 - d):
                    r = d - z0
                    break
        if r is None:
            for seq, ia, ib, zi in self.pspairs:
                d = a - ps_(seq, ia)
                if len(d.t) <= 2 and fb.ent_eq(b - ps_(seq, ib) - d):
                    r = ps_(seq, zi) + d
                    break
                if d.t and fa.ent_eq(d) and fb.ent_eq(b - ps_(seq, ib)):
                    r = ps_(seq, zi)
                    break
                d = a + ps_(seq, ia)
                if len(d.t) <= 2 and len(d.t) < len(a.t) and fb.ent_eq(b + ps_(seq, ib) - d):
                    r = d - ps_(seq, zi)
                    break
        if r is None and self.pspairs and len(a.t) <= 3 and len(b.t) <= 3 and any(SY.ufargs.get(s, ('',))[0] == 'PS' for s, _ in a.t + b.t):
            # the size of one element
            for seq, ia, ib, zi in self.pspairs:
                for k in (0, -1):
                    d = a - ps_(seq, ia.addc(k + 1)) + ps_(seq, ia.addc(k))
                    if d.isc() and fb.ent_eq(b - ps_(seq, ib.addc(k + 1)) + ps_(seq, ib.addc(k)) - d):
                        r = ps_(seq, zi.addc(k + 1)) - ps_(seq, zi.addc(k)) + d
                        break
                if r is not None:
                    break
        if r is None:
            r = self.summed(a, b)
        if r is None:
            lo, hi = _bounds(fa, a, fb, b, self.late)
            z = fresh('j', lo, hi, tag=JTAG)
            self.pairs.append((a, b, z))
            r = z
            if index:
                self.index.append(z)
                for seq in self.seqs():
                    self.pspairs.append((seq, a, b, z))
        self.memo[k] = r
        return r

    def summed(self, a, b):
        """the sum of the sizes of as many elements as another number says"""
        fa, fb = self.sa.facts, self.sb.facts
        for y, x, fy, fx, k in ((b, a, fb, fa, 1), (a, b, fa, fb, 0)):
            for s, c in y.t:
                u = SY.ufargs.get(s)
                if c != 1 or not u or u[0] != 'PS' or len(y.t) > 3:
                    continue
                for p in self.pairs:
                    iy, ix = p[k], p[1 - k]
                    e = u[2] - iy
                    if not (e.isc() or fy.ent_eq(e)):
                        continue
                    e = C(e.c) if e.isc() else ZERO
                    d = y - S(s)
                    if fx.ent_eq(x - ps_(u[1], ix + e) - d):
                        return ps_(u[1], p[2] + e) + d
            if x.isc() and summing(y, fy):
                # nothing is summed up yet on the other side
                for p in self.pairs:
                    iy, ix = p[k], p[1 - k]
                    if ix != ZERO or not iy.isc():
                        continue
                    for seq in self.seqs():
                        if fy.ent_eq(y - ps_(seq, iy) - x):
                            return ps_(seq, p[2]) + x
        return None

    def carry(self, side, a):
        """the value of one side in terms of the joined symbols"""
        out = C(a.c)
        for s, k in a.t:
            r = S(s)
            for p in self.pairs:
                q = p[side]
                if len(q.t) == 1 and q.t[0] == (s, 1):
                    r = p[2].addc(-q.c)
                    break
            out = out + r.scale(k)
        return out

    def seqs(self):
        s = self.__dict__.get('_seqs')
        if s is None:
            s = set()
            for st in (self.sa, self.sb):
                for o in st.mem.values():
                    for sz, v in o.cells.values():
                        if v.__class__ is Cont:
                            s.add(v.seq)
            self._seqs = s = sorted(s, key=str)
        return s

    def val(self, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is cb and a == b and ca not in (Ptr, Cont):
            return a
        if ca is L and cb is L:
            return self.num(a, b)
        if ca in (L, Bool) and cb in (L, Bool):
            return self.num(bool_int(a.c) if ca is Bool else a, bool_int(b.c) if cb is Bool else b)
        if ca is Ptr and cb is Ptr:
            return Ptr(a.o, self.num(a.off, b.off))
        if ca is PSym and cb is PSym:
            k = ('ps', a.id, b.id)
            r = self.memo.get(k)
            if r is None:
                from .absint import new_psym, PSORIG
                r = self.memo[k] = new_psym('join')
                # both were read from the same member
                if PSORIG.get(a.id) == PSORIG.get(b.id):
                    PSORIG[r.id] = PSORIG.get(a.id)
            return r
        if ca is Slot and cb is Slot:
            return Slot(a.o, a.off, self.num(a.idx, b.idx, True), a.sub, a.seq)
        if ca is Iter and cb is Iter:
            return Iter(a.o, a.off, self.num(a.idx, b.idx, True))
        if ca is Agg and cb is Agg and len(a.v) == len(b.v):
            return Agg(self.val(x, y) for x, y in zip(a.v, b.v))
        if ca is tuple and cb is tuple and len(a) == len(b):
            return tuple(self.val(self.sa.res(x), self.sb.res(y)) for x, y in zip(a, b))
        if ca is Str and cb is Str and a.sid != b.sid and elem_of(a.sid) and elem_of(b.sid) and a.sid[1] == b.sid[1]:
            return Str(('e', a.sid[1], self.num(a.sid[2], b.sid[2], True)), self.num(a.n, b.n))
        if ca is Str and cb is Str:
            from .absint import newid
            k = ('str', a.sid, b.sid)
            sid = self.memo.get(k)
            if a.n == ZERO or b.n == ZERO:
                # the empty string has no content that could differ
                sid = a.sid if b.n == ZERO else b.sid
            if sid is None:
                sid = self.memo[k] = a.sid if a.sid == b.sid else ('js', newid())
            return Str(sid, self.num(a.n, b.n), a.lit if a.lit == b.lit else None)
        if ca is Cont and cb is Cont:
            return self.cont(a, b)
        if ca is Opaque and cb is Opaque:
            if a.tag.__class__ is tuple and b.tag.__class__ is tuple and a.tag[0] == 'p2i' and b.tag[0] == 'p2i':
                return Opaque(('p2i', self.val(self.sa.res(a.tag[1]), self.sb.res(b.tag[1]))))
            return Opaque('join')
        if ca is Fn and cb is Fn and a == b:
            return a
        return Opaque('join')

    def cont(self, a, b):
        """containers"""
        ex = self.ex
        if a == b and not (self.wide and a.over):
            return a
        over_ok = a.seq == b.seq and len(a.over) == len(b.over) and a.iso == b.iso
        if over_ok and self.wide and a.over:
            over_ok = a.over == b.over and same_hidden(self.sa, self.sb, [x for i, x in a.over])
        if over_ok:
            ov = []
            for (ia, va), (ib, vb) in zip(a.over, b.over):
                va, vb = self.sa.res(va), self.sb.res(vb)
                if self.wide:
                    pass
                elif va.__class__ is Ptr and vb.__class__ is Ptr:
                    na, nb = self.shA.num.get(va.o), self.shB.num.get(vb.o)
                    if na is None or na != nb:
                        over_ok = False
                        break
                elif va != vb:
                    over_ok = False
                    break
                ov.append((self.num(ia, ib, True), va))
        if over_ok:
            n = self.num(a.n, b.n, True)
            h = self.num(a.h, b.h, True)
            fp = h if a.fp == a.h and b.fp == b.h else self.num(a.fp, b.fp, True)
            holes = a.holes
            if a.holes != b.holes:
                if len(a.holes) != len(b.holes):
                    holes = ()
                else:
                    holes = tuple(self.num(x, y, True) for x, y in zip(a.holes, b.holes))
            return a.rep(over=tuple(ov), n=n, h=h, fp=fp, holes=holes)
        return self.cont_general(a, b)

    def cont_general(self, a, b):
        """new sequence that stands for either one"""
        ex = self.ex
        from .absint import newid
        k = ('cont', a.seq, a.n, a.over, b.seq, b.n, b.over)
        r = self.memo.get(k)
        if r is not None:
            return r
        a, b = released(self.sa, a), released(self.sb, b)
        iso = None
        if getattr(ex, 'factories', None) is not None:
            from .models import mirror
            ma, mb = mirror(ex, self.sa, a), mirror(ex, self.sb, b)
            iso = 'shared' if 'shared' in (ma, mb) else ma if mb in ('any', ma) else mb if ma == 'any' else None
            if iso == 'any':
                iso = None
        tA, tB = ex.cont_total(self.sa, a), ex.cont_total(self.sb, b)
        self.absorb += [self.sa.res(x) for i, x in a.over]
        la, lb = a.n - a.h, b.n - b.h
        seq = ('jq', newid())
        n = self.num(la, lb, True)
        if tA is not None and tB is not None:
            z = ps_(seq, n)
            if z.single() is not None:
                self.pairs.append((tA, tB, z))
            elif not n.isc():
                pass
        fa, fb = a.fp - a.h, b.fp - b.h
        fp = self.num(fa, fb, True) if fa != fb else fa
        r = Cont(a.kind, seq, ZERO, n, (), fp, (), iso, a.elem)
        self.memo[k] = r
        return r


def released(st, c):
    """counts elements that were put in and deleted again as deleted ones"""
    fp = c.fp
    for i, x in c.over:
        x = st.res(x)
        if x.__class__ is Ptr and (x.o not in st.mem or st.mem[x.o].alive == 0) and st.facts.ent_eq(i - fp):
            fp = fp.addc(1)
    return c if fp == c.fp else c.rep(fp=fp)


def elem_of(sid):
    """the content is that of an element of a sequence"""
    return sid.__class__ is tuple and sid[0] == 'e'


def settle(env, st):
    """numbers of a join that turned out to be constants are written as constants"""
    m = {}
    for l in st.facts.eq:
        if len(l.t) == 1 and SY.tag.get(l.t[0][0]) == JTAG and l.c % l.t[0][1] == 0:
            m[l.t[0][0]] = C(-l.c // l.t[0][1])
    if not m:
        return env, st
    names = set(m)

    def num(l):
        return l.subst(m) if any(s in names for s, _ in l.t) else l

    def val(v):
        k = v.__class__
        if k is L:
            return num(v)
        if k is Ptr:
            o = num(v.off)
            return v if o is v.off else Ptr(v.o, o)
        if k is Iter:
            i = num(v.idx)
            return v if i is v.idx else Iter(v.o, v.off, i)
        if k is Slot:
            i = num(v.idx)
            return v if i is v.idx else Slot(v.o, v.off, i, v.sub, v.seq)
        if k is Agg:
            w = tuple(val(x) for x in v.v)
            return v if all(x is y for x, y in zip(w, v.v)) else Agg(w)
        if k is Str and v.lit is None:
            n = num(v.n)
            return v if n is v.n else Str(v.sid, n, v.lit)
        if k is Cont:
            if v.over or v.kind not in ('vector', 'list', 'deque', 'queue'):
                return v
            h, n, fp = num(v.h), num(v.n), num(v.fp)
            return v if (h, n, fp) == (v.h, v.n, v.fp) else v.rep(h=h, n=n, fp=fp)
        return v
    st = st.copy()
    env = {i: val(v) for i, v in env.items()}
    for oid in list(st.mem):
        o = st.mem[oid]
        for off, (sz, v) in list(o.cells.items()):
            w = val(v)
            if w is not v:
                st.w(oid).cells[off] = (sz, w)
    return env, st


def summing(v, f):
    if v.__class__ is not L or not v.t:
        return False
    if any(SY.ufargs.get(s, ('',))[0] == 'PS' for s, _ in v.t):
        return True
    names = set(s for s, _ in v.t)
    for l in f.eq:
        if any(s in names for s, _ in l.t) and any(SY.ufargs.get(s, ('',))[0] == 'PS' for s, _ in l.t):
            return True
    return False


def ps_(seq, idx):
    from .absint import ps
    return ps(seq, idx)


def collect_syms(ex, fr, env, st, sh):
    syms = set()

    def add(v):
        k = v.__class__
        if k is L:
            for s, _ in v.t:
                syms.add(s)
                if s in BSYM:
                    csyms(BSYM[s], syms)
        elif k is Bool:
            csyms(v.c, syms)
        elif k is Ptr:
            add(v.off)
        elif k in (Slot, Iter):
            add(v.idx)
            o = st.mem.get(v.o)
            c = o.cells.get(v.off) if o is not None else None
            if c is not None and c[1].__class__ is Cont and c[1].elem:
                add(ps_(c[1].seq, v.idx))
                add(ps_(c[1].seq, v.idx.addc(1)))
        elif k is Agg:
            for x in v.v:
                add(st.res(x))
        elif k is tuple:
            for x in v:
                add(st.res(x))
        elif k is Str:
            add(v.n)
            if elem_of(v.sid):
                add(v.sid[2])
        elif k is Cont:
            add(v.n)
            add(v.h)
            add(v.fp)
            for i, x in v.over:
                add(i)
                add(st.res(x))
            for x in v.holes:
                add(x)
            t = ps_(v.seq, v.n)
            add(t)
            add(ps_(v.seq, v.h))
            add(ps_(v.seq, v.fp))
        elif k is Opaque and v.tag.__class__ is tuple:
            for x in v.tag:
                if x.__class__ is L:
                    add(x)
    for where, v in sh.slots:
        add(v)
    for oid in sh.order:
        o = st.mem[oid]
        for a, n, c in o.segs:
            add(a)
            add(n)
            if c[0] == 'ent':
                add(c[2])
            elif c[0] == 'val':
                add(st.res(c[1]))
    for key, v in frame_roots(ex, fr):
        add(st.res(v))
    f = fr if ex.incl_first or fr is None else fr.parent
    while f is not None:
        if True:
            for k in f.live_after:
                if k in f.env:
                    add(st.res(f.env[k]))
        f = f.parent
    if getattr(ex, 'factories', None) is not None:
        # what was found in a list that still exists
        seqs = set(v.seq for w, v in sh.slots if v.__class__ is Cont)
        for grp in (st.facts.ge, st.facts.eq, st.facts.ne):
            for l in grp:
                for s, _ in l.t:
                    a = SY.ufargs.get(s)
                    if a and a[0] == 'find' and a[1] in seqs:
                        syms.add(s)
        # a sum that is known by another name
        for l in st.facts.eq:
            more = [s for s, _ in l.t if s not in syms]
            if len(more) == 1 and len(l.t) > 1:
                a = SY.ufargs.get(more[0])
                if a and a[0] == 'PS' and a[1] in seqs and all(s in syms for s, _ in a[2].t):
                    syms.add(more[0])
    syms |= ex.keepsyms(st)
    # arguments of kept function symbols
    for s in list(syms):
        a = SY.ufargs.get(s)
        if a:
            for x in a:
                if x.__class__ is L:
                    for y, _ in x.t:
                        syms.add(y)
    return syms


def prune(ex, fr, env, st, sh, syms=None):
    """drop what cannot be reached; report leaked blocks"""
    st = st.copy()
    keep = set(sh.num) | sh.extra
    gone = []
    held = hidden_owned(st, keep) if getattr(ex, 'factories', None) is not None else ()
    for oid in list(st.mem):
        if oid in keep or oid in held:
            continue
        o = st.mem[oid]
        if o.kind in ('lazy', 'elem', 'strbuf') or o.kind == 'global':
            # identified by name: keep while anything may resolve to them again
            if o.kind == 'strbuf' or (o.kind == 'global' and not o.lazy):
                del st.mem[oid]
            continue
        if o.kind == 'heap' and o.alive == 1:
            gone.append(o)
        elif o.kind == 'alloca' and o.owner is not None:
            f = fr
            mine = False
            while f is not None:
                if f is o.owner:
                    mine = True
                f = f.parent
        del st.mem[oid]
    for o in gone:
        ex.leaked(st, o)
    st.facts = st.facts.restrict(collect_syms(ex, fr, env, st, sh) if syms is None else syms)
    return (env, st)


def hidden_owned(st, keep):
    """blocks that belong to elements of containers"""
    todo = []
    for oid, o in st.mem.items():
        if oid not in keep and o.alive == 1 and o.kind in ('lazy', 'elem'):
            for off, (sz, v) in o.cells.items():
                ptrs_in(st, v, todo)
    held = set()
    while todo:
        x = todo.pop()
        if x in held or x not in st.mem:
            continue
        held.add(x)
        for off, (sz, v) in st.mem[x].cells.items():
            ptrs_in(st, v, todo)
    return held


def join_pair(ex, fr, A, B, shA, shB, wide=False, only_old=False):
    """least general common state of the two (same signature)"""
    (ea, sa), (eb, sb) = A, B
    J = Joiner(ex, fr, A, B, shA, shB, wide, only_old)
    n = sa.copy()
    env = dict(ea)
    if len(shA.slots) != len(shB.slots):
        return None
    # containers first (they relate sums), then iterators, then the rest
    idx = list(range(len(shA.slots)))

    def rank(i):
        k = shA.slots[i][1].__class__
        if k is L and (summing(shA.slots[i][1], sa.facts) or summing(shB.slots[i][1], sb.facts)):
            return 3
        return 1 if k is Cont else 0 if k in (Iter, Slot) else 2
    idx.sort(key=lambda i: (rank(i), i))
    gh = {}
    res = {}
    for i in idx:
        w, a = shA.slots[i]
        w2, b = shB.slots[i]
        v = res[i] = J.val(a, b)
        if v.__class__ is Cont:
            J.conts[(v.h, v.n)] = v
    touched = {}

    def wobj(oid):
        o = touched.get(oid)
        if o is None:
            o = touched[oid] = n.w(oid)
        return o
    for i in range(len(shA.slots)):
        w, a = shA.slots[i]
        v = res[i]
        if w[0] == 'env':
            if len(w) == 2:
                env[w[1]] = v
        elif w[0] == 'gh':
            if len(w) == 2:
                n.gh[w[1]] = v
        elif w[0] == 'cell':
            if len(w) == 4:
                oid = shA.order[w[1]]
                c = sa.mem[oid].cells.get(w[2])
                if c is None or c[1] is not v:
                    wobj(oid).cells[w[2]] = (w[3], v)
                    if v.__class__ is L and v.single() is not None and v.single() not in SY.ufargs:
                        JORIG.setdefault(v.single(), (oid, w[2]))
        elif w[0] == 'size':
            if v is not a:
                wobj(shA.order[w[1]]).size = v
        elif w[0] in ('fa', 'fe'):
            pass
    # segments and generic objects
    for k, oid in enumerate(shA.order):
        oa, ob = sa.mem[oid], sb.mem[shB.order[k]]
        if oa.segs or ob.segs:
            if oa.segs != ob.segs:
                wobj(oid).segs = join_segs(J, oa.segs, ob.segs)
        if wide and ex.generic_class(sa, oa):
            if oa is ob and same_hidden(sa, sb, [v for off, (sz, v) in oa.cells.items()]):
                continue
            g = ex.generalise(J, sa, oa, sb, ob)
            n.mem[oid] = g
            touched[oid] = g
            J.absorb += [sa.res(v) for off, (sz, v) in oa.cells.items()]
        if oa.site != ob.site:
            pass
    for o in hidden_reach(sa, J.absorb, ()):
        if o not in shA.num:
            n.mem.pop(o, None)
        elif n.mem[o].kind == 'heap' and ('given',) not in n.mem[o].meta:
            # still named by a dead temporary
            n.w(o).meta += (('given',),)
    # substitutions of unknown pointers that both sides agree on
    if sa.psub is not sb.psub:
        n.psub = {p: v for p, v in sa.psub.items() if sb.psub.get(p) == v}
    # lazy objects that only one side has touched
    for oid, o in sb.mem.items():
        if oid not in n.mem and o.kind in ('lazy', 'elem') and oid not in shB.num:
            n.mem[oid] = o
    n.facts = join_facts(J, sa.facts, sb.facts, only_old)
    n.trace = sa.trace
    return env, n, J


def join_segs(J, A, B):
    """segments of both sides; a missing one counts as empty when its content is known"""
    out = []
    B = list(B)
    rest = []
    for a, n, c in A:
        m = None
        for j, (a2, n2, c2) in enumerate(B):
            if c[0] == c2[0] and (c[0] != 'ent' or c[1] == c2[1]):
                m = j
                break
        if m is None:
            rest.append((0, a, n, c))
            continue
        a2, n2, c2 = B.pop(m)
        if c[0] == 'ent':
            nc = ('ent', c[1], J.num(c[2], c2[2]))
        elif c[0] == 'val':
            nc = ('val', J.val(J.sa.res(c[1]), J.sb.res(c2[1])))
        else:
            nc = c
        out.append((J.num(a, a2), J.num(n, n2), nc))
    for a2, n2, c2 in B:
        rest.append((1, a2, n2, c2))
    for side, a, n, c in rest:
        if c[0] == 'ent':
            # on the other side it is empty, wherever it is
            out.append((J.carry(side, a), J.num(n, ZERO) if side == 0 else J.num(ZERO, n), c))
    return tuple(out)


def join_facts(J, fa, fb, only_old):
    """facts that hold on both sides"""
    if fa is fb and not J.pairs:
        return fa
    za = {}
    for a, b, z in J.pairs:
        y = z.single()
        if y is not None:
            za[y] = (a, b)
    ma = {y: p[0] for y, p in za.items()}
    mb = {y: p[1] for y, p in za.items()}
    ra, rb = {}, {}
    for a, b, z in J.pairs:
        if len(a.t) == 1 and a.t[0][1] == 1 and a.t[0][0] not in ra:
            ra[a.t[0][0]] = z.addc(-a.c)
        if len(b.t) == 1 and b.t[0][1] == 1 and b.t[0][0] not in rb:
            rb[b.t[0][0]] = z.addc(-b.c)
    cand = {}

    def put(kind, l):
        if not l.t:
            return
        cand.setdefault((kind, l), 1)

    def srcs(f, r):
        for l in f.ge:
            put('ge', l)
            if r:
                put('ge', l.subst(r))
        for l in f.eq:
            put('eq', l)
            if r:
                put('eq', l.subst(r))
        for l in f.ne:
            put('ne', l)
            if r:
                put('ne', l.subst(r))
    def terms(f, side):
        # what is known about a sum holds for the name of the sum
        for p in J.pairs:
            x, z = p[side], p[2]
            if len(x.t) < 2 or z.single() is None:
                continue
            t = dict(x.t)
            y, k = next(((y, k) for y, k in x.t if k in (1, -1)), (None, 0))
            if y is None:
                continue
            for kind, ls in (('ge', f.ge), ('ne', f.ne)):
                for l in ls:
                    m = dict(l.t)
                    if m.get(y) and all(q in m for q in t):
                        c = l - (x - z).scale(m[y] * k)
                        if len(c.t) <= 3:
                            put(kind, c)
                            if kind == 'ge':
                                put(kind, c.addc(-1))
    srcs(fa, ra)
    for z in J.index:
        for h, n in J.conts:
            put('ge', n - z)
            put('ge', z - h)
    if not only_old:
        terms(fa, 0)
        terms(fb, 1)
        srcs(fb, rb)
        for a, b, z in J.pairs:
            for x, f in ((a, fa), (b, fb)):
                if x.isc() and 0 <= x.c < 1 << 16 and z.single() is not None:
                    for l in f.ge:
                        if len(l.t) <= 2 and all(s not in za for s, k in l.t):
                            put('ge', l.addc(x.c) - z)
            if a.isc() and b.isc():
                for l in fa.eq:
                    if len(l.t) == 1 and l.t[0][1] in (1, -1) and -l.c * l.t[0][1] == a.c:
                        put('eq', S(l.t[0][0]) - z)
        zs = list(za.items())
        for i, (y, (a, b)) in enumerate(zs):
            zl = S(y)
            la, lb = fa._range0(a)[0], fb._range0(b)[0]
            ha, hb = fa._range0(a)[1], fb._range0(b)[1]
            for x in {a.c if a.isc() else None, b.c if b.isc() else None, la, lb, ha, hb} - {None}:
                if abs(x) < 1 << 40:
                    put('ge', zl.addc(-x))
                    put('ge', zl.neg().addc(x))
            for y2, (a2, b2) in zs[i + 1:i + 12]:
                for k in (0, -1):
                    put('ge', (zl - S(y2)).addc(k))
                    put('ge', (S(y2) - zl).addc(k))
                put('ne', zl - S(y2))
            # against the terms of the sides
            for x in (a, b):
                if not x.isc():
                    put('ge', zl - x)
                    put('ge', x - zl)
    ge, eq, ne = set(), set(), set()
    for (kind, l) in cand:
        la, lb = l.subst(ma), l.subst(mb)
        if kind == 'ge':
            if fa.ent_ge(la) and fb.ent_ge(lb):
                ge.add(l)
        elif kind == 'eq':
            if fa.ent_eq(la) and fb.ent_eq(lb):
                eq.add(l)
            else:
                for m in (l, l.neg()):
                    if fa.ent_ge(m.subst(ma)) and fb.ent_ge(m.subst(mb)):
                        ge.add(m)
        else:
            if fa.ent_ne(la) and fb.ent_ne(lb):
                ne.add(l)
    f = Facts()
    out = set()
    for l in ge:
        if l.neg() in ge:
            eq.add(l)
            continue
        a, _ = f._range0(l)
        if a is None or a < 0:
            out.add(l)
    best = {}
    for l in out:
        o = best.get(l.t)
        if o is None or l.c < o.c:
            best[l.t] = l
    eqs = set()
    for l in eq:
        if l.neg() in eqs:
            continue
        eqs.add(l)
    return Facts(frozenset(best.values()), frozenset(eqs), frozenset(ne))


def leq(ex, fr, back, head, shB, shH):
    """is the state `back` included in `head`?"""
    (eb, sb), (eh, sh_) = back, head
    if len(shB.slots) != len(shH.slots):
        return False
    sig = {}
    fb = sb.facts
    todo = []
    psm = {}

    def num(h, b):
        if h == b and not any(SY.tag.get(s) == JTAG for s in h.syms()):
            return True
        free = [(s, k) for s, k in h.t if SY.tag.get(s) == JTAG and s not in sig]
        if len(free) == 1 and free[0][1] in (1, -1) and len(h.t) == 1:
            s, k = free[0]
            sig[s] = (b.addc(-h.c)).scale(k)
            return True
        todo.append((h, b))
        return True

    def val(h, b):
        ch, cb = h.__class__, b.__class__
        if ch in (L, Bool) and cb in (L, Bool):
            if ch is Bool and cb is Bool and h == b:
                return True
            if ch is Bool:
                h = bool_int(h.c)
            if cb is Bool:
                b = bool_int(b.c)
            return num(h, b)
        if ch is not cb:
            return ch is Opaque
        if ch is Ptr:
            return num(h.off, b.off)
        if ch is PSym:
            if h == b:
                return True
            if h.origin == 'join':
                if h.id in psm:
                    return psm[h.id] == b.id
                psm[h.id] = b.id
                return True
            return False
        if ch in (Slot, Iter):
            if ch is Slot and h.seq != b.seq and h.seq is not None:
                if sig.get(('q', h.seq)) != b.seq:
                    return False
            return num(h.idx, b.idx)
        if ch is Agg:
            return len(h.v) == len(b.v) and all(val(sh_.res(x), sb.res(y)) for x, y in zip(h.v, b.v))
        if ch is tuple:
            return len(h) == len(b) and all(val(sh_.res(x), sb.res(y)) for x, y in zip(h, b))
        if ch is Str:
            if h.lit is not None and h.lit != b.lit:
                return False
            if elem_of(h.sid) and elem_of(b.sid) and h.sid[1] == b.sid[1]:
                num(h.sid[2], b.sid[2])
            elif elem_of(h.sid):
                return h.sid == b.sid
            elif h.sid != b.sid and b.n != ZERO:
                if not (h.sid.__class__ is tuple and h.sid[0] == 'js'):
                    return False
                o = sig.setdefault(('s', h.sid), b.sid)
                if o != b.sid:
                    return False
            return num(h.n, b.n)
        if ch is Cont:
            if h.kind != b.kind:
                return False
            if h.iso != b.iso and getattr(ex, 'factories', None) is not None:
                from .models import mirror
                mb = mirror(ex, sb, b)
                if mb == 'shared' or h.iso not in (None, 'shared') and mb not in (h.iso, 'any'):
                    return False
            if h.seq == b.seq and not (h.seq.__class__ is tuple and h.seq[0] == 'jq'):
                if h.over != b.over:
                    return False
                return num(h.h, b.h) and num(h.n, b.n) and num(h.fp, b.fp) and len(h.holes) == len(b.holes) and all(
                    num(x, y) for x, y in zip(h.holes, b.holes))
            if not (h.seq.__class__ is tuple and h.seq[0] == 'jq'):
                return False
            if h.over:
                if h.seq != b.seq or h.over != b.over:
                    return False
                o = sig.setdefault(('q', h.seq), (b.seq, b.h, b.over))
                return o == (b.seq, b.h, b.over) and num(h.h, b.h) and num(h.n, b.n) and num(h.fp, b.fp) and len(
                    h.holes) == len(b.holes) and all(num(x, y) for x, y in zip(h.holes, b.holes))
            o = sig.setdefault(('q', h.seq), (b.seq, b.h, b.over))
            if o != (b.seq, b.h, b.over):
                return False
            b = released(sb, b)
            if h.h != ZERO or h.holes or b.holes:
                if h.seq == b.seq and h.over == b.over:
                    return num(h.h, b.h) and num(h.n, b.n) and num(h.fp, b.fp) and len(h.holes) == len(
                        b.holes) and all(num(x, y) for x, y in zip(h.holes, b.holes))
                return False
            num(h.n, b.n - b.h)
            if h.n == b.n and not b.over and b.seq == h.seq:
                return True
            if h.fp != h.h or b.fp != b.h:
                num(h.fp, b.fp - b.h)
            t = ex.cont_total(sb, b)
            hp = ps_(h.seq, h.n)
            if t is not None and hp.single() is not None:
                if h.seq != b.seq or b.over or h.n != b.n:
                    sig[hp.single()] = t
            return True
        return h == b or ch is Opaque
    order = sorted(range(len(shH.slots)), key=lambda i: (0 if shH.slots[i][1].__class__ in (Cont, Iter, Slot) else 1, i))
    for i in order:
        if not val(shH.slots[i][1], shB.slots[i][1]):
            return False
    for k, oid in enumerate(shH.order):
        oh, ob = sh_.mem[oid], sb.mem[shB.order[k]]
        if ex.generic_class(sh_, oh) and not ex.generic_leq(sh_, oh, sb, ob, num):
            return False
        if oh.segs:
            rest = list(ob.segs)
            for a, n, c in oh.segs:
                m = None
                for j, (a2, n2, c2) in enumerate(rest):
                    if c[0] == c2[0] and (c[0] != 'ent' or c[1] == c2[1]):
                        m = j
                        break
                if m is None:
                    # an empty segment
                    num(n, ZERO)
                    continue
                a2, n2, c2 = rest.pop(m)
                num(a, a2)
                num(n, n2)
                if c[0] == 'ent':
                    num(c[2], c2[2])
                elif c[0] == 'val' and not val(sh_.res(c[1]), sb.res(c2[1])):
                    return False
    m = {s: v for s, v in sig.items() if s.__class__ is int}
    for s, v in m.items():
        if v == S(s) or s in SY.ufargs:
            continue
        lo, hi = SY.lo[s], SY.hi[s]
        if lo is not None and not fb.ent_ge(v.addc(-lo)) or hi is not None and not fb.ent_ge(v.neg().addc(hi)):
            return False
    # prefix sums over renamed indices
    for grp in (sh_.facts.ge, sh_.facts.eq, sh_.facts.ne):
        for l in grp:
            addps(l, m, sig)
    for h, b in todo:
        addps(h, m, sig)
    for h, b in todo:
        if not fb.ent_eq(h.subst(m) - b):
            return False
    for l in sh_.facts.ge:
        if not fb.ent_ge(l.subst(m)):
            return False
    for l in sh_.facts.eq:
        if not fb.ent_eq(l.subst(m)):
            return False
    for l in sh_.facts.ne:
        if not fb.ent_ne(l.subst(m)):
            return False
    return True


def addps(l, m, sig):
    for s, _ in l.t:
        if s in m:
            continue
        a = SY.ufargs.get(s)
        if a and a[0] == 'PS':
            q = sig.get(('q', a[1]))
            if q is not None and (q[1] != ZERO or q[2]):
                continue
            seq = q[0] if q is not None else a[1]
            idx = a[2].subst({k: v for k, v in m.items()})
            if idx != a[2] or seq != a[1]:
                m[s] = ps_(seq, idx)


def group(ex, fr, items, coarse):
    fill(ex, items)
    groups = {}
    for env, st in items:
        sh = traverse(ex, fr, env, st, coarse)
        groups.setdefault(sh.sig, []).append((env, st, sh))
    return groups


def merge(ex, fr, live, sts):
    """join states of equal shape at a control-flow merge"""
    if live is not None:
        sts = [({i: e[i] for i in live if i in e}, s) for e, s in sts]
    sts = [(e, s.copy()) for e, s in sts]
    out = []
    groups = group(ex, fr, sts, False)
    if len(groups) > ex.maxparts:
        groups2 = group(ex, fr, sts, True)
        if len(groups2) > ex.maxparts:
            old, ex.refine_flags = ex.refine_flags, False
            groups2 = group(ex, fr, sts, True)
            ex.refine_flags = old
            if len(groups2) > 4 * ex.maxparts:
                from .absint import AnalysisError
                raise AnalysisError('too many partitions (%d) in %s' % (len(groups2), fr.fn.short if fr else '?'))
        return fold(ex, fr, groups2, True)
    return fold(ex, fr, groups, False)


def fold(ex, fr, groups, coarse):
    out = []
    for g in groups.values():
        env, st, sh = g[0]
        cur = prune(ex, fr, env, st, sh)
        for env2, st2, sh2 in g[1:]:
            ex.stats['joins'] += 1
            nxt = prune(ex, fr, env2, st2, sh2)
            sh = traverse(ex, fr, cur[0], cur[1], coarse)
            # the cheap case: included
            if same_state(cur, nxt, sh, sh2):
                continue
            r = join_pair(ex, fr, cur, nxt, sh, sh2, wide=coarse)
            if r is None:
                out.append(nxt)
                continue
            cur = (r[0], r[1])
        sh = traverse(ex, fr, cur[0], cur[1], coarse)
        out.append(prune(ex, fr, cur[0], cur[1], sh))
    return out


def same_state(A, B, shA, shB):
    if A[1].facts is not B[1].facts and (A[1].facts.ge != B[1].facts.ge or A[1].facts.eq != B[1].facts.eq or
                                         A[1].facts.ne != B[1].facts.ne):
        return False
    if shA.order != shB.order:
        return False
    for (w, a), (w2, b) in zip(shA.slots, shB.slots):
        if a.__class__ is not b.__class__ or a != b:
            return False
    for oid in shA.order:
        if A[1].mem[oid].segs != B[1].mem[oid].segs:
            return False
    return True


def widen(ex, fr, live, head, back, it):
    """-> (new head states, changed)"""
    items = [({i: e[i] for i in live if i in e}, s.copy()) for e, s in back]
    heads = [(e, s.copy()) for e, s in head]
    if not items:
        return head, False
    fill(ex, heads + items)
    hs = []
    for e, s in heads:
        hs.append([(e, s), traverse(ex, fr, e, s, True)])
    changed = False
    for e, s in items:
        sh = traverse(ex, fr, e, s, True)
        e, s = prune(ex, fr, e, s, sh)
        sh = traverse(ex, fr, e, s, True)
        cands = [h for h in hs if h[1].sig == sh.sig]
        if any(leq(ex, fr, (e, s), h[0], sh, h[1]) for h in cands):
            continue
        changed = True
        if not cands:
            hs.append([(e, s), sh])
            continue
        h = cands[0]
        r = join_pair(ex, fr, h[0], (e, s), h[1], sh, wide=True, only_old=it > 2)
        if r is None:
            hs.append([(e, s), sh])
            continue
        ne, ns, J = r
        sh2 = traverse(ex, fr, ne, ns, True)
        ne, ns = prune(ex, fr, ne, ns, sh2)
        h[0] = (ne, ns)
        h[1] = traverse(ex, fr, ne, ns, True)
    if len(hs) > 4 * ex.maxparts:
        from .absint import AnalysisError
        raise AnalysisError('too many loop partitions (%d) in %s' % (len(hs), fr.fn.short))
    return [h[0] for h in hs], changed
