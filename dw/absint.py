"""Abstract interpreter over the library's LLVM IR.

States are kept per program point and per partition (held locks, monitor states,
nullness of pointers, values of flags) and joined inside a partition; loops are
solved by iteration with widening.  Calls inside the library are interpreted in the
abstract for each calling state; the standard library and the C library are modelled.
Nothing is executed and no solver is used: the integer part is the linear domain of
lin.py."""
import sys
import itertools
from . import lin, join
from .lin import L, SY, C, S, ZERO, ONE, Facts, fresh, ufn
from .values import *

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class Incompatible(Exception):
    pass


class Obj:
    __slots__ = ('id', 'kind', 'size', 'alive', 'form', 'lazy', 'cells', 'segs', 'site', 'owner', 'cls', 'meta')

    def __init__(self, id, kind, size=None, form=None, lazy=False, site='', owner=None, cls=None):
        self.id, self.kind, self.size, self.form, self.lazy, self.site = id, kind, size, form, lazy, site
        self.alive = 1
        self.cells = {}
        self.segs = ()
        self.owner = owner
        self.cls = cls
        self.meta = ()

    def copy(self):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.alive, o.form, o.lazy = self.id, self.kind, self.size, self.alive, self.form, self.lazy
        o.cells = dict(self.cells)
        o.segs, o.site, o.owner, o.cls, o.meta = self.segs, self.site, self.owner, self.cls, self.meta
        return o

    def __repr__(self):
        return '#%s:%s%s size=%r alive=%s %s' % (self.id, self.kind, ':' + str(self.cls) if self.cls else '', self.size, self.alive,
                                                  self.site)


class State:
    __slots__ = ('facts', 'mem', 'locks', 'gh', 'psub', 'trace')

    def __init__(self):
        self.facts = Facts.EMPTY
        self.mem = {}
        self.locks = ()
        self.gh = {}
        self.psub = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.facts, s.locks, s.trace = self.facts, self.locks, self.trace
        s.mem = dict(self.mem)
        s.gh = dict(self.gh)
        s.psub = self.psub
        return s

    def w(self, oid):
        """object for writing"""
        o = self.mem[oid].copy()
        self.mem[oid] = o
        return o

    def res(self, v):
        while v.__class__ is PSym:
            n = self.psub.get(v.id)
            if n is None:
                return v
            v = n
        return v

    def setps(self, pid, v):
        d = dict(self.psub)
        d[pid] = v
        self.psub = d

    def tr(self, txt):
        self.trace = (self.trace, txt)

    def trace_list(self, n=60):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


_ids = itertools.count(1)
_psids = itertools.count(1)
PSOBJ = {}           # psym id -> object id
ELEM = {}            # (seq, idx) -> object id
GOBJ = {}            # global name -> object id
STRBUF = {}          # string id -> object id
INITPS = {}          # (obj, off) -> psym


def newid():
    return next(_ids)


PSORIG = {}


def new_psym(origin=None):
    p = PSym(next(_psids), origin)
    PSORIG[p.id] = origin
    return p


M32 = (1 << 32) - 1
STRMAX = (1 << 31) - 1


class Frame:
    __slots__ = ('fn', 'env', 'args', 'allocas', 'inst', 'live_after', 'parent', 'depth')


class Finding:
    __slots__ = ('kind', 'fn', 'file', 'line', 'msg', 'trace', 'root', 'facts', 'chain')

    def key(self):
        return (self.kind, self.fn, self.line, self.msg)


class Exec:
    """one analysis run"""
    nowrap = False



    def __init__(self, mod, maxdepth=40):
        self.mod = mod
        self.contracts = {}          # short function name -> handler(ex, fr, st, inst, args) -> [(st, val)] or None
        self.models = {}
        self.monitors = []
        self.oblig = {}              # (kind, site) -> [ok, total]
        self.findings = {}
        self.mute = 0
        self.buf = []                # obligation buffers (loops discard all but the last)
        self.frame = None
        self.root = ''
        self.funcs_seen = set()
        self.unmodelled = {}
        self.undecided = {}
        self.stats = {'inst': 0, 'states': 0, 'calls': 0, 'loops': 0, 'joins': 0}
        self.maxdepth = maxdepth
        self.maxparts = 48
        self.refine_flags = True
        self.spawns = []
        self.events_on = True
        self.later_cache = {}
        self.nonnull_lazy = True
        self.trace_calls = True
        self.incl_first = False
        self.split_ret = False       # keep returned zeros apart from other results
        self.ret_cache = {}
        self.monotone = frozenset()  # sequences whose prefix sums are known to grow
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ reporting
    def where(self, inst):
        """innermost position inside the library"""
        fr = self.frame
        if inst is not None and inst.file and not inst.file.startswith('/usr'):
            return inst.fn.short, inst.file, inst.line
        while fr is not None:
            i = fr.inst
            if i is not None and i.file and not i.file.startswith('/usr') and i.line:
                return i.fn.short, i.file, i.line
            fr = fr.parent
        return (inst.fn.short if inst is not None else '?'), '', 0

    def chain(self):
        out = []
        fr = self.frame
        while fr is not None:
            n = fr.fn.short
            if n.startswith('DowowNetwork'):
                out.append(n.replace('DowowNetwork::', ''))
            fr = fr.parent
        return ' <- '.join(out)

    def oblige(self, kind, ok, inst, msg, st):
        fn, file, line = self.where(inst)
        rec = (kind, fn, file, line, msg, bool(ok), st.trace if not ok else None, None if ok else st.facts,
               None if ok else self.chain())
        if self.buf:
            self.buf[-1].append(rec)
        else:
            self._commit(rec)
        return ok

    def _commit(self, rec):
        kind, fn, file, line, msg, ok, trace, facts, chain = rec
        k = (kind, fn, line)
        o = self.oblig.setdefault(k, [0, 0])
        o[1] += 1
        if ok:
            o[0] += 1
            return
        f = Finding()
        f.kind, f.fn, f.file, f.line, f.msg, f.root, f.chain = kind, fn, file, line, msg, self.root, chain
        f.trace = trace
        f.facts = facts
        if f.key() not in self.findings:
            self.findings[f.key()] = f

    def branch(self, st, I, c):
        pass

    def event(self, st, name, inst, **kw):
        for m in self.monitors:
            h = getattr(m, 'on_' + name, None)
            if h is not None:
                h(self, st, inst, **kw)

    # ------------------------------------------------------------------ values
    def const(self, st, o):
        k = o[0]
        if k == 'c':
            return C(o[1])
        if k == 'n':
            return NULL
        if k == 'f':
            return Fn(o[1])
        if k == 'g':
            return Ptr(self.gobj(st, o[1]), C(o[2]))
        if k == 'u':
            return self.unknown(o[1], 'undef')
        if k == 'z':
            return self.zero(o[1])
        if k == 'agg':
            return Agg(self.const(st, x) for x in o[2])
        return Opaque('const')

    def zero(self, ty):
        if ty.kind == 'int':
            return ZERO
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return Agg(self.zero(e) for e in ty.elems)
        if ty.kind == 'array':
            return Agg(self.zero(ty.elem) for _ in range(ty.n))
        return Opaque('zero')

    def gobj(self, st, name):
        oid = GOBJ.get(name)
        if oid is None:
            oid = GOBJ[name] = newid()
        if oid not in st.mem:
            o = Obj(oid, 'global', C(self.mod.gsize(name)), site=name, cls=name)
            ini = self.mod.ginit(name)
            if isinstance(ini, bytes):
                o.meta = (('lit', ini),)
                o.segs = ((ZERO, C(len(ini)), ('ent', ('G', name), ZERO)),)
            elif ini is not None:
                for off, sz, c in ini:
                    if c[0] in ('f', 'n', 'c'):
                        o.cells[off] = (sz, self.const(st, c))
                    elif c[0] == 'g':
                        o.cells[off] = (sz, Opaque('g:' + c[1]))
            else:
                o.lazy = True
            st.mem[oid] = o
        return oid

    def unknown(self, ty, name='u'):
        if ty.kind == 'int':
            return fresh(name, 0, (1 << ty.bits) - 1)
        if ty.kind == 'ptr':
            return new_psym(name)
        if ty.kind == 'struct':
            return Agg(self.unknown(e, name) for e in ty.elems)
        return Opaque(name)

    def val(self, fr, st, o):
        k = o[0]
        if k == 'v':
            return st.res(fr.env[o[1]])
        if k == 'a':
            return st.res(fr.args[o[1]])
        return self.const(st, o)

    # integer views ------------------------------------------------------------
    def asint(self, st, v, bits=64):
        """value as linear term"""
        v = st.res(v)
        if v.__class__ is L:
            return v
        if v.__class__ is Bool:
            return bool_int(v.c)
        if v.__class__ is Ptr:
            return ufn(('p2i', v.o), 'addr', 1, (1 << 48)) + v.off
        if v.__class__ is PSym:
            return ufn(('ps2i', v.id), 'addr', 0, (1 << 48))
        return fresh('i', 0, (1 << bits) - 1)

    def assume_raw_ge(self, st, l):
        f = st.facts.add_ge(l)
        if f is not None:
            st.facts = f
        return f is not None

    def view_u(self, st, l, bits):
        """unsigned view of an integer known modulo 2^bits"""
        M = 1 << bits
        a, b = st.facts._range0(l)
        if a is not None and a >= 0 and b is not None and b < M:
            return l
        if l.isc():
            return C(l.c % M)
        if (a is not None and a >= 0 or st.facts.ent_ge(l)) and (
                b is not None and b < M or st.facts.ent_ge(l.neg().addc(M - 1))):
            return l
        if b is not None and b < 0 and a is not None and a >= -M:
            return l.addc(M)
        if self.nowrap and bits == 32 and a is not None and a >= 0:
            # assumed: what is encoded has less than 2^32 bytes
            f = st.facts.add_ge(l.neg().addc(M - 1))
            if f is not None:
                st.facts = f
                return l
        return self._wrap(st, l, bits, 0)

    def view_s(self, st, l, bits):
        H = 1 << (bits - 1)
        a, b = st.facts._range0(l)
        if a is not None and a >= -H and b is not None and b < H:
            return l
        if l.isc():
            c = l.c % (2 * H)
            return C(c - 2 * H if c >= H else c)
        if (a is not None and a >= -H or st.facts.ent_ge(l.addc(H))) and (
                b is not None and b < H or st.facts.ent_ge(l.neg().addc(H - 1))):
            return l
        if a is not None and a >= H and b is not None and b < 2 * H:
            return l.addc(-2 * H)
        return self._wrap(st, l, bits, -H)

    def _wrap(self, st, l, bits, lo):
        """l - 2^bits * k  in [lo, lo + 2^bits)"""
        M = 1 << bits
        k = ufn(('k', l, bits, lo), 'k')
        r = l - k.scale(M)
        a, b = st.facts._range0(l)
        s = k.t[0][0]
        if a is not None and SY.lo[s] is None:
            SY.lo[s] = (a - lo) // M
        if b is not None and SY.hi[s] is None:
            SY.hi[s] = (b - lo) // M
        for q in (r.addc(-lo), r.neg().addc(lo + M - 1)):
            f = st.facts.add_ge(q)
            if f is not None:
                st.facts = f
        if SY.lo[s] is not None and SY.lo[s] == SY.hi[s]:
            return l.addc(-M * SY.lo[s])
        if SY.lo[s] is not None and SY.hi[s] is not None and SY.hi[s] - SY.lo[s] <= 3:
            for c in range(SY.lo[s], SY.hi[s] + 1):
                if st.facts.ent_eq(k.addc(-c)):
                    return l.addc(-M * c)
        return r

    # ------------------------------------------------------------------ conditions
    def cond(self, st, v):
        v = st.res(v)
        if v.__class__ is Bool:
            return v.c
        if v.__class__ is L:
            if v.isc():
                return T if v.c & 1 else F
            s = v.single()
            if s is not None and s in BSYM:
                return BSYM[s]
            return cne(v)
        return cne(fresh('cond', 0, 1))

    def assume(self, st, c):
        """list of states in which the condition holds"""
        k = c[0]
        if k == 'T':
            return [st]
        if k == 'F':
            return []
        if k == 'and':
            out = []
            for s in self.assume(st, c[1]):
                out.extend(self.assume(s, c[2]))
            return out
        if k == 'or':
            s2 = st.copy()
            a = self.assume(st.copy(), c[1])
            out = a
            for s in self.assume(s2, cnot(c[1])):
                out = out + self.assume(s, c[2])
            return out
        if k in ('null', 'nonnull'):
            p = st.res(PSym(c[1]))
            if p.__class__ is PSym:
                st = st.copy()
                if k == 'null':
                    st.setps(p.id, NULL)
                else:
                    self.materialise(st, p)
                return [st]
            isnull = p.__class__ is L and p == NULL
            return [st] if isnull == (k == 'null') else []
        l = c[1]
        if k == 'ge':
            r = self._bsym_ge(st, l)
            if r is not None:
                return self.assume(st, r)
            f = st.facts.add_ge(l)
        elif k == 'eq':
            s = self._bsym(l)
            if s is not None:
                return self.assume(st, s)
            f = st.facts.add_eq(l)
        else:
            s = self._bsym(l)
            if s is not None:
                return self.assume(st, cnot(s))
            f = st.facts.add_ne(l)
        if f is None:
            return []
        st = st.copy()
        st.facts = f
        if k == 'eq':
            self.congruence(st, l)
        if self.monotone and not self.increasing(st):
            return []
        return [st]

    def increasing(self, st):
        """prefix sums of positive sizes grow with the number of elements; -> False when the state is contradictory"""
        cand = {}
        for grp in (st.facts.ge, st.facts.eq):
            for x in grp:
                for s, _ in x.t:
                    a = SY.ufargs.get(s)
                    if a and a[0] == 'PS':
                        cand[s] = a
        for s in self.state_ps(st):
            cand[s] = SY.ufargs[s]
        todo = list(cand.items()) + [(None, ('PS', q, ZERO)) for q in self.monotone]
        for (s, a), (s2, a2) in itertools.permutations(todo, 2):
            if a[1] != a2[1] or a[1] not in self.monotone or s2 is None:
                continue
            f = st.facts
            d, i = S(s2) - S(s) if s is not None else S(s2), a2[2] - a[2]
            if f.ent_eq(i):
                f = f if f.ent_eq(d) else f.add_eq(d)
            elif f.ent_ge(i) and f.ent_ge(i.addc(-1)):
                f = f if f.ent_ge(d - i.scale(5)) else f.add_ge(d - i.scale(5))
            elif f.ent_ge(d.addc(-1)):
                f = f.add_ge(i.addc(-1))
            elif f.ent_eq(d) and not f.ent_eq(i):
                f = f.add_eq(i)
            elif f.ent_ge(i) and not f.ent_ge(d):
                f = f.add_ge(d)
            if f is None:
                return False
            st.facts = f
        return True

    def _bsym(self, l):
        """condition equivalent to l == 0 when l is  +-b + c  for a condition symbol b"""
        if len(l.t) == 1 and l.t[0][0] in BSYM:
            s, k = l.t[0]
            if l.c == 0:
                return cnot(BSYM[s])
            if l.c == -k:
                return BSYM[s]
            return F
        return None

    def _bsym_ge(self, st, l):
        if len(l.t) == 1 and l.t[0][0] in BSYM:
            s, k = l.t[0]
            t0, t1 = l.c >= 0, l.c + k >= 0
            if t0 and t1:
                return T
            if not t0 and not t1:
                return F
            return BSYM[s] if t1 else cnot(BSYM[s])
        return None

    def congruence(self, st, l):
        """after an equality: equal arguments give equal prefix sums"""
        syms = set(l.syms())
        cand = []
        seen = set()
        for grp in (st.facts.ge, st.facts.eq):
            for x in grp:
                for s, _ in x.t:
                    if s not in seen:
                        seen.add(s)
                        a = SY.ufargs.get(s)
                        if a and a[0] == 'PS':
                            cand.append((s, a))
        for s in self.state_ps(st):
            if s not in seen:
                seen.add(s)
                cand.append((s, SY.ufargs[s]))
        for (s, a), (s2, a2) in itertools.combinations(cand, 2):
            if a[1] == a2[1] and a[2] != a2[2] and (syms & set(a[2].syms()) or syms & set(a2[2].syms())):
                if st.facts.ent_eq(a[2] - a2[2]):
                    f = st.facts.add_eq(S(s) - S(s2))
                    if f is not None:
                        st.facts = f

    def state_ps(self, st):
        out = set()
        for o in st.mem.values():
            for sg in o.segs:
                for x in (sg[0], sg[1]):
                    for s, _ in x.t:
                        a = SY.ufargs.get(s)
                        if a and a[0] == 'PS':
                            out.add(s)
            for sz, v in o.cells.values():
                if v.__class__ is L:
                    for s, _ in v.t:
                        a = SY.ufargs.get(s)
                        if a and a[0] == 'PS':
                            out.add(s)
                elif v.__class__ is Cont:
                    out.add(ps(v.seq, v.n).t[0][0]) if v.n.t else None
        fr = self.frame
        while fr is not None:
            for v in fr.env.values():
                if v.__class__ is L:
                    for s, _ in v.t:
                        a = SY.ufargs.get(s)
                        if a and a[0] == 'PS':
                            out.add(s)
            fr = fr.parent
        return out

    # ------------------------------------------------------------------ memory
    def materialise(self, st, p):
        """unknown pointer becomes a pointer to its own unknown object (st is modified)"""
        oid = PSOBJ.get(p.id)
        if oid is None:
            oid = PSOBJ[p.id] = newid()
        if oid not in st.mem:
            st.mem[oid] = Obj(oid, 'lazy', None, lazy=True, site=str(p.origin), owner=('ps', p.id))
        v = Ptr(oid, ZERO)
        st.setps(p.id, v)
        return v

    def alloc(self, st, kind, size, form=None, site='', cls=None, lazy=False):
        oid = newid()
        st.mem[oid] = Obj(oid, kind, size, form, lazy, site, cls=cls)
        return Ptr(oid, ZERO)

    def deref(self, st, p, inst, what):
        """resolve a pointer for access: Ptr/Slot/Iter or None (path is dropped)"""
        p = st.res(p)
        if p.__class__ is PSym:
            return self.materialise(st, p)
        if p.__class__ is L:
            if p == NULL:
                self.oblige('null', False, inst, 'null pointer %s' % what, st)
                return None
            return Opaque('int-ptr')
        if p.__class__ is Ptr:
            o = st.mem.get(p.o)
            if o is None:
                raise AnalysisError('dangling object id %r in %s' % (p, self.chain()))
            if o.kind in ('heap', 'elem', 'lazy', 'alloca', 'param'):
                self.oblige('uaf', o.alive == 1, inst, '%s of %s that was already %s' % (
                    what, self.oname(o), 'destroyed' if o.alive == 2 else 'freed'), st)
        return p

    def oname(self, o):
        if o.kind == 'heap':
            return 'the %s block allocated at %s' % (o.form, o.site)
        if o.kind == 'elem':
            return 'a container element'
        return 'object %s' % (o.site or o.kind)

    def inb(self, st, o, off, n, inst, what):
        """bounds obligation for [off, off+n)"""
        if o.size is None:
            return True
        kind = 'oob-r' if what == 'read' else 'oob-w'
        if n.isc() and n.c == 0:
            return True
        f = st.facts
        ok = f.ent_ge(off) and f.ent_ge(o.size - off - n)
        if not ok and not n.isc():
            ok = f.ent_eq(n)
        return self.oblige(kind, ok, inst, '%s of %s bytes at offset %s of %s (%s bytes)' % (
            what, self.show(n), self.show(off), self.oname(o), self.show(o.size)), st)

    def show(self, l):
        import re
        return re.sub(r'\.\d+', '', repr(l))

    def load(self, st, p, ty, inst):
        """-> value or None when the path dies"""
        p = self.deref(st, p, inst, 'read')
        if p is None:
            return None
        if p.__class__ is Slot:
            return self.slot_load(st, p, ty, inst)
        if p.__class__ is not Ptr:
            if p.__class__ is Opaque and p.tag.__class__ is tuple and p.tag[0] == 'vt':
                return Opaque(('vf', p.tag[1], p.tag[2] // 8))
            return self.unknown(ty, 'ld')
        if ty.kind == 'ptr' and p.off.isc():
            self.ptrcells.add((p.o, p.off.c))
        o = st.mem[p.o]
        sz = C(ty.size)
        self.inb(st, o, p.off, sz, inst, 'read')
        v = self.peek(st, o, p.off, ty, inst)
        for m in self.monitors:
            h = getattr(m, 'on_load', None)
            if h:
                v = h(self, st, inst, o=o, off=p.off, ty=ty, val=v) or v
        return v

    def bits_view(self, ty, v):
        return v

    def peek(self, st, o, off, ty, inst=None):
        """content without obligations"""
        n = ty.size
        if off.isc():
            c = o.cells.get(off.c)
            if c is not None:
                if c[0] == n:
                    v = st.res(c[1])
                    if v.__class__ is Opaque and v.tag == 'junk':
                        r = self.seg_read(st, o, off, n, ty)
                        return r if r is not None else self.unknown(ty, 'junk')
                    if ty.kind == 'ptr' and v.__class__ is L and not v.isc():
                        return new_psym('i2p')
                    if ty.kind == 'int' and v.__class__ in (Ptr, PSym):
                        return self.asint(st, v)
                    return v
                if c[0] > n and c[1].__class__ is L:
                    return self.byte_part(st, c[1], c[0], 0, n, ty)
            for co, (cs, cv) in o.cells.items():
                if co < off.c + n and off.c < co + cs:
                    if co <= off.c and off.c + n <= co + cs and cv.__class__ is L:
                        return self.byte_part(st, cv, cs, off.c - co, n, ty)
                    r = self.seg_read(st, o, off, n, ty)
                    if r is None:
                        r = self.gather(st, o, off.c, n, ty)
                    return r if r is not None else self.unknown(ty, 'part')
        else:
            for co, (cs, cv) in o.cells.items():
                if cs == n and st.facts.ent_eq(off.addc(-co)):
                    return st.res(cv)
        r = self.seg_read(st, o, off, n, ty)
        if r is not None:
            return r
        if o.lazy:
            if off.isc():
                return self.init_val(o, off.c, ty)
            if ty.kind == 'int':
                return ufn(('in', o.id, off, n), 'f', 0, (1 << (8 * n)) - 1)
            return self.unknown(ty, 'lz')
        if inst is not None and o.kind in ('heap', 'alloca') and o.alive == 1:
            self.event(st, 'uninit', inst, o=o, off=off, n=n)
        return self.unknown(ty, 'uninit')

    def init_val(self, o, off, ty):
        if ty.kind == 'int':
            return ufn(('in', o.id, off, ty.size), 'f%d' % off, 0, (1 << min(ty.bits, 8 * ty.size)) - 1)
        if ty.kind == 'ptr':
            k = (o.id, off)
            p = INITPS.get(k)
            if p is None:
                p = INITPS[k] = new_psym((o.id, off))
            return p
        return Opaque(('init', o.id, off))

    def byte_part(self, st, v, vsize, at, n, ty):
        if v.isc():
            return C((v.c % (1 << (8 * vsize))) >> (8 * at) & ((1 << (8 * n)) - 1))
        return ufn(('byte', v, vsize, at, n), 'byte', 0, (1 << (8 * n)) - 1)

    def gather(self, st, o, off, n, ty):
        """reassemble an integer from byte cells"""
        if ty.kind != 'int':
            return None
        k = off
        parts = []
        while k < off + n:
            c = o.cells.get(k)
            if c is None or c[1].__class__ is not L or k + c[0] > off + n:
                return None
            parts.append((k - off, c[0], c[1]))
            k += c[0]
        if all(p[2].isc() for p in parts):
            return C(sum((v.c % (1 << (8 * s))) << (8 * a) for a, s, v in parts))
        src = None
        for a, s, v in parts:
            y = v.single()
            ar = SY.ufargs.get(y) if y is not None else None
            if ar and ar[0] == 'shr' and ar[2] == 8 * n and ar[3] == 8 * a and a + s == n:
                ar = ('byte', ar[1], n, a, s)
            if not ar or ar[0] != 'byte' or ar[3] != a or ar[4] != s or ar[2] != n:
                return None
            if src is None:
                src = ar[1]
            elif src != ar[1]:
                return None
        return src

    def seg_find(self, st, o, off, n):
        """segment that covers [off, off+n): (lo, len, content) or None"""
        f = st.facts
        for sg in o.segs:
            if f.ent_ge(off - sg[0]) and f.ent_ge(sg[0] + sg[1] - off - n):
                return sg
        return None

    def seg_read(self, st, o, off, n, ty):
        if not o.segs:
            return None
        sg = self.seg_find(st, o, off, C(n))
        if sg is None:
            return None
        ct = sg[2]
        if ct[0] == 'val':
            if st.facts.ent_eq(off - sg[0]) and sg[1] == C(n):
                return st.res(ct[1])
            return self.unknown(ty, 'segpart')
        if ct[0] == 'zero':
            return self.zero(ty)
        if ct[0] == 'ent':
            return self.ent_read(st, ct[1], ct[2] + off - sg[0], n, ty)
        return None

    def header(self, st, ent, start, n):
        return None

    def ent_read(self, st, ent, start, n, ty):
        if ty.kind != 'int':
            return self.unknown(ty, 'ent')
        h = self.header(st, ent, start, n)
        if h is not None:
            return h
        if ent[0] == 'G' and start.isc():
            b = self.mod.ginit(ent[1])
            return C(int.from_bytes(b[start.c:start.c + n], 'little'))
        return ufn(('rd', ent, start, n), 'in', 0, (1 << (8 * n)) - 1)

    def store(self, st, p, v, ty, inst):
        """-> True, or False when the path dies.  st is modified."""
        p = self.deref(st, p, inst, 'write')
        if p is None:
            return False
        if p.__class__ is Slot:
            return self.slot_store(st, p, v, ty, inst)
        if p.__class__ is not Ptr:
            return True
        o = st.mem[p.o]
        self.inb(st, o, p.off, C(ty.size), inst, 'write')
        if o.kind == 'global' and not o.lazy:
            self.oblige('rodata', False, inst, 'write to a constant', st)
        for m in self.monitors:
            h = getattr(m, 'on_store', None)
            if h:
                h(self, st, inst, o=o, off=p.off, ty=ty, val=v)
        if ty.kind == 'ptr' and p.off.isc():
            self.ptrcells.add((p.o, p.off.c))
        self.put(st, p.o, p.off, ty.size, v)
        return True

    def put(self, st, oid, off, n, v):
        o = st.w(oid)
        if o.cls is not None and -2 in o.cells:
            o.cells.pop(-2, None)
            o.cells.pop(-3, None)
        if v.__class__ is Agg and off.isc():
            self._put_agg(st, o, off.c, v)
            return
        if off.isc():
            a, b = off.c, off.c + n
            for co, (cs, cv) in list(o.cells.items()):
                if co < b and a < co + cs:
                    del o.cells[co]
                    # keep what is left of a partly overwritten cell
                    if co < a:
                        self._left(st, o, co, cs, cv, 0, a - co)
                    if co + cs > b:
                        self._left(st, o, co, cs, cv, b - co, co + cs - b)
            if o.segs:
                self.seg_cut(st, o, off, C(n))
            o.cells[a] = (n, v)
        else:
            for co, (cs, cv) in list(o.cells.items()):
                if st.facts.ent_eq(off.addc(-co)) and cs == n:
                    o.cells[co] = (n, v)
                    return
            self.seg_put(st, o, off, C(n), ('val', v))

    def _put_agg(self, st, o, base, v):
        # aggregates are stored member by member; members are pointers or 8-byte units here
        off = base
        for x in v.v:
            if x.__class__ is Agg:
                self._put_agg(st, o, off, x)
                off += 8 * len(x.v)
            else:
                o.cells[off] = (8, x)
                off += 8

    def _left(self, st, o, co, cs, cv, at, n):
        if cv.__class__ is L:
            o.cells[co + at] = (n, self.byte_part(st, cv, cs, at, n, None))
        else:
            o.cells[co + at] = (n, Opaque('junk'))

    def seg_cut(self, st, o, lo, n):
        """remove [lo, lo+n) from the segments"""
        f = st.facts
        hi = lo + n
        out = []
        for a, m, c in o.segs:
            b = a + m
            if f.ent_ge(lo - b) or f.ent_ge(a - hi):
                out.append((a, m, c))
                continue
            if f.ent_ge(a - lo) and f.ent_ge(hi - b):
                continue
            if c[0] == 'val':
                continue
            if f.ent_ge(lo - a) and f.ent_ge(b - lo):
                if not f.ent_eq(lo - a):
                    out.append((a, lo - a, c))
            if f.ent_ge(hi - a) and f.ent_ge(b - hi):
                if not f.ent_eq(b - hi):
                    c2 = ('ent', c[1], c[2] + hi - a) if c[0] == 'ent' else c
                    out.append((hi, b - hi, c2))
        o.segs = tuple(out)

    def seg_put(self, st, o, lo, n, content):
        f = st.facts
        if f.ent_eq(n):
            return
        hi = lo + n
        for co, (cs, cv) in list(o.cells.items()):
            if f.ent_ge(lo.addc(-(co + cs))) or f.ent_ge(hi.neg().addc(co)):
                continue
            if f.ent_ge(lo.neg().addc(co)) and f.ent_ge(hi.addc(-(co + cs))):
                del o.cells[co]
            else:
                o.cells[co] = (cs, Opaque('junk'))
        self.seg_cut(st, o, lo, n)
        if content[0] == 'ent':
            segs = list(o.segs)
            ch = True
            while ch:
                ch = False
                for i, (a, m, c) in enumerate(segs):
                    if c[0] != 'ent' or c[1] != content[1]:
                        continue
                    if f.ent_eq(a + m - lo) and f.ent_eq(c[2] + m - content[2]):
                        lo, n, content = a, m + n, c
                        del segs[i]
                        ch = True
                        break
                    if f.ent_eq(lo + n - a) and f.ent_eq(content[2] + n - c[2]):
                        n = n + m
                        del segs[i]
                        ch = True
                        break
            segs.append((lo, n, content))
            o.segs = tuple(segs)
        else:
            o.segs = o.segs + ((lo, n, content),)

    # containers ---------------------------------------------------------------
    def slot_load(self, st, p, ty, inst):
        return self.models['__slot_load'](self, st, p, ty, inst)

    def slot_store(self, st, p, v, ty, inst):
        return self.models['__slot_store'](self, st, p, v, ty, inst)

    # ------------------------------------------------------------------ functions
    def call(self, name, args, st, inst=None):
        """interpret a call of function `name`; -> [(state, value)]"""
        F_ = self.mod.funcs[name]
        self.stats['calls'] += 1
        fr = self.frame
        h = self.contracts.get(F_.short)
        if h is not None:
            r = h(self, fr, st, inst, args)
            if r is not None:
                return r
        r = self.models['__dispatch'](self, fr, st, inst, F_, args)
        if r is not None:
            return r
        if F_.decl:
            return self.unknown_call(st, inst, F_, args)
        d = fr.depth + 1 if fr else 0
        if d > self.maxdepth:
            raise AnalysisError('call depth exceeded at %s' % F_.short)
        rec = 0
        f = fr
        while f is not None:
            if f.fn is F_:
                rec += 1
            f = f.parent
        if rec >= 3:
            return self.unknown_call(st, inst, F_, args, 'recursion')
        return self.run(F_, args, st)

    def unknown_call(self, st, inst, F_, args, why='unmodelled'):
        k = F_.short
        self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
        for a in args:
            a = st.res(a)
            if a.__class__ is Ptr and a.o in st.mem and st.mem[a.o].kind in ('alloca',):
                o = st.w(a.o)
                for co in list(o.cells):
                    o.cells[co] = (o.cells[co][0], Opaque('junk'))
        ty = inst.ty if inst is not None else None
        return [(st, self.unknown(ty, 'ret') if ty is not None and ty.kind != 'void' else None)]

    def run(self, F_, args, st):
        blocks = F_.blocks
        if F_.irreducible:
            raise AnalysisError('irreducible control flow in ' + F_.short)
        self.funcs_seen.add(F_.name)
        fr = Frame()
        fr.fn, fr.args, fr.env = F_, args, {}
        fr.allocas = []
        fr.inst = None
        fr.live_after = frozenset()
        fr.parent = self.frame
        fr.depth = (fr.parent.depth + 1) if fr.parent else 0
        self.frame = fr
        try:
            rets = []
            pend = {0: [({}, st)]}
            self.region(fr, pend, None, rets, set(range(len(blocks))))
        finally:
            self.frame = fr.parent
        # end of scope of the locals
        out = []
        for st, v in rets:
            st = st.copy()
            for oid in [o for o, ob in st.mem.items() if ob.kind == 'alloca' and ob.owner is fr]:
                del st.mem[oid]
            out.append((st, v))
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def region(self, fr, pend, head, rets, body):
        """process the blocks of `body` in reverse post-order; -> edges leaving the body / back to head"""
        F_ = fr.fn
        back, exits = [], []
        order = [b for b in F_.rpo if b in body]
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            if b in F_.loops and b != head:
                lb = F_.loops[b]
                ex = self.loop(fr, b, lb, sts, rets)
                for t, es in ex:
                    if t == head:
                        back.extend(es)
                    elif t in body:
                        pend.setdefault(t, []).extend(es)
                    else:
                        exits.append((t, es))
                continue
            if len(sts) > 1:
                sts = self.merge(fr, b, sts)
            for env, st in sts:
                for t, env2, st2 in self.block(fr, b, env, st, rets):
                    if t == head:
                        if head in F_.flaghead and b != head:
                            # a flag that ends the loop: leave at once
                            outs = self.block(fr, head, dict(env2), st2.copy(), rets)
                            if outs and all(t2 not in body for t2, e, s in outs):
                                for t2, e, s in outs:
                                    exits.append((t2, [(e, s)]))
                                continue
                        back.append((env2, st2))
                    elif t in body:
                        pend.setdefault(t, []).append((env2, st2))
                    else:
                        exits.append((t, [(env2, st2)]))
        if head is None:
            return None
        return back, exits

    def unrolled(self, fr, h, body, head, rets):
        """few rounds: one after the other"""
        n = fr.fn.unroll.get(h)
        if n is None:
            return None
        outs, myrets = [], []
        for k in range(n + 2):
            back, exits = self.region(fr, {h: list(head)}, h, myrets, body)
            outs += exits
            if not back:
                rets.extend(myrets)
                return outs
            head = self.merge(fr, h, back)
        return None

    def give_up(self, fr, h):
        """no summary of this loop was found: nothing can be said about the code that runs it"""
        b = fr.fn.blocks[h]
        line = next((i.line for i in b.insts if i.line), 0)
        f = next((i.file for i in b.insts if i.line), '') or ''
        self.undecided.setdefault((fr.fn.short, 'nothing can be established about this loop'), ('%s:%s' % (f.replace('/repo/', ''), line), ()))
        raise AnalysisError('loop does not stabilise: %s block %d' % (fr.fn.short, h))

    def loop(self, fr, h, body, sts, rets):
        self.stats['loops'] += 1
        head = self.merge(fr, h, sts)
        exits = self.unrolled(fr, h, body, head, rets)
        if exits is not None:
            return exits
        it = 0
        while True:
            it += 1
            if it > 24:
                self.give_up(fr, h)
            myrets = []
            nsp = len(self.spawns)
            self.buf.append([])
            back, exits = self.region(fr, {h: list(head)}, h, myrets, body)
            recs = self.buf.pop()
            new, changed = self.widen(fr, h, head, back, it)
            if not changed:
                break
            del self.spawns[nsp:]
            head = new
        for r in recs:
            if self.buf:
                self.buf[-1].append(r)
            else:
                self._commit(r)
        rets.extend(myrets)
        for m in self.monitors:
            hh = getattr(m, 'on_loop_end', None)
            if hh:
                hh(self, fr, h, head, back)
        if getattr(self, 'factories', None) is not None:
            exits = [(t, [join.settle(e, s) for e, s in es]) for t, es in exits]
        return exits

    def block(self, fr, b, env, st, rets):
        """interpret one block; -> [(succ, env, st)].  env already contains the phis."""
        B = fr.fn.blocks[b]
        states = [(dict(env), st.copy())]
        n = len(B.insts)
        later = self.later(fr.fn, b)
        for i, I in enumerate(B.insts):
            op = I.op
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                break
            if op == 'call' and I.x[0] == 'f' and I.x[1].startswith(('llvm.dbg', 'llvm.lifetime.start')):
                continue
            nxt = []
            for env1, st1 in states:
                self.stats['inst'] += 1
                fr.env = env1
                fr.inst = I
                fr.live_after = later[i]
                res = self.inst(fr, env1, st1, I)
                nxt.extend(res)
            states = nxt
            if not states:
                return []
            if len(states) > 24 and op == 'call':
                states = self.merge_mid(fr, states, later[i])
        I = B.term
        out = []
        for env1, st1 in states:
            fr.env = env1
            fr.inst = I
            fr.live_after = later[n - 1]
            if I.op == 'ret':
                v = self.val(fr, st1, I.ops[0]) if I.ops else None
                rets.append((st1, v))
                continue
            if I.op in ('unreachable', 'resume'):
                continue
            if I.op == 'invoke':
                for env2, st2 in self.inst(fr, env1, st1, I):
                    out.append(self.edge(fr, b, I.succ[0], env2, st2))
                continue
            if I.op == 'br':
                if not I.ops:
                    out.append(self.edge(fr, b, I.succ[0], env1, st1))
                    continue
                c = self.cond(st1, self.val(fr, st1, I.ops[0]))
                if I.succ[0] == I.succ[1]:
                    out.append(self.edge(fr, b, I.succ[0], env1, st1))
                    continue
                if c == T or c == F:
                    out.append(self.edge(fr, b, I.succ[0 if c == T else 1], env1, st1))
                    continue
                for k, cc in ((0, c), (1, cnot(c))):
                    for s in self.assume(st1, cc):
                        s = s.copy()
                        if I.file and not I.file.startswith('/usr'):
                            s.tr(('b', I.fn.short, I.line, k == 0))
                            self.branch(s, I, cc)
                        out.append(self.edge(fr, b, I.succ[k], env1, s))
                continue
            if I.op == 'switch':
                v = self.asint(st1, self.val(fr, st1, I.ops[0]))
                rest = [st1]
                byt = {}
                for cv, t in I.x:
                    byt.setdefault(t, []).append(cv)
                for t, cvs in byt.items():
                    for cv in cvs:
                        nr = []
                        for s in rest:
                            for s2 in self.assume(s, ceq(v.addc(-cv))):
                                s2 = s2.copy()
                                if I.file and not I.file.startswith('/usr'):
                                    s2.tr(('s', I.fn.short, I.line, cv))
                                out.append(self.edge(fr, b, t, env1, s2))
                            nr.extend(self.assume(s, cne(v.addc(-cv))))
                        rest = nr
                for s in rest:
                    s = s.copy()
                    if I.file and not I.file.startswith('/usr'):
                        s.tr(('s', I.fn.short, I.line, 'default'))
                    out.append(self.edge(fr, b, I.succ[0], env1, s))
                continue
            raise AnalysisError('terminator ' + I.op)
        return out

    def later(self, F_, b):
        """per instruction of the block: ids of values used after it"""
        k = (F_.name, b)
        r = self.later_cache.get(k)
        if r is None:
            B = F_.blocks[b]
            live = set()
            for s in B.succ:
                S_ = F_.blocks[s]
                live |= F_.live[s] - {p.id for p in S_.phis}
                for p in S_.phis:
                    o = p.x.get(b)
                    if o and o[0] == 'v':
                        live.add(o[1])
            r = [None] * len(B.insts)
            for i in range(len(B.insts) - 1, -1, -1):
                r[i] = frozenset(live)
                I = B.insts[i]
                live = set(live)
                live.discard(I.id)
                ops = I.ops + ((I.x,) if I.op in ('call', 'invoke') else ())
                for o in ops:
                    if o[0] == 'v':
                        live.add(o[1])
            self.later_cache[k] = r
        return r

    def edge(self, fr, b, t, env, st):
        TB = fr.fn.blocks[t]
        live = fr.fn.live[t]
        e2 = {i: env[i] for i in live if i in env}
        if TB.phis:
            fr.env = env
            new = {}
            for p in TB.phis:
                o = p.x.get(b)
                new[p.id] = self.val(fr, st, o) if o is not None else Opaque('phi')
            e2.update(new)
        for a in fr.fn.slotdead[t]:
            p = env.get(a)
            if p.__class__ is Ptr and p.o in st.mem and st.mem[p.o].cells:
                st.w(p.o).cells = {}
        return (t, e2, st)

    # ------------------------------------------------------------------ instructions
    def inst(self, fr, env, st, I):
        op = I.op
        ev = getattr(self, 'i_' + op, None)
        if ev is None:
            if I.ty.kind != 'void':
                env[I.id] = self.unknown(I.ty, op)
            return [(env, st)]
        return ev(fr, env, st, I)

    def i_alloca(self, fr, env, st, I):
        n = self.val(fr, st, I.ops[0])
        sz = C(I.x.size)
        if not (n.__class__ is L and n == ONE):
            sz = n.scale(I.x.size) if n.__class__ is L else None
        p = self.alloc(st, 'alloca', sz, site='local of ' + fr.fn.short)
        st.mem[p.o].owner = fr
        env[I.id] = p
        return [(env, st)]

    def i_load(self, fr, env, st, I):
        p = self.val(fr, st, I.ops[0])
        sts = self.models['__split_over'](self, st, p) if p.__class__ is Slot else [st]
        out = []
        for k, s in enumerate(sts):
            v = self.load(s, p, I.ty, I)
            if v is None:
                continue
            e = env if k == len(sts) - 1 else dict(env)
            e[I.id] = v
            out.append((e, s))
        return out

    def i_store(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        if not self.store(st, self.val(fr, st, I.ops[1]), v, I.x, I):
            return []
        return [(env, st)]

    def i_gep(self, fr, env, st, I):
        p = self.val(fr, st, I.ops[0])
        off = ZERO
        cur = I.x
        for k, o in enumerate(I.ops[1:]):
            if k > 0 and cur.kind == 'struct':
                iv = o[1]
                off = off.addc(cur.offs[iv])
                cur = cur.elems[iv]
                continue
            if k > 0:
                cur = cur.elem
            if o[0] == 'c':
                iv = o[1] - (1 << o[2]) if o[1] >> (o[2] - 1) else o[1]
                off = off.addc(iv * cur.size)
            else:
                v = self.asint(st, self.val(fr, st, o))
                v = self.view_s(st, v, 64)
                off = off + v.scale(cur.size)
        env[I.id] = self.padd(st, p, off)
        return [(env, st)]

    def padd(self, st, p, off):
        p = st.res(p)
        if off == ZERO:
            return p
        if p.__class__ is PSym:
            p = self.materialise(st, p)
        if p.__class__ is Ptr:
            return Ptr(p.o, p.off + off)
        if p.__class__ is Slot:
            if off.isc():
                return Slot(p.o, p.off, p.idx, p.sub + off.c, p.seq)
            return Opaque('slot+')
        if p.__class__ is Opaque and p.tag.__class__ is tuple and p.tag[0] == 'vt' and off.isc():
            return Opaque(('vt', p.tag[1], p.tag[2] + off.c))
        if p.__class__ is L and p == NULL and off.isc():
            return off
        return Opaque('gep')

    def i_icmp(self, fr, env, st, I):
        a, b = self.val(fr, st, I.ops[0]), self.val(fr, st, I.ops[1])
        env[I.id] = Bool(self.cmp(st, I.x, a, b, I))
        return [(env, st)]

    def cmp(self, st, pred, a, b, I=None):
        ca, cb = a.__class__, b.__class__
        if pred in ('eq', 'ne'):
            r = None
            if ca in (Ptr, PSym, Slot, Iter, Fn, Opaque) or cb in (Ptr, PSym, Slot, Iter, Fn, Opaque):
                if cb in (Ptr, PSym, Slot, Fn) and ca is L:
                    a, b, ca, cb = b, a, cb, ca
                if cb is L and b == NULL:
                    if ca is PSym:
                        r = ('null', a.id)
                    elif ca in (Ptr, Slot, Fn, Iter):
                        r = F
                elif ca is Ptr and cb is Ptr:
                    if a.o == b.o:
                        r = ceq(a.off - b.off)
                    else:
                        r = self.alias(st, a, b)
                elif ca is PSym and cb is PSym and a == b:
                    r = T
                elif ca is PSym and cb is Ptr or cb is PSym and ca is Ptr or ca is PSym and cb is PSym:
                    r = self.alias(st, a, b)
                elif ca is Fn and cb is Fn:
                    r = T if a == b else F
                elif ca is Iter and cb is Iter:
                    r = ceq(a.idx - b.idx)
                elif ca is Slot and cb is Slot and (a.o, a.off, a.sub) == (b.o, b.off, b.sub):
                    r = ceq(a.idx - b.idx)
                if r is None:
                    r = ceq(fresh('cmp', 0, 1).addc(-1))
            elif ca is Bool or cb is Bool:
                if ca is Bool and cb is L and b.isc():
                    r = a.c if b.c & 1 else cnot(a.c)
                elif cb is Bool and ca is L and a.isc():
                    r = b.c if a.c & 1 else cnot(b.c)
                else:
                    r = ceq(self.asint(st, a) - self.asint(st, b))
            else:
                bits = self.opbits(I)
                x, y = self.asint(st, a), self.asint(st, b)
                x, y = self.same_view(st, x, y, bits)
                d = x - y
                r = self._bsym(d)
                if r is None:
                    r = ceq(d)
            return r if pred == 'eq' else cnot(r)
        if ca is Ptr and cb is Ptr and a.o == b.o:
            x, y = a.off, b.off
        else:
            bits = self.opbits(I)
            x, y = self.asint(st, a), self.asint(st, b)
            if pred[0] == 's':
                x, y = self.view_s(st, x, bits), self.view_s(st, y, bits)
            else:
                x, y = self.view_u(st, x, bits), self.view_u(st, y, bits)
        p = pred[1:]
        if p == 'lt':
            c = cge(y - x - ONE)
        elif p == 'le':
            c = cge(y - x)
        elif p == 'gt':
            c = cge(x - y - ONE)
        else:
            c = cge(x - y)
        if c[0] == 'ge':
            r = self._bsym_ge(st, c[1])
            if r is not None:
                c = r
        return c

    def alias(self, st, a, b):
        """may two pointers to differently named objects be equal?"""
        for p, q in ((a, b), (b, a)):
            if p.__class__ is Ptr:
                o = st.mem.get(p.o)
                if o is not None and o.kind in ('heap', 'alloca', 'global', 'strbuf'):
                    return F
        if a.__class__ is Ptr and b.__class__ is Ptr:
            oa, ob = st.mem.get(a.o), st.mem.get(b.o)
            if oa is not None and ob is not None and ('param' in (oa.kind, ob.kind) or
                                                      getattr(self, 'factories', None) is not None and oa.kind == ob.kind == 'root'):
                return F
        ka = a.o if a.__class__ is Ptr else ('p', a.id)
        kb = b.o if b.__class__ is Ptr else ('p', b.id)
        return ceq(ufn(('al', frozenset((ka, kb))), 'same', 0, 1) - ONE)

    def opbits(self, I):
        if I is None:
            return 64
        for o in I.ops:
            if o[0] == 'c':
                return o[2]
            if o[0] == 'a':
                t = I.fn.argty[o[1]]
                return t.bits or 64
            if o[0] == 'v':
                t = self.valty(I.fn, o[1])
                if t is not None:
                    return t.bits or 64
        return 64

    def valty(self, F_, vid):
        m = self.__dict__.setdefault('_vt', {})
        d = m.get(F_.name)
        if d is None:
            d = m[F_.name] = {}
            for B in F_.blocks:
                for i in B.phis + B.insts:
                    d[i.id] = i.ty
        return d.get(vid)

    def same_view(self, st, x, y, bits):
        M = 1 << bits
        rx, ry = st.facts._range0(x), st.facts._range0(y)

        def u(r):
            return r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] < M

        def s(r):
            return r[0] is not None and r[0] >= -M // 2 and r[1] is not None and r[1] < M // 2
        if u(rx) and u(ry) or s(rx) and s(ry):
            return x, y
        if x.isc() and s(ry):
            return self.view_s(st, x, bits), y
        if y.isc() and s(rx):
            return x, self.view_s(st, y, bits)
        return self.view_u(st, x, bits), self.view_u(st, y, bits)

    def _arith(self, fr, env, st, I, f):
        a, b = self.val(fr, st, I.ops[0]), self.val(fr, st, I.ops[1])
        if (a.__class__ not in (L, Bool) or b.__class__ not in (L, Bool)):
            env[I.id] = self.ptr_arith(st, I, a, b)
            return [(env, st)]
        x, y = self.asint(st, a), self.asint(st, b)
        env[I.id] = f(st, x, y, I.ty.bits)
        return [(env, st)]

    def ptr_arith(self, st, I, a, b):
        if I.op == 'sub' and a.__class__ is Opaque and b.__class__ is Opaque and a.tag.__class__ is tuple and \
                b.tag.__class__ is tuple and a.tag[0] == 'p2i' and b.tag[0] == 'p2i':
            p, q = st.res(a.tag[1]), st.res(b.tag[1])
            if p.__class__ is Ptr and q.__class__ is Ptr and p.o == q.o:
                return p.off - q.off
            if p.__class__ is Slot and q.__class__ is Slot and (p.o, p.off) == (q.o, q.off):
                return (p.idx - q.idx).scale(8)
        return self.unknown(I.ty, 'pa')

    def i_add(self, fr, env, st, I):
        return self._arith(fr, env, st, I, lambda st, x, y, n: self.addsub(st, x, y, n, 1))

    def i_sub(self, fr, env, st, I):
        return self._arith(fr, env, st, I, lambda st, x, y, n: self.addsub(st, x, y, n, -1))

    def addsub(self, st, x, y, n, sg):
        M = 1 << n
        # a large constant is a negative one
        if y.isc() and y.c >= M // 2:
            y = C(y.c - M)
        r = x + y if sg > 0 else x - y
        a, b = st.facts._range0(r)
        if r.isc():
            return C(r.c % M)
        # signed results keep their sign
        if a is not None and a >= -(M // 2) and b is not None and b < M // 2:
            return r
        return self.view_u(st, r, n)

    def i_mul(self, fr, env, st, I):
        def f(st, x, y, n):
            if y.isc() and y.c >= 1 << (n - 1):
                y = C(y.c - (1 << n))
            if x.isc() and x.c >= 1 << (n - 1):
                x = C(x.c - (1 << n))
            if y.isc():
                r = x.scale(y.c)
            elif x.isc():
                r = y.scale(x.c)
            else:
                return ufn(('mul', frozenset((x, y)), n), 'mul', 0, (1 << n) - 1)
            if r.isc():
                return C(r.c % (1 << n))
            a, b = st.facts._range0(r)
            if a is not None and a >= -(1 << n) // 2 and b is not None and b < (1 << n) // 2:
                return r
            return self.view_u(st, r, n)
        return self._arith(fr, env, st, I, f)

    def divmod_(self, st, x, y, n):
        x, y = self.view_u(st, x, n), self.view_u(st, y, n)
        if y.isc() and y.c > 0:
            if x.isc():
                return C(x.c // y.c), C(x.c % y.c)
            q = ufn(('div', x, y.c), 'q', 0, ((1 << n) - 1) // y.c)
            r = x - q.scale(y.c)
            for l in (r, r.neg().addc(y.c - 1)):
                f = st.facts.add_ge(l)
                if f is not None:
                    st.facts = f
            return q, r
        return ufn(('divs', x, y), 'q', 0, (1 << n) - 1), ufn(('rems', x, y), 'r', 0, (1 << n) - 1)

    def i_udiv(self, fr, env, st, I):
        return self._arith(fr, env, st, I, lambda st, x, y, n: self.divmod_(st, x, y, n)[0])

    def i_urem(self, fr, env, st, I):
        return self._arith(fr, env, st, I, lambda st, x, y, n: self.divmod_(st, x, y, n)[1])

    def i_sdiv(self, fr, env, st, I):
        def f(st, x, y, n):
            x = self.view_s(st, x, n)
            if st.facts.ent_ge(x) and y.isc():
                return self.divmod_(st, x, y, n)[0]
            return ufn(('sdiv', x, y), 'q', -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return self._arith(fr, env, st, I, f)

    def i_srem(self, fr, env, st, I):
        def f(st, x, y, n):
            x = self.view_s(st, x, n)
            if st.facts.ent_ge(x) and y.isc():
                return self.divmod_(st, x, y, n)[1]
            return ufn(('srem', x, y), 'r', -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return self._arith(fr, env, st, I, f)

    def i_shl(self, fr, env, st, I):
        def f(st, x, y, n):
            if y.isc():
                r = self.view_u(st, x, n).scale(1 << y.c)
                return C(r.c % (1 << n)) if r.isc() else self.view_u(st, r, n)
            return ufn(('shl', x, y), 'shl', 0, (1 << n) - 1)
        return self._arith(fr, env, st, I, f)

    def i_lshr(self, fr, env, st, I):
        def f(st, x, y, n):
            if y.isc():
                if y.c % 8 == 0 and not x.isc():
                    return ufn(('shr', x, n, y.c), 'shr', 0, ((1 << n) - 1) >> y.c)
                return self.divmod_(st, x, C(1 << y.c), n)[0]
            return ufn(('lshr', x, y), 'shr', 0, (1 << n) - 1)
        return self._arith(fr, env, st, I, f)

    i_ashr = i_lshr

    def i_and(self, fr, env, st, I):
        a, b = self.val(fr, st, I.ops[0]), self.val(fr, st, I.ops[1])
        if I.ty.bits == 1:
            env[I.id] = Bool(cand(self.cond(st, a), self.cond(st, b)))
            return [(env, st)]

        def f(st, x, y, n):
            if x.isc() and not y.isc():
                x, y = y, x
            if y.isc():
                if x.isc():
                    return C((x.c & y.c) % (1 << n))
                m = y.c % (1 << n)
                if m == 0:
                    return ZERO
                s = x.single()
                if s is not None and s in BSYM:
                    return x if m & 1 else ZERO
                if m & (m + 1) == 0:
                    if m == 255 and not st.facts.ent_ge(x.neg().addc(255)):
                        return self.lowbyte(st, x, n)
                    return self.divmod_(st, x, C(m + 1), n)[1]
                if m & (m - 1) == 0:
                    b = ufn(('bit', x, m), 'bit', 0, 1)
                    return b.scale(m)
            return ufn(('and', frozenset((x, y))), 'and', 0, (1 << n) - 1)
        return self._arith(fr, env, st, I, f)

    def lowbyte(self, st, x, n):
        s = x.single()
        a = SY.ufargs.get(s) if s is not None else None
        if a and a[0] == 'shr':
            return ufn(('byte', a[1], a[2] // 8, a[3] // 8, 1), 'byte', 0, 255)
        return ufn(('byte', x, n // 8, 0, 1), 'byte', 0, 255)

    def i_or(self, fr, env, st, I):
        a, b = self.val(fr, st, I.ops[0]), self.val(fr, st, I.ops[1])
        if I.ty.bits == 1:
            env[I.id] = Bool(cor(self.cond(st, a), self.cond(st, b)))
            return [(env, st)]

        def f(st, x, y, n):
            if x.isc() and y.isc():
                return C(x.c | y.c)
            if x == ZERO:
                return y
            if y == ZERO or x == y:
                return x
            # sums of disjoint powers of two
            def mask(v):
                m = 0
                for s, k in v.t:
                    if k <= 0 or SY.lo[s] != 0 or SY.hi[s] is None:
                        return None
                    mm = 0
                    h = SY.hi[s]
                    w = (1 << h.bit_length()) - 1
                    if k & (k - 1):
                        return None
                    mm = w * k
                    if m & mm:
                        return None
                    m |= mm
                if v.c < 0 or m & v.c:
                    return None
                return m | v.c
            mx, my = mask(x), mask(y)
            if mx is not None and my is not None and not mx & my:
                r = x + y
                return self.bytes_join(r) or r
            return ufn(('or', frozenset((x, y))), 'or', 0, (1 << n) - 1)
        return self._arith(fr, env, st, I, f)

    def bytes_join(self, r):
        """b0 + 256*b1 + ... of all bytes of one value is that value"""
        if r.c:
            return None
        src = None
        got = {}
        for s, k in r.t:
            a = SY.ufargs.get(s)
            if not a or a[0] not in ('byte', 'rd'):
                return None
            if a[0] == 'rd':
                return self.rd_join(r)
            if k != 256 ** a[3] or a[4] != 1:
                return None
            if src is None:
                src = (a[1], a[2])
            elif src != (a[1], a[2]):
                return None
            got[a[3]] = 1
        if src and len(got) == src[1]:
            return src[0]
        return None

    def rd_join(self, r):
        ent = None
        parts = []
        for s, k in r.t:
            a = SY.ufargs.get(s)
            if not a or a[0] != 'rd' or (ent is not None and a[1] != ent):
                return None
            ent = a[1]
            parts.append((k, a[2], a[3]))
        parts.sort(key=lambda p: p[0])
        base = parts[0][1]
        if parts[0][0] != 1:
            return None
        at = 0
        for k, start, n in parts:
            if k != 256 ** at or start - base != C(at):
                return None
            at += n
        if at in (1, 2, 4, 8):
            return ufn(('rd', ent, base, at), 'in', 0, (1 << (8 * at)) - 1)
        return None

    def i_xor(self, fr, env, st, I):
        a, b = self.val(fr, st, I.ops[0]), self.val(fr, st, I.ops[1])
        if I.ty.bits == 1:
            x, y = self.cond(st, a), self.cond(st, b)
            if y == T:
                env[I.id] = Bool(cnot(x))
            elif y == F:
                env[I.id] = Bool(x)
            elif x == T:
                env[I.id] = Bool(cnot(y))
            else:
                env[I.id] = Bool(cor(cand(x, cnot(y)), cand(cnot(x), y)))
            return [(env, st)]

        def f(st, x, y, n):
            if x.isc() and y.isc():
                return C((x.c ^ y.c) % (1 << n))
            if y.isc() and y.c == (1 << n) - 1:
                return x.neg().addc(-1)
            if y == ONE:
                s = x.single()
                if s in BSYM:
                    return bool_int(cnot(BSYM[s]))
            return ufn(('xor', frozenset((x, y))), 'xor', 0, (1 << n) - 1)
        return self._arith(fr, env, st, I, f)

    def i_zext(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        if v.__class__ is Bool:
            env[I.id] = v if I.ty.bits == 8 else bool_int(v.c)
        else:
            env[I.id] = self.view_u(st, self.asint(st, v), I.x.bits)
        return [(env, st)]

    def i_sext(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        if v.__class__ is Bool:
            env[I.id] = bool_int(v.c).neg()
        else:
            env[I.id] = self.view_s(st, self.asint(st, v), I.x.bits)
        return [(env, st)]

    def i_trunc(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        if I.ty.bits == 1:
            env[I.id] = Bool(self.cond(st, v) if v.__class__ is Bool else self.bit0(st, self.asint(st, v)))
            return [(env, st)]
        if v.__class__ is Bool:
            env[I.id] = v
            return [(env, st)]
        x = self.asint(st, v)
        n = I.ty.bits
        if x.isc():
            env[I.id] = C(x.c % (1 << n))
            return [(env, st)]
        a, b = st.facts._range0(x)
        if a is not None and a >= -(1 << (n - 1)) and b is not None and b < (1 << n):
            env[I.id] = x
        elif n == 8 and I.x.bits > 8 and not (st.facts.ent_ge(x) and st.facts.ent_ge(x.neg().addc(255))):
            env[I.id] = self.lowbyte(st, x, I.x.bits)
        else:
            env[I.id] = self.view_u(st, x, n)
        return [(env, st)]

    def bit0(self, st, x):
        if x.isc():
            return T if x.c & 1 else F
        s = x.single()
        if s in BSYM:
            return BSYM[s]
        a, b = st.facts._range0(x)
        if a is not None and a >= 0 and b is not None and b <= 1:
            return cne(x)
        # a stored bool: 0 or 1
        return cne(x)

    def i_ptrtoint(self, fr, env, st, I):
        p = self.val(fr, st, I.ops[0])
        if p.__class__ in (Ptr, Slot):
            env[I.id] = Opaque(('p2i', p))
        elif p.__class__ is L:
            env[I.id] = p
        else:
            env[I.id] = self.asint(st, p)
        return [(env, st)]

    def i_inttoptr(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        if v.__class__ is Opaque and v.tag.__class__ is tuple and v.tag[0] == 'p2i':
            env[I.id] = v.tag[1]
        elif v.__class__ is L and v == ZERO:
            env[I.id] = NULL
        else:
            env[I.id] = new_psym('i2p')
        return [(env, st)]

    def i_bitcast(self, fr, env, st, I):
        env[I.id] = self.val(fr, st, I.ops[0])
        return [(env, st)]

    i_freeze = i_bitcast

    def i_select(self, fr, env, st, I):
        c = self.cond(st, self.val(fr, st, I.ops[0]))
        if c == T or c == F:
            env[I.id] = self.val(fr, st, I.ops[1 if c == T else 2])
            return [(env, st)]
        a, b = self.val(fr, st, I.ops[1]), self.val(fr, st, I.ops[2])
        if I.ty.kind == 'int' and I.ty.bits == 1:
            env[I.id] = Bool(cor(cand(c, self.cond(st, a)), cand(cnot(c), self.cond(st, b))))
            return [(env, st)]
        out = []
        for cc, o in ((c, 1), (cnot(c), 2)):
            for s in self.assume(st, cc):
                e = dict(env)
                s = s.copy()
                fr.env = e
                e[I.id] = self.val(fr, s, I.ops[o])
                out.append((e, s))
        return out

    def i_extractvalue(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        for k in I.x:
            if v.__class__ is Agg:
                v = v.v[k]
            else:
                v = self.unknown(I.ty, 'ev')
                break
        env[I.id] = v
        return [(env, st)]

    def i_insertvalue(self, fr, env, st, I):
        v = self.val(fr, st, I.ops[0])
        x = self.val(fr, st, I.ops[1])

        def ins(v, path, ty):
            if not path:
                return x
            if v.__class__ is not Agg:
                n = len(ty.elems) if ty.kind == 'struct' else ty.n
                v = Agg([Opaque('u')] * n)
            l = list(v.v)
            sub = ty.elems[path[0]] if ty.kind == 'struct' else ty.elem
            l[path[0]] = ins(l[path[0]], path[1:], sub)
            return Agg(l)
        env[I.id] = ins(v, I.x, I.ty)
        return [(env, st)]

    def i_atomicrmw(self, fr, env, st, I):
        p = self.val(fr, st, I.ops[0])
        x = self.val(fr, st, I.ops[1])
        old = self.load(st, p, I.ty, I)
        if old is None:
            return []
        if I.x == 'add':
            nv = self.addsub(st, self.asint(st, old), self.asint(st, x), I.ty.bits, 1)
        elif I.x == 'sub':
            nv = self.addsub(st, self.asint(st, old), self.asint(st, x), I.ty.bits, -1)
        elif I.x == 'xchg':
            nv = x
        else:
            nv = self.unknown(I.ty, 'rmw')
        self.store(st, p, nv, I.ty, I)
        env[I.id] = old
        return [(env, st)]

    def i_cmpxchg(self, fr, env, st, I):
        p = self.val(fr, st, I.ops[0])
        exp, new = self.val(fr, st, I.ops[1]), self.val(fr, st, I.ops[2])
        ety = I.ty.elems[0]
        old = self.load(st, p, ety, I)
        if old is None:
            return []
        c = self.cmp(st, 'eq', old, exp, I)
        out = []
        for cc, ok in ((c, True), (cnot(c), False)):
            for s in self.assume(st, cc):
                s = s.copy()
                e = dict(env)
                if ok:
                    self.store(s, p, new, ety, I)
                e[I.id] = Agg([old, Bool(T if ok else F)])
                out.append((e, s))
        return out

    def i_call(self, fr, env, st, I):
        args = [self.val(fr, st, o) for o in I.ops]
        callee = I.x
        if callee[0] == 'f':
            name = callee[1]
        else:
            fv = self.val(fr, st, callee)
            if fv.__class__ is Fn:
                name = fv.name
            else:
                res = self.models['__indirect'](self, fr, st, I, fv, args)
                return self._ret(fr, env, I, res)
        if self.trace_calls and I.file and not I.file.startswith('/usr'):
            n = self.mod.funcs[name].short
            if n.startswith('DowowNetwork'):
                st.tr(('c', I.fn.short, I.line, n.replace('DowowNetwork::', '')))
        res = self.call(name, args, st, I)
        return self._ret(fr, env, I, res)

    i_invoke = i_call

    def _ret(self, fr, env, I, res):
        self.frame = fr
        out = []
        for k, (s, v) in enumerate(res):
            e = env if k == len(res) - 1 else dict(env)
            if I.ty.kind != 'void':
                e[I.id] = v if v is not None else self.unknown(I.ty, 'void')
            out.append((e, s))
        return out

    # ------------------------------------------------------------------ joins
    def merge(self, fr, b, sts):
        from .join import merge
        return merge(self, fr, fr.fn.live[b], sts)

    def retids(self, fn):
        """the values of a function that it returns"""
        r = self.ret_cache.get(fn.name)
        if r is None:
            by = {i.id: i for b in fn.blocks for i in list(b.phis) + b.insts}
            r = set()
            todo = [o[1] for b in fn.blocks for i in b.insts if i.op == 'ret' for o in i.ops if o[0] == 'v']
            while todo:
                k = todo.pop()
                if k in r:
                    continue
                r.add(k)
                i = by.get(k)
                if i is None:
                    continue
                ops = i.x.values() if i.op == 'phi' else i.ops if i.op == 'select' else ()
                todo += [o[1] for o in ops if o and o[0] == 'v']
            self.ret_cache[fn.name] = r
        return r

    def merge_mid(self, fr, states, live):
        from .join import merge
        keep = []
        return merge(self, fr, set(live) | {fr.inst.id}, states)

    def merge_rets(self, rets):
        from .join import merge
        sts = [({'ret': v} if v is not None else {}, s) for s, v in rets]
        self.incl_first = True
        try:
            m = merge(self, self.frame, None, sts)
        finally:
            self.incl_first = False
        return [(s, e.get('ret')) for e, s in m]

    def widen(self, fr, h, head, back, it):
        from .join import widen
        return widen(self, fr, fr.fn.live[h], head, back, it)


def ps(seq, idx):
    """prefix sum of the encoded sizes of the first idx elements"""
    if idx == ZERO:
        return ZERO
    return ufn(('PS', seq, idx), 'sum', 0, STRMAX)
