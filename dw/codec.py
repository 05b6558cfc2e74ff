"""Analysis of the encoded classes: values, datums, requests.

For every class the set of states its objects can be in is the least fixpoint over its
constructors and public methods; every method is then analysed from every such state,
with arbitrary arguments (including arguments that are, or are part of, the object)."""
import time
from . import join, models
from .engine import *
from .engine import NS, absint_ptrs
from .join import traverse, prune

SKIP_NULL = ('CopyFrom', 'Push', 'operator=', 'Set@ValueStr', 'Deserialize@Request', 'DeserializeInternal')


class Case:
    """one analysed activation"""
    __slots__ = ('root', 'cls', 'meth', 'F', 'case', 'st', 'this', 'args', 'out', 'inp', 'inlen', 'other', 'ex')


class Codec:
    def __init__(self, mod):
        self.mod = mod
        self.ex = Engine(mod)
        self.ex.probe_layouts()
        self.ex.find_factories()
        self.inv = {}
        self.roots = []
        self.after = []          # callbacks (codec, case) after each activation
        self.classes = sorted(self.ex.vclasses) + ['Datum', 'Request']
        self.cases = 0
        self.rootnames = []
        self.thisid = {}
        self.seconds = 0.0

    # ------------------------------------------------------------------ states of a class
    def settle(self, states, this):
        """reduce exit states to what the object keeps"""
        ex = self.ex
        out = []
        fr = None
        for st in states:
            env = {'ret': Ptr(this)}
            st = st.copy()
            st.gh = {}
            st.trace = None
            for oid in [o for o, ob in st.mem.items() if ob.kind in ('param', 'input', 'root') and o != this]:
                del st.mem[oid]
            sh = traverse(ex, fr, env, st, False)
            for oid in sh.order:
                o = st.mem[oid]
                if o.kind == 'lazy' and o.cls in OWNED and o.form is not None:
                    # handed over by the caller
                    o = st.w(oid)
                    o.kind, o.meta, o.owner = 'heap', (), None
            self.whole(st, this)
            sh = traverse(ex, fr, env, st, False)
            out.append(prune(ex, fr, env, st, sh))
        return out

    def whole(self, st, this):
        """blocks of the object whose bytes are all written have one unknown content"""
        from .models import covered
        for off, (sz, v) in sorted(st.mem[this].cells.items()):
            v = st.res(v)
            if v.__class__ is Ptr and v.off == ZERO and v.o in st.mem:
                o = st.mem[v.o]
                if o.kind == 'heap' and o.cls is None and o.size is not None and not o.size.isc() and covered(st, o, ZERO, o.size):
                    o = st.w(v.o)
                    o.cells = {}
                    o.segs = ((ZERO, o.size, ('ent', ('?', ('held', this, off)), ZERO)),)

    def fixpoint(self, cls):
        ex = self.ex
        this = self.thisid[cls] = newid()
        leaks, ex.leaks = ex.leaks, False
        ex.buf.append([])
        try:
            items = []
            for F_ in self.ctors(cls):
                for c in self.cases_of(F_, cls, None, 'ctor'):
                    ex.root = c.root
                    items += self.settle([s for s, v in self.invoke(c)], c.this)
            inv = []
            it = 0
            inv, ch = join.widen(ex, None, {'ret'}, inv, items, 1)
            inv = self.fold(inv)
            while True:
                it += 1
                self.inv[cls] = inv
                items = []
                for F_ in self.methods(cls):
                    if F_.short.split('::')[-1].startswith('~'):
                        continue
                    for c in self.cases_of(F_, cls, inv, 'plain'):
                        ex.root = c.root
                        items += self.settle([s for s, v in self.invoke(c)], c.this)
                inv, ch = join.widen(ex, None, {'ret'}, inv, items, it)
                if not ch:
                    break
                if it > 12:
                    raise AnalysisError('no finite description of the states of ' + cls)
            self.inv[cls] = inv
        finally:
            ex.leaks = leaks
            ex.buf.pop()

    def fold(self, inv):
        return inv

    def ctors(self, cls):
        return sorted((f for f in self.ex.ctors(cls) if 'C2E' in f.name), key=lambda f: f.name)

    def methods(self, cls):
        out = {}
        over = set()
        for n in ([cls] if cls in ('Datum', 'Request') else [cls, 'Value']):
            for F_ in self.mod.funcs.values():
                if F_.decl or 'lambda' in F_.dem or self.mod.access.get(F_.name, 'public' if 'operator=' in F_.short else '') != 'public':
                    continue
                s = F_.short
                k = models.method_split(s)
                if k is None or s[:k] != NS + n:
                    continue
                meth = s[k + 2:]
                if meth == n or meth == '~' + n and (n != cls or 'D0E' in F_.name or 'D1E' in F_.name):
                    continue
                if n == 'Value' and cls != 'Value' and (meth.startswith('~') or (meth in over)):
                    continue
                out[F_.name] = F_
                over.add(meth)
        return [out[k] for k in sorted(out)]

    # ------------------------------------------------------------------ copies of objects
    def clone(self, st, inv):
        """a second object in one of the states of `inv` is added to st; -> id"""
        env, src = inv
        ex = self.ex
        this = env['ret'].o
        omap, smap, qmap = {}, {}, {}

        def sym(s):
            r = smap.get(s)
            if r is None:
                a = SY.ufargs.get(s)
                if a and a[0] == 'PS':
                    r = ps(seq(a[1]), lin_(a[2]))
                elif a and not (a[0] == 'in' and False):
                    r = fresh(SY.name[s], SY.lo[s], SY.hi[s])
                else:
                    r = fresh(SY.name[s], SY.lo[s], SY.hi[s])
                smap[s] = r
            return r

        def lin_(l):
            out = C(l.c)
            for s, k in l.t:
                out = out + sym(s).scale(k)
            return out

        def seq(q):
            r = qmap.get(q)
            if r is None:
                r = qmap[q] = ('cl', newid())
            return r

        def val(v):
            v = src.res(v)
            k = v.__class__
            if k is L:
                return lin_(v)
            if k is Ptr:
                return Ptr(obj(v.o), lin_(v.off))
            if k is PSym:
                return new_psym('clone')
            if k is Bool:
                return fresh('b', 0, 1)
            if k is Str:
                return Str(v.sid if v.lit is not None else seq(('s', v.sid)), lin_(v.n), v.lit)
            if k is Cont:
                return v.rep(seq=seq(v.seq), n=lin_(v.n), h=lin_(v.h), fp=lin_(v.fp), holes=tuple(lin_(x) for x in v.holes),
                             over=tuple((lin_(i), val(x)) for i, x in v.over))
            return v

        def obj(oid):
            r = omap.get(oid)
            if r is not None:
                return r
            o = src.mem[oid]
            if o.kind == 'global':
                omap[oid] = oid
                if oid not in st.mem:
                    st.mem[oid] = o
                return oid
            r = omap[oid] = newid()
            n = o.copy()
            n.id = r
            n.size = lin_(o.size) if o.size is not None else None
            n.owner = None
            if o.owner.__class__ is tuple and o.owner[0] == 'cont':
                n.owner = ('cont', seq(o.owner[1]), lin_(o.owner[2]))
                ELEM[(n.owner[1], n.owner[2])] = r
                ex.elemidx.setdefault(n.owner[1], {})[(n.owner[1], n.owner[2])] = r
            st.mem[r] = n
            n.cells = {k: (sz, val(v)) for k, (sz, v) in o.cells.items()}
            n.segs = tuple((lin_(a), lin_(m), ('ent', ('?', newid()), ZERO) if c[0] == 'ent' else
                            ('val', val(c[1])) if c[0] == 'val' else c) for a, m, c in o.segs)
            for off in n.cells:
                if (oid, off) in ex.ptrcells:
                    ex.ptrcells.add((r, off))
            return r
        me = obj(this)
        f = st.facts
        for grp, add in ((src.facts.ge, 'add_ge'), (src.facts.eq, 'add_eq'), (src.facts.ne, 'add_ne')):
            for l in grp:
                g = getattr(f, add)(lin_(l))
                if g is not None:
                    f = g
        st.facts = f
        return me

    # ------------------------------------------------------------------ activations
    def cases_of(self, F_, cls, inv, mode):
        """mode: ctor | plain | full"""
        ex = self.ex
        bases = []
        if inv is None:
            st = State()
            o = Obj(self.thisid[cls], 'root', None, site='this', cls=None)
            o.alive = 1
            st.mem[o.id] = o
            bases.append((st, o.id))
        else:
            for env, s in inv:
                s = s.copy()
                self.limits(s)
                bases.append((s, env['ret'].o))
        params = split_params(F_.dem)
        tys = F_.argty_()
        sret = F_.sret
        meth = F_.short[models.method_split(F_.short) + 2:]
        for bst, this in bases:
            combos = [(bst.copy(), [], [], {})]
            tysp = tys[2:] if sret else tys[1:]
            k = 0
            while k < len(tysp):
                p = params[k] if k < len(params) else ''
                nxt = []
                used = 1
                for st, args, tags, info in combos:
                    for st2, vs, tag, inf in self.argument(st, F_, cls, meth, this, p, params[k + 1:k + 2], tysp[k],
                                                           tysp[k + 1:k + 2], inv, mode):
                        d = dict(info)
                        d.update(inf)
                        nxt.append((st2, args + vs, tags + ([tag] if tag else []), d))
                        used = len(vs)
                combos = nxt
                k += used
            for st, args, tags, info in combos:
                c = Case()
                c.cls, c.meth, c.F = cls, meth, F_
                c.case = ','.join(tags)
                c.root = '%s::%s%s' % (cls, meth, '(' + c.case + ')' if tags else '')
                c.this = this
                c.inp, c.inlen, c.other = info.get('inp'), info.get('len'), info.get('other')
                a = [Ptr(this)] + args
                if sret:
                    r = Obj(newid(), 'param', C(F_.argty and STRSZ or STRSZ), site='result')
                    st.mem[r.id] = r
                    a = [Ptr(r.id)] + a
                c.args = a
                c.st = st
                c.ex = ex
                yield c

    def limits(self, st):
        """assumed: containers and strings hold less than 2^31 elements"""
        for o in list(st.mem.values()):
            for off, (sz, v) in o.cells.items():
                v = st.res(v)
                if v.__class__ in (Cont, Str) and not v.n.isc():
                    for l in (v.n, v.n.neg().addc(STRMAX)):
                        f = st.facts.add_ge(l)
                        if f is not None:
                            st.facts = f

    def argument(self, st, F_, cls, meth, this, p, nextp, ty, nextty, inv, mode):
        ex = self.ex
        full = mode == 'full'

        def skip_null():
            return meth in SKIP_NULL or meth + '@' + cls in SKIP_NULL
        q = p.replace(' const', '').replace('const ', '').strip()
        if q in ('char*', 'unsigned char*', 'void*') and nextp and nextp[0].startswith('unsigned'):
            n = fresh('length', 0, M32 if meth.startswith('Deserialize') else STRMAX)
            s = st.copy()
            o = Obj(newid(), 'input', n, lazy=True, site='the input buffer')
            s.mem[o.id] = o
            yield s, [Ptr(o.id), n], '', {'inp': o.id, 'len': n}
            if full and not skip_null():
                n = fresh('length', 0, M32)
                yield st.copy(), [NULL, n], 'null data', {}
            return
        if q == 'char*':
            s = st.copy()
            o = Obj(newid(), 'param', None, lazy=True, site='a C string')
            o.meta = (('cstr',),)
            s.mem[o.id] = o
            yield s, [Ptr(o.id)], '', {}
            return
        if 'basic_string' in q:
            s = st.copy()
            o = Obj(newid(), 'param', C(STRSZ), site='argument')
            o.cells[0] = (STRSZ, models.new_str(ex, s))
            s.mem[o.id] = o
            yield s, [Ptr(o.id)], '', {}
            if full and mode != 'ctor' and q.endswith('&'):
                pass
            return
        if q in (NS + 'Value*', NS + 'Value&'):
            if meth == 'CopyFrom' or False:
                yield from self.second(st, cls, this, inv, mode)
                return
            s = st.copy()
            o = Obj(newid(), 'lazy', None, 'new', lazy=True, site='the value passed in')
            ex.make_generic(s, o, 'Value')
            o.meta = (('given',),)
            s.mem[o.id] = o
            yield s, [Ptr(o.id)], '', {'other': o.id}
            if full and q.endswith('*') and not skip_null():
                yield st.copy(), [NULL], 'null', {}
            if full:
                # a part of the object itself
                for s, v in self.parts(st, this):
                    yield s, [v], 'own part', {}
            return
        if q in (NS + cls + '*', NS + cls + '&'):
            yield from self.second(st, cls, this, inv, mode)
            return
        if q.endswith('*') or q.endswith('&'):
            yield st.copy(), [new_psym('arg')], '', {}
            return
        if q == 'bool':
            if full or mode == 'plain':
                for b in (0, 1):
                    yield st.copy(), [C(b)], '%d' % b, {}
            else:
                yield st.copy(), [fresh('flag', 0, 1)], '', {}
            return
        if ty.kind == 'int':
            bits = ty.bits
            signed = q in ('int', 'long', 'short', 'signed char', 'char', 'long long')
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            yield st.copy(), [fresh('arg', lo, hi)], '', {}
            return
        yield st.copy(), [ex.unknown(ty, 'arg')], '', {}

    def second(self, st, cls, this, inv, mode):
        """another object of the same class, and the object itself"""
        if inv is None:
            inv = self.inv.get(cls)
        if inv:
            for k, i in enumerate(inv):
                s = st.copy()
                o = self.clone(s, i)
                self.limits(s)
                s.w(o).site = 'the original'
                yield s, [Ptr(o)], '', {'other': o}
        elif mode == 'ctor':
            return
        if mode == 'full' and inv is not None and this in st.mem and st.mem[this].cells:
            yield st.copy(), [Ptr(this)], 'itself', {'other': this}

    def parts(self, st, this):
        ex = self.ex
        o = st.mem[this]
        for off, (sz, v) in sorted(o.cells.items()):
            v = st.res(v)
            if v.__class__ is Cont and v.elem in ('Value',):
                s = st.copy()
                i = fresh('pos', 0, STRMAX)
                f = s.facts.add_ge(v.n - i - ONE)
                f = f.add_ge(i - v.h) if f is not None else None
                if f is None:
                    continue
                s.facts = f
                e = models.elem_obj(ex, s, v, i)
                yield s, Ptr(e)
            elif v.__class__ is Ptr and st.mem[v.o].cls == 'Value' and v.off == ZERO:
                yield st.copy(), v
            elif v.__class__ is PSym:
                s = st.copy()
                w = ex.materialise(s, v)
                if s.mem[w.o].cls == 'Value':
                    yield s, w

    def invoke(self, c):
        ex = self.ex
        ex.frame = None
        ex.nowrap = c.meth.startswith(('Serialize', 'GetSize'))
        if c.meth in ('Get', 'Set'):
            ex.given = [x for a in c.args if a.__class__ is L for x, _ in a.t]
        try:
            return ex.call(c.F.name, list(c.args), c.st.copy())
        finally:
            ex.nowrap = False
            ex.given = ()

    def check(self, c):
        """analyse one activation and check its exits"""
        ex = self.ex
        self.cases += 1
        ex.root = c.root
        out = self.invoke(c)
        ex.frame = None
        res = []
        dtor = c.meth.startswith('~')
        for st, v in out:
            for h in self.after:
                h(self, c, st, v)
            # what the caller holds: the object, the arguments, the result
            env = {'ret': v} if v is not None else {}
            st = st.copy()
            if c.meth.startswith('Serialize') or True:
                pass
            if dtor:
                w = st.w(c.this)
                for off, (sz, x) in list(w.cells.items()):
                    if x.__class__ is Cont:
                        models.drop_all(ex, st, x, None, 'destruction')
                for off, (sz, x) in list(st.mem[c.this].cells.items()):
                    del w.cells[off]
            self.exit_check(c, st, v)
            sh = traverse(ex, None, env, st, False)
            prune(ex, None, env, st, sh)
        return out

    def exit_check(self, c, st, ret):
        """pointers that stay reachable from the object lead to live, singly owned blocks"""
        ex = self.ex
        if c.this not in st.mem:
            return
        owner = {}
        F = None
        for root in (c.this, c.other):
            if root is None or root not in st.mem:
                continue
            if root == c.other and c.other == c.this and root in owner.values():
                continue
            todo = [(root, 'this' if root == c.this else 'the original')]
            seen = set()
            while todo:
                oid, nm = todo.pop()
                if oid in seen:
                    continue
                seen.add(oid)
                o = st.mem.get(oid)
                if o is None:
                    continue
                for off, (sz, v) in o.cells.items():
                    l = []
                    v = st.res(v)
                    if v.__class__ is Cont:
                        if v.elem in OWNED:
                            f = st.facts
                            bc, pushed, sets = models.base_count(v)
                            bad = not (v.fp == v.h or f.ent_ge(v.h - v.fp)) and not (f.ent_ge(v.h - bc))
                            holes = [x for x in v.holes if not f.ent_ge(v.h - x - ONE) and not f.ent_ge(x - v.n)]
                            self.at_exit(c, st, 'shared', models.mirror(ex, st, v) != 'shared',
                                         'elements of a %s of %s belong to another container as well' % (v.kind, nm))
                            self.at_exit(c, st, 'uaf', not bad and not holes,
                                         'elements that were freed stay in a %s of %s' % (v.kind, nm))
                        for i, x in v.over:
                            absint_ptrs(st, x, l)
                    else:
                        absint_ptrs(st, v, l)
                    for x in l:
                        q = st.mem.get(x)
                        if q is None or q.kind not in ('heap', 'elem', 'lazy') or q.kind == 'lazy' and q.form is None:
                            continue
                        self.at_exit(c, st, 'uaf', q.alive == 1, '%s is left pointing to %s, which was freed' % (
                            nm, ex.oname(q)))
                        if x in owner and owner[x] != (oid, off):
                            self.at_exit(c, st, 'shared', False, '%s is owned twice' % ex.oname(q))
                        owner.setdefault(x, (oid, off))
                        todo.append((x, nm))

    def at_exit(self, c, st, kind, ok, msg):
        ex = self.ex
        B = None
        line = 0
        for b in c.F.blocks:
            for i in b.insts:
                if i.op == 'ret':
                    line, file = i.line, i.file
        fn = c.F.short
        rec = (kind, fn, file, line, msg, bool(ok), st.trace if not ok else None, None if ok else st.facts, c.root)
        ex._commit(rec)

    def run(self):
        t0 = time.time()
        ex = self.ex
        for cls in self.classes:
            self.fixpoint(cls)
        for cls in self.classes:
            for F_ in self.ctors(cls):
                for c in self.cases_of(F_, cls, None, 'ctor'):
                    self.rootnames.append(c.root)
                    self.check(c)
            for F_ in self.methods(cls):
                for c in self.cases_of(F_, cls, self.inv[cls], 'full'):
                    self.rootnames.append(c.root)
                    self.check(c)
        self.seconds = time.time() - t0
        return self


if __name__ == '__main__':
    import sys
    from . import ir
    from .frontend import access
    m = ir.Module(sys.argv[1])
    m.access = access(sys.argv[1])
    c = Codec(m)
    if len(sys.argv) > 2:
        c.classes = sys.argv[2].split(',')
    c.run()
    ex = c.ex
    print(c.cases, 'activations', '%.1fs' % c.seconds, ex.stats, ex.unmodelled)
    print('obligations', sum(v[1] for v in ex.oblig.values()), 'sites', len(ex.oblig))
    for cls in c.classes:
        print(cls, len(c.inv[cls]), 'states')
    for f in ex.findings.values():
        print('FINDING', f.kind, f.fn, f.line, f.msg, '| root', f.root, '|', f.chain)
