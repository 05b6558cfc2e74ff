"""The interpreter specialised to the library: modular contracts for encoded objects,
class layouts, system-call defaults."""
import re
from . import absint, models, lin
from .absint import *
from .absint import ps
from .ir import PTRTY, int_ty
from .models import GH_TYPE, GH_SIZE, GH_CONT, split_params, STRSZ, CSZ

NS = 'DowowNetwork::'
OWNED = ('Value', 'Datum', 'Request')
POD = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
       'long': 8, 'unsigned long': 8, 'pollfd': 8, 'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8}


class Engine(Exec):
    def __init__(self, mod, **kw):
        super().__init__(mod, **kw)
        self.typeoff = None
        self.layout = {}         # class -> {off: ('ptr', cls) | ('str',) | ('cont', kind, elem) | ('int', size)}
        self.byname = {}         # predicates that compare with a name
        self.given = ()          # symbols of the arguments that are kept
        self.vclasses = {}       # value class -> type tag
        self.vslots = {}         # slot -> method name
        self.vsize = {}          # content id -> size term
        self.vtag = {}           # content id -> type
        self.rt = False          # decoding of what was encoded
        self.modular = True
        self.leaks = True
        self.note = {}
        self.find_classes()
        self.install_contracts()

    # ------------------------------------------------------------------ classes
    def find_classes(self):
        m = self.mod
        base = NS + 'Value'
        vts = {}
        for g in m.globals:
            if g.startswith('_ZTV'):
                ini = m.ginit(g)
                if not isinstance(ini, list):
                    continue
                fns = {}
                for off, sz, c in ini:
                    if c[0] == 'f' and off >= 16:
                        fns[(off - 16) // 8] = c[1]
                vts[g] = fns
        self.vtables = {}
        for g, fns in vts.items():
            cls = None
            for slot, fn in fns.items():
                s = m.funcs[fn].short
                k = models.method_split(s)
                if k and s[:k].startswith(NS) and s[k + 2:].startswith('~'):
                    cls = s[:k][len(NS):]
            k = re.match(r'_ZTVN%d%s(\d+)(\w+)E$' % (len(NS[:-2]), NS[:-2]), g) if cls is None else None
            if k and int(k.group(1)) == len(k.group(2)):
                cls = k.group(2)        # no virtual destructor
            if cls:
                self.vtables[cls] = (g, fns)
        # the Value family: classes whose constructor calls the constructor of Value
        for cls, (g, fns) in self.vtables.items():
            if cls == 'Value':
                continue
            for F_ in self.ctors(cls):
                if any(i.op in ('call', 'invoke') and i.x[0] == 'f' and m.funcs[i.x[1]].short == base + '::Value'
                       for b in F_.blocks for i in b.insts):
                    self.vclasses[cls] = None
                    for slot, fn in fns.items():
                        s = m.funcs[fn].short
                        meth = s[models.method_split(s) + 2:]
                        if meth.startswith('~'):
                            meth = 'D0' if 'D0Ev' in fn else 'D1'
                        self.vslots.setdefault(slot, meth)

    def ctors(self, cls):
        n = NS + cls + '::' + cls.split('::')[-1]
        return [f for f in self.mod.by_short.get(n, ()) if not f.decl]

    def probe_layouts(self):
        """type tags and field layouts, read off what the constructors store"""
        base = [f for f in self.ctors('Value') if len(f.argty_()) == 2]
        st = State()
        o = Obj(newid(), 'root', None, site='probe')
        st.mem[o.id] = o
        t = fresh('tag', 0, 255)
        res = self.call(base[0].name, [Ptr(o.id), t], st)
        for off, (sz, v) in res[0][0].mem[o.id].cells.items():
            if v == t:
                self.typeoff = off
        if self.typeoff is None:
            raise AnalysisError('the constructor of Value does not record the type')
        for cls in sorted(self.vclasses):
            for s, this in self.run_ctor(cls):
                v = s.mem[this].cells.get(self.typeoff)
                if v is not None and v[1].__class__ is L and v[1].isc():
                    self.vclasses[cls] = v[1].c
        self.layout['Value'] = {}
        for cls in ('Datum', 'Request'):
            lay = self.layout[cls] = {}
            for s, this in self.run_ctor(cls):
                for off, (sz, v) in s.mem[this].cells.items():
                    v = s.res(v)
                    if v.__class__ is Str:
                        lay[off] = ('str',)
                    elif v.__class__ is Cont:
                        lay[off] = ('cont', v.kind, v.elem)
                    elif v.__class__ is Ptr and s.mem[v.o].cls in OWNED:
                        lay[off] = ('ptr', s.mem[v.o].cls)
                    elif v.__class__ is L and sz:
                        lay.setdefault(off, ('int', sz))

    def run_ctor(self, cls):
        """states after some constructor of the class ran on an object of its own"""
        cs = sorted((f for f in self.ctors(cls) if 'C2E' in f.name), key=lambda f: (len(f.argty_()), f.name))
        cs = [f for f in cs if not any(NS + cls in p for p in split_params(f.dem))] or cs
        st = State()
        o = Obj(newid(), 'root', None, site='probe')
        st.mem[o.id] = o
        self.buf.append([])
        saved = self.leaks
        self.leaks = False
        try:
            args = [Ptr(o.id)]
            for t, p in zip(cs[0].argty_()[1:], split_params(cs[0].dem)):
                if 'basic_string' in p:
                    s = Obj(newid(), 'param', C(STRSZ), site='argument')
                    s.cells[0] = (STRSZ, models.new_str(self, st))
                    st.mem[s.id] = s
                    args.append(Ptr(s.id))
                else:
                    args.append(self.unknown(t, 'arg'))
            return [(s, o.id) for s, v in self.call(cs[0].name, args, st)]
        finally:
            self.leaks = saved
            self.buf.pop()

    def find_factories(self):
        """functions that make a value of the class given by a type tag; they are used by contract (property P06 decides it)"""
        self.factories = {}
        m = self.mod
        for F_ in m.funcs.values():
            if F_.decl or self.is_method(F_) or F_.sret or len(F_.argty_()) != 1 or F_.argty_()[0].kind != 'int':
                continue
            made = set()
            for b in F_.blocks:
                for i in b.insts:
                    if i.op in ('call', 'invoke') and i.x[0] == 'f':
                        s = m.funcs[i.x[1]].short
                        k = models.method_split(s)
                        if k and s[:k][len(NS):] in self.vclasses and s[k + 2:] == s[:k][len(NS):].split('::')[-1]:
                            made.add(s[k + 2:])
            if len(made) > 1:
                self.factories[F_.name] = F_
        for n, F_ in self.factories.items():
            self.contracts[F_.short] = self.factory

    def is_method(self, F_):
        k = models.method_split(F_.short)
        return bool(k) and (F_.short[:k][len(NS):] in self.vclasses or F_.short[:k] in [NS + c for c in ('Value', 'Datum', 'Request', 'Connection', 'Server', 'Client')])

    def factory(self, ex, fr, st, inst, a):
        if not self.modular:
            return None
        t = st.res(a[0])
        t = self.view_u(st, self.asint(st, t), 8)
        out = []
        known = sorted(x for x in self.vclasses.values() if x is not None)
        top = max(known)
        if any(o.cls == 'Value' and o.cells.get(self.typeoff, (0, None))[1] == t for o in st.mem.values()):
            # every value has the type of a class (property P06)
            st = st.copy()
            st.facts = st.facts.add_ge(t.neg().addc(top)) or st.facts
        for lo, hi in ((0, top), (top + 1, 255)):
            s = st.copy()
            f = s.facts.add_ge(t.addc(-lo))
            f = f.add_ge(t.neg().addc(hi)) if f is not None else None
            if f is None:
                continue
            s.facts = f
            fn, file, line = self.where(inst)
            p = self.alloc(s, 'heap', None, 'new', '%s:%s' % (file.split('/')[-1], line))
            w = s.w(p.o)
            self.make_generic(s, w, 'Value', 0 if lo else None)
            if not lo:
                w.cells[self.typeoff] = (1, t)
            out.append((s, p))
        return out

    # ------------------------------------------------------------------ hooks wanted by absint / models / join
    def has_sret(self, F_):
        return F_.sret

    def sizeof(self, t):
        t = t.strip()
        if t.endswith('*'):
            return 8
        return POD.get(t) or POD.get(t.replace(' const', '')) or 8

    def note_unmodelled(self, txt):
        self.unmodelled[txt] = self.unmodelled.get(txt, 0) + 1

    def clear_range(self, st, oid, off, n):
        o = st.w(oid)
        for co, (cs, cv) in list(o.cells.items()):
            if co < 0:
                continue
            f = st.facts
            if f.ent_ge(off.addc(-(co + cs))) or f.ent_ge((off + n).neg().addc(co)):
                continue
            if f.ent_ge(off.neg().addc(co)) and f.ent_ge((off + n).addc(-(co + cs))):
                del o.cells[co]
            else:
                o.cells[co] = (cs, Opaque('junk'))
        if o.segs:
            self.seg_cut(st, o, off, n)

    def seg_put_obj(self, st, oid, off, n, content):
        self.seg_put(st, st.w(oid), off, n, content)

    def on_read_range(self, st, o, off, n, inst):
        pass

    def keepsyms(self, st):
        """symbols about which facts are kept"""
        return set(self.given)

    def sysevent(self, st, name, inst, args, ret, **kw):
        self.event(st, 'sys', inst, fn=name, args=args, ret=ret, **kw)
        return [(st, ret)]

    def pollevent(self, st, inst, args, p, n):
        if p.__class__ is Ptr:
            self.clear_range(st, p.o, p.off, n.scale(8))
        return [(st, fresh('poll', -1, 1 << 20))]

    def recv_content(self, st, name, inst, args, p, r):
        return ('ent', ('?', newid()), ZERO)

    def getsockopt(self, st, inst, args):
        p = self.deref(st, args[3], inst, 'write')
        if p.__class__ is Ptr:
            self.put(st, p.o, p.off, 4, fresh('sockopt', 0, M32))
        return [(st, fresh('getsockopt', -1, 0))]

    def init_like(self, st, o, off, sz, v):
        if v.__class__ is L or v.__class__ is Bool:
            if off == GH_SIZE:
                return self.osize(st, o)
            if off < 0 or sz == 0:
                return None
            return self.init_val(o, off, int_ty(8 * sz))
        if v.__class__ in (Ptr, PSym):
            return self.init_val(o, off, PTRTY)
        if v.__class__ is Str:
            if off < 0:
                return None
            return models.init_str(o, off)
        if v.__class__ is Cont:
            return models.init_cont(self, o, off, v.kind, v.elem)
        return None

    def osize(self, st, o):
        c = o.cells.get(GH_SIZE)
        if c is not None:
            return c[1]
        return None

    def generic_class(self, st, o):
        if o.kind in ('heap', 'elem', 'lazy') and o.cls in OWNED:
            return o.cls
        return None

    def make_generic(self, st, o, cls, tag=None):
        """o is an object of an owned class about which only the public state is known"""
        o.cls = cls
        keep = {k: v for k, v in o.cells.items() if k < 0}
        o.cells.clear()
        o.cells.update(keep)
        o.lazy = True
        if cls == 'Value':
            o.cells[0] = (8, Opaque(('vt', 'Value', 0)))
            if self.typeoff is not None:
                o.cells[self.typeoff] = (1, C(tag) if tag is not None else fresh('vtype', 0, max(
                    [0] + [t for t in self.vclasses.values() if t is not None])))
        for off, k in self.layout.get(cls, {}).items():
            if k[0] == 'ptr':
                o.cells[off] = (8, new_psym((o.id, off)))
            elif k[0] == 'str':
                o.cells[off] = (STRSZ, models.new_str(self, st))
            elif k[0] == 'cont':
                n = fresh('count', 0, STRMAX)
                o.cells[off] = (CSZ[k[1]], Cont(k[1], ('n', newid()), ZERO, n, elem=k[2]))
            elif k[0] == 'int':
                o.cells[off] = (k[1], fresh('fld', 0, (1 << (8 * k[1])) - 1))
        return o

    def materialise(self, st, p):
        v = super().materialise(st, p)
        o = st.mem[v.o]
        if o.cls is None and o.kind == 'lazy' and p.origin.__class__ is tuple and len(p.origin) == 2:
            po = st.mem.get(p.origin[0])
            k = self.layout.get(po.cls, {}).get(p.origin[1]) if po is not None else None
            if k and k[0] == 'ptr':
                o = st.w(v.o)
                o.form = 'new'
                self.make_generic(st, o, k[1])
        return v

    def generalise(self, J, sa, oa, sb, ob):
        n = oa.copy()
        n.cells = {}
        self.make_generic(sa, n, oa.cls)
        if self.typeoff is not None and oa.cls == 'Value':
            ta, tb = oa.cells.get(self.typeoff), ob.cells.get(self.typeoff)
            if ta and tb and ta[1].__class__ is L and tb[1].__class__ is L:
                v = J.num(ta[1], tb[1])
                top = max(t for t in self.vclasses.values() if t is not None)
                if v.t and len(v.t) == 1 and v.t[0][1] == 1 and not v.c and SY.hi[v.t[0][0]] is None and all(
                        s.facts._range0(t)[1] is not None and s.facts._range0(t)[1] <= top for s, t in ((sa, ta[1]), (sb, tb[1]))):
                    SY.lo[v.t[0][0]], SY.hi[v.t[0][0]] = 0, top
                n.cells[self.typeoff] = (1, v)
        a, b = self.osize(sa, oa), self.osize(sb, ob)
        if a is not None and b is not None:
            n.cells[GH_SIZE] = (0, J.num(a, b))
        ca, cb = oa.cells.get(GH_CONT), ob.cells.get(GH_CONT)
        if ca and cb and ca[1] == cb[1]:
            n.cells[GH_CONT] = ca
        elif ca and cb:
            x, y = elemname(ca[1]), elemname(cb[1])
            if x and y and x[1] == y[1]:
                n.cells[GH_CONT] = (0, Str(('e', x[1], J.num(x[2], y[2], True)), ca[1].n))
        return n

    def generic_leq(self, sh, oh, sb, ob, num):
        a, b = self.osize(sh, oh), self.osize(sb, ob)
        if a is not None:
            if b is None:
                return False
            num(a, b)
        if self.typeoff is not None and oh.cls == 'Value':
            ta, tb = oh.cells.get(self.typeoff), ob.cells.get(self.typeoff)
            if ta and ta[1].__class__ is L:
                if not (tb and tb[1].__class__ is L):
                    return False
                num(ta[1], tb[1])
        ca, cb = oh.cells.get(GH_CONT), ob.cells.get(GH_CONT)
        if ca and not (cb and ca[1] == cb[1]):
            x, y = elemname(ca[1]), elemname(cb[1]) if cb else None
            if not (x and y and x[1] == y[1]):
                return False
            num(x[2], y[2])
        return True

    def cont_total(self, st, c):
        if c.elem not in OWNED:
            return None
        bc, pushed, sets = models.base_count(c)
        if sets or c.holes or c.h != ZERO:
            return None
        t = ps(c.seq, bc)
        for i, v in pushed:
            v = st.res(v)
            if v.__class__ is not Ptr or v.o not in st.mem:
                return None
            z = self.osize(st, st.mem[v.o])
            if z is None:
                return None
            t = t + z
        return t

    def leaked(self, st, o):
        if not self.leaks or any(m[0] == 'given' for m in o.meta):
            return
        fr = self.frame
        self.oblige('leak', False, fr.inst if fr is not None else None, '%s is never released' % self.oname(o), st)

    # ------------------------------------------------------------------ contracts
    def recv_obj(self, st, p, cls, inst, what='use'):
        """object id of a modular receiver, or None when the call is to be interpreted"""
        p = st.res(p)
        if p.__class__ is PSym:
            p = self.materialise(st, p)
        if p.__class__ is not Ptr or p.off != ZERO:
            return None
        o = st.mem[p.o]
        if o.kind in ('root', 'alloca', 'global', 'param') or not self.modular:
            return None
        self.oblige('uaf', o.alive == 1, inst, '%s of %s that was already %s' % (
            what, self.oname(o), 'destroyed' if o.alive == 2 else 'freed'), st)
        if o.cls != cls:
            if o.cls is not None:
                return None
            self.make_generic(st, st.w(p.o), cls)
        return p.o

    def gsize(self, st, oid):
        o = st.mem[oid]
        c = o.cells.get(GH_SIZE)
        if c is None:
            z = fresh('size', {'Value': 5, 'Datum': 11, 'Request': 10}[o.cls], STRMAX)
            st.w(oid).cells[GH_SIZE] = (0, z)
            return z
        return c[1]

    def gcont(self, st, oid):
        o = st.mem[oid]
        c = o.cells.get(GH_CONT)
        if c is None:
            s = Str(('v', newid()), ZERO)
            st.w(oid).cells[GH_CONT] = (0, s)
            return s
        return c[1]

    def entity(self, st, oid):
        """(entity, start) of the encoding of a generic object"""
        o = st.mem[oid]
        if GH_CONT not in o.cells and o.owner.__class__ is tuple and o.owner[0] == 'cont' and GH_SIZE in o.cells:
            return ('E', o.owner[1]), ps(o.owner[1], o.owner[2])
        s = self.gcont(st, oid)
        self.vsize[s.sid] = self.gsize(st, oid)
        t = st.mem[oid].cells.get(self.typeoff)
        if o.cls == 'Value' and t and t[1].__class__ is L:
            self.vtag[s.sid] = t[1]
        return ('V', s.sid), ZERO

    def buffer(self, st, inst, n, ent):
        fn, file, line = self.where(inst)
        p = self.alloc(st, 'heap', n, 'new[]', '%s:%s' % (file.split('/')[-1], line))
        o = st.w(p.o)
        o.segs = ((ZERO, n, ent),)
        return p

    def destroy(self, st, oid, inst):
        """destructor of a generic object: everything it owns goes with it"""
        o = st.w(oid)
        o.alive = 2
        todo = []
        for off, (sz, v) in o.cells.items():
            absint_ptrs(st, v, todo)
        for x in todo:
            q = st.mem.get(x)
            if q is None or x == oid or q.kind not in ('heap', 'elem', 'lazy') or q.cls not in OWNED and q.form is None:
                continue
            self.oblige('free', q.alive == 1, inst, 'second release of %s' % self.oname(q), st)
            if q.alive == 1:
                self.destroy(st, x, inst)
                st.w(x).alive = 0

    def decode_input(self, st, p, n, inst):
        """obligation that [p, p+n) may be read; -> resolved pointer"""
        p = st.res(p)
        if p.__class__ is PSym:
            p = self.materialise(st, p)
        if p.__class__ is Ptr:
            o = st.mem[p.o]
            self.inb(st, o, p.off, n, inst, 'read')
        return p

    def install_contracts(self):
        c = self.contracts
        V, D, R = NS + 'Value::', NS + 'Datum::', NS + 'Request::'

        def sized(cls):
            def h(ex, fr, st, inst, a):
                oid = ex.recv_obj(st, a[0], cls, inst)
                return None if oid is None else [(st, ex.gsize(st, oid))]
            return h

        def ser(cls):
            def h(ex, fr, st, inst, a):
                oid = ex.recv_obj(st, a[0], cls, inst)
                if oid is None:
                    return None
                z = ex.gsize(st, oid)
                e, s = ex.entity(st, oid)
                p = ex.buffer(st, inst, z, ('ent', e, s))
                ex.event(st, 'serialize', inst, obj=oid, buf=p)
                return [(st, p)]
            return h

        def des(cls, least):
            def h(ex, fr, st, inst, a):
                oid = ex.recv_obj(st, a[0], cls, inst)
                if oid is None:
                    return None
                return ex.m_deserialize(st, oid, cls, least, a[1], ex.view_u(st, ex.asint(st, a[2]), 32), inst)
            return h
        for cls, pre, least in (('Value', V, 5), ('Datum', D, 7), ('Request', R, 10)):
            c[pre + 'GetSize'] = sized(cls)
            c[pre + 'Serialize'] = ser(cls)
            c[pre + 'Deserialize'] = des(cls, least)

        def gettype(ex, fr, st, inst, a):
            if getattr(ex, 'factories', None) is None or ex.typeoff is None:
                return None
            oid = ex.recv_obj(st, a[0], 'Value', inst)
            if oid is None:
                return None
            v = st.mem[oid].cells.get(ex.typeoff)
            return [(st, v[1])] if v is not None else None
        c[V + 'GetType'] = gettype

        def tostr(cls):
            def h(ex, fr, st, inst, a):
                oid = ex.recv_obj(st, a[1], cls, inst)
                if oid is None:
                    return None
                models.sset(ex, st, a[0], models.new_str(ex, st), inst)
                return [(st, None)]
            return h
        for cls in ('Value', 'Datum', 'Request'):
            c[NS + cls + '::ToString'] = tostr(cls)

        def dtor(cls):
            def h(ex, fr, st, inst, a):
                oid = ex.recv_obj(st, a[0], cls, inst, 'destruction')
                if oid is None:
                    return None
                ex.destroy(st, oid, inst)
                return [(st, None)]
            return h
        for cls in ('Datum', 'Request'):
            c[NS + cls + '::~' + cls] = dtor(cls)
        for cls in list(self.vclasses) + ['Value']:
            c[NS + cls + '::~' + cls] = dtor('Value')

        def vctor(cls):
            def h(ex, fr, st, inst, a):
                p = st.res(a[0])
                if p.__class__ is not Ptr or p.off != ZERO or not ex.modular or ex.typeoff is None:
                    return None
                o = st.mem[p.o]
                if o.kind not in ('heap', 'alloca') or ex.inside_ctor(p.o):
                    return None
                w = st.w(p.o)
                ex.make_generic(st, w, 'Value', ex.vclasses.get(cls))
                if w.size is not None:
                    # the class must fit into the block
                    pass
                w.size = None
                return [(st, None)]
            return h
        for cls in self.vclasses:
            c[NS + cls + '::' + cls] = vctor(cls)

        def octor(cls):
            def h(ex, fr, st, inst, a):
                p = st.res(a[0])
                if p.__class__ is Ptr and p.off == ZERO and st.mem[p.o].kind == 'heap':
                    w = st.w(p.o)
                    w.cls = cls
                return None
            return h
        c[NS + 'Datum::Datum'] = octor('Datum')
        c[NS + 'Request::Request'] = octor('Request')

    def inside_ctor(self, oid):
        return False

    def m_deserialize(self, st, oid, cls, least, p, n, inst):
        p = self.decode_input(st, p, n, inst)
        if p.__class__ is L:
            self.mark(st, inst, 'failed', C(1))
            return [(st, ZERO)]
        out = []
        rt = self.roundtrip(st, oid, cls, p, n, inst)
        if rt is not None:
            return rt
        s1 = st.copy()
        self.redefine(s1, oid, keep=True)
        self.mark(s1, inst, 'failed', C(1))
        out.append((s1, ZERO))
        s2 = st.copy()
        r = fresh('used', least, STRMAX * 2)
        f = s2.facts.add_ge(n - r)
        if f is not None:
            s2.facts = f
            self.redefine(s2, oid)
            self.mark(s2, inst, 'decoded', C(1))
            out.append((s2, r))
        return out

    def mark(self, st, inst, name, v):
        if self.split_ret:
            st.gh[name] = v

    def roundtrip(self, st, oid, cls, p, n, inst):
        """decoding of bytes that are the encoding of a known object"""
        if not self.rt or p.__class__ is not Ptr:
            return None
        o = st.mem[p.o]
        f = st.facts
        for lo, m, ct in o.segs:
            if ct[0] != 'ent' or not f.ent_ge(p.off - lo) or not f.ent_ge(lo + m - p.off - ONE):
                continue
            ent = ct[1]
            at = self.plain(st, ent, ct[2] + p.off - lo)
            if ent[0] == 'V' and f.ent_eq(at):
                used, cont = self.vsize.get(ent[1]), ent[1]
                tag = self.vtag.get(ent[1])
            elif ent[0] == 'E':
                k = at.single()
                a = SY.ufargs.get(k) if k is not None else None
                if f.ent_eq(at):
                    idx = ZERO
                elif a and a[0] == 'PS' and a[1] == ent[1]:
                    idx = a[2]
                else:
                    continue
                nxt = ps(ent[1], idx + ONE)
                used, cont = nxt - at, ('e', ent[1], idx)
                tag = ufn(('etag', ent[1], idx), 'tag', 0, max(t for t in self.vclasses.values() if t is not None))
                # the element lies within what was encoded
                st = st.copy()
                for l in (used.addc(-5), lo + m - p.off - used):
                    st.facts = st.facts.add_ge(l) or st.facts
                f = st.facts
            else:
                continue
            if used is None or not f.ent_ge(n - used):
                continue
            mine = st.mem[oid].cells.get(self.typeoff) if cls == 'Value' else None
            if cls == 'Value' and not (mine and tag is not None and mine[1].__class__ is L and f.ent_eq(mine[1] - tag)):
                continue
            st = st.copy()
            self.redefine(st, oid)
            w = st.w(oid)
            w.cells[GH_SIZE] = (0, used)
            w.cells[GH_CONT] = (0, Str(cont, ZERO))
            self.mark(st, inst, 'decoded', C(1))
            return [(st, used)]
        return None

    def plain(self, st, ent, at):
        """a position in an encoding as a constant or a prefix sum"""
        f = st.facts
        if at.isc():
            return at
        for k in (0, 1):
            if f.ent_eq(at.addc(-k)):
                return C(k)
        for s, _ in at.t:
            a = SY.ufargs.get(s)
            if a and a[0] == 'PS' and a[1] == ent[1] and f.ent_eq(at - S(s)):
                return S(s)
        return at

    def header(self, st, ent, start, n):
        """type and length at the beginning of the encoding of a value"""
        if not self.rt:
            return None
        start = self.plain(st, ent, start)
        if ent[0] == 'V' and ent[1] in self.vtag and start.isc():
            if start == ZERO and n == 1:
                return self.vtag[ent[1]]
            if start == ONE and n == 4:
                return self.vsize[ent[1]].addc(-5)
        if ent[0] == 'E' and n == 1:
            k = start.single()
            a = SY.ufargs.get(k) if k is not None else None
            if start == ZERO or a and a[0] == 'PS' and a[1] == ent[1]:
                return ufn(('etag', ent[1], ZERO if start == ZERO else a[2]), 'tag', 0, max(t for t in self.vclasses.values() if t is not None))
        return None

    def redefine(self, st, oid, keep=False):
        """the object was decoded into: its old parts are gone, the new ones unknown"""
        o = st.mem[oid]
        tag = o.cells.get(self.typeoff) if o.cls == 'Value' else None
        if keep and o.cls != 'Value':
            return
        todo = []
        for off, (sz, v) in o.cells.items():
            absint_ptrs(st, v, todo)
        for x in todo:
            q = st.mem.get(x)
            if q is not None and x != oid and q.kind in ('heap', 'elem', 'lazy') and q.alive == 1 and (
                    q.cls in OWNED):
                self.destroy(st, x, None)
                st.w(x).alive = 0
        w = st.w(oid)
        w.cells = {}
        self.make_generic(st, w, o.cls)
        if tag is not None:
            w.cells[self.typeoff] = tag
        w.cells[GH_SIZE] = (0, fresh('size', 5, STRMAX))
        w.cells[GH_CONT] = (0, Str(('v', newid()), ZERO))

    # virtual calls on generic values ---------------------------------------------
    def indirect_hook(self, fr, st, I, fv, args):
        if fv.__class__ is Opaque and fv.tag.__class__ is tuple and fv.tag[0] == 'vf':
            return self.vcall(fr, st, I, fv.tag[1], self.vslots.get(fv.tag[2]), args)
        return None

    def vcall(self, fr, st, I, fam, meth, a):
        if fam != 'Value' or meth is None:
            return None
        k = 1 if meth == 'ToStringInternal' and I.ty.kind == 'void' and len(a) > 2 else 0
        p = st.res(a[k])
        oid = p.o if p.__class__ is Ptr else None
        if oid is None or st.mem[oid].cls != 'Value':
            return None
        o = st.mem[oid]
        self.oblige('uaf', o.alive == 1, I, 'call of a method of %s that was already freed' % self.oname(o), st)
        if meth == 'D0':
            models.free_one(self, st, p, 'new', I)
            return [(st, None)]
        if meth == 'D1':
            self.destroy(st, oid, I)
            return [(st, None)]
        if meth == 'GetSizeInternal':
            return [(st, self.gsize(st, oid).addc(-5))]
        if meth == 'SerializeInternal':
            e, s = self.entity(st, oid)
            return [(st, self.buffer(st, I, self.gsize(st, oid).addc(-5), ('ent', e, s.addc(5))))]
        if meth == 'DeserializeInternal':
            n = self.view_u(st, self.asint(st, a[2]), 32)
            self.decode_input(st, a[1], n, I)
            r = fresh('used', 0, STRMAX)
            self.redefine(st, oid)
            f = st.facts.add_ge(n - r)
            st.facts = f or st.facts
            return [(st, r)]
        if meth == 'CopyFrom':
            q = st.res(a[1])
            if q.__class__ is PSym:
                q = self.materialise(st, q)
            if q.__class__ is not Ptr:
                self.oblige('null', False, I, 'CopyFrom() of a null pointer', st)
                return []
            qo = st.mem[q.o]
            if qo.cls is None and qo.kind == 'lazy':
                self.make_generic(st, st.w(q.o), 'Value')
                qo = st.mem[q.o]
            self.oblige('uaf', qo.alive == 1, I, 'copy from %s that was already freed' % self.oname(qo), st)
            tb = qo.cells.get(self.typeoff)
            ta = o.cells.get(self.typeoff)
            ok = ta and tb and ta[1].__class__ is L and tb[1].__class__ is L and st.facts.ent_eq(ta[1] - tb[1])
            self.oblige('type', ok, I, 'CopyFrom() between values whose types may differ', st)
            w = st.w(oid)
            if qo.cls == 'Value' and qo.kind != 'root':
                z, s = self.gsize(st, q.o), None
                if GH_CONT not in st.mem[q.o].cells and st.mem[q.o].owner.__class__ is tuple and \
                        st.mem[q.o].owner[0] == 'cont':
                    s = Str(('e', st.mem[q.o].owner[1], st.mem[q.o].owner[2]), ZERO)
                else:
                    s = self.gcont(st, q.o)
                w = st.w(oid)
                w.cells[GH_SIZE] = (0, z)
                w.cells[GH_CONT] = (0, s)
            else:
                w.cells[GH_SIZE] = (0, fresh('size', 5, STRMAX))
                w.cells[GH_CONT] = (0, Str(('copy', q.o), ZERO))
            return [(st, None)]
        if meth == 'ToStringInternal':
            models.sset(self, st, a[0], models.new_str(self, st), I)
            return [(st, None)]
        return None


def elemname(s):
    """the content is that of an element of a sequence"""
    return s.sid if s.__class__ is Str and s.sid.__class__ is tuple and s.sid[0] == 'e' else None


def absint_ptrs(st, v, out):
    from .join import ptrs_in
    ptrs_in(st, v, out)
