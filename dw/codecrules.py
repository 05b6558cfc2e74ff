"""Rules for requests, data and values (P01-P08): every public method of every encoded class, analysed from every
state its objects can be in and with every argument; the rules judge the obligations met on the way and the states
at the exits."""
import os
import re
import pickle
import traceback
from . import models
from .codec import Codec
from .absint import AnalysisError
from .engine import *
from .engine import NS
from .holdrules import held

BOUNDS = {'oob-r', 'oob-w', 'null', 'rodata'}
OWN = {'uaf', 'free', 'leak', 'elem', 'shared'}
FACTOR, BASE = 64, 4096          # P03: allocations up to FACTOR * length + BASE


WIDTH = {'signed char': (8, 'S'), 'unsigned char': (8, 'U'), 'short': (16, 'S'), 'unsigned short': (16, 'U'), 'int': (32, 'S'),
         'unsigned int': (32, 'U'), 'long': (64, 'S'), 'unsigned long': (64, 'U'), 'long long': (64, 'S'), 'unsigned long long': (64, 'U')}


def models_params(F_):
    return [p.strip() for p in split_params(F_.dem)]


class Rep:
    """what one property says about the activations"""

    def __init__(self):
        self.bad, self.obl, self.roots, self.paths, self.notes = {}, {}, {}, 0, []

    def check(self, ok, root, at, fn, msg, what):
        self.obl[what] = self.obl.get(what, 0) + 1
        self.roots[root] = self.roots.get(root, 0) + 1
        if not ok:
            self.bad.setdefault((fn, msg), (at, root))
        return ok


class Judge(Codec):
    def __init__(self, mod, props):
        super().__init__(mod)
        self.props = props
        self.rep = {p: Rep() for p in props}
        self.case = None
        self.real = False
        self.ex._commit = self.commit
        self.ex.monitors.append(self)
        self.exits = 0
        self.after.append(Judge.exit_rules)

    # ------------------------------------------------------------------ obligations
    def of(self, c):
        """properties that judge the memory obligations of an activation: {kind: [property]}"""
        out = {}
        m = c.meth
        dec = m.startswith('Deserialize')
        enc = m.startswith(('Serialize', 'GetSize'))
        for k in OWN:
            out[k] = ['P08']
        if dec:
            for k in BOUNDS:
                out[k] = ['P01']
        if enc:
            for k in BOUNDS:
                out[k] = ['P04']
        if self.copies(c):
            for k in OWN | BOUNDS | {'type'}:
                out.setdefault(k, [])
                out[k] = out[k] + ['P07']
        return out

    def copies(self, c):
        return c.meth in ('CopyFrom', 'operator=', 'SetValue', 'Set', 'Push') or c.meth == c.cls and c.other is not None

    def commit(self, rec):
        kind, fn, file, line, msg, ok, trace, facts, chain = rec
        c = self.case
        if c is None or not self.real:
            return
        for p in self.of(c).get(kind, ()):
            r = self.rep.get(p)
            if r is not None:
                r.check(ok, c.root, '%s:%s' % (file.replace('/repo/', ''), line), fn, msg, KIND[kind])
        if kind == 'big' and 'P03' in self.rep:
            self.rep['P03'].check(ok, c.root, '%s:%s' % (file.replace('/repo/', ''), line), fn, msg, KIND[kind])

    def check(self, c):
        self.case = c
        self.real = True
        try:
            return super().check(c)
        finally:
            self.real = False

    def rule(self, p, ok, c, msg, what):
        r = self.rep.get(p)
        if r is None:
            return ok
        line, file = 0, ''
        for b in c.F.blocks:
            for i in b.insts:
                if i.op == 'ret':
                    line, file = i.line, i.file
        return r.check(ok, c.root, '%s:%s' % ((file or '').replace('/repo/', ''), line), c.F.short, msg, what)

    # ------------------------------------------------------------------ activations
    def invoke(self, c):
        ex = self.ex
        if c.meth.startswith('Deserialize') and c.inp is not None:
            ex.split_ret = True
            c.st = st = c.st.copy()
            o = st.mem[c.inp]
            st.gh['length'] = c.inlen
            for off in (0, 1, 5):
                st.gh['in%d' % off] = ufn(('in', c.inp, off, 4), 'f%d' % off, 0, M32)
        try:
            return super().invoke(c)
        finally:
            ex.split_ret = False

    def on_alloc(self, ex, st, inst, size, form, ptr, **kw):
        c = self.case
        if c is None or not self.real or not c.meth.startswith('Deserialize') or c.inlen is None or size is None:
            return
        ex.oblige('big', st.facts.ent_ge(c.inlen.scale(FACTOR).addc(BASE) - size), inst,
                  'allocates %s bytes, however short the input is' % ex.show(size), st)

    # ------------------------------------------------------------------ exits
    def exit_rules(self, c, st, v):
        self.exits += 1
        m = c.meth
        if m.startswith('Deserialize') and c.inp is not None:
            self.decoded(c, st, v)
        if m == 'Serialize':
            self.encoded(c, st, v)
        if self.copies(c):
            self.copied(c, st, v)
        if 'P29' in self.rep:
            held(self, c, st, v)
        if c.cls in self.ex.vclasses:
            self.typed(c, st, v)

    def typed(self, c, st, v):
        ex = self.ex
        tag = ex.vclasses[c.cls]
        if c.meth[0] != '~' and c.this in st.mem:
            t = st.mem[c.this].cells.get(ex.typeoff)
            self.rule('P06', tag is not None and t is not None and t[1].__class__ is L and st.facts.ent_eq(t[1].addc(-tag)), c,
                      'the type of the value may not be the one of its class', 'type of the object')
        if c.meth == 'GetType':
            self.rule('P06', tag is not None and v.__class__ is L and st.facts.ent_eq(v.addc(-tag)), c,
                      'reports another type than the one of the class', 'reported type')
        m = re.fullmatch(r'Value(\d+)([SU])', c.cls)
        if m and c.meth == 'GetSize':
            self.rule('P06', v.__class__ is L and st.facts.ent_eq(v.addc(-5 - int(m.group(1)) // 8)), c,
                      'the size of the content does not match the type', 'size of the content')
        if m and c.meth in ('Set', c.cls) and c.other is None:
            p = models_params(c.F)
            if len(p) == 1 and p[0] in WIDTH:
                w, s = WIDTH[p[0]]
                self.rule('P06', (w, s) == (int(m.group(1)), m.group(2)), c, 'the class holds a number of another type than its name and tag say',
                          'type of the number')

    def quiet(self, F_, args, st):
        """calls a function of the class on a final state; its obligations are not judged here"""
        ex = self.ex
        keep, ex.frame, real, self.real = ex.frame, None, self.real, False
        leaks, ex.leaks = ex.leaks, False
        nw, ex.nowrap = ex.nowrap, True
        ex.buf.append([])
        try:
            return ex.call(F_.name, args, st.copy())
        finally:
            ex.buf.pop()
            ex.frame, self.real, ex.leaks, ex.nowrap = keep, real, leaks, nw

    def method(self, cls, name):
        for F_ in self.methods(cls):
            if F_.short.endswith('::' + name):
                return F_
        return None

    def decoded(self, c, st, v):
        f = st.facts
        if v.__class__ is not L:
            return
        v = st.res(v)
        n = c.inlen
        self.rule('P02', f.ent_ge(n - v), c, 'the number of used bytes that is returned may be larger than the input', 'used bytes are within the input')
        if v == ZERO or f.ent_eq(v):
            return
        self.rule('P02', st.gh.get('failed') is None, c, 'success is reported although a part failed to decode',
                  'failure of a part is reported')
        if f.ent_ge(v.neg()):
            return
        what = 'announced size equals the decoded one'
        if c.cls in ('Request', 'Datum'):
            self.rule('P02', f.ent_eq(v - st.gh['in0']), c, 'success is reported with another number of bytes than the input announces', what)
        if c.cls == 'Datum':
            self.rule('P02', st.gh.get('decoded') is not None, c, 'success is reported without decoding a value', 'a datum has a decoded value')
        o = st.mem.get(c.this)
        if o is None or c.cls in ('Request', 'Datum'):
            return
        nested = False
        for off, (sz, x) in o.cells.items():
            x = st.res(x)
            if x.__class__ is Cont:
                nested = True
                self.rule('P02', f.ent_eq(x.n - x.h - st.gh['in5']), c, 'the number of elements may differ from the announced one', what)
        if nested:
            return
        G = self.method(c.cls, 'GetSize')
        if G is not None:
            for s2, z in self.quiet(G, [Ptr(c.this)], st):
                self.rule('P02', s2.facts.ent_ge(v - z), c, 'the decoded content may be larger than the bytes used for it',
                          'the content comes from the used bytes')
                if any(off > 0 and (c.this, off) in self.ex.ptrcells for off in o.cells):
                    # content of any length
                    self.rule('P02', s2.facts.ent_eq(v - z), c, 'the decoded content may be smaller than the bytes used for it',
                              'all used bytes are decoded')

    def encoded(self, c, st, v):
        ex = self.ex
        v = st.res(v)
        if not self.rule('P04', v.__class__ is Ptr and v.off == ZERO and v.o in st.mem and st.mem[v.o].kind == 'heap'
                         and st.mem[v.o].form == 'new[]' and st.mem[v.o].alive == 1, c,
                         'the result is not a fresh block allocated with new[]', 'result is a fresh block'):
            return
        o = st.mem[v.o]
        G = self.method(c.cls, 'GetSize')
        st = st.copy()
        st.gh['result'] = v
        for s2, z in self.quiet(G, [Ptr(c.this)], st):
            self.rule('P04', s2.facts.ent_eq(z - s2.mem[v.o].size), c, 'the size of the buffer may differ from GetSize()', 'size of the result')
            self.rule('P04', models.covered(s2, s2.mem[v.o], ZERO, z), c, 'some bytes of the buffer may stay unwritten', 'bytes of the result')

        if 'P05' in self.rep:
            self.roundtrip(c, st, v)

    def roundtrip(self, c, st, v):
        """decodes what was encoded into a fresh object"""
        ex = self.ex
        D = self.method(c.cls, 'Deserialize')
        if D is None:
            return
        for s, fresh_ in self.default(c.cls, st):
            size = s.mem[v.o].size
            s.gh['result'], s.gh['this'], s.gh['size'] = v, Ptr(c.this), size
            seqs = set()
            for off, (sz, x) in s.mem[c.this].cells.items():
                x = s.res(x)
                if x.__class__ is Cont:
                    seqs.add(x.seq)
                    if x.h == ZERO and not x.n.isc():
                        s.facts = s.facts.add_ge(ps(x.seq, x.n) - x.n.scale(5)) or s.facts
            s.facts = s.facts.add_ge(size.neg().addc(M32)) or s.facts
            for k in self.lengths(s, c.this):
                s.facts = s.facts.add_ge(k.neg().addc(65535)) or s.facts
            for off, (sz, x) in list(s.mem[v.o].cells.items()):
                for y, k in (x.t if x.__class__ is L else ()):
                    if abs(k) > 1 and s.facts.ent_ge(S(y).neg()) and s.facts.ent_ge(S(y)):
                        x = x - S(y).scale(k)
                        s.w(v.o).cells[off] = (sz, x)
            ex.rt, ex.split_ret, ex.monotone = True, True, frozenset(seqs)
            try:
                out = self.quiet(D, [Ptr(fresh_), v, size], s)
            finally:
                ex.rt, ex.split_ret, ex.monotone = False, False, frozenset()
            for s2, r in out:
                if not self.possible(s2, seqs):
                    continue
                size = s2.res(s2.gh['size'])
                if self.rule('P05', s2.facts.ent_eq(r - size), c, 'the decoder may refuse what the encoder makes', 'the encoding is accepted'):
                    why = self.differ(s2, fresh_, c.this)
                    self.rule('P05', why is None, c, 'what is decoded may differ from what was encoded: %s' % why, 'content after decoding')

    def possible(self, st, seqs):
        self.ex.monotone = frozenset(seqs)
        try:
            return self.ex.increasing(st)
        finally:
            self.ex.monotone = frozenset()

    def lengths(self, st, oid):
        return [st.res(x).n for off, (sz, x) in st.mem[oid].cells.items() if st.res(x).__class__ is Str]

    def default(self, cls, st):
        """a fresh object of the class next to the others; -> [(state, id)]"""
        ex = self.ex
        best = None
        for F_ in self.ctors(cls):
            p = split_params(F_.dem)
            if any('DowowNetwork' in x for x in p):
                continue
            if best is None or len(p) < len(split_params(best.dem)):
                best = F_
        if best is None:
            return
        s = st.copy()
        o = Obj(newid(), 'root', None, site='the decoded object')
        o.alive = 1
        s.mem[o.id] = o
        args = [Ptr(o.id)]
        for p, t in zip(split_params(best.dem), best.argty_()[1:]):
            if 'basic_string' in p:
                q = Obj(newid(), 'param', C(STRSZ), site='argument')
                q.cells[0] = (STRSZ, models.new_str(ex, s))
                s.mem[q.id] = q
                args.append(Ptr(q.id))
            else:
                args.append(ex.unknown(t, 'arg'))
        for s2, r in self.quiet(best, args, s):
            yield s2, o.id

    def copied(self, c, st, v):
        ex = self.ex
        f = st.facts
        if c.other is None or c.other not in st.mem or c.this not in st.mem or c.this == c.other:
            return
        if c.meth in ('CopyFrom', 'operator=') or c.meth == c.cls:
            if st.mem[c.other].kind == 'root':
                why = self.differ(st, c.this, c.other)
                self.rule('P07', why is None, c, 'the copy may differ from the original: %s' % why, 'content of the copy')
            return
        # a value was handed over: it is kept itself or as a copy
        g = st.mem[c.other]
        if c.meth == 'SetValue':
            ok = False
            for off, (sz, x) in st.mem[c.this].cells.items():
                x = st.res(x)
                if x.__class__ is Ptr and x.o in st.mem and st.mem[x.o].cls == 'Value':
                    ok = x.o == c.other if c.case.endswith('0') else x.o != c.other and models.same_value(self.ex, st, x.o, c.other)
            self.rule('P07', ok, c, 'the value set is not %s' % ('the given object' if c.case.endswith('0') else 'a copy of the given one'),
                      'value that was set')

    def differ(self, st, a, b):
        return models.differ(self.ex, st, a, b)


KIND = {'oob-r': 'reads within bounds', 'oob-w': 'writes within bounds', 'null': 'no null pointer used', 'rodata': 'constants not written',
        'uaf': 'no use after release', 'free': 'released once, in the right way', 'leak': 'nothing lost', 'elem': 'elements released once',
        'shared': 'one owner', 'type': 'copies between equal types', 'big': 'allocation bounded by the input'}


def run_class(mod, props, cls):
    j = Judge(mod, props)
    j.classes = [cls]
    if cls in j.ex.vclasses and 'P08' in j.rep:
        j.rep['P08'].check('D0' in j.ex.vslots.values(), cls, 'Value.hpp', 'Value::~Value',
                           'values are deleted through pointers to Value, whose destructor is not virtual: what %s holds is not released' % cls,
                           'released once, in the right way')
    try:
        j.run()
    except AnalysisError:
        if not j.ex.undecided:
            raise
        j.notes = cls + ': given up'
        return j
    j.notes = '%s: %d states of the object, %d activations, %d exits, %.1f s' % (cls, len(j.inv[cls]), j.cases, j.exits, j.seconds)
    return j


def run_factories(mod, props, cls):
    j = Judge(mod, props)
    ex = j.ex
    r = j.rep.get('P06')
    if r is None:
        return j
    tags = {t: n for n, t in ex.vclasses.items() if t is not None}
    facts = sorted(ex.factories.values(), key=lambda f: f.name)
    j.real = True
    where = {}
    for F_ in facts:
        at = '%s:%s' % next(((i.file.replace('/repo/', ''), i.line) for b in F_.blocks for i in b.insts if i.op == 'ret'), ('', 0))
        ex.modular = False
        for t in range(256):
            j.exits += 1
            ex.root = '%s(%d)' % (F_.short, t)
            for st, v in ex.call(F_.name, [C(t)], State()):
                v = st.res(v)
                ok = v.__class__ is Ptr and v.off == ZERO and st.mem[v.o].kind == 'heap' and st.mem[v.o].form == 'new' and st.mem[v.o].alive == 1
                r.check(ok, F_.short, at, F_.short, 'the result for a type tag is not a new value', 'the factory makes a value')
                if not ok:
                    continue
                g = st.mem[v.o].cells.get(ex.typeoff)
                got = g[1].c if g is not None and g[1].__class__ is L and g[1].isc() else None
                # the vtable says which class it is
                vt = st.res(st.mem[v.o].cells.get(0, (8, None))[1])
                made = st.mem[vt.o].cls if vt.__class__ is Ptr and vt.o in st.mem else None
                made = next((n for n in ex.vclasses if made and made.endswith('DowowNetwork%d%sE' % (len(n), n))), None)
                if t in tags:
                    r.check(got == t and made in (None, tags[t]), F_.short, at, F_.short,
                            'the value made for type tag %d reports type %s and is a %s instead of a %s' % (t, got, made, tags[t]), 'known type tags')
                else:
                    r.check(got == ex.vclasses.get('ValueUndefined'), F_.short, at, F_.short,
                            'the value made for an unknown type tag is not undefined (its type is %s)' % got, 'unknown type tags')
    r.check(len(tags) == len([n for n in ex.vclasses]), 'classes', 'ValueType.hpp', 'Value', 'two classes of values report the same type, or one reports none',
            'types are distinct')
    j.notes = '%d copies of the factory, 256 type tags, %d classes of values: %s' % (len(facts), len(tags), ' '.join('%s=%s' % (n, t) for t, n in sorted(tags.items())))
    return j


def checks(mod, props, thorough):
    out = {p: Rep() for p in props}
    classes = Codec(mod).classes + ([None] if 'P06' in props else [])
    kids = []
    for cls in classes:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                j = run_class(mod, props, cls) if cls else run_factories(mod, props, cls)
                for r in j.rep.values():
                    r.bad.update(j.ex.undecided)
                    r.paths = j.exits
                    r.notes.append(j.notes)
                blob = pickle.dumps(('ok', j.rep))
            except BaseException:
                blob = pickle.dumps(('error', '%s: %s' % (cls, traceback.format_exc())))
            with os.fdopen(wr, 'wb') as f:
                f.write(blob)
            os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    err = None
    for pid, rd in kids:
        with os.fdopen(rd, 'rb') as f:
            blob = f.read()
        os.waitpid(pid, 0)
        kind, part = pickle.loads(blob)
        if kind == 'error':
            err = err or part
            continue
        for p, r in part.items():
            o = out[p]
            for k, v in r.bad.items():
                o.bad.setdefault(k, v)
            for k, n in r.obl.items():
                o.obl[k] = o.obl.get(k, 0) + n
            o.roots.update(r.roots)
            o.paths += r.paths
            o.notes += r.notes
    if err:
        raise RuntimeError(err)
    return out
