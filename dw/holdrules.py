"""Rules over what the setters of values, data, requests and arrays leave behind, as their getters tell it (property P29)."""
import re
from .absint import *
from . import models
from .models import STRSZ, split_params
from .values import Str, Cont

NS = 'DowowNetwork::'
NUM = re.compile(r'Value(\d+)([SU])')


def string_at(st, p):
    """the string a pointer leads to"""
    p = st.res(p)
    if p.__class__ is Str:
        return p
    if p.__class__ is Ptr and p.o in st.mem and p.off.isc():
        x = st.mem[p.o].cells.get(p.off.c)
        x = st.res(x[1]) if x else None
        if x.__class__ is Str:
            return x
    return None


def text_at(ex, st, p):
    """the string that was given, also as a C string"""
    s = string_at(st, p)
    if s is None and p.__class__ is Ptr and p.o in st.mem and any(m[0] == 'cstr' for m in st.mem[p.o].meta if m.__class__ is tuple):
        s = models.cstr(ex, st, p, None)
    return s


def same_text(st, a, b):
    return a is not None and b is not None and st.facts.ent_eq(a.n - b.n) and (
        a.sid == b.sid or a.lit is not None and a.lit == b.lit or st.facts.ent_eq(a.n))


def getters(j, cls, name):
    """the functions of a class that tell what it holds: by name, and its conversions"""
    out = []
    for F_ in j.methods(cls):
        s = F_.short
        meth = s[models.method_split(s) + 2:]
        n = len(F_.argty_()) - (2 if F_.sret else 1)
        if n == 0 and (meth == name or name == 'Get' and meth.startswith('operator ') and s.startswith(NS + cls + '::')):
            out.append(F_)
    return out


def told(j, F_, this, st):
    """-> [(state, what a getter returns)]"""
    if not F_.sret:
        return j.quiet(F_, [Ptr(this)], st)
    s = st.copy()
    r = Obj(newid(), 'param', C(STRSZ), site='result')
    s.mem[r.id] = r
    return [(s2, string_at(s2, Ptr(r.id))) for s2, v in j.quiet(F_, [Ptr(r.id), Ptr(this)], s)]


def list_of(st, oid):
    for off, (sz, x) in st.mem[oid].cells.items() if oid in st.mem else ():
        x = st.res(x)
        if x.__class__ is Cont:
            return x
    return None


def unchanged(f, a, b):
    return a is not None and b is not None and a.seq == b.seq and f.ent_eq(a.n - b.n) and f.ent_eq(a.h - b.h) and a.over == b.over and a.holes == b.holes


def held(j, c, st, v):
    """rules at one exit of one function"""
    if c.this not in st.mem or c.meth.startswith('~'):
        return
    ex, f = j.ex, st.facts
    par = split_params(c.F.dem)
    args = c.args[2:] if c.F.sret else c.args[1:]
    ctor = c.meth == c.cls
    own = c.F.short.startswith(NS + c.cls + '::')
    if NUM.fullmatch(c.cls) and own and (c.meth == 'Set' or ctor) and len(args) == 1 and args[0].__class__ is L:
        for G in getters(j, c.cls, 'Get'):
            for s2, r in told(j, G, c.this, st):
                j.rule('P29', r.__class__ is L and s2.facts.ent_eq(r - args[0]), c,
                       '%s does not return the number that was stored' % G.short[len(NS):], 'numbers that were stored')
    if c.cls == 'ValueStr' and own and (c.meth in ('Set', 'operator=') or ctor) and args:
        w = text_at(ex, st, args[0])
        if len(args) == 2 and args[0].__class__ is Ptr and args[1].__class__ is L:
            block(j, c, st, args)
        elif w is not None:
            for G in getters(j, c.cls, 'Get'):
                for s2, r in told(j, G, c.this, st):
                    j.rule('P29', same_text(s2, r, w), c, '%s does not return the string that was stored' % G.short[len(NS):],
                           'strings that were stored')
    if c.cls in ('Datum', 'Request') and own:
        if (c.meth == 'SetName' or ctor and par and 'basic_string' in par[0]) and args:
            w = string_at(c.st, args[0])
            for G in getters(j, c.cls, 'GetName'):
                for s2, r in told(j, G, c.this, st):
                    j.rule('P29', same_text(s2, r, w), c, 'GetName() does not return the name that was set', 'names that were set')
        if c.meth == 'SetId' and args[0].__class__ is L:
            for G in getters(j, c.cls, 'GetId'):
                for s2, r in told(j, G, c.this, st):
                    j.rule('P29', r.__class__ is L and s2.facts.ent_eq(r - args[0]), c, 'GetId() does not return the id that was set', 'ids that were set')
    if c.cls == 'Datum' and own and c.meth == 'SetValue':
        for G in getters(j, c.cls, 'GetValue'):
            for s2, r in told(j, G, c.this, st):
                r = s2.res(r) if r is not None else None
                ok = r.__class__ is Ptr and r.o in s2.mem and s2.mem[r.o].cls == 'Value' and s2.mem[r.o].alive == 1
                j.rule('P29', ok, c, 'GetValue() does not return a value after SetValue()', 'values that were set')
                if not ok:
                    continue
                t = s2.mem[r.o].cells.get(ex.typeoff)
                for H in getters(j, c.cls, 'GetType'):
                    for s3, q in told(j, H, c.this, s2):
                        j.rule('P29', t is not None and q.__class__ is L and s3.facts.ent_eq(q - t[1]), c,
                               'GetType() does not return the type of the value', 'types told')
    if c.cls == 'ValueArr' and own:
        array(j, c, st, v, args)
    if c.cls == 'Request' and own and c.meth == 'Set' and c.other is not None and c.case.find('own part') < 0:
        named(j, c, st, args)
    if c.cls == 'Request' and own and c.meth == 'Get' and len(args) == 1:
        asked(j, c, st, v, args)


def block(j, c, st, args):
    """bytes and their number"""
    G = next(iter(getters(j, c.cls, 'Get')), None)
    for s2, r in (told(j, G, c.this, st) if G else ()):
        j.rule('P29', r is not None and s2.facts.ent_eq(r.n - args[1]), c, 'Get() does not return as many bytes as were stored', 'strings that were stored')
    f = st.facts
    if f.ent_eq(args[1]):
        return
    for off, (sz, x) in st.mem[c.this].cells.items():
        x = st.res(x)
        if x.__class__ is Ptr and x.o in st.mem and st.mem[x.o].kind == 'heap':
            o = st.mem[x.o]
            j.rule('P29', models.covered(st, o, ZERO, args[1]), c, 'some bytes of the string may not be stored', 'strings that were stored')


def array(j, c, st, v, args):
    ex, f = j.ex, st.facts
    a, b = list_of(c.st, c.this), list_of(st, c.this)
    if a is None or b is None:
        return
    n, m = a.n - a.h, b.n - b.h
    what = 'elements of arrays'
    if c.meth == 'Push' and c.other is not None:
        if not j.rule('P29', f.ent_eq(m - n - ONE), c, 'Push() does not add exactly one element', what):
            return
        new = [x for i, x in b.over if f.ent_eq(b.n - i - ONE)]
        x = st.res(new[-1]) if new else None
        g = c.other if c.other in st.mem else None
        j.rule('P29', x.__class__ is Ptr and x.o in st.mem and (g is None or models.same_value(ex, st, x.o, g)), c,
               'the element at the end is not a copy of the value that was pushed', what)
        j.rule('P29', a.seq == b.seq and f.ent_eq(a.h - b.h), c, 'Push() changes other elements', what)
    if c.meth == 'GetCount' and v.__class__ is L:
        j.rule('P29', f.ent_eq(v - n), c, 'the number of elements that is told is not the number of elements', what)
    if c.meth == 'Clear':
        j.rule('P29', f.ent_eq(m), c, 'elements stay after Clear()', what)
    if c.meth == 'New' and args[0].__class__ is L:
        j.rule('P29', f.ent_eq(m - args[0]), c, 'New() does not make as many elements as asked for', what)
    if c.meth == 'Get' and args and args[0].__class__ is L:
        i = args[0]
        r = st.res(v)
        j.rule('P29', unchanged(f, a, b), c, 'Get() changes the array', what)
        null = r.__class__ is L and f.ent_eq(r)
        if null:
            j.rule('P29', f.ent_ge(i - n), c, 'no element is returned although there is one at the index', what)
        elif r.__class__ is Ptr and r.o in st.mem:
            o = st.mem[r.o].owner
            j.rule('P29', f.ent_ge(n - i - ONE) and o.__class__ is tuple and o[0] == 'cont' and o[1] == a.seq and f.ent_eq(o[2] - a.h - i), c,
                   'another element than the one at the index is returned', what)
    if c.meth == 'Set' and len(args) == 2 and v is not None:
        i = args[0]
        g = c.other if c.other in st.mem and c.case.find('own part') < 0 else None
        null = args[1].__class__ is L and f.ent_eq(st.res(args[1]))
        done = ex.cond(st, v)
        for s in ex.assume(st.copy(), models.cnot(done)):
            f = s.facts
            j.rule('P29', null or f.ent_ge(i - n), c, 'Set() refuses an index that exists', what)
            j.rule('P29', unchanged(f, a, b), c, 'Set() changes the array although it refuses', what)
        for s in ex.assume(st.copy(), done):
            f = s.facts
            j.rule('P29', not null and f.ent_ge(n - i - ONE), c, 'Set() reports success for an index that does not exist', what)
            j.rule('P29', f.ent_eq(m - n), c, 'Set() changes the number of elements', what)
            new = [x for k, x in b.over if f.ent_eq(k - b.h - i)]
            x = s.res(new[-1]) if new else None
            j.rule('P29', x.__class__ is Ptr and x.o in s.mem and (g is None or models.same_value(ex, s, x.o, g)), c,
                   'the element at the index is not a copy of the value that was set', what)
            j.rule('P29', a.seq == b.seq and f.ent_eq(a.h - b.h) and
                   all(f.ent_eq(k - b.h - i) or (k, x) in a.over for k, x in b.over), c, 'Set() changes other elements', what)


def holders(ex, st, b, v):
    """the elements of a list of data that hold the value -> [(index, object)]"""
    out = []
    for o in list(st.mem.values()):
        if o.kind == 'elem' and o.cls == 'Datum' and o.owner.__class__ is tuple and o.owner[:2] == ('cont', b.seq):
            for off, (sz, y) in o.cells.items():
                y = st.res(y)
                if off >= 0 and (y.__class__ is Ptr and y.o == v or y.__class__ is PSym and y == v):
                    out.append((o.owner[2], o))
    return out


def is_named(ex, st, i, o, w):
    """element i of a list of data has the name w: None if nothing is known about it"""
    k = i.single() if not i.isc() else None
    a = SY.ufargs.get(k) if k is not None else None
    if k is None and any((SY.ufargs.get(x) or ' ')[0] == 'find' for x, _ in i.t):
        return False        # one beside the one that was found
    if a and a[0] == 'find':
        asked = [x for x in a if x.__class__ is tuple and x[:1] == ('s',)]
        return len(asked) == 1 and asked[0][1] in (w.sid, w.lit) and ex.byname.get(a[5], False)
    s = next((st.res(y) for off, (sz, y) in sorted(o.cells.items()) if st.res(y).__class__ is Str), None)
    if s is None:
        return None
    for grp in (st.facts.ge, st.facts.eq, st.facts.ne):
        for l in grp:
            for x, _ in l.t:
                a = SY.ufargs.get(x)
                if a and a[0] == 'find' and a[1] == o.owner[1] and any(y in (('s', w.sid), ('s', w.lit)) for y in a if y.__class__ is tuple):
                    if not st.facts.ent_eq(S(x) - i):
                        return False        # another one was found under the name
    return not ex.assume(st.copy(), models.cnot(models.streq(ex, st, s, w))) or None


def named(j, c, st, args):
    """an argument was set: it is there under its name"""
    ex, f = j.ex, st.facts
    a, b = list_of(c.st, c.this), list_of(st, c.this)
    w = string_at(c.st, args[0])
    if a is None or b is None or w is None:
        return
    what = 'arguments of requests'
    grown = b.n - b.h - a.n + a.h
    if f.ent_eq(grown - ONE):
        new = [x for i, x in b.over if f.ent_eq(b.n - i - ONE)] or [x for i, x in b.over if f.ent_eq(i - b.h)]
        x = st.res(new[-1]) if new else None
        if not j.rule('P29', x.__class__ is Ptr and x.o in st.mem, c, 'the new argument is not in the list', what):
            return
        o = st.mem[x.o]
        s = next((st.res(y) for off, (sz, y) in sorted(o.cells.items()) if st.res(y).__class__ is Str), None)
        j.rule('P29', same_text(st, s, w), c, 'the new argument has another name than the one given', what)
        val = [st.res(y) for off, (sz, y) in o.cells.items() if off >= 0]
        val = [y for y in val if y.__class__ is Ptr and y.o in st.mem and st.mem[y.o].cls == 'Value']
        keep = c.case.endswith('0')
        j.rule('P29', len(val) == 1 and (keep and val[0].o == c.other or not keep and c.other in st.mem and models.same_value(ex, st, val[0].o, c.other)), c,
               'the new argument does not hold the value given', what)
    else:
        j.rule('P29', f.ent_eq(grown), c, 'setting an argument changes the number of arguments by something else than one', what)
        keep = c.case.endswith('0')
        at = []
        for o in list(st.mem.values()):
            if o.cls == 'Value' and o.alive == 1 and (keep and o.id == c.other or not keep and o.id != c.other and c.other in st.mem and
                                                      models.same_value(ex, st, o.id, c.other)):
                at += holders(ex, st, b, o.id)
        j.rule('P29', bool(at), c, 'no argument holds the value given', what)
        for i, o in at:
            j.rule('P29', is_named(ex, st, i, o, w) is not False, c, 'the value is given to an argument with another name', what)


def asked(j, c, st, v, args):
    """the value of an argument, by its name"""
    ex = j.ex
    b, w = list_of(st, c.this), string_at(c.st, args[0])
    r = st.res(v) if v is not None else None
    if b is None or w is None or r.__class__ not in (Ptr, PSym) or r.__class__ is Ptr and r.o not in st.mem:
        return
    for i, o in holders(ex, st, b, r.o if r.__class__ is Ptr else r):
        j.rule('P29', is_named(ex, st, i, o, w) is not False, c, 'Get() returns the value of an argument with another name', 'arguments of requests')
