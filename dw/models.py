"""Models of the standard library and of the C library."""
import re
from .lin import L, SY, C, S, ZERO, ONE, fresh, ufn
from .values import *
from . import absint
from .absint import Obj, State, newid, new_psym, ELEM, STRBUF, ps, STRMAX, AnalysisError

GH_TYPE, GH_SIZE, GH_CONT = -1, -2, -3
STRSZ = 32
CSZ = {'vector': 24, 'list': 24, 'deque': 80, 'queue': 80, 'stack': 80, 'map': 48, 'set': 48, 'unordered_map': 56,
       'unordered_set': 56}


def split_params(dem):
    """parameter types of a demangled signature"""
    d = dem
    depth = 0
    end = len(d)
    # find the last top-level parenthesised group
    i = len(d) - 1
    close = None
    while i >= 0:
        c = d[i]
        if c == ')':
            if depth == 0 and close is None:
                close = i
            depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0 and close is not None:
                inner = d[i + 1:close]
                break
        i -= 1
    else:
        return []
    out, depth, cur = [], 0, ''
    for c in inner:
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def tpl_args(s):
    """top-level template arguments of the first <...> in s"""
    i = s.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for c in s[i:]:
        if c in '<(':
            depth += 1
            if depth == 1:
                continue
        elif c in '>)':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    out.append(cur.strip())
    return out


def strip_tpl(s):
    out, d = '', 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator<', i) or s.startswith('operator>', i):
            m = re.match(r'operator[<>=]+', s[i:])
            out += m.group(0) if d == 0 else ''
            i += len(m.group(0))
            continue
        if s.startswith('operator->', i):
            out += 'operator->' if d == 0 else ''
            i += 10
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


# ---------------------------------------------------------------------- strings
def sval(ex, st, p, inst=None):
    """std::string object behind pointer p"""
    p = ex.deref(st, p, inst, 'read')
    if p.__class__ is Slot:
        key = ('es', p.seq, p.idx, p.sub)
        return Str(key, ufn(('len',) + key, 'len', 0, STRMAX))
    if p.__class__ is not Ptr:
        return Str(('u', newid()), fresh('len', 0, STRMAX))
    h = getattr(ex, 'touch', None)
    if h is not None and p.off.isc():
        h(st, p.o, p.off.c, ('str',), inst)
    o = st.mem[p.o]
    if p.off.isc():
        c = o.cells.get(p.off.c)
        if c is not None and c[1].__class__ is Str:
            return c[1]
        if c is not None and c[1].__class__ is Opaque and c[1].tag == 'dead-str':
            ex.oblige('uaf', False, inst, 'use of a destroyed string', st)
        ex.strcells.add((p.o, p.off.c))
        s = init_str(o, p.off.c)
        w = st.w(p.o)
        w.cells[p.off.c] = (STRSZ, s)
        return s
    return Str(('u', newid()), fresh('len', 0, STRMAX))


def init_str(o, off):
    return Str(('in', o.id, off), ufn(('len', 'in', o.id, off), 'len', 0, STRMAX))


def sset(ex, st, p, s, inst=None):
    p = ex.deref(st, p, inst, 'write')
    if p.__class__ is Ptr:
        if p.off.isc():
            ex.strcells.add((p.o, p.off.c))
        ex.put(st, p.o, p.off, STRSZ, s)
        h = getattr(ex, 'on_strstore', None)
        if h:
            h(ex, st, inst, p, s)


def new_str(ex, st, n=None, lit=None):
    if lit is not None:
        return Str(('lit', lit), C(len(lit)), lit)
    return Str(('n', newid()), n if n is not None else fresh('len', 0, STRMAX))


def lit_at(ex, st, p):
    """bytes of a constant C string"""
    if p.__class__ is Ptr and p.o in st.mem and p.off.isc():
        o = st.mem[p.o]
        for m in o.meta:
            if m[0] == 'lit':
                b = m[1][p.off.c:]
                k = b.find(b'\0')
                if k >= 0:
                    return b[:k]
    return None


def cstr(ex, st, p, inst):
    """content of a NUL-terminated string argument"""
    p = st.res(p)
    lit = lit_at(ex, st, p)
    if lit is not None:
        return new_str(ex, st, lit=lit)
    p = ex.deref(st, p, inst, 'read')
    if p.__class__ is Ptr:
        o = st.mem[p.o]
        for m in o.meta:
            if m[0] == 'strbuf' and p.off == ZERO:
                if getattr(ex, 'factories', None) is not None and m[1].lit is None:
                    # up to the first zero byte
                    n = ufn(('cut', m[1].sid), 'len', 0, STRMAX)
                    f = st.facts.add_ge(m[1].n - n)
                    st.facts = f or st.facts
                    return Str(('cut', m[1].sid), n)
                return m[1]
        if o.size is not None and o.kind in ('heap', 'param', 'input') and not any(m[0] == 'cstr' for m in o.meta):
            ex.oblige('oob-r', False, inst, 'read up to an unknown terminator in %s' % ex.oname(o), st)
        if p.off == ZERO and not o.segs and any(m[0] == 'cstr' for m in o.meta):
            # the same text each time
            return Str(('cstr', p.o), ufn(('cstrlen', p.o), 'len', 0, STRMAX))
    return new_str(ex, st)


def bytes_str(ex, st, p, n, inst):
    """string made of n bytes at p"""
    if n.isc() and n.c == 0:
        return new_str(ex, st, lit=b'')
    p = ex.deref(st, p, inst, 'read')
    if p.__class__ is not Ptr:
        return new_str(ex, st, n)
    o = st.mem[p.o]
    ex.inb(st, o, p.off, n, inst, 'read')
    ct = src_content(ex, st, o, p.off, n)
    if ct[0] == 'ent':
        if ct[1][0] == 'S' and ct[2] == ZERO:
            sid = ct[1][1]
            whole = ex.strlen.get(sid)
            if whole is not None and st.facts.ent_eq(whole - n):
                return Str(sid, n)
        return Str(('sub', ct[1], ct[2]), n)
    return new_str(ex, st, n)


def strbuf(ex, st, s):
    k = (s.sid, s.n)
    oid = STRBUF.get(k)
    if oid is None:
        oid = STRBUF[k] = newid()
    if oid not in st.mem:
        o = Obj(oid, 'strbuf', s.n.addc(1), site='the characters of a string')
        ent = ('S', s.sid)
        if s.sid.__class__ is tuple and s.sid[0] == 'sub':
            o.segs = ((ZERO, s.n, ('ent', s.sid[1], s.sid[2])), (s.n, ONE, ('zero',)))
        else:
            ex.strlen[s.sid] = s.n
            o.segs = ((ZERO, s.n, ('ent', ent, ZERO)), (s.n, ONE, ('zero',)))
        o.meta = (('strbuf', s),)
        if s.lit is not None:
            o.meta += (('lit', s.lit + b'\0'),)
        st.mem[oid] = o
    return Ptr(oid, ZERO)


def streq(ex, st, a, b):
    if a.sid == b.sid and a.n == b.n:
        return T
    if a.lit is not None and b.lit is not None:
        return T if a.lit == b.lit else F
    ka, kb = a.lit if a.lit is not None else a.sid, b.lit if b.lit is not None else b.sid
    c = ceq(ufn(('streq', frozenset((ka, kb))), 'streq', 0, 1).addc(-1))
    for x, y in ((a, b), (b, a)):
        if x.lit is not None and len(x.lit) == 0:
            return ceq(y.n)
    return cand(c, ceq(a.n - b.n)) if not (a.lit is not None or b.lit is not None) else c


def string_method(ex, F_, meth, params):
    """-> handler(ex, fr, st, inst, args) or None"""
    sret = ex.has_sret(F_)

    def arg_str(st, ty, v, inst):
        if 'basic_string' in ty or 'string_view' in ty and False:
            return sval(ex, st, v, inst)
        if ty.startswith('char const*') or ty == 'char*':
            return cstr(ex, st, v, inst)
        return None

    def one(st, v=None):
        return [(st, v)]

    if meth.startswith('basic_string'):
        def ctor(ex, fr, st, inst, a):
            this = a[0]
            if not params or params[0].startswith('std::allocator'):
                s = new_str(ex, st, lit=b'')
            elif 'basic_string' in params[0]:
                s = sval(ex, st, a[1], inst)
                if len(params) > 1 and params[1].startswith('unsigned long'):
                    s = new_str(ex, st)
                elif params[0].endswith('&&'):
                    sset(ex, st, a[1], new_str(ex, st, lit=b''), inst)
            elif params[0].startswith('char const*'):
                if len(params) > 1 and params[1].startswith('unsigned long'):
                    n = ex.view_u(st, ex.asint(st, a[2]), 64)
                    s = bytes_str(ex, st, a[1], n, inst)
                elif len(params) > 1 and params[1].startswith('char const*'):
                    p, q = st.res(a[1]), st.res(a[2])
                    if p.__class__ is Ptr and q.__class__ is Ptr and p.o == q.o:
                        s = bytes_str(ex, st, p, q.off - p.off, inst)
                    else:
                        s = new_str(ex, st)
                else:
                    s = cstr(ex, st, a[1], inst)
            elif params[0].startswith('unsigned long'):
                s = new_str(ex, st, ex.view_u(st, ex.asint(st, a[1]), 64))
            else:
                s = new_str(ex, st)
            sset(ex, st, this, s, inst)
            return one(st)
        return ctor
    if meth == '~basic_string':
        def dtor(ex, fr, st, inst, a):
            p = st.res(a[0])
            if p.__class__ is Ptr and p.off.isc():
                o = st.mem[p.o]
                c = o.cells.get(p.off.c)
                if c is not None and c[1].__class__ is Opaque and c[1].tag == 'dead-str':
                    ex.oblige('uaf', False, inst, 'string destroyed twice', st)
                ex.put(st, p.o, p.off, STRSZ, Opaque('dead-str'))
            return one(st)
        return dtor
    k = 1 if sret else 0

    if meth in ('size', 'length'):
        return lambda ex, fr, st, inst, a: one(st, sval(ex, st, a[0], inst).n)
    if meth == 'capacity':
        return lambda ex, fr, st, inst, a: one(st, fresh('cap', 0, STRMAX))
    if meth == 'empty':
        return lambda ex, fr, st, inst, a: one(st, Bool(ceq(sval(ex, st, a[0], inst).n)))
    if meth in ('c_str', 'data', '_M_data', 'begin', 'cbegin'):
        return lambda ex, fr, st, inst, a: one(st, strbuf(ex, st, sval(ex, st, a[0], inst)))
    if meth in ('end', 'cend'):
        def send(ex, fr, st, inst, a):
            s = sval(ex, st, a[0], inst)
            return one(st, Ptr(strbuf(ex, st, s).o, s.n))
        return send
    if meth in ('operator[]', 'at'):
        def sidx(ex, fr, st, inst, a):
            s = sval(ex, st, a[0], inst)
            return one(st, Ptr(strbuf(ex, st, s).o, ex.view_u(st, ex.asint(st, a[1]), 64)))
        return sidx
    if meth in ('front', 'back'):
        def sfb(ex, fr, st, inst, a):
            s = sval(ex, st, a[0], inst)
            return one(st, Ptr(strbuf(ex, st, s).o, ZERO if meth == 'front' else s.n.addc(-1)))
        return sfb
    if meth in ('operator=', 'assign'):
        def sasg(ex, fr, st, inst, a):
            if len(params) == 1:
                s = arg_str(st, params[0], a[1], inst) or new_str(ex, st, ONE)
            elif params[0].startswith('char const*') and params[1].startswith('unsigned long'):
                s = bytes_str(ex, st, a[1], ex.view_u(st, ex.asint(st, a[2]), 64), inst)
            elif params[0].startswith('char') and params[1].startswith('char') and a[1].__class__ is Ptr and \
                    a[2].__class__ is Ptr and a[1].o == a[2].o:
                s = bytes_str(ex, st, a[1], a[2].off - a[1].off, inst)
            else:
                s = new_str(ex, st)
            if params and params[0].endswith('&&') and 'basic_string' in params[0] and st.res(a[1]) != st.res(a[0]):
                sset(ex, st, a[1], new_str(ex, st), inst)
            sset(ex, st, a[0], s, inst)
            return one(st, a[0])
        return sasg
    if meth in ('operator+=', 'append', 'push_back', 'insert', 'replace', 'erase', 'resize', 'pop_back'):
        def smod(ex, fr, st, inst, a):
            s = sval(ex, st, a[0], inst)
            n = None
            if meth in ('operator+=', 'append', 'push_back') and len(params) == 1:
                x = arg_str(st, params[0], a[1], inst)
                n = s.n + (x.n if x is not None else ONE)
            elif meth == 'append' and len(params) == 2 and params[0].startswith('unsigned long'):
                n = s.n + ex.view_u(st, ex.asint(st, a[1]), 64)
            elif meth == 'resize':
                n = ex.view_u(st, ex.asint(st, a[1]), 64)
            sset(ex, st, a[0], new_str(ex, st, n), inst)
            return one(st, a[0] if inst is None or inst.ty.kind == 'ptr' else None)
        return smod
    if meth in ('clear',):
        def sclr(ex, fr, st, inst, a):
            sset(ex, st, a[0], new_str(ex, st, lit=b''), inst)
            return one(st)
        return sclr
    if meth in ('reserve', 'shrink_to_fit'):
        return lambda ex, fr, st, inst, a: one(st)
    if meth == 'substr':
        def ssub(ex, fr, st, inst, a):
            s = sval(ex, st, a[1], inst)
            n = fresh('len', 0, STRMAX)
            st.facts = st.facts.add_ge(s.n - n) or st.facts
            sset(ex, st, a[0], new_str(ex, st, n), inst)
            return one(st)
        return ssub
    if meth == 'swap':
        def sswap(ex, fr, st, inst, a):
            x, y = sval(ex, st, a[0], inst), sval(ex, st, a[1], inst)
            sset(ex, st, a[0], y, inst)
            sset(ex, st, a[1], x, inst)
            return one(st)
        return sswap
    if meth == 'compare':
        def scmp(ex, fr, st, inst, a):
            x = sval(ex, st, a[0], inst)
            y = arg_str(st, params[0], a[1], inst) if len(params) == 1 else None
            if y is None:
                return one(st, fresh('cmp', -1, 1))
            c = streq(ex, st, x, y)
            ex.event(st, 'streq', inst, a=x, b=y)
            return one(st, bool_int(cnot(c)))
        return scmp
    if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        return lambda ex, fr, st, inst, a: one(st, fresh('pos', 0, (1 << 64) - 1))
    if meth.startswith('get_allocator') or meth.startswith('~'):
        return lambda ex, fr, st, inst, a: one(st)
    return None


# ---------------------------------------------------------------------- containers
def kind_of(cls):
    m = re.match(r'std::(?:__cxx11::)?(?:__cxx1998::)?(vector|list|deque|queue|stack|map|set|unordered_map|unordered_set)$',
                 strip_tpl(cls))
    return m.group(1) if m else None


def elem_class(cls):
    a = tpl_args(cls)
    return a[0] if a else ''


def short_elem(t):
    t = t.strip()
    m = re.match(r'DowowNetwork::(\w+)( const)?\*( const)?$', t)
    return m.group(1) if m else ''


def cget(ex, st, p, inst, kind, elem):
    """(oid, off, Cont) of the container behind p"""
    p = ex.deref(st, p, inst, 'read')
    if p.__class__ is not Ptr or not p.off.isc():
        return None
    h = getattr(ex, 'touch', None)
    if h is not None:
        h(st, p.o, p.off.c, ('cont', kind, elem), inst)
    o = st.mem[p.o]
    c = o.cells.get(p.off.c)
    if c is not None and c[1].__class__ is Cont:
        return p.o, p.off.c, c[1]
    if c is not None and c[1].__class__ is Opaque and c[1].tag == 'dead-cont':
        ex.oblige('uaf', False, inst, 'use of a destroyed container', st)
    v = init_cont(ex, o, p.off.c, kind, elem)
    st.w(p.o).cells[p.off.c] = (CSZ[kind], v)
    return p.o, p.off.c, v


def init_cont(ex, o, off, kind, elem):
    ex.contcells[(o.id, off)] = (kind, elem)
    n = ufn(('cn', o.id, off), 'count', 0, STRMAX)
    return Cont(kind, ('in', o.id, off), ZERO, n, elem=elem)


def cset(ex, st, oid, off, v, inst=None):
    old = st.mem[oid].cells.get(off)
    st.w(oid).cells[off] = (CSZ[v.kind], v)
    h = getattr(ex, 'on_contstore', None)
    if h:
        h(ex, st, inst, oid, off, old[1] if old else None, v)


OWNED = ('Value', 'Datum', 'Request')


def base_count(c):
    """number of elements of the base sequence (the rest was pushed)"""
    k = len(c.over)
    j = 0
    while j < k and c.over[k - 1 - j][0] == c.n.addc(-1 - j):
        j += 1
    return c.n.addc(-j), c.over[k - j:], c.over[:k - j]


def mirror(ex, st, c):
    """which sequence the elements equal, one by one: 'any' (no elements), its name, 'shared'
    (some elements belong to another container) or None"""
    f = st.facts
    if f.ent_eq(c.n - c.h):
        return 'any'
    bc, pushed, sets = base_count(c)
    r = 'any' if f.ent_eq(bc - c.h) else c.iso
    if c.elem not in OWNED:
        return r
    same = not sets and c.h == ZERO
    for i, x in pushed + sets:
        x = st.res(x)
        o = st.mem.get(x.o) if x.__class__ is Ptr else None
        if o is None:
            same = False
            continue
        w = o.owner
        if o.kind in ('elem', 'lazy') and o.alive == 1 and w.__class__ is tuple and w[0] == 'cont' and w[1] != c.seq:
            return 'shared'
        s = o.cells.get(GH_CONT)
        s = s[1].sid if s and s[1].__class__ is Str else None
        if s is None and o.cls == 'Datum':
            for q in list(st.mem.values()):
                w = q.owner
                if q.cls == 'Datum' and w.__class__ is tuple and w[0] == 'cont' and w[1] != c.seq and r in ('any', w[1]) and \
                        f.ent_eq(w[2] - i + c.h) and differ(ex, st, x.o, q.id) is None:
                    s = ('e', w[1], w[2])
                    break
        if not (s.__class__ is tuple and s[0] == 'e' and r in ('any', s[1]) and f.ent_eq(s[2] - i + c.h)):
            same = False
        elif same:
            r = s[1]
    return r if r == 'shared' or same else None


def same_value(ex, st, a, b):
    x, y = st.mem[a], st.mem[b]
    t = ex.typeoff
    ta, tb = x.cells.get(t), y.cells.get(t)
    ca, cb = x.cells.get(GH_CONT), y.cells.get(GH_CONT)
    return bool(ta and tb and st.facts.ent_eq(ta[1] - tb[1]) and ca and cb and ca[1] == cb[1])


def differ(ex, st, a, b):
    """None, or what may differ between two objects"""
    f = st.facts
    x, y = st.mem[a], st.mem[b]
    for off in sorted(set(x.cells) | set(y.cells)):
        if off < 0:
            continue
        if off not in x.cells or off not in y.cells:
            return 'offset %d' % off
        p, q = st.res(x.cells[off][1]), st.res(y.cells[off][1])
        if p.__class__ is L and q.__class__ is L:
            if not f.ent_eq(p - q):
                return 'the field at offset %d' % off
        elif p.__class__ is Str and q.__class__ is Str:
            if not f.ent_eq(p.n - q.n) or p.sid != q.sid and not f.ent_eq(p.n):
                return 'the string at offset %d' % off
        elif p.__class__ is Cont and q.__class__ is Cont:
            if not f.ent_eq(p.n - p.h - q.n + q.h) and not (q.h == ZERO == p.h and f.ent_eq(ps(q.seq, p.n) - ps(q.seq, q.n))):
                return 'the number of elements'
            if p.seq != q.seq and p.elem == 'Value' and mirror(ex, st, p) not in ('any', q.seq):
                return 'the elements or their order'
        elif p.__class__ is Ptr and q.__class__ is Ptr and p.o in st.mem and q.o in st.mem:
            o, r = st.mem[p.o], st.mem[q.o]
            if o.kind == 'global' and p == q:
                continue
            if o.cls == 'Value' and r.cls == 'Value':
                if not same_value(ex, st, p.o, q.o):
                    return 'the value at offset %d' % off
            elif o.size is not None and r.size is not None:
                if p.o == q.o or not f.ent_eq(o.size - r.size):
                    return 'the block at offset %d' % off
                if not f.ent_eq(o.size) and (len(o.segs) != 1 or len(r.segs) != 1 or o.segs[0][2] != r.segs[0][2]
                                             or not covered(st, o, ZERO, o.size) or not covered(st, r, ZERO, r.size)):
                    return 'the bytes of the block at offset %d' % off
        elif L in (p.__class__, q.__class__) and Ptr in (p.__class__, q.__class__):
            k = p if p.__class__ is Ptr else q
            o = st.mem.get(k.o)
            if o is None or o.size is None or not f.ent_eq(o.size):
                return 'the block at offset %d' % off
    return None


def elem_obj(ex, st, c, idx, oid=None):
    """object of base element idx"""
    known = ex.elemidx.get(c.seq, {})
    if (c.seq, idx) not in known or known[(c.seq, idx)] not in st.mem:
        for (s, i), eid in known.items():
            if eid in st.mem and st.facts.ent_eq(i - idx):
                idx = i
                break
    key = (c.seq, idx)
    eid = ELEM.get(key)
    if eid is None:
        eid = ELEM[key] = newid()
        ex.elemidx.setdefault(c.seq, {})[key] = eid
    if eid not in st.mem:
        e = Obj(eid, 'elem', None, 'new', lazy=True, site='element', owner=('cont', c.seq, idx), cls=c.elem)
        if c.elem:
            ex.make_generic(st, e, c.elem)
            sz = ufn(('esz', c.seq, idx), 'size', 5, STRMAX)
            e.cells[GH_SIZE] = (0, sz)
        if is_freed(st, c, idx):
            e.alive = 0
        st.mem[eid] = e
    if c.elem:
        z = st.mem[eid].cells.get(GH_SIZE)
        sz = ufn(('esz', c.seq, idx), 'size', 5, STRMAX)
        if z is not None and z[1] == sz:
            f = st.facts.add_eq(ps(c.seq, idx.addc(1)) - ps(c.seq, idx) - sz)
            if f is not None:
                st.facts = f
            # the sum up to here is at most the whole
            bn = base_count(c)[0]
            if st.facts.ent_ge(bn - idx - ONE):
                f = st.facts.add_ge(ps(c.seq, bn) - ps(c.seq, idx.addc(1)))
                if f is not None:
                    st.facts = f
    return eid


def is_freed(st, c, idx):
    f = st.facts
    if c.fp != c.h and f.ent_ge(idx - c.h) and f.ent_ge(c.fp - idx - ONE):
        return True
    return any(f.ent_eq(idx - x) for x in c.holes)


def split_over(ex, st, p):
    """states in which it is known whether the element is one of those put in lately"""
    o = st.mem.get(p.o)
    cell = o.cells.get(p.off) if o is not None else None
    if cell is None or cell[1].__class__ is not Cont or cell[1].kind not in ('vector', 'list', 'deque'):
        return [st]
    todo, out = [st], []
    for ix, x in reversed(cell[1].over):
        rest = []
        for s in todo:
            if s.facts.ent_eq(ix - p.idx):
                out.append(s)
            elif s.facts.ent_ne(ix - p.idx):
                rest.append(s)
            else:
                a, b = s.facts.add_eq(ix - p.idx), s.facts.add_ne(ix - p.idx)
                if a is not None:
                    t = s.copy()
                    t.facts = a
                    out.append(t)
                if b is not None:
                    t = s.copy()
                    t.facts = b
                    rest.append(t)
        todo = rest
    return out + todo


def slot_load(ex, st, p, ty, inst):
    oid, off = p.o, p.off
    o = st.mem.get(oid)
    cell = o.cells.get(off) if o is not None else None
    if cell is None or cell[1].__class__ is not Cont:
        if cell is not None and cell[1].__class__ is Opaque and cell[1].tag == 'dead-cont':
            ex.oblige('uaf', False, inst, 'element of a destroyed container', st)
        return ex.unknown(ty, 'slot')
    c = cell[1]
    if o.kind in ('heap', 'elem', 'lazy') and o.alive != 1:
        ex.oblige('uaf', False, inst, 'read of an element of a container in %s that was freed' % ex.oname(o), st)
    if c.kind in ('map', 'set', 'unordered_map', 'unordered_set'):
        k = ('mapel', c.seq, p.idx, p.sub)
        if ty.kind == 'ptr':
            v = ex.slotps.get(k)
            if v is None:
                v = ex.slotps[k] = new_psym(k)
            for ix, x in reversed(c.over):
                if st.facts.ent_eq(ix - p.idx) and x.__class__ is tuple and x[0] == p.sub:
                    return st.res(x[1])
            return v
        return ufn(k, 'mv', 0, (1 << (8 * ty.size)) - 1) if ty.kind == 'int' else ex.unknown(ty, 'mapel')
    ok = st.facts.ent_ge(p.idx - c.h) and st.facts.ent_ge(c.n - p.idx - ONE)
    ex.oblige('elem', ok, inst, 'access to element %s of a %s that holds %s' % (
        ex.show(p.idx - c.h), c.kind, ex.show(c.n - c.h)), st)
    for ix, x in reversed(c.over):
        if st.facts.ent_eq(ix - p.idx):
            return st.res(x)
        if not st.facts.ent_ne(ix - p.idx):
            return ex.unknown(ty, 'slot')
    if ty.kind == 'ptr':
        return Ptr(elem_obj(ex, st, c, p.idx), ZERO)
    return ufn(('ev', c.seq, p.idx, p.sub, ty.size), 'ev', 0, (1 << (8 * ty.size)) - 1) if ty.kind == 'int' else \
        ex.unknown(ty, 'slot')


def slot_store(ex, st, p, v, ty, inst):
    o = st.mem.get(p.o)
    cell = o.cells.get(p.off) if o is not None else None
    if cell is None or cell[1].__class__ is not Cont:
        return True
    c = cell[1]
    if c.kind in ('map', 'set', 'unordered_map', 'unordered_set'):
        ex.event(st, 'mapset', inst, oid=p.o, off=p.off, idx=p.idx, sub=p.sub, val=v)
        over = tuple((ix, x) for ix, x in c.over if not (ix == p.idx and x[0] == p.sub))
        cset(ex, st, p.o, p.off, c.rep(over=over + ((p.idx, (p.sub, v)),)), inst)
        return True
    ok = st.facts.ent_ge(p.idx - c.h) and st.facts.ent_ge(c.n - p.idx - ONE)
    ex.oblige('elem', ok, inst, 'write to element %s of a %s that holds %s' % (
        ex.show(p.idx - c.h), c.kind, ex.show(c.n - c.h)), st)
    orphan(ex, st, c, p.idx)
    over = []
    done = False
    for ix, x in c.over:
        if not done and st.facts.ent_eq(ix - p.idx):
            over.append((ix, v))
            done = True
        else:
            over.append((ix, x))
    if not done:
        bc, pushed, sets = base_count(c)
        over = list(sets) + [(p.idx, v)] + list(pushed)
    holes = tuple(x for x in c.holes if not st.facts.ent_eq(x - p.idx))
    cset(ex, st, p.o, p.off, c.rep(over=tuple(over), holes=holes), inst)
    return True


def orphan(ex, st, c, idx):
    """element idx leaves the container: its object must be released by somebody"""
    for ix, x in reversed(c.over):
        if st.facts.ent_eq(ix - idx):
            return
    if c.elem in OWNED and not is_freed(st, c, idx):
        eid = elem_obj(ex, st, c, idx)
        if st.mem[eid].alive == 1:
            w = st.w(eid)
            w.kind = 'heap'
            w.site = 'a container (element taken out)'


def drop_all(ex, st, c, inst, how):
    """the elements vanish with the container"""
    if c.elem in OWNED:
        f = st.facts
        bc, pushed, sets = base_count(c)
        ok = f.ent_ge(c.fp - bc) or f.ent_eq(bc - c.h)
        if not ok and sets == () and not c.holes:
            ok = f.ent_ge(c.h - bc)
        if not ok and c.holes and f.ent_eq(bc - c.h - C(len(c.holes))):
            ok = True
        ex.oblige('leak', ok, inst, '%s of a %s whose elements were not deleted' % (how, c.kind), st)


def on_free_elem(ex, st, o, inst):
    """element object o was released: note it in the containers that hold it"""
    if not (o.owner.__class__ is tuple and o.owner[0] == 'cont'):
        return
    seq, idx = o.owner[1], o.owner[2]
    for oid, ob in list(st.mem.items()):
        for off, (sz, c) in list(ob.cells.items()):
            if c.__class__ is Cont and c.seq == seq:
                f = st.facts
                if not f.ent_ge(idx - c.h) or any(f.ent_eq(ix - idx) for ix, x in c.over):
                    continue
                if f.ent_eq(idx - c.fp):
                    c = c.rep(fp=c.fp.addc(1))
                else:
                    c = c.rep(holes=c.holes + (idx,))
                st.w(oid).cells[off] = (sz, c)


def cont_method(ex, F_, cls, meth, params):
    kind = kind_of(cls)
    elem_t = elem_class(cls)
    elem = short_elem(elem_t)
    ptr_elem = elem_t.rstrip().endswith('*') or elem_t.rstrip().endswith('* const')
    name = strip_tpl(cls).split('::')[-1]

    def one(st, v=None):
        return [(st, v)]

    def get(ex, st, p, inst):
        return cget(ex, st, p, inst, kind, elem)

    def unknown(ex, fr, st, inst, a):
        return ex.unknown_call(st, inst, F_, a)
    assoc = kind in ('map', 'set', 'unordered_map', 'unordered_set')
    if not assoc and not ptr_elem:
        return pod_method(ex, F_, cls, meth, params, kind, elem_t)

    if meth == name or meth.startswith(name + '<'):
        def ctor(ex, fr, st, inst, a):
            p = ex.deref(st, a[0], inst, 'write')
            if p.__class__ is not Ptr:
                return one(st)
            if params and kind_of_param(params[0]) == kind:
                g = get(ex, st, a[1], inst)
                if g and params[0].endswith('&&'):
                    cset(ex, st, p.o, p.off.c, g[2], inst)
                    cset(ex, st, g[0], g[1], Cont(kind, ('n', newid()), ZERO, ZERO, elem=elem), inst)
                    return one(st)
                if g:
                    # a copy of the pointers
                    cset(ex, st, p.o, p.off.c, g[2], inst)
                    return one(st)
            n = ZERO
            seq = ('n', newid())
            if params and params[0].startswith('unsigned long'):
                n = ex.view_u(st, ex.asint(st, a[1]), 64)
            elif params and not params[0].startswith('std::allocator') and not params[0].startswith('std::less'):
                n = fresh('count', 0, STRMAX)
            cset(ex, st, p.o, p.off.c, Cont(kind, seq, ZERO, n, elem=elem), inst)
            return one(st)
        return ctor
    if meth == '~' + name:
        def dtor(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if g:
                oid, off, c = g
                drop_all(ex, st, c, inst, 'destruction')
                st.w(oid).cells[off] = (CSZ[kind], Opaque('dead-cont'))
            return one(st)
        return dtor
    if meth == 'size' or meth == 'length':
        def size(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            return one(st, g[2].n - g[2].h if g else None)
        return size
    if meth == 'empty':
        def empty(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            return one(st, Bool(ceq(g[2].n - g[2].h)) if g else None)
        return empty
    if meth in ('begin', 'cbegin'):
        def begin(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            return one(st, Iter(g[0], g[1], g[2].h) if g else None)
        return begin
    if meth in ('end', 'cend'):
        def end(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            return one(st, Iter(g[0], g[1], g[2].n) if g else None)
        return end
    if meth in ('push_back', 'push', 'emplace_back', 'emplace') and not (assoc and meth == 'emplace') or \
            meth.startswith('emplace_back<') or meth.startswith('emplace<') and not assoc:
        if assoc:
            return unknown

        def push(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            from .ir import PTRTY
            v = ex.load(st, a[1], PTRTY, inst)
            ex.event(st, 'push', inst, oid=oid, off=off, cont=c, val=v)
            # the old cells may not be re-read
            g = get(ex, st, a[0], inst)
            oid, off, c = g
            cset(ex, st, oid, off, c.rep(over=c.over + ((c.n, v),), n=c.n.addc(1)), inst)
            return one(st, Slot(oid, off, c.n, 0, c.seq))
        return push
    if meth in ('push_front',) or meth.startswith('emplace_front'):
        def pushf(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            from .ir import PTRTY
            v = ex.load(st, a[1], PTRTY, inst)
            ex.event(st, 'push', inst, oid=oid, off=off, cont=c, val=v, front=True)
            cset(ex, st, oid, off, c.rep(over=((c.h.addc(-1), v),) + c.over, h=c.h.addc(-1),
                                         fp=c.h.addc(-1) if c.fp == c.h else c.fp), inst)
            return one(st)
        return pushf
    if meth in ('front', 'back', 'top'):
        def front(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            idx = c.h if (meth == 'front' or meth == 'top' and kind == 'queue') else c.n.addc(-1)
            ok = st.facts.ent_ge(c.n - c.h - ONE)
            ex.oblige('elem', ok, inst, '%s() of a %s that may be empty' % (meth, kind), st)
            return one(st, Slot(oid, off, idx, 0, c.seq))
        return front
    if meth in ('pop_front', 'pop', 'pop_back'):
        def pop(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            ok = st.facts.ent_ge(c.n - c.h - ONE)
            ex.oblige('elem', ok, inst, '%s() of a %s that may be empty' % (meth, kind), st)
            if meth == 'pop_back' or meth == 'pop' and kind == 'stack':
                idx = c.n.addc(-1)
                orphan(ex, st, c, idx)
                ex.event(st, 'pop', inst, oid=oid, off=off, cont=c, idx=idx)
                over = tuple(x for x in c.over if not st.facts.ent_eq(x[0] - idx))
                holes = tuple(x for x in c.holes if not st.facts.ent_eq(x - idx))
                fp = idx if st.facts.ent_ge(c.fp - c.n) else c.fp
                cset(ex, st, oid, off, c.rep(n=idx, over=over, fp=fp, holes=holes), inst)
            else:
                orphan(ex, st, c, c.h)
                ex.event(st, 'pop', inst, oid=oid, off=off, cont=c, idx=c.h)
                over = tuple(x for x in c.over if not st.facts.ent_eq(x[0] - c.h))
                nh = c.h.addc(1)
                fp = nh if c.fp == c.h or st.facts.ent_eq(c.fp - nh) else c.fp
                cset(ex, st, oid, off, c.rep(h=nh, over=over, fp=fp,
                                             holes=tuple(x for x in c.holes if not st.facts.ent_eq(x - c.h))), inst)
            return one(st)
        return pop
    if meth in ('operator[]', 'at') and not assoc:
        def idx(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            i = c.h + ex.view_u(st, ex.asint(st, a[1]), 64)
            return one(st, Slot(oid, off, i, 0, c.seq))
        return idx
    if meth == 'clear':
        def clear(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if g:
                oid, off, c = g
                ex.event(st, 'clear', inst, oid=oid, off=off, cont=c)
                drop_all(ex, st, c, inst, 'clear()')
                cset(ex, st, oid, off, Cont(kind, ('n', newid()), ZERO, ZERO, elem=elem), inst)
            return one(st)
        return clear
    if meth in ('reserve', 'shrink_to_fit'):
        def reserve(ex, fr, st, inst, a):
            if meth == 'reserve':
                n = ex.view_u(st, ex.asint(st, a[1]), 64)
                ex.event(st, 'alloc', inst, size=n.scale(8), form='reserve', ptr=None)
            return one(st)
        return reserve
    if meth == 'swap':
        def swap(ex, fr, st, inst, a):
            g, h = get(ex, st, a[0], inst), get(ex, st, a[1], inst)
            if g and h:
                ex.event(st, 'swap', inst, a=g, b=h)
                cset(ex, st, g[0], g[1], h[2], inst)
                cset(ex, st, h[0], h[1], g[2], inst)
            return one(st)
        return swap
    if meth == 'operator=':
        def asg(ex, fr, st, inst, a):
            g, h = get(ex, st, a[0], inst), get(ex, st, a[1], inst)
            if g and h and (g[0], g[1]) != (h[0], h[1]):
                drop_all(ex, st, g[2], inst, 'assignment')
                cset(ex, st, g[0], g[1], h[2], inst)
                if params and params[0].endswith('&&'):
                    cset(ex, st, h[0], h[1], Cont(kind, ('n', newid()), ZERO, ZERO, elem=elem), inst)
            return one(st, a[0])
        return asg
    if meth in ('find', 'lower_bound', 'upper_bound', 'count', 'contains') and assoc:
        def find(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            key = map_key(ex, st, a[1], params, inst)
            i = ufn(('find', c.seq, tuple((x.__class__ is not tuple and x) for x, y in c.over), key), 'pos', 0, STRMAX)
            f = st.facts.add_ge(c.n - i)
            if f is not None:
                st.facts = f
            ex.event(st, 'mapfind', inst, oid=oid, off=off, key=key, idx=i, n=c.n)
            if meth in ('count', 'contains'):
                return one(st, bool_int(cge(c.n - i - ONE)))
            return one(st, Iter(oid, off, i))
        return find
    if meth in ('operator[]', 'at') and assoc:
        def mapidx(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return one(st)
            oid, off, c = g
            key = map_key(ex, st, a[1], params, inst)
            i = ufn(('find', c.seq, tuple((x.__class__ is not tuple and x) for x, y in c.over), key), 'pos', 0, STRMAX)
            ex.event(st, 'mapslot' if meth == 'operator[]' else 'mapfind', inst, oid=oid, off=off, key=key, idx=i, n=c.n)
            sub = (('v', key))
            return one(st, Slot(oid, off, i, 32, c.seq))
        return mapidx
    if meth == 'insert' and kind == 'vector' and len(params) == 2 and not params[0].startswith('std::initializer') and \
            'iterator' in params[0] and params[1].rstrip().endswith('&'):
        def insert(ex, fr, st, inst, a):
            from .ir import PTRTY
            sret = 1 if ex.has_sret(F_) else 0
            g = get(ex, st, a[sret], inst)
            if not g:
                return one(st)
            oid, off, c = g
            it = st.res(a[sret + 1])
            if it.__class__ is Ptr:
                it = st.res(ex.load(st, it, PTRTY, inst))
            v = ex.load(st, a[sret + 2], PTRTY, inst)
            if it.__class__ is Iter and (it.o, it.off) == (oid, off) and st.facts.ent_eq(it.idx - c.n):
                ex.event(st, 'push', inst, oid=oid, off=off, cont=c, val=v)
                g = get(ex, st, a[sret], inst)
                oid, off, c = g
                cset(ex, st, oid, off, c.rep(over=c.over + ((c.n, v),), n=c.n.addc(1)), inst)
                return one(st, Iter(oid, off, c.n))
            if it.__class__ is Iter and (it.o, it.off) == (oid, off) and st.facts.ent_eq(it.idx - c.h):
                ex.event(st, 'push', inst, oid=oid, off=off, cont=c, val=v, front=True)
                cset(ex, st, oid, off, c.rep(over=((c.h.addc(-1), v),) + c.over, h=c.h.addc(-1),
                                             fp=c.h.addc(-1) if c.fp == c.h else c.fp), inst)
                return one(st, Iter(oid, off, c.h.addc(-1)))
            ex.event(st, 'push', inst, oid=oid, off=off, cont=c, val=v)
            n = c.n.addc(1)
            cset(ex, st, oid, off, Cont(kind, ('n', newid()), c.h, n, elem=elem), inst)
            return one(st, Iter(oid, off, it.idx) if it.__class__ is Iter else None)
        return insert
    if meth == 'erase' or meth.startswith('insert') or meth.startswith('emplace') or meth.startswith('try_emplace'):
        def erase(ex, fr, st, inst, a):
            g = get(ex, st, a[1 if ex.has_sret(F_) else 0], inst)
            if g:
                oid, off, c = g
                if not assoc and meth == 'erase' and len(params) == 1:
                    it = st.res(a[1])
                    if it.__class__ is Ptr:
                        from .ir import PTRTY
                        it = ex.load(st, it, PTRTY, inst)
                    if it.__class__ is Iter:
                        ex.event(st, 'erase', inst, oid=oid, off=off, cont=c, idx=it.idx)
                        orphan(ex, st, c, it.idx)
                        n = c.n.addc(-1)
                        seq = ('n', newid())
                        cset(ex, st, oid, off, Cont(kind, seq, ZERO, c.n - c.h - ONE, elem=elem), inst)
                        return one(st, Iter(oid, off, it.idx - c.h))
                key = val = pos = None
                k = a[1:] if not ex.has_sret(F_) else a[2:]
                if assoc and k and params:
                    it = st.res(k[0])
                    if 'basic_string' in params[0] and 'pair' not in params[0]:
                        key = map_key(ex, st, k[0], params, inst)
                        if len(k) > 1 and meth.startswith(('insert_or_assign', 'emplace', 'try_emplace')) and st.res(k[1]).__class__ is Ptr:
                            from .ir import PTRTY
                            val = ex.load(st, k[1], PTRTY, inst)
                    elif it.__class__ is Iter:
                        pos = it.idx
                    elif it.__class__ is Ptr and 'iterator' in params[0].lower():
                        from .ir import PTRTY
                        it = ex.load(st, it, PTRTY, inst)
                        pos = it.idx if it.__class__ is Iter else None
                ex.event(st, 'mapmod', inst, oid=oid, off=off, meth=meth, key=key, idx=pos, val=val, count=len(k))
                n = fresh('count', 0, STRMAX)
                cset(ex, st, oid, off, Cont(kind, ('n', newid()), ZERO, n, elem=elem), inst)
                if inst is not None and inst.ty.kind == 'ptr':
                    return one(st, Iter(oid, off, fresh('pos', 0, STRMAX)))
            return one(st)
        return erase
    if meth == 'remove':
        def remove(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if g:
                oid, off, c = g
                from .ir import PTRTY
                v = ex.load(st, a[1], PTRTY, inst)
                ex.event(st, 'remove', inst, oid=oid, off=off, cont=c, val=v)
                n = fresh('count', 0, STRMAX)
                f = st.facts.add_ge(c.n - c.h - n)
                st.facts = f or st.facts
                cset(ex, st, oid, off, Cont(kind, ('n', newid()), ZERO, n, elem=elem), inst)
            return one(st)
        return remove
    if meth.startswith('remove_if'):
        def remove_if(ex, fr, st, inst, a):
            return cont_remove_if(ex, fr, st, inst, a, F_, kind, elem)
        return remove_if
    if meth.startswith('key_comp') or meth.startswith('get_allocator'):
        return unknown
    return unknown


def cont_remove_if(ex, fr, st, inst, a, F_, kind, elem):
    g = cget(ex, st, a[0], inst, kind, elem)
    if not g:
        return [(st, None)]
    oid, off, c = g
    i = fresh('pos', 0, STRMAX)
    probe = st.copy()
    f = probe.facts.add_ge(c.n - i - ONE)
    f = f.add_ge(i - c.h) if f is not None else None
    if f is not None:
        probe.facts = f
        pred = find_operator(ex, F_)
        if pred is not None:
            res, el = apply_pred(ex, probe, inst, pred, a[1:], oid, off, c, i)
            for s2, r in res:
                freed = el.__class__ is Ptr and s2.mem[el.o].alive != 1 if el.o in s2.mem else False
                rc = ex.cond(s2, r)
                for cc, gone in ((rc, True), (cnot(rc), False)):
                    for s3 in ex.assume(s2.copy(), cc):
                        if elem in OWNED:
                            if gone:
                                ex.oblige('leak', freed, inst, 'element removed from a %s without being deleted' % kind, s3)
                            else:
                                ex.oblige('uaf', not freed, inst, 'element deleted but left in the %s' % kind, s3)
        else:
            ex.note_unmodelled('predicate of ' + F_.short)
    n = fresh('count', 0, STRMAX)
    f = st.facts.add_ge(c.n - c.h - n)
    st.facts = f or st.facts
    cset(ex, st, oid, off, Cont(kind, ('n', newid()), ZERO, n, elem=elem), inst)
    return [(st, n)]


def find_operator(ex, F_):
    """operator() of the closure a template was instantiated with"""
    for t in tpl_args(F_.short[F_.short.rfind('::') + 2:]) or []:
        pass
    best = None
    for G in ex.mod.funcs.values():
        if G.decl or '::operator()' not in G.dem:
            continue
        head = G.dem[:G.dem.rfind('::operator()')]
        if (head.endswith('}') or re.search(r'\$_\d+$', head)) and head in F_.dem and (best is None or len(head) > best[0]):
            best = (len(head), G)
    return best[1] if best else None


def apply_pred(ex, st, inst, pred, body, oid, off, c, i):
    """the predicate is called on element i -> [(state, result)], the element"""
    clo = ex.alloc(st, 'alloca', C(8 * max(1, len(body))), site='closure')
    st.mem[clo.o].owner = ex.frame
    for k, x in enumerate(body):
        ex.put(st, clo.o, C(8 * k), 8, x)
    params = split_params(pred.dem)
    from .ir import PTRTY
    el = slot_load(ex, st, Slot(oid, off, i, 0, c.seq), PTRTY, inst)
    arg = el
    if params and params[-1].endswith('&'):
        cellp = ex.alloc(st, 'alloca', C(8), site='element')
        st.mem[cellp.o].owner = ex.frame
        ex.put(st, cellp.o, ZERO, 8, el)
        arg = cellp
    return ex.call(pred.name, [clo, arg], st, inst), el


def shape(F_):
    """what a small function does, to recognise equal ones"""
    out = []
    for b in F_.blocks:
        for i in b.insts:
            out.append((i.op, i.x[1] if i.op in ('call', 'invoke') and i.x[0] == 'f' else None))
    return hash(tuple(out))


def asks_name(ex, st, key, out, el, body, weak=False):
    """notes whether a predicate holds exactly for the elements that have the name looked for; -> symbols of the comparison if not"""
    want = [w for w in (sval(ex, st, z, None) if z.__class__ is Ptr and z.o in st.mem else None for z in (st.res(z) for z in body)) if w is not None]
    ok = len(want) == 1 and el.__class__ is Ptr
    keep = []
    for s, v in out:
        n = None
        if ok and el.o in s.mem and v is not None:
            n = next((s.res(y) for off, (sz, y) in sorted(s.mem[el.o].cells.items()) if s.res(y).__class__ is Str), None)
        if n is None:
            ok = False
            break
        same, v = streq(ex, s, n, want[0]), ex.cond(s, v)
        ka, kb = (x.lit if x.lit is not None else x.sid for x in (n, want[0]))
        keep += [x for l in (n.n, want[0].n, ufn(('streq', frozenset((ka, kb))), 'streq', 0, 1)) for x, _ in l.t]
        ok = ok and not any(ex.assume(t.copy(), cnot(same)) for t in ex.assume(s.copy(), v)) and \
            (weak or not any(ex.assume(t.copy(), same) for t in ex.assume(s.copy(), cnot(v))))
    ex.byname[key] = ok
    return keep if not ok else []


def find_if(ex, F_):
    pred = find_operator(ex, F_)

    def h(ex, fr, st, inst, a):
        x, y = st.res(a[0]), st.res(a[1])
        if pred is None or x.__class__ is not Iter or y.__class__ is not Iter or (x.o, x.off) != (y.o, y.off):
            return None
        v = st.mem[x.o].cells.get(x.off)
        c = st.res(v[1]) if v else None
        if c.__class__ is not Cont or c.elem not in ('Datum', 'Value'):
            return None
        i = fresh('pos', 0, STRMAX)
        probe = st.copy()
        f = probe.facts.add_ge(y.idx - i - ONE)
        f = f.add_ge(i - x.idx) if f is not None else None
        if f is not None:
            probe.facts = f
            from .ir import PTRTY
            slot_load(ex, probe, Slot(x.o, x.off, i, 0, c.seq), PTRTY, inst)
            q = probe.copy()
            out, el = apply_pred(ex, probe, inst, pred, a[2:], x.o, x.off, c, i)
            keep = asks_name(ex, st, shape(pred), out, el, a[2:])
            if keep:
                # once more: with what is known of the names at each return
                given, ex.given = ex.given, keep
                try:
                    out, el = apply_pred(ex, q, inst, pred, a[2:], x.o, x.off, c, i)
                finally:
                    ex.given = given
                asks_name(ex, st, shape(pred), out, el, a[2:], True)
        # which element is found is a function of the list and of what is looked for
        key = []
        for z in a[2:]:
            z = st.res(z)
            if z.__class__ is Ptr and z.o in st.mem and z.off.isc():
                w = st.mem[z.o].cells.get(z.off.c)
                w = st.res(w[1]) if w else None
                if w.__class__ is Str:
                    z = ('s', w.lit if w.lit is not None else w.sid)
            key.append(str(z) if z.__class__ is not tuple else z)
        r = ufn(('find', c.seq, x.idx, y.idx, str(c.over), shape(pred)) + tuple(key), 'found', 0, STRMAX)
        s = st.copy()
        f = s.facts.add_ge(r - x.idx)
        f = f.add_ge(y.idx - r) if f is not None else None
        if f is not None:
            s.facts = f
        return [(s, Iter(x.o, x.off, r))]
    return h


def kind_of_param(t):
    t = re.sub(r'( const)?\s*&+$', '', t).strip()
    return kind_of(t)


def map_key(ex, st, p, params, inst):
    if params and 'basic_string' in params[0]:
        s = sval(ex, st, p, inst)
        return ('s', s.lit if s.lit is not None else s.sid)
    v = st.res(p)
    return ('k', v)


def pod_method(ex, F_, cls, meth, params, kind, elem_t):
    """sequence containers of plain values"""
    name = strip_tpl(cls).split('::')[-1]
    esz = ex.sizeof(elem_t)

    def one(st, v=None):
        return [(st, v)]
    if kind != 'vector' or esz is None:
        def unk(ex, fr, st, inst, a):
            return ex.unknown_call(st, inst, F_, a)
        return unk

    def get(ex, st, p, inst):
        p = ex.deref(st, p, inst, 'read')
        if p.__class__ is not Ptr or not p.off.isc():
            return None
        o = st.mem[p.o]
        c = o.cells.get(p.off.c)
        b = o.cells.get(p.off.c + 8)
        if c is None or b is None:
            return None
        return p, st.res(c[1]), b[1]

    def put(st, p, buf, n):
        o = st.w(p.o)
        o.cells[p.off.c] = (8, buf)
        o.cells[p.off.c + 8] = (8, n)

    def make(st, n, inst, zero):
        fn, file, line = ex.where(inst)
        ex.event(st, 'alloc', inst, size=n.scale(esz), form='vector', ptr=None)
        b = ex.alloc(st, 'vecbuf', n.scale(esz), site='%s:%s' % (file.split('/')[-1], line))
        if zero:
            st.mem[b.o].segs = ((ZERO, n.scale(esz), ('zero',)),)
        return b
    if meth == name:
        def ctor(ex, fr, st, inst, a):
            p = ex.deref(st, a[0], inst, 'write')
            n = ZERO
            if params and params[0].startswith('unsigned long'):
                n = ex.view_u(st, ex.asint(st, a[1]), 64)
            elif params and not params[0].startswith('std::allocator'):
                n = fresh('count', 0, STRMAX)
            put(st, p, make(st, n, inst, True), n)
            return one(st)
        return ctor
    if meth == '~' + name:
        def dtor(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if g and g[1].__class__ is Ptr and g[1].o in st.mem:
                st.w(g[1].o).alive = 0
            return one(st)
        return dtor
    if meth in ('size', 'empty', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back'):
        def acc(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return ex.unknown_call(st, inst, F_, a)
            p, buf, n = g
            if meth == 'size':
                return one(st, n)
            if meth == 'empty':
                return one(st, Bool(ceq(n)))
            if meth in ('data', 'begin', 'cbegin', 'front'):
                return one(st, buf)
            if meth in ('end', 'cend'):
                return one(st, Ptr(buf.o, n.scale(esz)))
            if meth == 'back':
                return one(st, Ptr(buf.o, n.addc(-1).scale(esz)))
            return one(st, Ptr(buf.o, ex.view_u(st, ex.asint(st, a[1]), 64).scale(esz)))
        return acc
    if meth in ('resize', 'push_back', 'clear', 'assign', 'emplace_back', 'insert') or meth.startswith('emplace_back'):
        def mod(ex, fr, st, inst, a):
            g = get(ex, st, a[0], inst)
            if not g:
                return ex.unknown_call(st, inst, F_, a)
            p, buf, n = g
            if meth == 'resize':
                n2 = ex.view_u(st, ex.asint(st, a[1]), 64)
            elif meth == 'clear':
                n2 = ZERO
            elif meth.startswith('push_back') or meth.startswith('emplace_back'):
                n2 = n.addc(1)
            else:
                n2 = fresh('count', 0, STRMAX)
            b = make(st, n2, inst, False)
            nb = st.w(b.o)
            old = st.mem[buf.o]
            nb.cells = dict(old.cells) if meth != 'clear' else {}
            nb.segs = old.segs if meth != 'clear' else ()
            if meth == 'resize' and n == ZERO:
                nb.segs = ((ZERO, n2.scale(esz), ('zero',)),)
            if meth.startswith('push_back') or meth.startswith('emplace_back'):
                copy_bytes(ex, st, b.o, n.scale(esz), st.res(a[1]), C(esz), inst)
            put(st, p, b, n2)
            return one(st)
        return mod
    if meth in ('reserve', 'shrink_to_fit'):
        def rsv(ex, fr, st, inst, a):
            if meth == 'reserve':
                n = ex.view_u(st, ex.asint(st, a[1]), 64)
                ex.event(st, 'alloc', inst, size=n.scale(esz), form='reserve', ptr=None)
            return one(st)
        return rsv

    def unk(ex, fr, st, inst, a):
        return ex.unknown_call(st, inst, F_, a)
    return unk


# ---------------------------------------------------------------------- iterators
ITER_CLS = ('std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator',
            'std::_Rb_tree_const_iterator', 'std::_Deque_iterator', 'std::__detail::_Node_iterator',
            'std::__detail::_Node_const_iterator')


def iter_method(ex, F_, cls, meth, params):
    from .ir import PTRTY
    base = strip_tpl(cls)
    nm = base.split('::')[-1]
    targs = tpl_args(cls)
    podit = nm == '__normal_iterator' and targs and not re.search(r'\*( const)?\*( const)?$', targs[0].strip())

    def one(st, v=None):
        return [(st, v)]

    def ld(ex, st, p, inst):
        return ex.load(st, p, PTRTY, inst)

    def step(v, d, ex, st):
        if v.__class__ is Iter:
            return Iter(v.o, v.off, v.idx + d)
        if v.__class__ is Ptr and podit:
            es = ex.sizeof(re.sub(r'( const)?\*$', '', targs[0].strip()))
            if es:
                return Ptr(v.o, v.off + d.scale(es))
        return Opaque('iter')
    if meth == nm or meth.startswith(nm + '<'):
        def ctor(ex, fr, st, inst, a):
            if not params:
                v = Opaque('iter')
            else:
                v = st.res(a[1])
                x = ld(ex, st, v, inst) if v.__class__ in (Ptr, PSym) else v
                v = x
            ex.store(st, a[0], v, PTRTY, inst)
            return one(st)
        return ctor
    if meth == 'operator*':
        def deref(ex, fr, st, inst, a):
            v = ld(ex, st, a[0], inst)
            if v.__class__ is Iter:
                c = st.mem[v.o].cells.get(v.off)
                if c is not None and c[1].__class__ is Opaque and c[1].tag == 'dead-cont':
                    ex.oblige('uaf', False, inst, 'iterator of a destroyed container used', st)
                return one(st, Slot(v.o, v.off, v.idx, 0, c[1].seq if c is not None and c[1].__class__ is Cont else None))
            return one(st, v if v.__class__ is Ptr else None)
        return deref
    if meth == 'operator->':
        return iter_method(ex, F_, cls, 'operator*', params)
    if meth in ('operator++', 'operator--'):
        d = ONE if meth == 'operator++' else C(-1)
        post = bool(params)

        def inc(ex, fr, st, inst, a):
            v = ld(ex, st, a[0], inst)
            ex.store(st, a[0], step(v, d, ex, st), PTRTY, inst)
            return one(st, v if post else a[0])
        return inc
    if meth in ('operator+', 'operator-') and len(params) == 1 and 'iterator' not in params[0]:
        sg = 1 if meth == 'operator+' else -1

        def plus(ex, fr, st, inst, a):
            v = ld(ex, st, a[0], inst)
            n = ex.view_s(st, ex.asint(st, a[1]), 64).scale(sg)
            return one(st, step(v, n, ex, st))
        return plus
    if meth in ('operator+=', 'operator-='):
        sg = 1 if meth == 'operator+=' else -1

        def pluseq(ex, fr, st, inst, a):
            v = ld(ex, st, a[0], inst)
            n = ex.view_s(st, ex.asint(st, a[1]), 64).scale(sg)
            ex.store(st, a[0], step(v, n, ex, st), PTRTY, inst)
            return one(st, a[0])
        return pluseq
    if meth == 'operator[]':
        def at(ex, fr, st, inst, a):
            v = step(ld(ex, st, a[0], inst), ex.view_s(st, ex.asint(st, a[1]), 64), ex, st)
            if v.__class__ is Iter:
                c = st.mem[v.o].cells.get(v.off)
                return one(st, Slot(v.o, v.off, v.idx, 0, c[1].seq if c is not None and c[1].__class__ is Cont else None))
            return one(st, v)
        return at
    if meth == 'base' or meth == '_M_const_cast':
        return lambda ex, fr, st, inst, a: one(st, ld(ex, st, a[0], inst) if meth == '_M_const_cast' else a[0])
    if meth in ('operator==', 'operator!='):
        return iter_cmp(ex, F_, meth)
    return None


def iter_cmp(ex, F_, op):
    from .ir import PTRTY

    def h(ex, fr, st, inst, a):
        x, y = st.res(a[0]), st.res(a[1])
        vx = ex.load(st, x, PTRTY, inst) if x.__class__ is Ptr else None
        vy = ex.load(st, y, PTRTY, inst) if y.__class__ is Ptr else None
        if vx.__class__ is Iter and vy.__class__ is Iter:
            if (vx.o, vx.off) != (vy.o, vy.off):
                c = ceq(fresh('cmp', 0, 1).addc(-1))
            else:
                c = ceq(vx.idx - vy.idx)
        elif vx.__class__ is Ptr and vy.__class__ is Ptr and vx.o == vy.o:
            c = ceq(vx.off - vy.off)
        elif vx.__class__ in (Iter, Opaque, Ptr) or vy.__class__ in (Iter, Opaque, Ptr):
            c = ceq(fresh('cmp', 0, 1).addc(-1))
        else:
            return ex.unknown_call(st, inst, F_, a)
        return [(st, Bool(c if op.endswith('==') else cnot(c)))]
    return h


def iter_diff(ex, F_):
    from .ir import PTRTY

    def h(ex, fr, st, inst, a):
        x, y = ex.load(st, a[0], PTRTY, inst), ex.load(st, a[1], PTRTY, inst)
        if x.__class__ is Iter and y.__class__ is Iter:
            return [(st, x.idx - y.idx)]
        return ex.unknown_call(st, inst, F_, a)
    return h


# ---------------------------------------------------------------------- memory
def src_content(ex, st, o, off, n):
    """what n bytes at off hold, as segment content"""
    sg = ex.seg_find(st, o, off, n)
    if sg is not None:
        ct = sg[2]
        if ct[0] == 'ent':
            return ('ent', ct[1], ct[2] + off - sg[0])
        if ct[0] == 'zero':
            return ct
        if ct[0] == 'val' and st.facts.ent_eq(off - sg[0]) and sg[1] == n:
            return ct
    if o.lazy:
        clash = any(not (st.facts.ent_ge(off.addc(-(co + cs))) or st.facts.ent_ge((off + n).neg().addc(co)))
                    for co, (cs, v) in o.cells.items() if co >= 0)
        if not clash and not o.segs:
            return ('ent', ('R', o.id), off)
    return ('ent', ('?', newid()), ZERO)


def covered(st, o, start, n):
    """every one of the n bytes from start was written"""
    f = st.facts
    parts = [(C(off), C(sz)) for off, (sz, x) in o.cells.items() if sz > 0] + [
        (a, m) for a, m, ct in o.segs if not (ct[0] == 'ent' and ct[1][0] == 'unwritten')]
    at, end = start, start + n
    for k in range(len(parts) + 1):
        if f.ent_ge(at - end):
            return True
        best = None
        for i, (a, m) in enumerate(parts):
            if f.ent_ge(at - a) and not f.ent_ge(at - a - m):
                best = i
                break
            if f.ent_ge(at - a) and f.ent_ge(a + m - at) and not f.ent_eq(m):
                best = i
        if best is None:
            return False
        at = parts[best][0] + parts[best][1]
        del parts[best]
    return f.ent_ge(at - end)


def copy_bytes(ex, st, doid, doff, p, n, inst):
    """copy n bytes from pointer p to (doid, doff); bounds are checked by the caller"""
    if p.__class__ is not Ptr:
        ex.seg_put_obj(st, doid, doff, n, ('ent', ('?', newid()), ZERO))
        return
    src = st.mem[p.o]
    if src.kind in ('heap', 'alloca') and not src.lazy and src.alive == 1 and p.o != doid and not covered(st, src, p.off, n):
        # some bytes of the source have no value yet
        ex.clear_range(st, doid, doff, n)
        ex.seg_put_obj(st, doid, doff, n, ('ent', ('unwritten', newid()), ZERO))
        src = st.mem[p.o]
        f = st.facts
        for co, (cs, v) in list(src.cells.items()):
            if co >= 0 and f.ent_ge(C(co) - p.off) and f.ent_ge(p.off + n - C(co + cs)):
                ex.put(st, doid, doff - p.off + C(co), cs, st.res(v))
        for a, m, c in list(src.segs):
            if f.ent_ge(a - p.off) and f.ent_ge(p.off + n - a - m):
                ex.seg_put_obj(st, doid, doff - p.off + a, m, c)
        return
    if n.isc() and p.off.isc():
        # cell by cell
        parts = []
        k, end = p.off.c, p.off.c + n.c
        while k < end:
            c = src.cells.get(k)
            if c is not None and c[0] and k + c[0] <= end:
                parts.append((k - p.off.c, c[0], st.res(c[1])))
                k += c[0]
                continue
            break
        if k == end and parts:
            ex.clear_range(st, doid, doff, n)
            for at, sz, v in parts:
                ex.put(st, doid, doff.addc(at), sz, v)
            return
        if n.c in (1, 2, 4, 8) and src.kind not in ('strbuf',):
            part = [1 for co, (cs, v) in src.cells.items() if co < end and p.off.c < co + cs]
            if part or not src.segs and not src.lazy:
                from .ir import int_ty
                v = ex.peek(st, src, p.off, int_ty(8 * n.c), inst)
                ex.put(st, doid, doff, n.c, v)
                return
    elif n.isc() and n.c in (1, 2, 4, 8):
        for co, (cs, cv) in src.cells.items():
            if cs == n.c and st.facts.ent_eq(p.off.addc(-co)):
                ex.put(st, doid, doff, n.c, st.res(cv))
                return
    ct = src_content(ex, st, src, p.off, n)
    if ct[0] == 'val':
        ex.put(st, doid, doff, n.c if n.isc() else 8, st.res(ct[1]))
        return
    # a range made of several segments is copied piecewise
    if ct[0] == 'ent' and ct[1][0] == '?' and st.facts.ent_eq(p.off):
        pieces = []
        for a, m, c in src.segs:
            if st.facts.ent_ge(n - a - m):
                pieces.append((a, m, c))
        cells = [(co, cs, v) for co, (cs, v) in src.cells.items() if co >= 0 and st.facts.ent_ge(n.addc(-(co + cs)))]
        if pieces or cells:
            ex.clear_range(st, doid, doff, n)
            ex.seg_put_obj(st, doid, doff, n, ct)
            for co, cs, v in cells:
                ex.put(st, doid, doff.addc(co), cs, st.res(v))
            for a, m, c in pieces:
                ex.seg_put_obj(st, doid, doff + a, m, c)
            return
    if n.isc() and doff.isc() and n.c in (1, 2, 4, 8) and ct[0] == 'ent' and ct[1][0] != '?':
        from .ir import int_ty
        ex.put(st, doid, doff, n.c, ex.ent_read(st, ct[1], ct[2], n.c, int_ty(8 * n.c)))
        return
    ex.seg_put_obj(st, doid, doff, n, ct)


def m_memcpy(ex, fr, st, inst, a):
    d, s = st.res(a[0]), st.res(a[1])
    n = ex.view_u(st, ex.asint(st, a[2]), 64)
    if n.isc() and n.c == 0 or st.facts.ent_eq(n):
        return [(st, a[0])]
    out = []
    d2 = d
    # null with zero length is tolerated
    zero_ok = [s2 for s2 in ex.assume(st.copy(), ceq(n))] if not n.isc() and (
        d.__class__ is PSym or s.__class__ is PSym or d == NULL or s == NULL) else []
    for s0 in zero_ok:
        out.append((s0, a[0]))
    if zero_ok:
        lst = ex.assume(st, cge(n.addc(-1)))
        if not lst:
            return out
        st = lst[0].copy()
    d = ex.deref(st, d, inst, 'write')
    s = ex.deref(st, s, inst, 'read')
    if d is None or s is None:
        return out
    if s.__class__ is Ptr:
        ex.inb(st, st.mem[s.o], s.off, n, inst, 'read')
        ex.on_read_range(st, st.mem[s.o], s.off, n, inst)
    if d.__class__ is Ptr:
        ex.inb(st, st.mem[d.o], d.off, n, inst, 'write')
        for m in ex.monitors:
            h = getattr(m, 'on_copy', None)
            if h:
                h(ex, st, inst, dst=d, src=s, n=n)
        copy_bytes(ex, st, d.o, d.off, s, n, inst)
    out.append((st, a[0]))
    return out


CHARITER = re.compile(r'(const )?(unsigned |signed )?char( const)?\s*\*|__gnu_cxx::__normal_iterator<(const )?char( const)?\s*\*')


def std_copy(ex, F_, b):
    """copies of plain bytes"""
    ts = F_.dem[F_.dem.index('<') + 1:F_.dem.index('(')] if '<' in F_.dem else ''
    ps = split_params(F_.dem)
    if not CHARITER.match(ps[0]) or not CHARITER.match(ps[2]):
        return None

    def h(ex, fr, st, inst, a):
        x, y, d = st.res(a[0]), st.res(a[1]), st.res(a[2])
        if b == 'std::copy':
            if x == y:
                return [(st, d)]
            if x.__class__ is not Ptr or y.__class__ is not Ptr or x.o != y.o:
                return None
            n = y.off - x.off
            if not st.facts.ent_ge(n):
                f = st.facts.add_ge(n)
                ex.oblige('bounds', False, inst, 'a range that may end before its start', st)
                if f is None:
                    return []
                st.facts = f
        else:
            n = ex.view_s(st, ex.asint(st, a[1]), 64)
        out = []
        for s, v in m_memcpy(ex, fr, st, inst, [d, x, n]):
            d2 = s.res(d)
            out.append((s, ex.padd(s, d2, n)))
        return out
    return h


def m_memset(ex, fr, st, inst, a):
    d = ex.deref(st, a[0], inst, 'write')
    n = ex.view_u(st, ex.asint(st, a[2]), 64)
    if d is None:
        return []
    if d.__class__ is Ptr:
        ex.inb(st, st.mem[d.o], d.off, n, inst, 'write')
        v = ex.asint(st, a[1])
        ex.clear_range(st, d.o, d.off, n)
        ex.seg_put_obj(st, d.o, d.off, n, ('zero',) if v == ZERO else ('ent', ('?', newid()), ZERO))
    return [(st, a[0])]


def m_memcmp(ex, fr, st, inst, a):
    n = ex.view_u(st, ex.asint(st, a[2]), 64)
    for p in a[:2]:
        p = ex.deref(st, p, inst, 'read')
        if p.__class__ is Ptr:
            ex.inb(st, st.mem[p.o], p.off, n, inst, 'read')
    return [(st, fresh('cmp', -255, 255))]


def m_strlen(ex, fr, st, inst, a):
    return [(st, cstr(ex, st, a[0], inst).n)]


def m_new(form):
    def h(ex, fr, st, inst, a):
        n = ex.view_u(st, ex.asint(st, a[0]), 64)
        if form == 'calloc':
            m = ex.view_u(st, ex.asint(st, a[1]), 64)
            n = m.scale(n.c) if n.isc() else n.scale(m.c) if m.isc() else fresh('prod', 0, (1 << 64) - 1)
        fn, file, line = ex.where(inst)
        f = 'malloc' if form in ('malloc', 'calloc') else form
        p = ex.alloc(st, 'heap', n, f, '%s:%s' % (file.split('/')[-1], line))
        if form == 'calloc':
            st.mem[p.o].segs = ((ZERO, n, ('zero',)),)
        ex.event(st, 'alloc', inst, size=n, form=f, ptr=p)
        return [(st, p)]
    return h


def m_delete(form):
    def h(ex, fr, st, inst, a):
        out = []
        p = st.res(a[0])
        lst = [st]
        if p.__class__ is PSym:
            lst = []
            for c in (('null', p.id), ('nonnull', p.id)):
                lst += ex.assume(st.copy(), c)
        for s in lst:
            s = s.copy()
            free_one(ex, s, s.res(a[0]), form, inst)
            out.append((s, None))
        return out
    return h


def free_one(ex, st, p, form, inst):
    if p.__class__ is L:
        return
    if p.__class__ is not Ptr:
        ex.note_unmodelled('release of an unknown pointer')
        return
    o = st.mem[p.o]
    if o.kind in ('alloca', 'global', 'param', 'strbuf', 'root', 'vecbuf', 'input'):
        ex.oblige('free', False, inst, 'release of memory that is not a heap block (%s)' % ex.oname(o), st)
        return
    ok = o.alive == 1 or o.alive == 2
    ex.oblige('free', ok, inst, 'second release of %s' % ex.oname(o), st)
    if p.off != ZERO and not st.facts.ent_eq(p.off):
        ex.oblige('free', False, inst, 'release of a pointer into the middle of %s' % ex.oname(o), st)
    if o.form is None:
        o = st.w(p.o)
        o.form = form
    else:
        ex.oblige('free', o.form == form, inst, '%s released with %s' % (
            ex.oname(o), {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free'}[form]), st)
    ex.event(st, 'free', inst, o=o, form=form)
    w = st.w(p.o)
    w.alive = 0
    if w.kind == 'elem':
        on_free_elem(ex, st, w, inst)


# ---------------------------------------------------------------------- mutexes and threads
def mutex_key(ex, st, p, inst):
    p = st.res(p)
    if p.__class__ is PSym:
        p = ex.materialise(st, p)
    if p.__class__ is Ptr:
        o = st.mem.get(p.o)
        if o is not None and o.kind in ('heap', 'elem', 'lazy'):
            ex.oblige('uaf', o.alive == 1 or o.alive == 2, inst, 'lock in %s that was freed' % ex.oname(o), st)
        return (p.o, p.off.c if p.off.isc() else -1)
    return None


def m_lock(kind):
    def h(ex, fr, st, inst, a):
        k = mutex_key(ex, st, a[0], inst)
        if k is None:
            return [(st, None)]
        held = [e for e in st.locks if e[0] == k]
        if held:
            if kind == 'mutex':
                ex.oblige('lock', False, inst, 'a non-recursive mutex is locked again by its owner', st)
            st.locks = tuple((e[0], e[1] + 1) if e[0] == k else e for e in st.locks)
            ex.event(st, 'relock', inst, key=k)
        else:
            ex.event(st, 'lock', inst, key=k, kind=kind)
            st.locks = st.locks + ((k, 1),)
            ex.event(st, 'locked', inst, key=k)
        return [(st, C(0) if kind == 'pthread' else None)]
    return h


def m_trylock(ex, fr, st, inst, a):
    k = mutex_key(ex, st, a[0], inst)
    s2 = st.copy()
    if k is not None:
        held = [e for e in s2.locks if e[0] == k]
        if held:
            s2.locks = tuple((e[0], e[1] + 1) if e[0] == k else e for e in s2.locks)
        else:
            s2.locks = s2.locks + ((k, 1),)
            ex.event(s2, 'locked', inst, key=k)
    return [(s2, ONE), (st, ZERO)]


def m_unlock(ex, fr, st, inst, a):
    k = mutex_key(ex, st, a[0], inst)
    if k is None:
        return [(st, None)]
    held = [e for e in st.locks if e[0] == k]
    ex.oblige('lock', bool(held), inst, 'a mutex is unlocked that this thread does not hold', st)
    if held:
        if held[0][1] > 1:
            st.locks = tuple((e[0], e[1] - 1) if e[0] == k else e for e in st.locks)
        else:
            ex.event(st, 'unlock', inst, key=k)
            st.locks = tuple(e for e in st.locks if e[0] != k)
    return [(st, C(0))]


def m_thread_ctor(F_):
    targs = tpl_args(F_.short[F_.short.rfind('thread<'):]) if 'thread<' in F_.short else []

    def h(ex, fr, st, inst, a):
        from .ir import PTRTY
        this = a[0]
        ex.store(st, this, ONE, PTRTY, inst)
        args = []
        params = split_params(F_.dem)
        for k, v in enumerate(a[2:]):
            v = st.res(v)
            ty = params[k + 1] if k + 1 < len(params) else ''
            if 'basic_string' in ty or 'char const' in ty:
                args.append(sval(ex, st, v, inst) if 'basic_string' in ty else v)
            elif v.__class__ is Ptr:
                o = st.mem[v.o]
                c = o.cells.get(v.off.c) if v.off.isc() else None
                args.append(st.res(c[1]) if c is not None else ex.load(st, v, PTRTY, inst))
            else:
                args.append(v)
        fn = st.res(a[1])
        # a thread object made without arguments
        ex.event(st, 'spawn', inst, fn=fn, args=args, template=F_, params=params[1:])
        return [(st, None)]
    if not targs:
        return None
    return h


def m_thread(meth):
    def h(ex, fr, st, inst, a):
        from .ir import PTRTY
        p = ex.deref(st, a[0], inst, 'read')
        if meth == 'thread':
            if p.__class__ is Ptr:
                ex.put(st, p.o, p.off, 8, ZERO)
            return [(st, None)]
        v = None
        if p.__class__ is Ptr and p.off.isc():
            c = st.mem[p.o].cells.get(p.off.c)
            if c is not None:
                v = c[1]
        if meth == '~thread':
            if v is not None and v.__class__ is L and v.isc():
                ex.oblige('thread', v == ZERO, inst, 'a joinable std::thread is destroyed', st)
            elif p.__class__ is Ptr and st.mem[p.o].lazy:
                ex.oblige('thread', False, inst, 'a std::thread that may be joinable is destroyed', st)
            return [(st, None)]
        if meth in ('join', 'detach'):
            if v is not None and v.__class__ is L and v.isc():
                ex.oblige('thread', v == ONE, inst, '%s() of a thread that is not joinable' % meth, st)
            ex.event(st, 'thread_' + meth, inst, ptr=p)
            if p.__class__ is Ptr:
                ex.put(st, p.o, p.off, 8, ZERO)
            return [(st, None)]
        if meth == 'joinable':
            return [(st, Bool(cne(v)) if v is not None and v.__class__ is L else fresh('joinable', 0, 1))]
        return [(st, None)]
    return h


# ---------------------------------------------------------------------- system calls
def sysret(ex, st, name, inst, lo=-1, hi=(1 << 31) - 1, **kw):
    return fresh(name, lo, hi)


def m_fdnew(name):
    def h(ex, fr, st, inst, a):
        r = fresh(name, -1, (1 << 31) - 1)
        ex.event(st, 'fdnew', inst, fn=name, fd=r, args=a)
        return [(st, r)]
    return h


def m_sys(name, lo=-1, hi=0):
    def h(ex, fr, st, inst, a):
        r = fresh(name, lo, hi)
        return ex.sysevent(st, name, inst, a, r)
    return h


def m_recv(ex, fr, st, inst, a):
    return m_recvlike(ex, fr, st, inst, a, 'recv')


def m_recvlike(ex, fr, st, inst, a, name):
    n = ex.view_u(st, ex.asint(st, a[2]), 64)
    p = ex.deref(st, a[1], inst, 'write')
    out = []
    if p is None:
        return []
    if p.__class__ is Ptr:
        ex.inb(st, st.mem[p.o], p.off, n, inst, 'write')
    # failure / end of stream, then data
    s1 = st.copy()
    r = fresh(name, -1, 0)
    out += ex.sysevent(s1, name, inst, a, r, n=n)
    s2 = st.copy()
    r = fresh(name, 1, STRMAX)
    f = s2.facts.add_ge(n - r)
    if f is not None:
        s2.facts = f
        if p.__class__ is Ptr:
            ent = ex.recv_content(s2, name, inst, a, p, r)
            if n.isc() and n.c in (1, 2, 4, 8) and name == 'read' and p.off.isc():
                ex.put(s2, p.o, p.off, n.c, ex.ent_read(s2, ent[1], ent[2], n.c, int_t(n.c)))
            else:
                ex.seg_put_obj(s2, p.o, p.off, r, ent)
        out += ex.sysevent(s2, name, inst, a, r, n=n)
    return out


def int_t(n):
    from .ir import int_ty
    return int_ty(8 * n)


def m_sendlike(name):
    def h(ex, fr, st, inst, a):
        n = ex.view_u(st, ex.asint(st, a[2]), 64)
        p = ex.deref(st, a[1], inst, 'read')
        if p is None:
            return []
        if p.__class__ is Ptr:
            ex.inb(st, st.mem[p.o], p.off, n, inst, 'read')
        out = []
        r = fresh(name, -1, 0)
        out += ex.sysevent(st.copy(), name, inst, a, r, n=n)
        s2 = st.copy()
        r = fresh(name, 1, STRMAX)
        f = s2.facts.add_ge(n - r)
        if f is not None:
            s2.facts = f
            out += ex.sysevent(s2, name, inst, a, r, n=n)
        return out
    return h


def m_poll(ex, fr, st, inst, a):
    n = ex.view_u(st, ex.asint(st, a[1]), 64)
    p = ex.deref(st, a[0], inst, 'write')
    if p is None:
        return []
    if p.__class__ is Ptr:
        ex.inb(st, st.mem[p.o], p.off, n.scale(8), inst, 'write')
    return ex.pollevent(st, inst, a, p, n)


def m_errno(ex, fr, st, inst, a):
    oid = absint.GOBJ.get('errno')
    if oid is None:
        oid = absint.GOBJ['errno'] = newid()
    if oid not in st.mem:
        o = Obj(oid, 'global', C(4), lazy=True, site='errno', cls='errno')
        st.mem[oid] = o
        ex.put(st, oid, ZERO, 4, fresh('errno', 0, 0xffffffff))
    return [(st, Ptr(oid, ZERO))]


def m_noop(ret=None):
    def h(ex, fr, st, inst, a):
        return [(st, ret if ret is not None else (ex.unknown(inst.ty, 'r') if inst is not None and inst.ty.kind != 'void'
                                                  else None))]
    return h


def m_id(ex, fr, st, inst, a):
    return [(st, a[0])]


def m_die(ex, fr, st, inst, a):
    return []


def m_bswap(bits):
    def h(ex, fr, st, inst, a):
        x = ex.asint(st, a[0])
        if x.isc():
            return [(st, C(int.from_bytes((x.c % (1 << bits)).to_bytes(bits // 8, 'little'), 'big')))]
        s = x.single()
        ar = SY.ufargs.get(s) if s is not None else None
        if ar and ar[0] == 'bswap' and ar[2] == bits:
            return [(st, ar[1])]
        return [(st, ufn(('bswap', x, bits), 'bswap', 0, (1 << bits) - 1))]
    return h


LIBC = {
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memcmp': m_memcmp, 'strlen': m_strlen,
    'bcmp': m_memcmp,
    'operator new': m_new('new'), 'operator new[]': m_new('new[]'), 'malloc': m_new('malloc'),
    'calloc': m_new('calloc'),
    'operator delete': m_delete('new'), 'operator delete[]': m_delete('new[]'), 'free': m_delete('malloc'),
    'recv': m_recv, 'poll': m_poll, 'ppoll': m_poll,
    'read': lambda ex, fr, st, inst, a: m_recvlike(ex, fr, st, inst, a, 'read'),
    'send': m_sendlike('send'), 'write': m_sendlike('write'),
    'socket': m_fdnew('socket'), 'eventfd': m_fdnew('eventfd'), 'timerfd_create': m_fdnew('timerfd_create'),
    'accept4': m_fdnew('accept'), 'accept': m_fdnew('accept'),
    'close': m_sys('close'), 'shutdown': m_sys('shutdown'), 'bind': m_sys('bind'), 'listen': m_sys('listen'),
    'connect': m_sys('connect'), 'unlink': m_sys('unlink'), 'access': m_sys('access'), 'fcntl': m_sys('fcntl', -1, 1 << 20),
    'setsockopt': m_sys('setsockopt'), 'timerfd_settime': m_sys('timerfd_settime'),
    'remove': m_sys('unlink'), 'ioctl': m_sys('ioctl'), 'getsockname': m_sys('getsockname'),
    '__errno_location': m_errno, '__clang_call_terminate': m_die, 'abort': m_die, 'exit': m_die, '_exit': m_die,
    'std::terminate': m_die, '__cxa_throw': m_die, '__cxa_pure_virtual': m_die,
    '__cxa_begin_catch': m_noop(), '__cxa_end_catch': m_noop(),
    '__bswap_16': m_bswap(16), '__bswap_32': m_bswap(32), '__bswap_64': m_bswap(64),
    'htons': m_bswap(16), 'htonl': m_bswap(32), 'ntohs': m_bswap(16), 'ntohl': m_bswap(32),
}


def m_getsockopt(ex, fr, st, inst, a):
    return ex.getsockopt(st, inst, a)


def m_inet_aton(ex, fr, st, inst, a):
    p = ex.deref(st, a[1], inst, 'write')
    if p.__class__ is Ptr:
        ex.inb(st, st.mem[p.o], p.off, C(4), inst, 'write')
        made = fresh('addr', 0, (1 << 32) - 1)
        ex.put(st, p.o, p.off, 4, made)
    else:
        made = None
    r = fresh('inet_aton', 0, 1)
    return ex.sysevent(st, 'inet_aton', inst, a, r, made=made)


def m_inet_ntoa(ex, fr, st, inst, a):
    p = ex.alloc(st, 'cstr', None, site='inet_ntoa')
    st.mem[p.o].meta = (('cstr',),)
    st.mem[p.o].lazy = True
    return [(st, p)]


LIBC['getsockopt'] = m_getsockopt
LIBC['inet_aton'] = m_inet_aton
LIBC['inet_ntoa'] = m_inet_ntoa


def std_function(ex, F_, s):
    """free functions of namespace std"""
    b = strip_tpl(s)
    params = split_params(F_.dem)
    tail = b.split('::')[-1]
    if b in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!='):
        if params and any('basic_string' in p for p in params[:2]) and not any('iterator' in p.split('<')[0] for p in params):
            def h(ex, fr, st, inst, a):
                xs = []
                for p, v in zip(params, a):
                    xs.append(sval(ex, st, v, inst) if 'basic_string' in p else cstr(ex, st, v, inst))
                c = streq(ex, st, xs[0], xs[1])
                ex.event(st, 'streq', inst, a=xs[0], b=xs[1])
                return [(st, Bool(c if tail.endswith('==') else cnot(c)))]
            return h
        if params and all('iterator' in p.split('<')[0] or 'iterator' in p for p in params[:2]):
            return iter_cmp(ex, F_, tail)
        return None
    if b in ('std::copy', 'std::copy_n') and len(params) == 3:
        return std_copy(ex, F_, b)
    if b == 'std::find_if' and getattr(ex, 'factories', None) is not None:
        return find_if(ex, F_)
    if b in ('__gnu_cxx::operator-',) and len(params) == 2:
        return iter_diff(ex, F_)
    if b == 'std::operator+' and params and any('basic_string' in p for p in params):
        def cat(ex, fr, st, inst, a):
            n = ZERO
            for p, v in zip(params, a[1:]):
                if 'basic_string' in p:
                    n = n + sval(ex, st, v, inst).n
                elif p.startswith('char const*'):
                    n = n + cstr(ex, st, v, inst).n
                else:
                    n = n + ONE
            sset(ex, st, a[0], new_str(ex, st, n), inst)
            return [(st, None)]
        return cat
    if tail == 'to_string':
        def tos(ex, fr, st, inst, a):
            sset(ex, st, a[0], new_str(ex, st, fresh('len', 1, 24)), inst)
            return [(st, None)]
        return tos
    if tail in ('move', 'forward', 'addressof', '__addressof', 'ref', 'as_const') and len(params) == 1:
        return m_id
    if tail == 'swap' and len(params) == 2:
        k = kind_of_param(params[0])
        if k:
            cls = re.sub(r'\s*&+$', '', params[0]).strip()
            return cont_method(ex, F_, cls, 'swap', [params[1]])
        if 'basic_string' in params[0] and params[0].startswith('std::__cxx11::basic_string'):
            def sw(ex, fr, st, inst, a):
                x, y = sval(ex, st, a[0], inst), sval(ex, st, a[1], inst)
                sset(ex, st, a[0], y, inst)
                sset(ex, st, a[1], x, inst)
                return [(st, None)]
            return sw
    if tail in ('__throw_logic_error', '__throw_length_error', '__throw_bad_alloc', '__throw_out_of_range_fmt',
                '__throw_bad_array_new_length', '__throw_system_error', '__throw_out_of_range'):
        return m_die
    if b == 'std::operator<<':
        return m_id
    return None


def m_lifetime(ex, fr, st, inst, a):
    # a local variable or temporary whose scope has ended has no content
    p = st.res(a[1])
    o = st.mem.get(p.o) if p.__class__ is Ptr else None
    if o is not None and o.kind == 'alloca' and p.off == ZERO and (o.cells or o.segs):
        o = st.w(p.o)
        o.cells = {}
        o.segs = ()
    return [(st, None)]


def resolve(ex, F_):
    s = F_.short
    if s.startswith('DowowNetwork'):
        return None
    h = LIBC.get(s)
    if h is not None and (F_.decl or s.startswith('__bswap') or s in ('__clang_call_terminate',)):
        return h
    if s.startswith('llvm.'):
        if s.startswith('llvm.memcpy') or s.startswith('llvm.memmove'):
            return m_memcpy
        if s.startswith('llvm.memset'):
            return m_memset
        if s.startswith('llvm.lifetime.end'):
            return m_lifetime
        if s.startswith('llvm.trap'):
            return m_die
        if s.startswith('llvm.bswap'):
            return m_bswap(int(s.rsplit('i', 1)[1]))
        if s.startswith('llvm.umul.with.overflow'):
            def umul(ex, fr, st, inst, a):
                x, y = ex.asint(st, a[0]), ex.asint(st, a[1])
                x, y = ex.view_u(st, x, 64), ex.view_u(st, y, 64)
                p = x.scale(y.c) if y.isc() else y.scale(x.c) if x.isc() else fresh('mul', 0, (1 << 64) - 1)
                lim = p.neg().addc((1 << 64) - 1)
                c = cnot(cge(lim))
                if st.facts.ent_ge(lim):
                    c = F
                return [(st, Agg([p, Bool(c)]))]
            return umul
        if s.startswith('llvm.uadd.with.overflow'):
            def uadd(ex, fr, st, inst, a):
                x, y = ex.view_u(st, ex.asint(st, a[0]), 64), ex.view_u(st, ex.asint(st, a[1]), 64)
                return [(st, Agg([x + y, Bool(F)]))]
            return uadd
        if re.match(r'llvm\.[us](min|max)\.', s):
            kind = s.split('.')[1]

            def mm(ex, fr, st, inst, a):
                v = ex.view_u if kind[0] == 'u' else ex.view_s
                bits = inst.ty.bits
                x, y = v(st, ex.asint(st, a[0]), bits), v(st, ex.asint(st, a[1]), bits)
                out = []
                c = cge(x - y)
                for cc, r in ((c, x if kind.endswith('max') else y), (cnot(c), y if kind.endswith('max') else x)):
                    for s2 in ex.assume(st.copy(), cc):
                        out.append((s2, r))
                return out
            return mm
        return m_noop()
    if s.startswith('__gnu_cxx::__ops'):
        return None
    # class methods
    i = method_split(s)
    if i is not None:
        cls, meth = s[:i], s[i + 2:]
        b = strip_tpl(cls)
        params = split_params(F_.dem)
        meth0 = meth
        if b == 'std::__cxx11::basic_string':
            return string_method(ex, F_, meth, params)
        if b in ITER_CLS:
            return iter_method(ex, F_, cls, meth, params)
        if kind_of(cls):
            return cont_method(ex, F_, cls, meth, params)
        if b in ('std::mutex', 'std::recursive_mutex', 'std::__mutex_base', 'std::__recursive_mutex_base', 'std::timed_mutex',
                 'std::recursive_timed_mutex', 'std::shared_mutex'):
            k = 'recursive' if 'recursive' in b else 'mutex'
            if meth in ('lock', 'lock_shared'):
                return m_lock(k)
            if meth in ('unlock', 'unlock_shared'):
                return m_unlock
            if meth == 'try_lock':
                return m_trylock
            return m_noop()
        if b == 'std::thread':
            if meth.startswith('thread<'):
                return m_thread_ctor(F_)
            if meth in ('thread', '~thread', 'join', 'detach', 'joinable'):
                if meth == 'thread' and params:
                    return None
                return m_thread(meth)
            return m_noop()
        if b == 'std::thread::id':
            return m_noop()
        if b in ('std::allocator', 'std::__new_allocator', '__gnu_cxx::new_allocator') and (
                meth.startswith('allocator') or meth.startswith('~') or meth.startswith('__new_allocator')):
            return m_noop()
        if b in ('std::ios_base::Init',):
            return m_noop()
    h = std_function(ex, F_, s)
    if h is not None:
        return h
    return None


def method_split(s):
    """position of the '::' before the method name"""
    d = 0
    i = len(s) - 1
    m = re.search(r'::(operator\W+|operator\(\)|operator\[\])$', s)
    if m:
        return m.start()
    while i > 0:
        c = s[i]
        if c in '>)}':
            d += 1
        elif c in '<({':
            d -= 1
        elif c == ':' and s[i - 1] == ':' and d == 0:
            return i - 1
        i -= 1
    return None


CACHE = {}


def dispatch(ex, fr, st, inst, F_, args):
    k = F_.name
    if k not in ex.rescache:
        h = resolve(ex, F_)
        if h is None and F_.decl:
            sh = F_.short
            if sh.startswith('std::basic_ostream') or sh.startswith('std::ostream') or sh.startswith('std::basic_ios') or \
                    sh.startswith('std::ios_base') or sh.startswith('std::locale'):
                h = m_noop()
        ex.rescache[k] = h
    h = ex.rescache[k]
    if h is None:
        return None
    return h(ex, fr, st, inst, args)


def indirect(ex, fr, st, I, fv, args):
    """call through a pointer"""
    r = ex.indirect_hook(fr, st, I, fv, args)
    if r is not None:
        return r
    ex.note_unmodelled('indirect call at %s:%d' % (I.fn.short, I.line))
    return [(st, ex.unknown(I.ty, 'ret') if I.ty.kind != 'void' else None)]


def install(ex):
    ex.models['__slot_load'] = slot_load
    ex.models['__split_over'] = split_over
    ex.models['__slot_store'] = slot_store
    ex.models['__dispatch'] = dispatch
    ex.models['__indirect'] = indirect
    ex.rescache = {}
    ex.strlen = {}
    ex.strcells = set()
    ex.contcells = {}
    ex.ptrcells = set()
    ex.elemidx = {}
    ex.slotps = {}
    ex.rettype = None
