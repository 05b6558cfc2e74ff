"""Abstract values of the interpreter."""
from .lin import L, SY, ufn, C, ZERO, ONE


class Ptr:
    """pointer into an object: (object id, byte offset)"""
    __slots__ = ('o', 'off')

    def __init__(self, o, off=ZERO):
        self.o, self.off = o, off

    def __eq__(self, x):
        return x.__class__ is Ptr and x.o == self.o and x.off == self.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return 'ptr(#%s+%r)' % (self.o, self.off)


class PSym:
    """a pointer nothing is known about yet; resolved to null or to its own object on demand"""
    __slots__ = ('id', 'origin')

    def __init__(self, id, origin=None):
        self.id, self.origin = id, origin

    def __eq__(self, x):
        return x.__class__ is PSym and x.id == self.id

    def __hash__(self):
        return hash(('ps', self.id))

    def __repr__(self):
        return 'psym%d<%s>' % (self.id, self.origin)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return x.__class__ is Fn and x.name == self.name

    def __hash__(self):
        return hash(('fn', self.name))

    def __repr__(self):
        return '&' + self.name


class Bool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, x):
        return x.__class__ is Bool and x.c == self.c

    def __hash__(self):
        return hash(('bo', self.c))

    def __repr__(self):
        return 'bool(%r)' % (self.c,)


class Slot:
    """reference to element idx of the container stored at (o, off); sub = byte offset inside the element"""
    __slots__ = ('o', 'off', 'idx', 'sub', 'seq')

    def __init__(self, o, off, idx, sub=0, seq=None):
        self.o, self.off, self.idx, self.sub, self.seq = o, off, idx, sub, seq

    def k(self):
        return (self.o, self.off, self.idx, self.sub)

    def __eq__(self, x):
        return x.__class__ is Slot and x.k() == self.k()

    def __hash__(self):
        return hash(('sl',) + self.k())

    def __repr__(self):
        return 'slot(#%s+%s[%r]+%s)' % (self.o, self.off, self.idx, self.sub)


class Iter:
    """iterator of the container stored at (o, off)"""
    __slots__ = ('o', 'off', 'idx')

    def __init__(self, o, off, idx):
        self.o, self.off, self.idx = o, off, idx

    def __eq__(self, x):
        return x.__class__ is Iter and (x.o, x.off, x.idx) == (self.o, self.off, self.idx)

    def __hash__(self):
        return hash(('it', self.o, self.off, self.idx))

    def __repr__(self):
        return 'iter(#%s+%s[%r])' % (self.o, self.off, self.idx)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, x):
        return x.__class__ is Agg and x.v == self.v

    def __hash__(self):
        return hash(('ag', self.v))

    def __repr__(self):
        return 'agg%r' % (self.v,)


class Opaque:
    """value of no interest (floats, unmodelled structures)"""
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def __eq__(self, x):
        return x.__class__ is Opaque and x.tag == self.tag

    def __hash__(self):
        return hash(('op', self.tag))

    def __repr__(self):
        return 'opaque(%s)' % (self.tag,)


class Str:
    """std::string: identity of the content and its length; lit = known bytes"""
    __slots__ = ('sid', 'n', 'lit')

    def __init__(self, sid, n, lit=None):
        self.sid, self.n, self.lit = sid, n, lit

    def __eq__(self, x):
        return x.__class__ is Str and x.sid == self.sid and x.n == self.n

    def __hash__(self):
        return hash(('str', self.sid, self.n))

    def __repr__(self):
        return 'str(%r,n=%r)' % (self.lit if self.lit is not None else self.sid, self.n)


class Cont:
    """standard container.  seq: identity of the element sequence; live elements are
    [h, n); over: ((idx, value), ...) elements stored since seq was fixed; fp: elements
    [h, fp) were freed; holes: further freed indices"""
    __slots__ = ('kind', 'seq', 'h', 'n', 'over', 'fp', 'holes', 'iso', 'elem')

    def __init__(self, kind, seq, h, n, over=(), fp=None, holes=(), iso=None, elem=''):
        self.kind, self.seq, self.h, self.n = kind, seq, h, n
        self.over, self.fp, self.holes, self.iso, self.elem = over, (h if fp is None else fp), holes, iso, elem

    def rep(self, **kw):
        d = {k: getattr(self, k) for k in Cont.__slots__}
        d.update(kw)
        return Cont(**d)

    def key(self):
        return tuple(getattr(self, k) for k in Cont.__slots__)

    def __eq__(self, x):
        return x.__class__ is Cont and x.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s(seq%s,[%r..%r),over=%r,fp=%r,holes=%r,iso=%r)' % (
            self.kind, self.seq, self.h, self.n, self.over, self.fp, self.holes, self.iso)


NULL = ZERO          # the null pointer is the integer 0
T = ('T',)
F = ('F',)


def cge(l):
    if not l.t:
        return T if l.c >= 0 else F
    return ('ge', l)


def ceq(l):
    if not l.t:
        return T if l.c == 0 else F
    if l.t[0][1] < 0:
        l = l.neg()
    return ('eq', l)


def cne(l):
    return cnot(ceq(l))


def cnot(c):
    k = c[0]
    if k == 'T':
        return F
    if k == 'F':
        return T
    if k == 'ge':
        return cge(c[1].neg().addc(-1))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'null':
        return ('nonnull', c[1])
    if k == 'nonnull':
        return ('null', c[1])
    if k == 'and':
        return cor(cnot(c[1]), cnot(c[2]))
    if k == 'or':
        return cand(cnot(c[1]), cnot(c[2]))
    raise ValueError(c)


def cand(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T or a == b:
        return a
    return ('and', a, b)


def cor(a, b):
    if a == T or b == T:
        return T
    if a == F:
        return b
    if b == F or a == b:
        return a
    return ('or', a, b)


BSYM = {}


def bool_int(c):
    """0/1 integer term of a condition"""
    if c == T:
        return ONE
    if c == F:
        return ZERO
    l = ufn(('b', c), 'b', 0, 1)
    BSYM[l.t[0][0]] = c
    return l


def csyms(c, out):
    k = c[0]
    if k in ('ge', 'eq', 'ne'):
        for s, _ in c[1].t:
            out.add(s)
    elif k in ('and', 'or'):
        csyms(c[1], out)
        csyms(c[2], out)
