"""Linear integer terms and a small linear-inequality abstract domain.

A fact set is a conjunction of  L >= 0,  L == 0  and  L != 0  over integer symbols.
Entailment is decided by Gaussian and Fourier-Motzkin elimination with integer
tightening, bounded in size; running out of the bound answers "not entailed"."""
from math import gcd


class Syms:
    """symbol table: per symbol a name and constant bounds that always hold"""

    def __init__(self):
        self.name = ['?']
        self.lo = [None]
        self.hi = [None]
        self.uf = {}
        self.ufargs = {}
        self.tag = {}

    def new(self, name, lo=None, hi=None, tag=None):
        self.name.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        i = len(self.name) - 1
        if tag is not None:
            self.tag[i] = tag
        return i

    def fn(self, key, name, lo=None, hi=None, tag=None):
        """hash-consed symbol: same key, same symbol"""
        s = self.uf.get(key)
        if s is None:
            s = self.new(name, lo, hi, tag)
            self.uf[key] = s
            self.ufargs[s] = key
        return s


SY = Syms()


class L:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is L and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def isc(self):
        return not self.t

    def __add__(self, o):
        if not o.t:
            return L(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return L(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return L(self.c + o.c, tuple(sorted(d.items())))

    def neg(self):
        return L(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        return self + o.neg()

    def addc(self, c):
        return L(self.c + c, self.t) if c else self

    def scale(self, k):
        if k == 0:
            return ZERO
        return L(self.c * k, tuple((s, v * k) for s, v in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def single(self):
        """(sym) if the term is exactly one symbol"""
        if len(self.t) == 1 and self.t[0][1] == 1 and self.c == 0:
            return self.t[0][0]
        return None

    def subst(self, m):
        """m: sym -> L"""
        for s, _ in self.t:
            if s in m:
                break
        else:
            return self
        r = L(self.c)
        keep = []
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
            else:
                keep.append((s, k))
        return r + L(0, tuple(keep))

    def __repr__(self):
        p = []
        for s, k in self.t:
            n = '%s' % SY.name[s]
            n = n if n[-1].isdigit() and '.' in n else '%s.%d' % (n, s)
            p.append(n if k == 1 else '%d*%s' % (k, n))
        if self.c or not p:
            p.append(str(self.c))
        return ' + '.join(p)


ZERO = L(0)
ONE = L(1)


def C(n):
    return L(n)


def S(s):
    return L(0, ((s, 1),))


JORIG = {}     # joined number -> (object, offset) of the cell whose value it is


def fresh(name, lo=None, hi=None, tag=None):
    return S(SY.new(name, lo, hi, tag))


def ufn(key, name, lo=None, hi=None, tag=None):
    return S(SY.fn(key, name, lo, hi, tag))


def _norm(c, d):
    """c + sum d >= 0 with integer tightening; returns (c, d)"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1:
            return c, d
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = c // g
    return c, d


MAXC = 240


def _infeasible(ges, eqs):
    """ges/eqs: lists of (c, dict).  True only if no integer solution exists (may miss)."""
    ges = [(c, dict(d)) for c, d in ges]
    eqs = [(c, dict(d)) for c, d in eqs]
    # gaussian elimination
    while eqs:
        c, d = eqs.pop()
        if not d:
            if c:
                return True
            continue
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if c % g:
            return True
        if g > 1:
            c //= g
            d = {s: k // g for s, k in d.items()}
        # pick unit coefficient
        piv = None
        for s, k in d.items():
            if k == 1 or k == -1:
                piv = s
                break
        if piv is None:
            # no unit coefficient: keep as two inequalities
            ges.append((c, dict(d)))
            ges.append((-c, {s: -k for s, k in d.items()}))
            continue
        k = d.pop(piv)
        # piv = -(c + d)/k   with k = +-1
        rc = -c * k
        rd = {s: -v * k for s, v in d.items()}
        for lst in (ges, eqs):
            for i, (c2, d2) in enumerate(lst):
                q = d2.get(piv)
                if q:
                    d2 = dict(d2)
                    del d2[piv]
                    for s, v in rd.items():
                        w = d2.get(s, 0) + v * q
                        if w:
                            d2[s] = w
                        else:
                            d2.pop(s, None)
                    lst[i] = (c2 + rc * q, d2)
    # normalise, dedupe
    cur = {}

    def add(c, d):
        if not d:
            return c < 0
        c, d = _norm(c, d)
        key = tuple(sorted(d.items()))
        o = cur.get(key)
        if o is None or c < o[0]:
            cur[key] = (c, d)
            nk = tuple((s, -k) for s, k in key)
            p = cur.get(nk)
            if p is not None and p[0] + c < 0:
                return True
        return False
    for c, d in ges:
        if add(c, d):
            return True
    while cur:
        occ = {}
        for c, d in cur.values():
            for s, k in d.items():
                p = occ.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        best = None
        for s, (p, n) in occ.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        pos, neg, rest = [], [], {}
        for key, (c, d) in cur.items():
            k = d.get(s)
            if k is None:
                rest[key] = (c, d)
            elif k > 0:
                pos.append((c, d, k))
            else:
                neg.append((c, d, -k))
        cur = rest
        if len(pos) * len(neg) + len(rest) > MAXC:
            return False
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for x, v in d1.items():
                    if x != s:
                        d[x] = v * m1
                for x, v in d2.items():
                    if x != s:
                        w = d.get(x, 0) + v * m2
                        if w:
                            d[x] = w
                        else:
                            d.pop(x, None)
                if add(c1 * m1 + c2 * m2, d):
                    return True
    return False


class Facts:
    """persistent conjunction of facts"""
    __slots__ = ('ge', 'eq', 'ne', '_idx', '_cache')
    EMPTY = None

    def __init__(self, ge=frozenset(), eq=frozenset(), ne=frozenset()):
        self.ge, self.eq, self.ne = ge, eq, ne
        self._idx = None
        self._cache = {}

    def _index(self):
        if self._idx is None:
            ix = {}
            for k, grp in (('g', self.ge), ('e', self.eq)):
                for l in grp:
                    for s, _ in l.t:
                        ix.setdefault(s, []).append((k, l))
            self._idx = ix
        return self._idx

    def _component(self, syms):
        ix = self._index()
        seen = set()
        todo = list(syms)
        cons = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for k, l in ix.get(s, ()):
                if (k, l) not in cons:
                    cons.add((k, l))
                    for x, _ in l.t:
                        if x not in seen:
                            todo.append(x)
        return seen, cons

    def _unsat_with(self, extra_ge, extra_eq):
        syms = set()
        for l in extra_ge + extra_eq:
            syms.update(l.syms())
        seen, cons = self._component(syms)
        ges = [(l.c, dict(l.t)) for l in extra_ge]
        eqs = [(l.c, dict(l.t)) for l in extra_eq]
        for k, l in cons:
            (ges if k == 'g' else eqs).append((l.c, dict(l.t)))
        lo, hi = SY.lo, SY.hi
        for s in seen:
            if lo[s] is not None:
                ges.append((-lo[s], {s: 1}))
            if hi[s] is not None:
                ges.append((hi[s], {s: -1}))
        return _infeasible(ges, eqs)

    def _range0(self, l):
        """constant bounds from symbol bounds only: (lo, hi) with None for infinite"""
        a = b = l.c
        lo, hi = SY.lo, SY.hi
        for s, k in l.t:
            x, y = (lo[s], hi[s]) if k > 0 else (hi[s], lo[s])
            a = None if a is None or x is None else a + k * x
            b = None if b is None or y is None else b + k * y
            if a is None and b is None:
                break
        return a, b

    def ent_ge(self, l):
        """does L >= 0 hold?"""
        if not l.t:
            return l.c >= 0
        a, b = self._range0(l)
        if a is not None and a >= 0:
            return True
        if b is not None and b < 0:
            return self.unsat()
        r = self._cache.get(l)
        if r is None:
            if l in self.ge or l in self.eq:
                r = True
            else:
                r = self._unsat_with([l.neg().addc(-1)], [])
            self._cache[l] = r
        return r

    def unsat(self):
        r = self._cache.get('unsat')
        return bool(r)

    def ent_eq(self, l):
        if not l.t:
            return l.c == 0
        if l in self.eq:
            return True
        return self.ent_ge(l) and self.ent_ge(l.neg())

    def ent_ne(self, l):
        if not l.t:
            return l.c != 0
        if l in self.ne or l.neg() in self.ne:
            return True
        if self.ent_ge(l.addc(-1)) or self.ent_ge(l.neg().addc(-1)):
            return True
        return self._unsat_with([], [l])

    def add_ge(self, l):
        """returns new Facts or None when infeasible"""
        if not l.t:
            return self if l.c >= 0 else None
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = L(l.c // g, tuple((s, k // g) for s, k in l.t))
        if l in self.ge:
            return self
        a, b = self._range0(l)
        if a is not None and a >= 0:
            return self
        if b is not None and b < 0:
            return None
        if self._unsat_with([l], []):
            return None
        f = Facts(self.ge | {l}, self.eq, self.ne)
        return f._upgrade_ne(set(l.syms()))

    def add_eq(self, l):
        if not l.t:
            return self if l.c == 0 else None
        if l in self.eq:
            return self
        a, b = self._range0(l)
        if (a is not None and a > 0) or (b is not None and b < 0):
            return None
        if l in self.ne or l.neg() in self.ne:
            return None
        if self._unsat_with([], [l]):
            return None
        f = Facts(self.ge, self.eq | {l}, self.ne)
        return f._upgrade_ne(set(l.syms()), True)

    def add_ne(self, l):
        if not l.t:
            return self if l.c != 0 else None
        if l in self.ne or l.neg() in self.ne:
            return self
        p, n = self.ent_ge(l), self.ent_ge(l.neg())
        if p and n:
            return None
        if p:
            return self.add_ge(l.addc(-1))
        if n:
            return self.add_ge(l.neg().addc(-1))
        return Facts(self.ge, self.eq, self.ne | {l})

    def _upgrade_ne(self, syms, iseq=False):
        if not self.ne:
            return self
        seen, _ = self._component(syms)
        for d in self.ne:
            if any(s in seen for s, _ in d.t):
                p, n = self.ent_ge(d), self.ent_ge(d.neg())
                if p and n:
                    return None
                if p or n:
                    f = Facts(self.ge, self.eq, self.ne - {d})
                    f = f.add_ge(d.addc(-1) if p else d.neg().addc(-1))
                    return f
        return self

    def restrict(self, keep):
        """drop the symbols that are not in keep, eliminating cheaply where possible"""
        bad = set()
        for grp in (self.ge, self.eq, self.ne):
            for l in grp:
                for s, _ in l.t:
                    if s not in keep:
                        bad.add(s)
        if not bad:
            return self
        # what is not connected with the kept symbols says nothing about them
        ix = self._index()
        seen, _ = self._component([x for x in keep if x in ix])
        if bad - seen:
            def near(grp):
                return frozenset(l for l in grp if l.t and l.t[0][0] in seen)
            n = Facts(near(self.ge), near(self.eq), near(self.ne))
            if len(n.ge) + len(n.eq) + len(n.ne) < len(self.ge) + len(self.eq) + len(self.ne):
                return n.restrict(keep)
        ge, eq, ne = set(self.ge), set(self.eq), set(self.ne)
        big = {}
        for grp in (ge, eq):
            for l in grp:
                for s, k in l.t:
                    if s in bad and abs(k) > 255:
                        big[s] = 1
        fix = {}
        for s in big:
            # a wrap count whose value is known
            lo, hi = SY.lo[s], SY.hi[s]
            if lo is not None and self.ent_ge(C(lo) - S(s)):
                fix[s] = C(lo)
            elif hi is not None and self.ent_ge(S(s) - C(hi)):
                fix[s] = C(hi)
        if fix:
            ge = {x.subst(fix) for x in ge}
            eq = {x.subst(fix) for x in eq}
            ne = {x.subst(fix) for x in ne}
        for s in sorted(bad):
            e = None
            for l in eq:
                for x, k in l.t:
                    if x == s and k in (1, -1):
                        e = (l, k)
                        break
                if e:
                    break
            if e:
                l, k = e
                eq.discard(l)
                # s = -(l - k s)/k
                rest = (l - L(0, ((s, k),))).scale(-k)
                m = {s: rest}
                # bounds of s carry over
                if SY.lo[s] is not None:
                    ge.add(rest.addc(-SY.lo[s]))
                if SY.hi[s] is not None:
                    ge.add(rest.neg().addc(SY.hi[s]))
                ge = {x.subst(m) for x in ge}
                eq = {x.subst(m) for x in eq}
                ne = {x.subst(m) for x in ne}
            elif any(x == s for l in eq for x, _ in l.t):
                continue        # divisibility information: keep the symbol
            else:
                pos = [l for l in ge if any(x == s and k > 0 for x, k in l.t)]
                neg = [l for l in ge if any(x == s and k < 0 for x, k in l.t)]
                if SY.lo[s] is not None:
                    pos.append(L(-SY.lo[s], ((s, 1),)))
                if SY.hi[s] is not None:
                    neg.append(L(SY.hi[s], ((s, -1),)))
                ge -= set(pos)
                ge -= set(neg)
                eq = {l for l in eq if all(x != s for x, _ in l.t)}
                ne = {l for l in ne if all(x != s for x, _ in l.t)}
                if len(pos) * len(neg) <= 24:
                    for p in pos:
                        kp = dict(p.t)[s]
                        for n in neg:
                            kn = -dict(n.t)[s]
                            g = gcd(kp, kn)
                            r = p.scale(kn // g) + n.scale(kp // g)
                            if r.t:
                                ge.add(r)
        out = set()
        f0 = Facts()
        for l in ge:
            if not l.t:
                continue
            g = 0
            for _, k in l.t:
                g = gcd(g, k)
            if g > 1:
                l = L(l.c // g, tuple((s, k // g) for s, k in l.t))
            a, _ = f0._range0(l)
            if a is None or a < 0:
                out.add(l)
        # drop parallel weaker ones
        best = {}
        for l in out:
            o = best.get(l.t)
            if o is None or l.c < o.c:
                best[l.t] = l
        return Facts(frozenset(best.values()), frozenset(l for l in eq if l.t), frozenset(l for l in ne if l.t))

    def __repr__(self):
        return '; '.join([repr(l) + ' >= 0' for l in self.ge] + [repr(l) + ' == 0' for l in self.eq] +
                         [repr(l) + ' != 0' for l in self.ne])


Facts.EMPTY = Facts()
