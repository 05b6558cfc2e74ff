"""Rules over mutexes and shared members (properties P20 and P21)."""
from .rules import *
from .net import iscons


def pretty(cx, k):
    """a readable name of a resource"""
    if k[0] == 'ev':
        return 'event at offset %d of %s' % (k[2], k[1])
    if k[0] == 'end':
        return 'end of %s' % k[1]
    return 'mutex at offset %d of %s' % (k[1], k[0])


class LockGraph:
    """resources (mutexes, events that threads raise, ends of threads) and the order in which threads need them"""

    def __init__(self, cx):
        self.cx = cx
        ex = cx.ex
        self.log = {}
        for (root, name, what, held), at in ex.locklog.items():
            self.log.setdefault(root, []).append((name, what, held, at))
        self.fns = {r.F.name: r.name for r in ex.roots}
        self.cls = {r.name: r.cls for r in ex.roots}
        self.memo = {}
        # who raises an event
        self.raisers = {}
        for root, l in self.log.items():
            for name, what, held, at in l:
                if name == 'sys' and what[0] == 'write':
                    self.raisers.setdefault(what[1], set()).add(root)
        self.all = []
        for root, l in self.log.items():
            for name, what, held, at in l:
                if held:
                    for n in self.needs(name, what):
                        for h in held:
                            self.edge(h, n, root, at)
        for ev, roots in self.raisers.items():
            for r in roots:
                for n in self.takes(r):
                    if n[0] not in ('ev', 'end'):
                        self.edge(('ev',) + ev, n, r, None)
        # who holds a reference may call any function before letting go
        lets = set(r.name for r in ex.roots if r.name.startswith('Connection::DecreaseRefs('))
        for ev, roots in self.raisers.items():
            if roots & lets:
                for r in ex.roots:
                    if r.how == 'api' and '~' not in r.name and not iscons(r):
                        for n in self.takes(r.name):
                            if n[0] not in ('ev', 'end'):
                                self.edge(('ev',) + ev, n, r.name, None)
        for r in ex.roots:
            if r.how == 'thread':
                for n in self.takes(r.name):
                    self.edge(('end', r.name), n, r.name, None)

    def edge(self, a, b, root, at):
        if a != b:
            self.all.append((a, b, root, at))

    def callees(self, what):
        pat = 'Connection::~Connection(' if what == '~' else 'Connection::%s(' % what
        return [r for r in self.cls if r.startswith(pat)]

    def needs(self, name, what):
        """the resources that an action waits for"""
        if name == 'acquire':
            return {what}
        if name in ('ccall', 'cdelete'):
            out = set()
            for c in self.callees(what):
                out |= self.takes(c)
            return out
        if name == 'sys' and what[0] == 'wait':
            return set(('ev',) + k for k in what[1:] if k[0])
        return set()

    def takes(self, root):
        """everything a function may wait for"""
        r = self.memo.get(root)
        if r is None:
            r = self.memo[root] = set()
            n = -1
            while n != len(r):
                n = len(r)
                for name, what, held, at in self.log.get(root, ()):
                    r |= self.needs(name, what)
        return r

    def within(self, roots):
        """the order as far as these functions set it"""
        edges = {}
        for a, b, root, at in self.all:
            if root in roots:
                edges.setdefault(a, {}).setdefault(b, (root, at))
        return edges

    def deadlocks(self):
        """(parts, edges); nothing starts a connection while it is destroyed"""
        every = set(r.name for r in self.cx.ex.roots)
        starts = set(r.name for r in self.cx.ex.roots if r.cls != SERVER and any(x[0] == 'spawn' for x in self.log.get(r.name, ())))
        ends = set(r for r in every if '~' in r)
        seen = set()
        for roots in (every - starts, every - ends):
            edges = self.within(roots)
            for c in self.cycles(edges):
                if frozenset(c) not in seen:
                    seen.add(frozenset(c))
                    yield c, edges

    def cycles(self, edges):
        """strongly connected parts with more than one resource"""
        index, low, onst, st, out = {}, {}, set(), [], []

        def go(v):
            index[v] = low[v] = len(index)
            st.append(v)
            onst.add(v)
            for w in edges.get(v, ()):
                if w not in index:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1:
                    out.append(comp)
        for v in list(edges):
            if v not in index:
                go(v)
        return out


def lock_rule(cx, root=None):
    """mutexes are released on every path, taken in one order, and not held across callbacks and unbounded waits"""
    ex, rep = cx.ex, cx.rep
    g = LockGraph(cx)
    mine = [root] if root is not None else [r for r in ex.roots if r.how == 'api']
    for r in mine:
        for p in r.paths:
            runs(rep, p)
    names = set(r.name for r in mine)
    # order
    for a, b, r, at in g.all:
        rep.ok('taken in the same order everywhere', (a, b))
    for comp, edges in g.deadlocks():
        c = set(comp)
        how = []
        for a in sorted(c, key=str):
            for b, (r, at) in sorted(edges.get(a, {}).items(), key=str):
                if b in c:
                    how.append('%s before %s in %s%s' % (pretty(cx, a), pretty(cx, b), r, ' line %s' % at[2] if at else ''))
        rep.bad.setdefault((sorted(x.split(' in ')[1] for x in how)[0].split(' line')[0], 'deadlock: ' + '; '.join(how)), (how[0], how))
    # balance
    for r in mine:
        rep.ok('mutexes released at the end', r.name)
    for e in ex.nodes[1:]:
        if e is not None and e.name == 'bad' and e.kw.get('kind') == 'lock':
            rep.check(False, e, e.msg)
    # callbacks and waits
    for n in sorted(names):
        for name, what, held, at in g.log.get(n, ()):
            where = Place(at)
            if name == 'callback':
                conn = [h for h in held if h[0] in ('Connection', 'Client')]
                rep.check(not conn, where, 'a handler is called while a mutex of the connection is held', 'no mutex held in handlers')
                plain = [h for h in held if not ex.relockable.get(h, True)]
                rep.check(not plain, where, 'a handler is called while a mutex is held which functions lock that the handler may call', 'handlers may call functions')
            if name == 'sys' and what[0] == 'wait' and held:
                rep.check(all(k[0] for k in what[1:]), where, 'a thread waits for others while it holds a mutex', 'no wait under a mutex')


class Place:
    def __init__(self, at):
        self.fn, self.file, self.line = at
        self.id = at
        self.chain = ()

    def at(self):
        return '%s:%s (%s)' % (self.file.split('/')[-1], self.line, self.fn.replace(NS, ''))


# ---------------------------------------------------------------------------------------------------- P21
def lockset_rule(cx):
    """shared containers, strings, pointers and counters are accessed under a common mutex"""
    ex, rep = cx.ex, cx.rep
    by = {r.name: r for r in ex.roots}
    for r in ex.roots:
        rep.roots.add(r.name)
        for p in r.paths:
            runs(rep, p)

    def apart(a, b):
        """can the two accesses never happen at the same time?"""
        ra, rb = by[a[0]], by[b[0]]
        if ra is rb and ra.how == 'thread':
            return True                     # one thread of a kind per object
        for x, rx, ry in ((a, ra, rb), (b, rb, ra)):
            # before the other thread is started
            if ry.how == 'thread' and ry.F.name in set(n for n, _ in rx.spawned) and ry.F.name not in x[3]:
                return True
        return False

    def single(k, a, b):
        # one thread at a time uses the interface of a client
        return k[0] == 'Client' and by[a[0]].how == 'api' and by[b[0]].how == 'api'
    n = 0
    for k, d in sorted(ex.acc1.items()):
        t = ex.ftype.get(k)
        kind = t[0] if t else None
        if kind not in ('cont', 'str', 'ptr') and k not in ex.rmw:
            continue
        what = {'cont': 'a container', 'str': 'a string', 'ptr': 'a pointer'}.get(kind, 'a counter')
        live = [a for a in d if not a[4]]
        for a in live:
            if a[1] != 'w':
                continue
            for b in live:
                if apart(a, b) or single(k, a, b):
                    continue
                n += 1
                rep.ok('a common mutex for each pair of accesses', (k, a[0], a[6], b[0], b[6]))
                if not a[2] & b[2]:
                    x = b if len(b[2]) <= len(a[2]) else a
                    y = a if x is b else b
                    w = Place((x[5], files(ex, x), x[6]))
                    rep.violation(w, '%s of %s is accessed without the mutex under which %s %s it' % (
                        what, k[0], y[0], 'changes' if y[1] == 'w' else 'reads'))
    if not n:
        raise Missing('no shared members')


def files(ex, a):
    for r in ex.roots:
        if r.name == a[0]:
            return '%s.cpp' % r.cls
    return '?'
