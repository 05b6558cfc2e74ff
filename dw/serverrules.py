"""Rules over the life of a server (property P22)."""
from .liferules import *

ACCEPTS = ('accept', 'accept4')


def lists(cx):
    """the members of the server that are containers of connections"""
    offs = set(k[1] for k, t in cx.ex.ftype.items() if k[0] == SERVER and t[0] == 'cont')
    if len(offs) != 1:
        raise Missing('the list of connections of the server is %s' % ('missing' if not offs else 'ambiguous'))
    return offs.pop()


def readers_locks(cx, LIST):
    """mutexes that functions of other threads hold when they use the list"""
    out = None
    for (rn, rw, held, sp, life, fn, line) in cx.ex.acc1.get((SERVER, LIST), {}):
        if life or [r for r in cx.ex.roots if r.name == rn][0].how == 'thread':
            continue
        out = held if out is None else out & held
    if not out:
        raise Missing('GetConnection() does not protect the list of connections')
    return out


def sock(cx):
    """the listening socket of the server"""
    out = set(e.off.c for r in cx.roots(r'Server::Start(Tcp|Unix)\(') for p in r.paths for e in p.evs if e.name == 'set' and e.off.isc() and
              any(x.name == 'fdnew' and x.call == 'socket' and x.fd == e.val for x in p.evs))
    if len(out) != 1:
        raise Missing('the listening socket of the server is %s' % ('missing' if not out else 'ambiguous'))
    return out.pop()


def server_thread(cx, root):
    if root.cls != SERVER:
        return
    ex, ro, rep = cx.ex, cx.roles, cx.rep
    LIST, SOCK = lists(cx), sock(cx)
    M = readers_locks(cx, LIST)
    ans = Answers(cx, root)
    idoffs, seen = set(), set()
    for p in root.paths:
        runs(rep, p)
        if p.kind in ('iter', 'leave'):
            for evs in unfold(ex, p.evs):
                a_round(cx, root, p, evs, SOCK, LIST, ans, idoffs, seen)
    if 'poll' not in seen:
        raise Missing('the server does not wait for events')
    rep.check('accept' in seen, root.F.short, 'the server makes no connection from what it accepts', 'connections made')
    the_end(cx, root, SOCK, LIST, M)
    watch_rule(cx, root, M, LIST, ro.SDISCH, ro.STOSTOP)
    unique_rule(cx, root, idoffs)
    bad = [e for e in ex.nodes[root.nodes[0]:root.nodes[1]] if e.name == 'bad' and e.kw.get('kind') in ('leak', 'uaf', 'dfree', 'double')]
    live = set(e.id for p in root.paths for e in every(cx, p))
    for e in bad:
        rep.check(e.id not in live, e, e.msg)


def nohandler(ex, root, e, H):
    return e.name == 'br' and e.c.__class__ is tuple and e.c[0] == 'null' and ex.psorigin(e.c[1]) == (root.this, H)


def compared(root, f, MAX):
    """facts about the maximum: (its sign, the constant, the sign of what it is compared with)"""
    for l in f.ge if f is not None else ():
        a = [k for s, k in l.t if source(s) == (root.this, MAX)]
        n = [k for s, k in l.t if source(s) != (root.this, MAX) and abs(k) == 1]
        if len(a) == 1 and len(n) <= 1 and not any(1 < abs(k) < 1 << 32 or SY.ufargs.get(s, ('',))[0] == 'byte' for s, k in l.t):       # nothing is cut off
            yield a[0], l.c, n[0] if n else 0


def fewer(root, f, MAX):
    """the maximum is negative or above the number of connections"""
    return any(k == 1 and n in (0, -1) and c <= -1 or k == -1 and n == 0 and c <= -1 for k, c, n in compared(root, f, MAX))


def enough(root, f, MAX):
    return any(k == -1 and n in (0, 1) and c <= 0 for k, c, n in compared(root, f, MAX))


def isnull(ex, root, st, H):
    """the handler is known to be missing"""
    return any(v == ZERO or v == 0 for i, v in st.psub.items() if ex.psorigin(i) == (root.this, H))


def a_round(cx, root, p, evs, SOCK, LIST, ans, idoffs, seen):
    """one round of the loop of the server"""
    ex, ro, rep = cx.ex, cx.roles, cx.rep
    this, f = root.this, p.st.facts
    end = evs[-1] if evs else root.F.short
    rounds = [e for e in evs if isround(e)]
    for e in rounds:
        seen.add('poll')
        rep.check(negative(e.facts, e.timeout), e, 'the server does not wait until something happens', 'waits for events')
    if not rounds:
        rep.check(p.kind != 'leave', end, 'the server stops without waiting for a request', 'stops when asked')
        return
    for e in rounds:
        if any(d.get('role') == SOCK for d in e.fds.values()):
            rep.check(any(fewer(root, x.facts, ro.SMAX) for x in evs[:evs.index(e) + 1]), e, 'the server waits for connections although it has the maximum number of them', 'maximum obeyed')
        else:
            rep.check(any(enough(root, x.facts, ro.SMAX) for x in evs[:evs.index(e) + 1]), e, 'the server does not wait for connections although it has room for them', 'accepts below the maximum')
    r = sym(rounds[-1].ret)
    later = [e.facts for e in evs[evs.index(rounds[-1]):] if e.facts is not None] + [f]
    acts = [e for e in evs[evs.index(rounds[-1]):] if e.name in ('fdnew', 'callback', 'cdelete') or
            e.name in ('push', 'remove', 'erase', 'pop') and e.get('oid') == this and e.get('off') == LIST]
    if r is not None and not any(g.ent_ge(S(r)) for g in later):
        # interrupted
        for e in acts:
            rep.check(False, e, 'after an interrupted poll() the server acts on events that did not happen', 'signals have no effect')
        rep.check(p.kind != 'leave', end, 'the server stops because of a signal', 'signals have no effect')
        return
    rep.ok('signals have no effect', p.evs[-1].id)
    def bit(role):
        for g in later:
            b = ans.bit(g, rounds[-1].pid, role)
            if b is not None:
                return b
    stop, ready = bit(ro.STOSTOP), bit(SOCK)
    if p.kind == 'iter':
        rep.check(stop != 1, end, 'the server goes on although it was asked to stop', 'stop requests obeyed')
    elif stop != 1:
        rep.check(ready != 1 and not acts, end, 'the server stops without a request', 'stops when asked')
    # new connections
    news = [e for e in evs if e.name == 'fdnew' and e.call in ACCEPTS]
    for e in news:
        rep.check(e.role == SOCK, e, 'a connection is accepted from another descriptor than the listening socket', 'accepted from the socket')
    if p.kind == 'iter' and ready == 1:
        rep.check(news, end, 'the server does not accept a connection that is waiting', 'waiting connections accepted')
    conns = [e for e in evs if e.name == 'cctor']
    calls = [e for e in evs if e.name == 'callback' and e.origin == (this, ro.SCONNH)]
    pushes = [e for e in evs if e.name == 'push' and e.oid == this and e.off == LIST]
    mine = set()
    for n in news:
        c = [e for e in conns if any(a.__class__ is L and sym(a) is not None and sym(a) == sym(n.fd) for a in e.args)]
        if any(negative(g, n.fd) or g.ent_ge(n.fd.neg().addc(-1)) for g in later):
            rep.check(not c, n, 'a connection is made from a failed accept()', 'failed accept() has no effect')
            continue
        if not rep.check(len(c) == 1, n, 'an accepted connection is lost', 'accepted connections kept'):
            continue
        seen.add('accept')
        c = c[0]
        obj = c.obj
        mine.add(obj)
        given = [e for e in evs if e.name == 'cset' and e.obj == obj and e.val.__class__ is L and e.val != ZERO]
        put = [e for e in pushes if e.obj == obj]
        told = [e for e in calls if obj in e.objs]
        none = isnull(ex, root, p.st, ro.SCONNH) or [e for e in evs if nohandler(ex, root, e, ro.SCONNH)]
        gone = [e for e in evs if e.name in ('cdelete', 'cdtor') and e.obj == obj]
        rep.check(not gone, c, 'a new connection is deleted at once', 'new connections kept')
        rep.check(given, c, 'an accepted connection gets no id', 'id given')
        idoffs.update(e.off for e in given)
        if rep.check(len(put) == 1, c, 'an accepted connection is not put into the list of connections, or twice', 'put into the list once'):
            for e in given:
                rep.check(evs.index(e) < evs.index(put[0]), e, 'a connection gets its id after others can see it', 'id given first')
        if rep.check(len(told) == 1 or none and not told, c, 'the connected handler is not called for a new connection, or twice', 'connected handler called once'):
            for e in told:
                rep.check(e.objs[:2] == [this, obj], e, 'the connected handler gets the wrong server or connection', 'right arguments of the handler')
                rep.check(all(evs.index(x) < evs.index(e) for x in put + given), e,
                          'the connected handler is called before the connection has its id and its place in the list', 'handler called last')
    for e in calls:
        rep.check(set(e.objs) & mine, e, 'the connected handler is called although there is no new connection', 'handler called for new connections')
    for e in pushes:
        rep.check(e.obj in mine, e, 'something else than a new connection is put into the list of connections', 'only new connections in the list')
    for e in evs:
        if e.name == 'sys' and e.call == 'close' and e.role == SOCK:
            rep.check(p.kind == 'leave', e, 'the listening socket is closed while the server runs')
        if e.name == 'sys' and e.call == 'write' and e.role == ro.SSTOPPED:
            rep.check(p.kind == 'leave', e, 'the server announces its stop while it runs')


def the_end(cx, root, SOCK, LIST, M):
    """what the server does when it leaves its loop"""
    ex, ro, rep = cx.ex, cx.roles, cx.rep
    this = root.this
    TYPE, STOPPED = ro.STYPE, ro.SSTOPPED
    for e in ex.nodes[root.nodes[0]:root.nodes[1]]:
        if e.name in ('push', 'remove', 'erase', 'pop', 'clear', 'swap') and (
                e.get('oid') == this and e.get('off') == LIST or e.name == 'swap' and any(x[0] == this and x[1] == LIST for x in (e.a, e.b))):
            rep.check(heldoffs(root, e) & M, e, 'the list of connections is changed without the mutex that GetConnection() holds', 'list changed under its mutex')
    guards = set(x.key[1] for r in cx.roots(r'Server::~Server\(') for p in r.paths for x in p.evs if x.name == 'lock' and x.key[0] == r.this)

    def step(s, e):
        taken, closed, typed, told = s
        if e.name == 'left':
            return (False, False, False, False)
        if e.name in ('swap', 'clear', 'remove') and (
                e.get('oid') == this or e.name == 'swap' and any(x[0] == this and x[1] == LIST for x in (e.a, e.b))):
            taken = True
        if told and e.name not in ('unlock', 'br'):
            rep.check(False, e, 'the server is still used after it announced its stop')
        if e.name == 'sys' and e.call == 'close' and e.role == SOCK:
            rep.check(not closed, e, 'the listening socket is closed twice', 'listening socket closed once')
            closed = True
        elif e.name == 'set' and e.off == C(TYPE) and zero(e.facts, e.val):
            rep.check(closed, e, 'the server can be started again before the listening socket is closed', 'type reset after closing')
            typed = True
        elif e.name == 'sys' and e.call == 'write' and e.role == STOPPED:
            rep.check(writes_one(e), e, 'the stop of the server is not announced', 'stop announced')
            rep.check(taken, e, 'the server stops while connections are still in its list', 'list emptied')
            rep.check(closed, e, 'the server announces its stop before the listening socket is closed', 'socket closed before the announcement')
            rep.check(typed, e, 'the server announces its stop before it can be started again', 'type reset before the announcement')
            rep.check(heldoffs(root, e) & guards, e, 'the server announces its stop without the mutex that keeps the destructor waiting', 'destructor waits for the thread')
            told = True
        return (taken, closed, typed, told)

    live = set(e.id for p in root.paths if p.kind == 'post' for e in p.evs if e.name == 'loop')
    gone = {}
    for p in root.paths:
        if p.kind == 'part' and p.start in live:
            gone.setdefault(p.start, []).append(any(e.name == 'cdelete' for e in p.evs))

    def final(s, p):
        rep.check(any(all(gone[e.id]) for e in p.evs if e.name == 'loop' and e.id in gone), p.evs[-1],
                  'connections that are open when the server stops are not deleted', 'open connections deleted')
        rep.check(s[3], p.evs[-1], 'the server thread ends without announcing it', 'stop announced')

    class Ends:
        paths = [p for p in root.paths if p.kind in ('post', 'part', 'root')]
        name, this, F = root.name, root.this, root.F
    auto = Auto(ex, Ends, step, None)
    for p in root.paths:
        if p.kind in ('post', 'root'):
            for s in auto.run({(False,) * 4}, p.evs):
                final(s, p)


def every(cx, p):
    """the events of a path with those of the summarised histories"""
    out, todo, done = [], [p.evs], set()
    while todo:
        for e in todo.pop():
            if e.id in done:
                continue
            done.add(e.id)
            out.append(e)
            if e.name == 'did':
                for t, f in e.subs:
                    todo.append(cx.ex.evs_since(t, e.start))
    return out


class Answers:
    """the answers of the poll of the event loop"""

    def __init__(self, cx, root):
        self.at = {}
        for e in cx.ex.nodes[root.nodes[0]:root.nodes[1]]:
            if isround(e):
                for i, d in e.fds.items():
                    if d.get('role') is not None:
                        self.at.setdefault(d['role'], set()).add(i)

    def bit(self, f, pid, role):
        for i in self.at.get(role, ()):
            b = bitof(f, ufn(('revents', pid, i), 'revents', 0, 0xffff), 0)
            if b is not None:
                return b


def unique_rule(cx, root, idoffs):
    """each round that gives an id goes on with another one"""
    rep = cx.rep
    for off in idoffs:
        name = 'given%d' % off
        ps = [p for p in root.paths if p.kind == 'iter' and name in p.st.gh]
        if not ps:
            continue
        vals = [p.st.gh[name] for p in ps]
        src = set(source(sym(v)) for v in vals if v.__class__ is L and sym(v) is not None)
        where = ps[0].evs[-1]
        if any(a and a[0] == root.this for a in src):
            # the next id is a member of the server
            offs = set(a[1] for a in src if a and a[0] == root.this)
            for e in cx.ex.nodes[root.nodes[0]:root.nodes[1]]:
                if e.name == 'set' and e.off.isc() and e.off.c in offs:
                    rep.check(e.val.__class__ is L and any(modular(e.val - v, 1 << 32).isc() and modular(e.val - v, 1 << 32) != ZERO for v in
                              read(root, e.facts, e.off.c) + symbolsof(root, e.val, e.off.c)), e, 'the next id of a connection is not a new one', 'ids advance')
            continue
        keys = set.intersection(*[set(p.env or ()) for p in ps])
        ok = False
        for k in keys:
            ds = [modular(p.env[k] - v, 1 << 32) if p.env[k].__class__ is L and v.__class__ is L else None for p, v in zip(ps, vals)]
            if any(d is None or not d.isc() for d in ds) or len(set(ds)) != 1:
                continue
            e = ds[0].c
            cs = set()
            for h in root.heads:
                hv = h.get(k)
                if hv.__class__ is not L:
                    continue
                for v in vals:
                    if v.__class__ is L and sym(hv) is not None and sym(hv) in [s for s, c in v.t]:
                        d = modular(v - hv, 1 << 32)
                        cs.add(d.c if d.isc() else None)
            if len(cs) == 1 and None not in cs and 0 < (e + cs.pop()) % (1 << 32) < 1 << 31:
                ok = True
            elif not cs and e and all(v.isc() for v in vals) and False:
                ok = True
        rep.check(ok, where, 'two connections may get the same id', 'ids advance')


def watch_rule(cx, root, M, LIST, DISCH, STOP):
    """which events are awaited for each connection and which connections are deleted"""
    ex, rep = cx.ex, cx.rep
    this = root.this
    parts = [p for p in root.paths if p.kind == 'part']
    offs = set()
    watched = False
    for p in parts:
        evs = p.evs
        gets = [e for e in evs if e.name == 'ccall' and e.meth == 'GetStoppedEvent']
        for g in gets:
            idx = index_of(p.st, g.obj)
            w = [e for e in evs if e.name == 'aset' and e.val == g.ret]
            if not w or idx is None:
                continue
            watched = True
            k = w[0].off - idx.scale(8)
            if rep.check(k.isc(), w[0], 'the events of the connections are not in the order of the list', 'one entry for each connection'):
                offs.add(k.c)
            ev = [e for e in evs if e.name == 'aset' and e.size == 2 and e.obj == w[0].obj and e.off == w[0].off.addc(4)]
            rep.check(ev and const(ev[-1].val) is not None and const(ev[-1].val) & 1, w[0], 'the server does not wait for the end of its connections', 'waits for the end')
    if not watched:
        return              # the descriptors are not put into an array in a loop: not decided here
    rep.check(len(offs) == 1, 'Server::ServerThreadFunc', 'the events of the connections are at different places')
    told = False
    for p in parts:
        evs = p.evs
        cbs = [e for e in evs if e.name == 'callback' and e.origin == (this, DISCH)]
        none = isnull(ex, root, p.st, DISCH) or [e for e in evs if nohandler(ex, root, e, DISCH)]
        dels = [e for e in evs if e.name == 'cdelete']
        puts = [e for e in evs if e.name == 'push' and e.oid != this and e.obj is not None and e.obj in p.st.mem and p.st.mem[e.obj].cls == CONN]
        end = evs[-1] if evs else root.F.short
        for e in cbs:
            told = True
            rep.check(e.objs[0] == this and len(cbs) == 1, e, 'the disconnected handler gets the wrong arguments or is called twice', 'disconnected handler called once')
            rep.check(any(x.obj == e.objs[1] for x in puts + dels), e, 'the disconnected handler is called for a connection that is kept', 'told connections are deleted')
        for e in puts:
            rep.check(none or any(c.objs[1] == e.obj for c in cbs), e, 'a stopped connection is deleted without calling the disconnected handler', 'handler called before deletion')
        for o in set([c.objs[1] for c in cbs] + [e.obj for e in puts]):
            idx = index_of(p.st, o)
            if idx is None or len(offs) != 1:
                continue
            k = list(offs)[0]
            hit = [s for s in symbols(p.st.facts) if is_entry(s, idx, k + 6)]
            b = [bitof(p.st.facts, S(s), 0) for s in hit]
            rep.check(1 in b, end, 'a connection is deleted although it did not report its end', 'reported connections deleted')
        if not cbs and not puts and not dels:
            for s in symbols(p.st.facts):
                a = SY.ufargs.get(s)
                if a and a[0] in ('in', 'vol') and a[2].__class__ is L and not a[2].isc() and bitof(p.st.facts, S(s), 0) == 1 and \
                        (a[2].c - 6) % 8 == 0 and any(k % 8 == 0 for _, k in a[2].t):
                    rep.check(none, end, 'a stopped connection is not deleted', 'stopped connections deleted')
        for d in dels:
            before = evs[:evs.index(d)]
            rem = [e for e in before if e.name in ('remove', 'erase', 'pop') and e.get('oid') == this and e.get('off') == LIST]
            local = p.st.mem.get(d.obj)
            gone = not any(x.name == 'push' for x in before) and ended(root, p)
            rep.check(rem or gone, d, 'a connection is deleted while GetConnection() may still find it', 'removed before deletion')
            for e in rem:
                v = e.get('val')
                rep.check(v is None or v.__class__ is not Ptr or v.o == d.obj, e, 'another connection is removed from the list than the one that is deleted', 'right connection removed')
    # what was taken out of the list is deleted, all of it
    by = {}
    for p in parts:
        by.setdefault(p.start, []).append((p, [e for e in p.evs if e.name == 'cdelete']))
    for lst in by.values():
        if any(d for p, d in lst) and not any(entries(e.facts) for p, d in lst for e in p.evs):
            for p, d in lst:
                rep.check(d, p.evs[-1] if p.evs else 'Server::ServerThreadFunc', 'a connection that was to be deleted is not', 'all of them deleted')
    rep.check(told, 'Server::ServerThreadFunc', 'the disconnected handler is never called', 'disconnected handler called')


def ended(root, p):
    """is the small loop of the part behind the event loop?"""
    ex_post = [e.id for q in root.paths if q.kind == 'post' for e in q.evs if e.name == 'loop']
    return p.start in ex_post


def entries(f):
    """the facts know something about an event that poll() reported"""
    for s in symbols(f) if f is not None else ():
        a = SY.ufargs.get(s)
        if a and a[0] in ('in', 'vol') and a[2].__class__ is L and not a[2].isc() and (a[2].c - 6) % 8 == 0 and any(k % 8 == 0 for _, k in a[2].t):
            return True
    return False


def index_of(st, oid):
    o = st.mem.get(oid)
    if o is None or o.owner.__class__ is not tuple or o.owner[0] != 'cont':
        return None
    return o.owner[2]


def is_entry(s, idx, k):
    a = SY.ufargs.get(s)
    return bool(a) and a[0] in ('in', 'vol') and a[2].__class__ is L and a[2] == idx.scale(8).addc(k)


def get_rule(cx):
    """GetConnection(): a reference to a connection that still exists"""
    rep, ex = cx.rep, cx.ex
    LIST = lists(cx)
    for root in cx.roots(r'Server::GetConnection\('):
        for p in cx.paths(root):
            evs = flat(ex, p.evs)
            end = evs[-1] if evs else root.F
            incs = [e for e in evs if e.name == 'ccall' and e.meth == 'IncreaseRefs']
            for e in incs:
                rep.check(cx.steady(root, e, LIST), e, 'a connection that is found may be deleted before it is referenced', 'referenced under the mutex of the list')
            r = p.ret
            if r.__class__ is Ptr:
                rep.check(len(incs) == 1, end, 'GetConnection() returns something that holds no reference', 'reference held')
            else:
                rep.check(not incs, end, 'GetConnection() takes a reference that nobody releases', 'no reference without result')
    for root in cx.roots(r'Server::Stop\('):
        for p in cx.paths(root):
            evs = flat(ex, p.evs)
            w = [e for e in evs if writes_one(e) and e.role == cx.roles.STOSTOP]
            none = any(knows(root, e.facts, cx.roles.STYPE, zero) for e in evs) or knows(root, p.st.facts, cx.roles.STYPE, zero)
            rep.check(w or none, evs[-1] if evs else root.F, 'Stop() does not ask a running server to stop', 'server asked to stop')
