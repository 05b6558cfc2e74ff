"""Rules over the histories (see net.py) of the functions of the library.

Every rule gets the analysed program (Net) and reports violations: (place, message).  The members of the classes are
recognised by what the public functions do with them (Roles), not by their names."""
import re
from .values import *
from .lin import L, C, S, SY, ZERO, ONE, JORIG
from .net import NS

M32 = (1 << 32) - 1

CONN, SERVER, CLIENT = 'Connection', 'Server', 'Client'
POLLIN, POLLOUT = 1, 4


class Missing(Exception):
    pass


class Report:
    def __init__(self, ex):
        self.ex = ex
        self.bad = {}
        self.obl = {}
        self.paths = set()
        self.roots = set()

    def violation(self, where, msg, e=None):
        at = where.at() if hasattr(where, 'at') else str(where)
        fn = where.fn if hasattr(where, 'fn') else str(where)
        chain = where.chain if hasattr(where, 'chain') else ()
        self.bad.setdefault((fn, msg), (at, chain))

    def ok(self, what, key=None):
        """an instance of the obligation that was decided"""
        self.obl.setdefault(what, set()).add(key)

    def check(self, cond, where, msg, what=None):
        k = where.id if hasattr(where, 'id') else str(where)
        self.ok(what or msg, k)
        if not cond:
            self.violation(where, msg)
        return cond


def runs(rep, p):
    rep.paths.add((p.root.name, id(p)))
    rep.roots.add(p.root.name)


class Auto:
    """an automaton run over histories, including the summarised ones.  step(state, event) -> state | None | list of states"""

    def __init__(self, ex, root, step, rep=None):
        self.ex, self.root, self.step = ex, root, step
        self.memo = {}
        self.parts = {}
        for p in root.paths:
            if p.kind == 'part':
                self.parts.setdefault(p.start, []).append(p)
        self.active = set()
        self.rep = rep

    def one(self, states, e):
        if e.name == 'did':
            return self.did(states, e)
        if e.name == 'loop':
            return self.small(states, e)
        out = set()
        for s in states:
            r = self.step(s, e)
            if r is None:
                continue
            if r.__class__ is list:
                out.update(r)
            else:
                out.add(r)
        return out

    def run(self, states, evs):
        for e in evs:
            if not states:
                break
            states = self.one(states, e)
        return states

    def did(self, states, e):
        out = set()
        for s in states:
            k = (e.id, s)
            r = self.memo.get(k)
            if r is None:
                r = set()
                for t, f in e.subs:
                    r |= self.run({s}, self.ex.evs_since(t, e.start))
                self.memo[k] = r
            out |= r
        return out

    def small(self, states, e):
        if e.id in self.active:
            return states
        self.active.add(e.id)
        try:
            allst = set(states)
            todo = set(states)
            n = 0
            while todo:
                new = set()
                for p in self.parts.get(e.id, ()):
                    new |= self.run(set(todo), p.evs)
                todo = new - allst
                allst |= new
                n += 1
                if n > 50:
                    raise RuntimeError('rule automaton does not converge')
            return allst
        finally:
            self.active.discard(e.id)

    def whole(self, init, end=None, at_iter=None, at_leave=None):
        """run over the whole function; end(state, path) is called for every final state"""
        paths = self.root.paths
        kinds = {}
        for p in paths:
            kinds.setdefault(p.kind, []).append(p)
            if self.rep is not None:
                runs(self.rep, p)
        fin = []
        for p in kinds.get('root', ()):
            for s in self.run({init}, p.evs):
                fin.append((s, p))
        if 'pre' in kinds:
            heads = set()
            for p in kinds['pre']:
                heads |= self.run({init}, p.evs)
            allst, todo = set(heads), set(heads)
            n = 0
            while todo:
                new = set()
                for p in kinds.get('iter', ()):
                    for s in self.run(set(todo), p.evs):
                        if at_iter:
                            s = at_iter(s, p)
                            if s is None:
                                continue
                        new.add(s)
                todo = new - allst
                allst |= new
                n += 1
                if n > 50:
                    raise RuntimeError('rule automaton does not converge')
            left = set()
            for p in kinds.get('leave', ()):
                for s in self.run(set(allst), p.evs):
                    if at_leave:
                        s = at_leave(s, p)
                        if s is None:
                            continue
                    left.add(s)
            for p in kinds.get('post', ()):
                for s in self.run(set(left), p.evs):
                    fin.append((s, p))
        if end:
            for s, p in fin:
                end(s, p)
        return fin


# ---------------------------------------------------------------------------------------------------- facts
def sym(v):
    return v.single() if v.__class__ is L and not v.isc() else None


def source(s):
    """(object, offset) of the cell a number was read from"""
    a = SY.ufargs.get(s)
    if a:
        if a[0] in ('in', 'vol'):
            o = a[2]
            return a[1], o.c if o.__class__ is L and o.isc() else o
        return None
    return JORIG.get(s)


def origin(ex, root, v):
    """offset of the member of the analysed object which the value was read from"""
    if v.__class__ is L:
        s = sym(v)
        a = source(s)
        if a and a[0] == root.this:
            return a[1]
    elif v.__class__ is PSym:
        o = ex.psorigin(v.id)
        if o.__class__ is tuple and o[0] == root.this:
            return o[1]
    return None


def nonzero(f, v):
    return v.__class__ in (Ptr, Fn) or v.__class__ is L and f.ent_ne(v)


def zero(f, v):
    return v.__class__ is L and f.ent_eq(v)


def minus1(f, v):
    return v.__class__ is L and (f.ent_eq(v.addc(-M32)) or f.ent_eq(v.addc(1)))


def not_minus1(f, v):
    return v.__class__ is L and (f.ent_ne(v.addc(-M32)) and f.ent_ne(v.addc(1)) or f.ent_ge(v.neg().addc(M32 - 1)))


def modular(v, m):
    """the part of a value that counts modulo m"""
    return L(v.c % m, tuple((s, k % m) for s, k in v.t if k % m)) if v.__class__ is L else None


def parity(f, v):
    """0, 1 or None"""
    if v.__class__ is not L:
        return None
    mine = set(s for s, k in v.t)
    for l in [ZERO] + list(f.eq) + [l for l in f.ge if mine & set(s for s, k in l.t) and l.neg() in f.ge]:
        for d in (v - l, v + l):
            if all(k % 2 == 0 for s, k in d.t):
                return d.c % 2
    return None


def symbols(f):
    out = f._cache.get('symbols')
    if out is None:
        out = set()
        for g in (f.ge, f.eq, f.ne):
            for l in g:
                for s, k in l.t:
                    out.add(s)
        f._cache['symbols'] = out
    return out


def read(root, f, off):
    """symbols known to the facts that are values read from a member"""
    key = ('read', root.this, off)
    out = f._cache.get(key)
    if out is not None:
        return out
    out = f._cache[key] = []
    for s in symbols(f):
        if source(s) == (root.this, off):
            out.append(S(s))
    return out


def knows(root, f, off, pred, after=-1):
    """the facts say something about a value read from the member (since a moment, see now())"""
    return any(pred(f, v) for v in read(root, f, off) if v.t[0][0] > after)


def now(f):
    """a moment: symbols made later have larger numbers"""
    return max(symbols(f), default=-1)


def heldoffs(root, e):
    return frozenset(l[0][1] for l in e.locks if l[0][0] == root.this)


class Ctx:
    """the analysed program and the report of one rule"""

    def __init__(self, ex, rep, roles=None):
        self.ex, self.rep = ex, rep
        self.roles = roles or Roles(self)
        self.pos = {}

    def roots(self, pat):
        return [r for r in self.ex.roots if re.match(pat, r.name)]

    def root(self, pat):
        rs = self.roots(pat)
        if not rs:
            raise Missing('no function %s' % pat)
        return rs[0]

    def paths(self, root, *kinds):
        for p in root.paths:
            if p.kind in (kinds or ('root',)):
                runs(self.rep, p)
                yield p

    def key(self, root, off):
        return ('Connection' if root.cls == 'Client' and off < self.ex.clientbase else root.cls, off)

    def steady(self, root, e, *offs):
        """no other thread can write these members while the event happens"""
        h = heldoffs(root, e)
        for off in offs:
            ws = self.ex.wlocks[root.name].get(self.key(root, off))
            if ws and not all(h & w for w in ws):
                return False
        return True

    def positive(self, off):
        """every value ever stored to a member of a connection is at least one"""
        if off not in self.pos:
            self.pos[off] = self._positive(off)
        return self.pos[off]

    def _positive(self, off):
        seen = {}
        for e in self.ex.nodes:
            if e is not None and e.name == 'set' and e.off == C(off) and e.cls in (CONN, CLIENT):
                seen[(e.fn, e.line)] = seen.get((e.fn, e.line), True) and e.val.__class__ is L and e.facts.ent_ge(e.val.addc(-1))
        if not all(seen.values()):
            return False
        for a in self.ex.acc.get((CONN, off), ()):
            if a[1] == 'w' and (a[5], a[6]) not in seen:
                return False
        return True

    def better(self, root, f, *offs):
        """facts with what is known about members that are always positive"""
        for off in offs:
            if self.positive(off):
                for v in [S(s) for s in symbols(f) if source(s) == (root.this, off)]:
                    g = f.add_ge(v.addc(-1))
                    if g is not None:
                        f = g
        return f

    def together(self, root, evs, a, b, offs):
        """from event a to event b, some mutexes are held all the time which all writers of the members need"""
        i, j = evs.index(a), evs.index(b)
        if i > j:
            i, j = j, i
        h = heldoffs(root, evs[i])
        for e in evs[i:j + 1]:
            h &= heldoffs(root, e)
        return all(all(h & w for w in self.ex.wlocks[root.name].get(self.key(root, off)) or ()) for off in offs)


def flat(ex, evs):
    """with the summarised parts left out"""
    return [e for e in evs if e.name not in ('did', 'loop', 'acquire')]


def unfold(ex, evs, limit=300):
    """the histories behind a summarised one"""
    outs = [[]]
    for e in evs:
        if e.name == 'did':
            subs = []
            for t, f in e.subs:
                subs += unfold(ex, ex.evs_since(t, e.start), limit)
            outs = [o + s for o in outs for s in subs]
            if len(outs) > limit:
                raise Missing('too many different histories')
        elif e.name not in ('loop', 'acquire'):
            for o in outs:
                o.append(e)
    return outs


class Roles:
    """members recognised by what the interface does with them"""

    def __init__(self, cx):
        self.cx = cx
        self.cache = {}

    def __getattr__(self, k):
        if k.startswith('_') or k in ('cx', 'cache'):
            raise AttributeError(k)
        if k not in self.cache:
            f = getattr(Roles, 'find_' + k)
            vals = f(self)
            vals = set(v for v in vals if v is not None)
            if len(vals) != 1:
                raise Missing('%s: %s' % (f.__doc__, 'nothing does that' if not vals else 'ambiguous'))
            self.cache[k] = vals.pop()
        return self.cache[k]

    def rets(self, pat):
        for r in self.cx.roots(pat):
            for p in r.paths:
                if p.kind == 'root':
                    yield origin(self.cx.ex, r, p.ret)

    def events(self, pat, pred=None):
        for r in self.cx.roots(pat):
            for p in r.paths:
                for e in p.evs:
                    if pred is None or pred(r, p, e):
                        yield r, p, e

    def find_TYPE(self):
        """the type of the connection, returned by Connection::GetType()"""
        return self.rets(r'Connection::GetType\(')

    def find_STOPPED(self):
        """the descriptor returned by Connection::GetStoppedEvent()"""
        return self.rets(r'Connection::GetStoppedEvent\(')

    def find_REFS(self):
        """the number returned by Connection::GetRefs()"""
        return self.rets(r'Connection::GetRefs\(')

    def find_SENDBLK(self):
        """the size returned by Connection::GetSendBlockSize()"""
        return self.rets(r'Connection::GetSendBlockSize\(')

    def find_RECVBLK(self):
        """the size returned by Connection::GetRecvBlockSize()"""
        return self.rets(r'Connection::GetRecvBlockSize\(')

    def find_MAXREQ(self):
        """the size returned by Connection::GetMaxRequestSize()"""
        return self.rets(r'Connection::GetMaxRequestSize\(')

    def find_OURSA(self):
        """the interval returned by Connection::GetOurSaInterval()"""
        return self.rets(r'Connection::GetOurSaInterval\(')

    def find_THEIRNA(self):
        """the interval returned by Connection::GetTheirNaIntervalLimit()"""
        return self.rets(r'Connection::GetTheirNaIntervalLimit\(')

    def find_PUSHQ(self):
        """the queue Connection::Push() puts requests to"""
        return (e.off for r, p, e in self.events(r'Connection::Push\(', lambda r, p, e: e.name == 'push' and e.oid == r.this))

    def find_PUSHEV(self):
        """the descriptor Connection::Push() writes to"""
        return (e.role for r, p, e in self.events(r'Connection::Push\(', lambda r, p, e: e.name == 'sys' and e.call == 'write'))

    def find_RECVQ(self):
        """the queue Connection::Pull() takes requests from"""
        return (e.off for r, p, e in self.events(r'Connection::Pull\(', lambda r, p, e: e.name == 'pop' and e.oid == r.this))

    def find_RECVEV(self):
        """the descriptor Connection::Pull() creates and waits for"""
        return (e.off.c for r, p, e in self.events(r'Connection::Pull\(', lambda r, p, e: e.name == 'set' and any(
            x.name == 'fdnew' and x.fd == e.val for x in p.evs)))

    def find_TOSTOP(self):
        """the descriptor Connection::Disconnect(true) writes to"""
        return (e.role for r, p, e in self.events(r'Connection::Disconnect\(', lambda r, p, e:
                e.name == 'sys' and e.call == 'write' and not any(x.name == 'push' for x in p.evs)))

    def find_ISDISC(self):
        """the flag Connection::Disconnect(false) sets"""
        return (e.off.c for r, p, e in self.events(r'Connection::Disconnect\(', lambda r, p, e: e.name == 'set' and e.off.isc() and one(e.val)
                and e.size == 1))

    def find_NEXTID(self):
        """the member Connection::Push() takes the new id from and advances"""
        return (e.off.c for r, p, e in self.events(r'Connection::Push\(', lambda r, p, e: e.name == 'set' and e.off.isc() and e.size == 4))

    def find_NOTNEEDED(self):
        """the descriptor Connection::DecreaseRefs() writes to"""
        return (e.role for r, p, e in self.events(r'Connection::DecreaseRefs\(', lambda r, p, e: e.name == 'sys' and e.call == 'write'))

    def find_SATIMER(self):
        """the timer Connection::SetOurSaInterval() sets"""
        return (e.role for r, p, e in self.events(r'Connection::SetOurSaInterval\(', lambda r, p, e: e.name == 'sys' and e.call == 'timerfd_settime'))

    def find_NATIMER(self):
        """the timer Connection::SetTheirNaIntervalLimit() sets"""
        return (e.role for r, p, e in self.events(r'Connection::SetTheirNaIntervalLimit\(', lambda r, p, e:
                e.name == 'sys' and e.call == 'timerfd_settime'))

    def find_SOCK(self):
        """the member Connection::Connection(int) stores the socket to"""
        return (e.off.c for r, p, e in self.events(r'Connection::Connection\(int', lambda r, p, e: e.name == 'set' and e.off.isc() and e.val == r.args[1]))

    def find_HDEF(self):
        """the handler returned by Connection::GetHandlerDefault()"""
        return self.rets(r'Connection::GetHandlerDefault\(')

    def find_HNAMED(self):
        """the table searched by Connection::GetHandlerNamed()"""
        return (e.off for r, p, e in self.events(r'Connection::GetHandlerNamed\(', lambda r, p, e: e.name == 'mapfind' and e.oid == r.this))

    # ---- Server
    def find_SMAX(self):
        """the number returned by Server::GetMaxConnections()"""
        return self.rets(r'Server::GetMaxConnections\(')

    def find_STYPE(self):
        """the type of the server, returned by Server::GetType()"""
        return self.rets(r'Server::GetType\(')

    def find_SSTOPPED(self):
        """the descriptor Server::WaitForStop() waits for"""
        return (d['role'] for r, p, e in self.events(r'Server::WaitForStop\(', lambda r, p, e: e.name == 'sys' and e.call == 'poll')
                for d in e.fds.values())

    def find_STOSTOP(self):
        """the descriptor Server::Stop() writes to"""
        return (e.role for r, p, e in self.events(r'Server::Stop\(', lambda r, p, e: e.name == 'sys' and e.call == 'write'))

    def find_SMAX(self):
        """the number returned by Server::GetMaxConnections()"""
        return self.rets(r'Server::GetMaxConnections\(')

    def find_SCONNH(self):
        """the handler returned by Server::GetConnectedHandler()"""
        return self.rets(r'Server::GetConnectedHandler\(')

    def find_SDISCH(self):
        """the handler returned by Server::GetDisconnectedHandler()"""
        return self.rets(r'Server::GetDisconnectedHandler\(')

    def find_CTEMP(self):
        """the descriptor that tells Client::IsConnecting()"""
        out = set()
        for r in self.cx.roots(r'Client::IsConnecting\('):
            for k, d in self.cx.ex.acc.items():
                for a in d:
                    if a[0] == r.name and a[1] == 'r':
                        out.add(k[1])
        return out


def one(v):
    return v.__class__ is L and v.isc() and v.c == 1 or v.__class__ is Bool and v.c == T


def bitof(f, v, k):
    """bit number k of a value: 0, 1 or None"""
    if v.__class__ is not L:
        return None
    if v.isc():
        return v.c >> k & 1
    if k == 0:
        r = parity(f, v)
        if r is not None:
            return r
    m = 1 << k
    for s in symbols(f):
        a = SY.ufargs.get(s)
        if a and a[0] == 'bit' and a[2] in (m, C(m)) and a[1].__class__ is L:
            d = a[1] - v
            if d.c % (2 * m) == 0 and all(q % (2 * m) == 0 for _, q in d.t):
                if f.ent_eq(S(s)):
                    return 0
                if f.ent_eq(S(s).addc(-1)):
                    return 1
    return None


def revents(e):
    """the answers of a poll: role -> symbol"""
    out = {}
    for i, d in e.fds.items():
        s = SY.uf.get(('revents', e.pid, i))
        if s is not None:
            out[d.get('role')] = S(s)
    return out
