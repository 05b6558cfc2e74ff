"""The properties of connections, clients and servers, as rules over the histories of their functions."""
from .rules import *

PUSH = r'Connection::Push\('
PUSHP = r'Connection::Push\(Request\*'


def writes_one(e):
    """the call makes an event descriptor readable"""
    return e.name == 'sys' and e.call == 'write' and e.n.__class__ is L and e.n.isc() and e.n.c == 8 and \
        e.get('val') is not None and e.val.__class__ is L and e.val.isc() and 0 < e.val.c < (1 << 64) - 1


# ---------------------------------------------------------------------------------------------------- P14
def push_rule(cx):
    """Connection::Push(): queued exactly once and announced if connected and not disconnecting, refused otherwise"""
    ro = cx.roles
    TYPE, DISC, Q, PEV = ro.TYPE, ro.ISDISC, ro.PUSHQ, ro.PUSHEV
    for root in cx.roots(PUSH):
        byval = not root.name.startswith('Connection::Push(Request*')
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            last = p.st.facts
            src = root.args[1]
            src = src.o if src.__class__ is Ptr else None
            if byval:
                own = False
            elif zero(last, root.args[2]):
                own = True
            elif nonzero(last, root.args[2]):
                own = False
            else:
                own = None
            ps = [e for e in evs if e.name == 'push']
            qs = [e for e in ps if e.oid == root.this and e.off == Q]
            cx.rep.check(len(qs) == len(ps), ps[0] if ps else root.F, 'a request is put to another queue than the send queue')
            end = evs[-1] if evs else root.F
            freed = [e for e in evs if e.name == 'free' and e.cls == 'Request']
            if not qs:
                why = knows(root, last, TYPE, zero) or knows(root, last, DISC, nonzero)
                cx.rep.check(why, end, 'Push() returns without queueing the request although the connection may be '
                             'connected and not disconnecting', 'refused only when not connected or disconnecting')
                if own:
                    cx.rep.check(sum(e.obj == src for e in freed) == 1, end, 'a refused request that was given to Push() is not deleted '
                                 'exactly once', 'refused own request deleted')
                elif own is False:
                    cx.rep.check(not any(e.obj == src for e in freed), end, 'Push() deletes a request of the caller that it should only copy')
                else:
                    cx.rep.violation(end, 'a refused request is treated the same whether or not it was given to Push()')
                made = [e.obj for e in evs if e.name == 'alloc' and e.form == 'new' and e.obj in p.st.mem and p.st.mem[e.obj].cls == 'Request']
                for o in made:
                    cx.rep.check(any(e.obj == o for e in freed), end, 'the copy of a refused request is never deleted')
                continue
            cx.rep.check(len(qs) == 1, qs[-1], 'the request is queued more than once', 'queued once')
            q = qs[0]
            t, d = q.cells.get(TYPE), q.cells.get(DISC)
            ok = nonzero(q.facts, t) and zero(q.facts, d) and cx.steady(root, q, TYPE, DISC)
            cx.rep.check(ok, q, 'a request is queued at a moment when the connection may be stopped or disconnecting: '
                         'it is neither sent nor refused', 'queued only while connected and not disconnecting')
            cx.rep.check(cx.steady(root, q, Q), q, 'the send queue is changed without the mutex that protects it', 'queue mutex')
            cx.rep.check(not q.front, q, 'a request is put to the front of the send queue: requests are sent out of order', 'put at the back')
            # which object
            if own is None:
                cx.rep.violation(q, 'the same object is queued whether or not a copy was requested')
            elif own:
                cx.rep.check(q.obj == src and src is not None, q, 'the request given to Push() is not the one that gets queued', 'right object')
            else:
                new = any(e.name == 'alloc' and e.obj == q.obj for e in evs)
                cp = [e for e in evs if e.name == 'copy' and e.dst == q.obj and e.src == src]
                cx.rep.check(new and cp and q.obj != src, q, 'a copy was requested but the queued object is not a copy of the given request',
                             'copy queued')
            for e in freed:
                cx.rep.check(e.obj != q.obj, e, 'a queued request is deleted by Push()')
                cx.rep.check(own or e.obj != src, e, 'Push() deletes a request of the caller that it should only copy')
            # announced
            i = evs.index(q)
            w = [e for e in evs if writes_one(e) and e.role == PEV]
            good = [e for e in w if cx.together(root, evs, q, e, (TYPE,)) and (evs.index(e) > i or cx.together(root, evs, q, e, (Q,)))]
            cx.rep.check(good, q, 'the background thread is not woken up after a request was queued', 'thread woken up')


# ---------------------------------------------------------------------------------------------------- P15
def ids_rule(cx):
    """request ids: unique, with the parity of the side"""
    ro = cx.roles
    NEXT, Q = ro.NEXTID, ro.PUSHQ
    idoff = set()
    for root in cx.roots(PUSH):
        byval = not root.name.startswith('Connection::Push(Request*')
        flag = root.args[3 if byval else 4]
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            qs = [e for e in evs if e.name == 'push' and e.oid == root.this and e.off == Q]
            sets = [e for e in evs if e.name == 'set' and e.off == C(NEXT)]
            if not qs:
                cx.rep.check(not sets, sets[0] if sets else root.F, 'an id is used up although nothing is queued')
                continue
            q = qs[0]
            given = [e for e in evs if e.name == 'oset' and e.obj == q.obj and origin(cx.ex, root, e.val) == NEXT]
            other = [e for e in evs if e.name == 'oset' and e.obj == q.obj and e not in given and not (
                e.val.__class__ is L and e.val.isc())]
            if zero(p.st.facts, flag):
                cx.rep.check(not given and not sets, q, 'the id of a request is changed although the caller asked to keep it', 'id kept')
                continue
            if not nonzero(p.st.facts, flag):
                cx.rep.violation(q, 'ids are treated the same whether or not a new id was requested')
                continue
            cx.rep.check(len(given) == 1 and not other, q, 'a queued request does not get the next free id', 'id assigned')
            cx.rep.check(len(sets) == 1, q, 'the next free id is not advanced exactly once for a queued request', 'id advanced')
            if len(given) == 1 and len(sets) == 1:
                g, s = given[0], sets[0]
                idoff.add(g.off)
                d = modular(s.val - g.val, 1 << 32) if s.val.__class__ is L else None
                cx.rep.check(d is not None and d == C(2), s, 'the next free id is not advanced by two: ids of the two sides get mixed up', 'advanced by 2')
                cx.rep.check(cx.together(root, evs, g, s, (NEXT,)), s, 'the next free id is read and advanced without a mutex: two requests may get '
                             'the same id', 'read and advanced under one mutex')
                cx.rep.check(cx.together(root, evs, g, q, (Q,)) or evs.index(g) < evs.index(q), g, 'the id is changed after the request was queued')
    cx.rep.check(len(idoff) <= 1, 'Connection::Push', 'different members of the request get the id')
    # the parity of the first id
    for root in cx.roots(r'Connection::Connection\(int'):
        parity_rule(cx, root, 0, 'the accepting side of a connection does not use even request ids')


def parity_rule(cx, root, want, msg):
    NEXT = cx.roles.NEXTID
    for p in cx.paths(root):
        started, got = False, None
        for e in p.evs:
            if e.name == 'spawn':
                started = True
            if e.name == 'unlock' and e.cells and cx.steady(root, e, NEXT) and NEXT in e.cells:
                got = (parity(e.facts, e.cells[NEXT]), e)
        if started:
            cx.rep.check(got and got[0] == want, got[1] if got else root.name, msg, 'parity of the ids')


def ids_client(cx, root):
    """the connecting side uses odd ids"""
    parity_rule(cx, root, 1, 'the connecting side of a connection does not use odd request ids')


# ---------------------------------------------------------------------------------------------------- the thread of a connection
def isround(e):
    """the poll of the event loop"""
    return e.name == 'sys' and e.call == 'poll' and e.pid.__class__ is tuple


def const(v):
    return v.c if v.__class__ is L and v.isc() else None


def negative(f, v):
    """a 32 bit number that is negative for sure"""
    v32 = modular(v, 1 << 32)
    if v32 is not None and v32.isc():
        return v32.c >= 1 << 31
    return v.__class__ is L and f.ent_ge(v.addc(-(1 << 31))) and f.ent_ge(v.neg().addc(M32))


def loop_rule(cx, root, want):
    """the event loop of a connection: what it waits for, when it ends.  want is the property that is decided"""
    ro = cx.roles
    TOSTOP, SOCK, PEV, SAT, NAT, DISC, Q = ro.TOSTOP, ro.SOCK, ro.PUSHEV, ro.SATIMER, ro.NATIMER, ro.ISDISC, ro.PUSHQ
    rep = cx.rep

    def chk(props, cond, e, msg, what=None):
        return rep.check(cond, e, msg, what) if want in props else cond
    # state: (stage of the poll, its result symbol, TOSTOP, not-alive timer, result of the last socket call, failed, reasons, sent all, input)
    S0 = ('none', None, None, None, None, None, frozenset(), None, None)
    polls = [0]
    vw = View(cx, root)
    lens = vw.lens()

    def step(s, e):
        stage, ret, stop, na, io, iof, why, sent, inp = s
        f = e.facts
        if e.name == 'evloop':
            return S0
        if stage == 'polled' and ret is not None:
            if f.ent_ge(S(ret)):
                stage = 'ok'
            elif f.ent_ge(S(ret).neg().addc(-1)):
                stage = 'interrupted'
        if isround(e):
            polls[0] += 1
            check_poll(e)
            stage, ret = 'polled', sym(e.ret)
            stop = na = inp = None
            if ret is None:
                stage = 'ok'
        elif e.name == 'br':
            if stage in ('ok', 'polled'):
                ra = cx.answers
                cs = set(x for l in e.c if l.__class__ is L for x, k in l.t)
                for role in (TOSTOP, NAT, SOCK):
                    v = ra.get(role)
                    if v is None or not (v.single() in cs or near(v.single(), cs)):
                        continue
                    b = bitof(f, v, 0) if v is not None else None
                    if b is not None:
                        if role == TOSTOP and stop is None:
                            stop = b
                        if role == NAT and na is None:
                            na = b
                        if role == SOCK and inp is None:
                            inp = b
        if io is not None:
            r = S(io)
            if f.ent_ge(r.neg()):
                iof, io = 'failed', None
            elif f.ent_ge(r.addc(-1)):
                iof, io = 'worked', None
        if e.name == 'sys' and e.call in ('recv', 'send') and e.role == SOCK:
            io, iof = sym(e.ret), None
            if e.call == 'recv':
                inp = 'read'
            if e.kw.get('ok'):
                iof, io = 'worked', None
            chk(('P28',), stage == 'ok', e, 'the socket is used although poll() has not reported anything', 'socket used after poll')
        if sent and e.name in ('br', 'unlock'):
            what, m = sent
            if what == 'all' and knows(root, f, DISC, zero, m):
                sent = None
            elif what == 'all' and knows(root, f, DISC, nonzero, m):
                what = 'disc'
            if sent and what == 'disc' and knows(root, f, Q, zero, m):
                what = 'drained'
            elif sent and what in ('disc', 'all') and knows(root, f, Q, lambda f, v: f.ent_ge(v.addc(-1)), m):
                sent = None
            sent = sent and (what, m)
        if e.name == 'free' and e.sent is not None and not f.ent_eq(e.sent):
            sent = ('all', now(f))
        if e.name == 'br' and len(why) < 3:
            if toolong(cx, vw, f, lens):
                why = why | {'length'}
        return (stage, ret, stop, na, io, iof, why, sent, inp)

    def check_poll(e):
        by = {d.get('role'): d for d in e.fds.values()}
        cx.answers = revents(e)
        for role, what, props in ((TOSTOP, 'the stop request', ('P16', 'P28')), (PEV, 'the push event', ('P11', 'P16')),
                                  (NAT, 'the not-alive timer', ('P13', 'P28')), (SAT, 'the still-alive timer', ('P13',)),
                                  (SOCK, 'the socket', ('P10', 'P11'))):
            d = by.get(role)
            if not chk(props, d is not None, e, 'the thread does not wait for %s' % what, 'waits for %s' % what):
                continue
            ev = d.get('events')
            if role != SOCK:
                chk(props, ev.__class__ is L and bitof(e.facts, ev, 0) == 1, e, 'the thread does not wait until %s is readable' % what)
                continue
            pollin = bitof(e.facts, ev, 0)
            pollout = bitof(e.facts, ev, 2)
            if pollin != 1:
                chk(('P10',), pollin == 0 and knows(root, e.facts, DISC, nonzero), e, 'the thread does not wait for input although the connection is '
                    'not disconnecting', 'waits for input')
            if pollout != 1:
                chk(('P11', 'P16'), pollout == 0 and pending(cx, vw, e) is False, e, 'the thread does not wait until it can send although there may be '
                    'something to send', 'waits for output')
        n = const(e.n)
        chk(('P10', 'P11', 'P13', 'P16', 'P28'), n is not None and n == len(e.fds), e, 'poll() is not given all descriptors')

    def at_iter(s, p):
        stage, ret, stop, na, io, iof, why, sent, inp = s
        e = p.evs[-1]
        if stage == 'interrupted':
            rep.ok('interrupted poll is repeated', p.evs[0].id)
            return S0
        chk(('P16', 'P28'), stop == 0, e, 'the thread goes on although it was told to stop', 'stop request ends the loop')
        chk(('P10',), inp in (0, 'read'), e, 'the thread goes on without reading although there may be something to read', 'input is read')
        chk(('P13', 'P28'), na == 0, e, 'the thread goes on although the other side was silent for too long', 'not-alive timer ends the loop')
        chk(('P10', 'P11', 'P28'), iof != 'failed' and io is None, e, 'the thread goes on with a broken socket', 'broken socket ends the loop')
        chk(('P09', 'P28'), 'length' not in why, e, 'the thread goes on after an unacceptable length was announced', 'bad length ends the loop')
        chk(('P16', 'P28'), not sent or sent[0] != 'drained', e, 'the thread goes on although it is disconnecting and everything is sent', 'graceful end')
        chk(('P16', 'P28'), not sent or sent[0] == 'drained', e, 'after everything in the buffer was sent, the thread does not check whether a graceful '
            'disconnection is complete', 'graceful end checked')
        return S0

    def at_leave(s, p):
        stage, ret, stop, na, io, iof, why, sent, inp = s
        e = p.evs[-1]
        good = stop == 1 or na == 1 or iof == 'failed' or 'length' in why or sent and sent[0] == 'drained'
        chk(('P09', 'P10', 'P11', 'P13', 'P16', 'P28'), good, e, 'the connection is closed without any of the reasons for it', 'reason for leaving')
        return None

    cx.answers = {}
    for e in vw.evs:
        if isround(e):
            cx.answers.update(revents(e))
    Auto(cx.ex, root, step, rep).whole(S0, None, at_iter, at_leave)
    if not polls[0]:
        rep.violation(root.name, 'the thread of a connection has no event loop')


def near(s, cs):
    """does one of the symbols stand for a bit of s?"""
    for x in cs:
        a = SY.ufargs.get(x)
        if a and a[0] == 'bit' and a[1].__class__ is L and any(q == s for q, k in a[1].t):
            return True
    return False


class View:
    """members of a connection that only its thread uses"""

    def __init__(self, cx, root):
        self.cx, self.root = cx, root
        self.evs = [e for e in cx.ex.nodes[root.nodes[0]:root.nodes[1]] if e]
        SOCK = cx.roles.SOCK
        self.recvs = [e for e in self.evs if e.name == 'sys' and e.call == 'recv' and e.role == SOCK]
        self.sends = [e for e in self.evs if e.name == 'sys' and e.call == 'send' and e.role == SOCK]
        self.heads = [e for e in self.recvs if e.get('kind') == 'root' and e.buf.__class__ is Ptr and e.buf.o == root.this]
        self.bodies = [e for e in self.recvs if e.get('kind') == 'heap']
        if not self.recvs or not self.sends:
            raise Missing('the thread of a connection does not %s' % ('receive' if not self.recvs else 'send'))

    def where(self, evs):
        """the members that point to the buffer of a call"""
        out = None
        for e in evs:
            if e.buf.__class__ is Ptr and e.cells:
                s = set(k for k, v in e.cells.items() if v.__class__ is Ptr and v.o == e.buf.o and k >= 0)
                out = s if out is None else out & s
        return out or set()

    @property
    def sendbuf(self):
        s = self.where(self.sends)
        return min(s) if s else None

    @property
    def recvbuf(self):
        s = self.where(self.bodies)
        return min(s) if s else None

    @property
    def rlen(self):
        out = set(e.buf.off.c for e in self.heads)
        return min(out) if out else None

    def lens(self):
        return set(sym(e.val) for e in self.evs if e.name == 'set' and e.off == C(self.rlen) and sym(e.val) is not None)


def toolong(cx, vw, f, lens):
    """the facts say that a length is above the limit or not above four"""
    for m in read(vw.root, f, cx.roles.MAXREQ):
        ms = sym(m)
        for l in f.ge:
            t = dict(l.t)
            if t.get(ms) == -1 and l.c < 0 and len(t) == 2 and any(k == 1 for k in t.values()):
                return True
    return any(s in lens and f.ent_ge(S(s).neg().addc(4)) for s in symbols(f))


def pending(cx, vw, e):
    """is there something to send?  True, False or None"""
    f = e.facts
    if knows(vw.root, f, cx.roles.PUSHQ, lambda f, v: f.ent_ge(v.addc(-1))):
        return True
    c = e.cells.get(vw.sendbuf)
    if c.__class__ is Ptr:
        return True
    if c.__class__ is L and zero(f, c):
        return False if knows(vw.root, f, cx.roles.PUSHQ, zero) else None
    return None


# ---------------------------------------------------------------------------------------------------- P16
def disconnect_rule(cx):
    """Connection::Disconnect()"""
    ro, rep = cx.roles, cx.rep
    TYPE, DISC, Q, PEV, TOSTOP, STOPPED = ro.TYPE, ro.ISDISC, ro.PUSHQ, ro.PUSHEV, ro.TOSTOP, ro.STOPPED
    for root in cx.roots(r'Connection::Disconnect\('):
        forced, wait = root.args[1], root.args[2]
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            end = evs[-1] if evs else root.F
            f = p.st.facts
            polls = [e for e in evs if e.name == 'sys' and e.call == 'poll']
            stops = [e for e in evs if e.name == 'sys' and e.call == 'write' and e.role == TOSTOP]
            pushes = [e for e in evs if e.name == 'push']
            marks = [e for e in evs if e.name == 'set' and e.off == C(DISC)]

            def knew(off, pred):
                return any(knows(root, g, off, pred) for g in [e.facts for e in evs] + [f])
            for e in marks:
                rep.check(one(e.val), e, 'Disconnect() marks the connection as not disconnecting')
                rep.check(cx.steady(root, e, DISC, TYPE), e, 'the connection is marked as disconnecting without the mutex', 'marked under the mutex')
                rep.check(any(cx.together(root, evs, q, e, (DISC,)) and evs.index(q) < evs.index(e) for q in pushes), e,
                          'the connection is marked as disconnecting before anything was queued which the thread sends: an idle connection never stops',
                          'something to send before the mark')
            if not stops and not pushes:
                # nothing was done
                why = knew(TYPE, zero) or zero(f, forced) and knew(DISC, nonzero)
                rep.check(why, end, 'Disconnect() does nothing although the connection may be connected', 'nothing done only when not connected')
            for e in stops:
                rep.check(writes_one(e), e, 'the background thread is not told to stop', 'told to stop')
                rep.check(nonzero(f, forced), e, 'a graceful disconnection stops the thread at once', 'stopped when forced')
                rep.check(knows(root, e.facts, TYPE, nonzero) and cx.steady(root, e, TYPE), e, 'the stop event of a connection that may have stopped is used',
                          'stopped while connected')
            if nonzero(f, forced) and not knew(TYPE, zero):
                rep.check(stops, end, 'a forced disconnection does not stop the thread', 'stopped when forced')
            if pushes:
                rep.check(zero(f, forced) or stops, pushes[0], 'a forced disconnection waits until everything is sent')
                w = [e for e in evs if writes_one(e) and e.role == PEV]
                rep.check(w, pushes[-1], 'the thread is not woken for a graceful disconnection', 'thread woken')
                rep.check(marks, pushes[-1], 'the connection is not marked as disconnecting', 'marked as disconnecting')
                rep.check(all(e.oid == root.this and e.off == Q and not e.front for e in pushes), pushes[0], 'a graceful disconnection overtakes requests', 'queued last')
            # waiting
            connected = not knew(TYPE, zero)
            mine = [e for e in polls if any(d.get('role') == STOPPED for d in e.fds.values())]
            rep.check(len(mine) == len(polls), polls[0] if polls else end, 'Disconnect() waits for something else than the end of the thread')
            for e in polls:
                rep.check(nonzero(f, wait), e, 'Disconnect() waits although it was not asked to', 'waits only when asked')
                rep.check(not e.locks, e, 'Disconnect() waits for the thread with a mutex held', 'waits without a mutex')
                rep.check(negative(e.facts, e.timeout), e, 'Disconnect() does not wait until the thread ends', 'waits until the end')
            if connected and (stops or pushes or knew(DISC, nonzero)) and not zero(f, wait):
                rep.check(mine, end, 'Disconnect() does not wait although it was asked to', 'waits when asked')
