"""Rules over waits, starts, references, locks and servers (properties P18 to P24)."""
from .threadrules import *

BIG = 2147483            # more seconds than that are more milliseconds than an int holds


def polls(evs):
    return [e for e in evs if e.name == 'sys' and e.call in ('poll', 'ppoll', 'select', 'pselect', 'epoll_wait')]


def nowait(f, e):
    return e.timeout.__class__ is L and f.ent_eq(e.timeout)


# ---------------------------------------------------------------------------------------------------- P24
def assume(f, *ges):
    for l in ges:
        if f is None:
            return None
        f = f.add_ge(l)
    return f


def timeouts(cx, root, arg, mine):
    """the waits of one function, whose timeout is the given argument (in seconds)"""
    rep = cx.rep
    cases = (('zero', (arg, arg.neg())),
             ('positive', (arg.addc(-1), arg.neg().addc(BIG))),
             ('huge', (arg.addc(-BIG - 1), arg.neg().addc((1 << 31) - 1))),
             ('negative', (arg.addc(-(1 << 31)), arg.neg().addc(M32))))
    for p in cx.paths(root, 'root', 'part', 'iter', 'leave', 'post', 'pre'):
        evs = p.evs
        mypolls = [e for e in polls(evs) if mine(e)]
        last = p.st.facts
        for e in mypolls:
            t = e.timeout
            for name, ges in cases:
                f = assume(e.facts, *ges)
                if f is None:
                    continue
                if name == 'zero':
                    rep.check(t.__class__ is L and f.ent_eq(t), e, 'a wait with timeout zero blocks', 'zero does not block')
                elif name == 'positive':
                    rep.check(eq(f, t, arg.scale(1000)), e, 'a wait does not end after the given number of seconds', 'milliseconds')
                elif name == 'huge':
                    rep.check(t.__class__ is L and f.ent_ge(t.addc(-1000 * BIG)) and f.ent_ge(t.neg().addc((1 << 31) - 1)), e,
                              'a very long timeout overflows', 'long timeouts')
                else:
                    rep.check(negative(f, t), e, 'a wait with a negative timeout ends without the event', 'infinite wait')
            # interrupted by a signal
            r, err = e.ret, e.errno
            again = p.kind == 'part' and polls(evs)[-1] is e
            if again:
                rep.check(assume(last, arg, arg.neg().addc((1 << 31) - 1)) is None or nowait(last, e), e,
                          'a wait with a timeout starts again after a signal: it may never end', 'repeated only without timeout')
            else:
                rest = [x.facts for x in evs[evs.index(e) + 1:]] + [last]
                ges = (arg.addc(-(1 << 31)), arg.neg().addc(M32), r.addc(1), r.neg().addc(-1), err.addc(-4), err.neg().addc(4))
                rep.check(any(assume(x, *ges) is None for x in rest), e, 'a signal ends a wait without timeout', 'signals do not end an infinite wait')
        if p.kind == 'root':
            n = sum(1 for e in mypolls)
            rep.check(n <= 1 or assume(last, arg.addc(-1), arg.neg().addc((1 << 31) - 1)) is None, mypolls[-1] if mypolls else root.F,
                      'the function waits several times for the given timeout', 'one wait')


def wait_rule(cx):
    """the timeouts of the public functions"""
    ro, rep = cx.roles, cx.rep
    for pat, role, what in ((r'Connection::Pull\(', ro.RECVEV, 'a received request'),
                            (r'Connection::WaitForStop\(', ro.STOPPED, 'the end of the connection'),
                            (r'Server::WaitForStop\(', ro.SSTOPPED, 'the end of the server'),
                            (r'Server::Stop\(', ro.SSTOPPED, 'the end of the server')):
        for root in cx.roots(pat):
            arg = root.args[-1]
            if arg.__class__ is not L:
                raise Missing('%s has no timeout' % root.name)
            timeouts(cx, root, arg, lambda e: True)
            for p in cx.paths(root):
                for e in polls(p.evs):
                    ds = list(e.fds.values())
                    ok = len(ds) == 1 and e.n == ONE and ds[0].get('role') == role and ds[0].get('events').__class__ is L and \
                        bitof(e.facts, ds[0]['events'], 0) == 1
                    rep.check(ok, e, 'the function does not wait for %s' % what, 'waits for the event')
                if 'Pull' in root.name and not polls(p.evs):
                    f = p.st.facts
                    evs = flat(cx.ex, p.evs)
                    known = lambda off, pred: knows(root, f, off, pred) or any(knows(root, e.facts, off, pred) for e in evs if e.get('facts') is not None)
                    rep.check(assume(f, arg.addc(-1)) is None or any(e.name == 'pop' for e in evs) or known(ro.RECVEV, not_minus1) or
                              known(ro.ISDISC, nonzero) or known(ro.TYPE, zero), evs[-1] if evs else root.F,
                              'Pull() with a timeout does not wait although a request may come', 'waits when it should')
                if 'WaitForStop' in root.name or 'Stop' in root.name:
                    stopped(cx, root, p, arg)
                if root.name.startswith('Connection::WaitForStop'):
                    answer(cx, root, p)


def stopped(cx, root, p, arg):
    """a function that waits for the end returns without waiting only if nothing runs or it was told not to wait"""
    if polls(p.evs):
        return
    T = cx.roles.STYPE if root.cls == 'Server' else cx.roles.TYPE
    ok = any(knows(root, e.facts, T, zero) for e in p.evs) or zero(p.st.facts, arg)
    cx.rep.check(ok, p.evs[-1] if p.evs else root.F, 'the function returns without waiting', 'waits unless nothing runs')


def answer(cx, root, p):
    """WaitForStop() tells whether the event has happened"""
    v = p.ret
    ps = polls(p.evs)
    if not ps:
        return
    ra = [x for x in revents(ps[-1]).values()]
    if len(ra) != 1:
        cx.rep.violation(ps[-1], 'it is not known what was waited for')
        return
    st = p.st
    for want in (0, 1):
        if v.__class__ is Bool:
            sts = cx.ex.assume(st.copy(), v.c if want else absint.cnot(v.c))
        elif v.__class__ is L and v.isc():
            sts = [st] if (v.c & 1) == want else []
        else:
            sts = None
        if sts is None:
            cx.rep.check(False, ps[-1], 'the result does not depend on the event')
            continue
        for s in sts:
            r = ps[-1].ret
            failed = s.facts.ent_ge(r.neg().addc(-1))
            cx.rep.check(bitof(s.facts, ra[0], 0) == want or want == 0 and failed, ps[-1],
                         'the result does not tell whether the event has happened', 'result tells the event')


def wait_client(cx, root):
    """the timeout of a TCP connection attempt"""
    T = cx.roles.CTEMP
    conns = [e for p in root.paths for e in p.evs if e.name == 'sys' and e.call == 'connect']
    tcp = any(e.args[2] == C(16) for e in conns)
    if not tcp:
        return
    arg = root.args[-1]
    if arg.__class__ is not L or arg.isc():
        raise Missing('%s has no timeout' % root.name)
    timeouts(cx, root, arg, lambda e: any(d.get('role') == T for d in e.fds.values()))


def since(cx, root, evs, e, off):
    """the moment since which nobody else can write the member, up to an event; None if it can be written at the event"""
    i = evs.index(e)
    if not cx.steady(root, e, off):
        return None
    m = None
    while i >= 0 and cx.steady(root, evs[i], off):
        m = now(evs[i].facts)
        i -= 1
    return m


# ---------------------------------------------------------------------------------------------------- P12: Pull()
def pull_rule(cx):
    """Connection::Pull(): takes the requests in order, one at a time; waits only if one may come"""
    ro, rep = cx.roles, cx.rep
    RQ, REV, TYPE, DISC = ro.RECVQ, ro.RECVEV, ro.TYPE, ro.ISDISC
    for root in cx.roots(r'Connection::Pull\('):
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            end = evs[-1] if evs else root.F
            f = p.st.facts
            pops = [e for e in evs if e.name in ('pop', 'erase', 'clear', 'swap', 'remove') and e.get('oid') == root.this and e.off == RQ]
            puts = [e for e in evs if e.name == 'push' and e.oid == root.this]
            rep.check(not puts, puts[0] if puts else end, 'Pull() puts something to a queue')
            for e in pops:
                rep.check(e.name == 'pop' and e.get('first'), e, 'requests are not pulled in the order of their arrival', 'first request pulled')
                rep.check(cx.steady(root, e, RQ), e, 'the receive queue is changed without its mutex', 'queue mutex')
            r = p.ret
            r = r.o if r.__class__ is Ptr else 0 if r is None or r.__class__ is L and zero(f, r) else None
            if pops:
                rep.check(len(pops) == 1 and r == pops[0].get('obj'), pops[-1], 'the request that is taken out of the receive queue is not the one '
                          'that Pull() returns', 'pulled request returned')
            else:
                rep.check(r == 0, end, 'Pull() returns a request that stays in the queue', 'nothing returned')
                rep.check(knows(root, f, RQ, zero), end, 'Pull() returns nothing although there may be a request', 'empty queue')
            # waiting
            made = [e for e in evs if e.name == 'fdnew']
            sets = [e for e in evs if e.name == 'set' and e.off == C(REV)]
            ps = polls(evs)
            if not ps:
                continue
            w = ps[0]
            mine = [e for e in sets if made and e.val == made[-1].fd]
            if rep.check(mine, w, 'Pull() waits for an event that nobody can raise', 'event for the wait'):
                s = mine[0]
                rep.check(cx.steady(root, s, REV), s, 'the event of a waiting Pull() is set without the mutex', 'event set under the mutex')
                m = since(cx, root, evs, s, RQ)
                rep.check(m is not None and knows(root, s.facts, RQ, zero, m), s, 'Pull() waits although there may be a request', 'waits for an empty queue')
                rep.check(m is not None and knows(root, s.facts, DISC, zero, m) and knows(root, s.facts, TYPE, nonzero, m), s,
                          'Pull() waits although nothing is going to be received', 'waits while connected')
                rep.check(m is not None and knows(root, s.facts, REV, minus1, m), s, 'the event of another waiting Pull() is overwritten', 'one waits')
                rep.check(any(minus1(f, e.val) for e in sets[1:]), end, 'the event of a finished Pull() stays set', 'event reset')


# ---------------------------------------------------------------------------------------------------- P23
def some(pred, fs):
    """one of the facts on the path says so (what they talk about does not change)"""
    return any(pred(f) for f in fs)


def known_bad(f, e):
    """the facts say that the call failed"""
    r = e.ret
    if e.call == 'inet_aton':
        return zero(f, r)
    return r.__class__ is L and f.ent_ge(r.neg().addc(-1))


def known_good(f, e):
    r = e.ret
    if e.call == 'inet_aton':
        return nonzero(f, r)
    return r.__class__ is L and f.ent_ge(r)


def valid(f, fd):
    """True: open, False: creation failed, None: unknown"""
    if fd.__class__ is not L:
        return None
    if f.ent_ge(fd):
        return True
    if f.ent_ge(fd.neg().addc(-1)):
        return False
    return None


def closes(f, evs, fd, role=None):
    return [e for e in evs if e.name == 'sys' and e.call == 'close' and (eq(f, e.fd, fd) or role is not None and e.role == role)]


STEPS = ('bind', 'listen', 'inet_aton', 'inet_pton', 'unlink', 'connect')


def start_rule(cx):
    """Server::StartTcp() and Server::StartUnix()"""
    ro, rep = cx.roles, cx.rep
    STYPE = ro.STYPE
    for root in cx.roots(r'Server::Start(Tcp|Unix)\('):
        done = [0, 0]
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            end = evs[-1] if evs else root.F
            f = p.st.facts
            good = p.ret
            good = 1 if one(good) else 0 if good == ZERO or good.__class__ is Bool and good.c == F else None
            if good is None and good.__class__ is L:
                good = 1 if nonzero(f, p.ret) else 0 if zero(f, p.ret) else None
            if not rep.check(good is not None, end, 'it is not known whether the start succeeded'):
                continue
            done[good] += 1
            fs = [e.facts for e in evs] + [f]
            made = [e for e in evs if e.name == 'fdnew']
            spawns = [e for e in evs if e.name == 'spawn']
            types = [e for e in evs if e.name == 'set' and e.off == C(STYPE)]
            steps = [e for e in evs if e.name == 'sys' and e.call in STEPS]
            by = {}
            for e in steps:
                by.setdefault(e.call, []).append(e)
            if good:
                was = any(knows(root, e.facts, STYPE, zero) for e in evs)
                rep.check(was, end, 'a server that runs is started again', 'started once')
                rep.check(len(made) == 1 and made[0].call == 'socket' and some(lambda f: valid(f, made[0].fd), fs), end, 'the start succeeds without a socket', 'socket created')
                fd = made[0].fd if made else None
                for call in ('bind', 'listen'):
                    es = by.get(call, [])
                    rep.check(len(es) >= 1 and eq(f, es[-1].fd, fd) if fd is not None else False, end, 'the start succeeds without %s()' % call, call)
                for e in steps:
                    if e.call == 'unlink':
                        continue
                    rep.check(some(lambda f: known_good(f, e), fs), e, 'the start succeeds although %s() may have failed' % e.call, '%s() succeeded' % e.call)
                if by.get('bind') and by.get('listen'):
                    rep.check(evs.index(by['bind'][0]) < evs.index(by['listen'][-1]), by['listen'][-1], 'listen() before bind()')
                rep.check(len(spawns) == 1, end, 'a successful start does not start exactly one thread', 'one thread started')
                rep.check(fd is None or not closes(f, evs, fd), end, 'the socket of a started server is closed', 'socket stays open')
                if spawns:
                    s = spawns[0]
                    for e in steps:
                        rep.check(evs.index(e) < evs.index(s), s, 'the thread is started before %s()' % e.call, 'thread started last')
                    ok = types and nonzero(f, types[-1].val) and (evs.index(types[-1]) < evs.index(s) or cx.together(root, evs, types[-1], s, (STYPE,)))
                    rep.check(ok, s, 'the thread of the server is started before the server is marked as started', 'marked as started')
                    rep.check(cx.steady(root, s, STYPE), s, 'the server is started without its mutex', 'started under the mutex')
                    cell = p.st.mem[root.this].cells.get(0)
                    rep.check(any(e.name == 'set' and fd is not None and eq(f, e.val, fd) and evs.index(e) < evs.index(s) for e in evs), s,
                              'the thread of the server does not get the socket', 'socket stored')
            else:
                rep.check(not spawns, spawns[0] if spawns else end, 'a failed start leaves a thread behind', 'no thread')
                rep.check(not types or types[-1].val == ZERO, types[-1] if types else end, 'a server whose start failed counts as started', 'not marked as started')
                for e in made:
                    v = False if some(lambda f: valid(f, e.fd) is False, fs) else None
                    n = len(closes(f, evs, e.fd))
                    if v is False:
                        continue
                    rep.check(n == 1, end, 'a failed start does not close its descriptor exactly once', 'descriptor closed')
                for e in by.get('listen', ()):
                    rep.check(not some(lambda f: known_good(f, e), fs), end, 'the start fails although the server listens')
        if not done[1]:
            rep.violation(root.name, 'the server can never be started')
        if not done[0]:
            rep.violation(root.name, 'the start of a server never fails')


def connect_rule(cx):
    """Client::ConnectTcp() and Client::ConnectUnix()"""
    ro, rep = cx.roles, cx.rep
    TEMP, TYPE = ro.CTEMP, ro.TYPE
    for root in cx.roots(r'Client::Connect(Tcp|Unix)\('):
        some = False
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            end = evs[-1] if evs else root.F
            f = p.st.facts
            made = [e for e in evs if e.name == 'fdnew']
            socks = [e for e in made if e.call == 'socket']
            others = [e for e in made if e not in socks]
            spawns = [e for e in evs if e.name == 'spawn']
            r = p.ret
            if spawns:
                some = True
                s = spawns[0]
                rep.check(len(spawns) == 1 and len(socks) == 1, s, 'a connection attempt does not start exactly one thread with one socket', 'one thread')
                rep.check(any(knows(root, e.facts, TYPE, zero) for e in evs[:evs.index(s) + 1]), s, 'a connected client connects again', 'not connected before')
                rep.check(any(knows(root, e.facts, TEMP, minus1) for e in evs[:evs.index(s) + 1]), s, 'a connecting client connects again', 'not connecting before')
                fd = socks[0].fd if socks else None
                st = [e for e in evs[:evs.index(s)] if e.name == 'set' and e.off == C(TEMP)]
                tested = fd is not None and (valid(s.facts, fd) or any(not_minus1(s.facts, v) for v in read(root, s.facts, TEMP) if v.t[0][0] > fd.t[0][0]))
                rep.check(tested, s, 'the connection attempt goes on although there may be no socket', 'socket created')
                rep.check(st and eq(f, st[-1].val, fd), s, 'the connecting thread does not get the socket', 'socket stored')
                rep.check(fd is None or not closes(f, evs, fd, TEMP), s, 'the socket of the connecting thread is closed', 'socket left to the thread')
                # the event
                ws = [e for e in polls(evs)[:] if evs.index(e) > evs.index(s)]
                rep.check(ws, s, 'the connection attempt does not wait for the thread', 'waits for the thread')
                for e in others:
                    role = [x.off.c for x in evs if x.name == 'set' and x.off.isc() and x.val == e.fd]
                    ok = role and any(d.get('role') == role[0] for w in ws for d in w.fds.values())
                    rep.check(ok and evs.index(e) < evs.index(s), e, 'the event for the result is not created before the thread', 'event created')
                    rep.check(len(closes(f, evs, e.fd)) == 1 and ws and evs.index(closes(f, evs, e.fd)[0]) > evs.index(ws[-1]), end,
                              'the event for the result is not closed exactly once after the wait', 'event closed')
                for w in ws:
                    rep.check(negative(w.facts, w.timeout), w, 'the connection attempt ends before the thread is done', 'waits until the thread is done')
                # the answer
                ok = False
                if r.__class__ is Bool and ws:
                    for want in (0, 1):
                        for x in cx.ex.assume(p.st.copy(), r.c if want else absint.cnot(r.c)):
                            v = [v for v in read(root, x.facts, TYPE) if v.t[0][0] > now(ws[-1].facts)]
                            ok = any((nonzero if want else zero)(x.facts, y) for y in v)
                            if not ok:
                                break
                elif ws and r.__class__ is L and r.isc():
                    ok = knows(root, f, TYPE, nonzero if r.c & 1 else zero, now(ws[-1].facts))
                rep.check(ok, end, 'the result does not tell whether the client is connected', 'result tells the outcome')
            else:
                rep.check(r == ZERO or r.__class__ is Bool and r.c == F, end, 'a connection attempt that was not made counts as successful', 'failure reported')
                for e in made:
                    if valid(f, e.fd) is False or any(minus1(f, v) for v in read(root, f, TEMP) if v.t[0][0] > e.fd.t[0][0]):
                        continue
                    rep.check(len(closes(f, evs, e.fd, TEMP if e in socks else None)) == 1, end, 'a failed connection attempt does not close its descriptor exactly once', 'descriptor closed')
                sets = [e for e in evs if e.name == 'set' and e.off == C(TEMP)]
                if sets:
                    ok = minus1(f, sets[-1].val) or any(minus1(f, v) for v in read(root, f, TEMP) if v.t[0][0] > sets[-1].val.t[0][0])
                    rep.check(ok, end, 'after a failed attempt the client counts as connecting', 'usable again')
        if not some:
            rep.violation(root.name, 'the client never connects')


def connect_thread(cx, root):
    """the connecting thread of a client"""
    ro, rep = cx.roles, cx.rep
    TEMP, TYPE, SOCK = ro.CTEMP, ro.TYPE, ro.SOCK
    guard = None
    for r in cx.roots(r'Client::~Client'):
        guard = set(e.key[1] for p in r.paths for e in p.evs if e.name == 'lock' and e.key[0] == r.this)

    EV = set()
    for r in cx.roots(r'Client::Connect'):
        for p in r.paths:
            for e in polls(p.evs):
                for d in e.fds.values():
                    EV.add(d.get('role'))

    def last(con, k, e):
        d = dict(con)
        d[k] = e.id
        return tuple(sorted(d.items()))
    # state: flags, the last call of each kind
    def step(s, e):
        fl, con = s
        f = e.facts
        if con:
            fl = learn(fl, con, f)
        if e.name == 'sys' and e.call == 'inet_aton':
            con = last(con, 'aton', e)
        if e.name == 'sys' and e.call == 'connect':
            rep.check(e.role == TEMP, e, 'something else than the new socket is connected')
            con = last(con, 'connect', e)
        elif e.name == 'sys' and e.call == 'poll' and any(d.get('role') == TEMP for d in e.fds.values()):
            con = last(con, 'poll', e)
        elif e.name == 'sys' and e.call == 'getsockopt' and e.args[2] == C(4):
            con = last(con, 'error', e)
        elif e.name == 'sys' and e.call == 'getsockopt':
            fl = fl | {'domain'}
        elif e.name == 'spawn':
            rep.check('closed' not in fl, e, 'a closed socket is used for the connection')
            rep.check(made_it(fl, con), e, 'the client counts as connected although connecting may have failed', 'connected')
            v = e.cells.get(SOCK)
            rep.check('spawned' not in fl, e, 'two threads are started for a connection', 'one thread')
            fl = fl | {'spawned'}
            so = v is not None and origin(cx.ex, root, v) == TEMP
            rep.check(so, e, 'the connection does not get the connected socket', 'socket handed over')
        elif e.name == 'sys' and e.call == 'close':
            rep.check(e.role == TEMP, e, 'the connecting thread closes a descriptor that is not its own')
            rep.check('closed' not in fl and 'spawned' not in fl and 'gone' not in fl, e, 'the socket is closed although it is in use or closed', 'closed once')
            fl = fl | {'closed'}
        elif isset(e, root, TEMP):
            rep.check(minus1(f, e.val), e, 'after the attempt the client counts as connecting', 'usable again')
            fl = fl | {'gone'}
        elif e.name == 'sys' and e.call == 'write' and e.role in EV:
            rep.check(writes_one(e), e, 'the result of the attempt is not announced')
            rep.check('told' not in fl, e, 'the result of the attempt is announced twice', 'announced once')
            rep.check('gone' in fl, e, 'the result is announced before the attempt is over', 'announced last')
            rep.check(guard and heldoffs(root, e) & guard, e, 'the thread goes on using the client after its destruction', 'destructor waits')
            fl = fl | {'told'}
        if 'told' in fl and e.name in ('set', 'fdnew', 'spawn', 'push', 'pop') or 'told' in fl and e.name == 'sys' and e.call == 'close':
            rep.check(False, e, 'the thread changes the client after it announced the result')
        if 'connected' not in fl and knows(root, f, TYPE, nonzero):
            fl = fl | {'connected'}
        return (fl, con)

    def learn(fl, con, f):
        """what the facts tell about the calls"""
        for k, i in con:
            e = cx.ex.nodes[i]
            if k == 'connect':
                if 'k:connect' not in fl and known_good(f, e):
                    fl = fl | {'k:connect'}
                if 'k:progress' not in fl and eq(f, e.errno, C(115)):
                    fl = fl | {'k:progress'}
            elif k == 'aton':
                if 'k:aton' not in fl and known_good(f, e):
                    fl = fl | {'k:aton'}
            elif k == 'poll' and 'k:poll' not in fl:
                ra = list(revents(e).values())
                tcp = cx.ex.nodes[dict(con)['connect']].args[2] == C(16) if 'connect' in dict(con) else True
                if len(ra) == 1 and (bitof(f, ra[0], 2) == 1 or not tcp and bitof(f, ra[0], 0) == 1):
                    fl = fl | {'k:poll'}
            elif k == 'error' and 'k:error' not in fl and e.val.__class__ is L and zero(f, e.val):
                fl = fl | {'k:error'}
        return fl

    def made_it(fl, con):
        c = dict(con)
        if 'connect' not in c or 'aton' in c and 'k:aton' not in fl:
            return False
        if 'k:connect' in fl:
            return True
        if 'k:progress' not in fl or 'k:poll' not in fl:
            return False
        return 'k:error' in fl or cx.ex.nodes[c['connect']].args[2] != C(16)

    def end(s, p):
        fl, con = s
        e = p.evs[-1] if p.evs else root.F
        rep.check('told' in fl, e, 'the result of the attempt is never announced', 'result announced')
        rep.check('gone' in fl, e, 'after the attempt the client counts as connecting', 'usable again')
        if 'spawned' not in fl and 'domain' not in fl and 'connected' not in fl:
            rep.check('closed' in fl, e, 'a failed attempt does not close the socket', 'socket closed')

    Auto(cx.ex, root, step, rep).whole((frozenset(), ()), end)


# ---------------------------------------------------------------------------------------------------- P18
def refs_rule(cx):
    """the counter of references, and who holds one"""
    ro, rep = cx.roles, cx.rep
    REFS, NN = ro.REFS, ro.NOTNEEDED
    changed = set()
    for pat, d, what in ((r'Connection::IncreaseRefs\(', 1, 'IncreaseRefs() does not count one reference more'),
                         (r'Connection::DecreaseRefs\(', -1, 'DecreaseRefs() does not count one reference less')):
        for root in cx.roots(pat):
            changed.add(root.name)
            for p in cx.paths(root):
                evs = flat(cx.ex, p.evs)
                end = evs[-1] if evs else root.F
                f = p.st.facts
                sets = [e for e in evs if e.name == 'set' and e.off == C(REFS)]
                if not rep.check(len(sets) == 1, end, what, 'counted once'):
                    continue
                s = sets[0]
                m = since(cx, root, evs, s, REFS)
                ok = any(modular(s.val - v, 1 << 32) == C(d % (1 << 32)) for v in read(root, s.facts, REFS) + symbolsof(root, s.val, REFS)
                         if m is not None and v.t[0][0] > m) if s.val.__class__ is L else False
                rep.check(ok, s, what + (': the mutex is not held' if m is None else ''), 'counted under the mutex')
                if d > 0:
                    continue
                fs = [e.facts for e in evs[evs.index(s):]] + [f]
                left = some(lambda f: f.ent_ne(s.val), fs)
                nobody = m is not None and some(lambda f: knows(root, f, NN, minus1, m), fs)
                w = [e for e in evs if writes_one(e) and e.role == NN and evs.index(e) > evs.index(s) and cx.together(root, evs, s, e, (REFS, NN))]
                rep.check(left or nobody or w, end, 'a waiting teardown is not woken when the last reference is gone', 'teardown woken')
                for e in evs:
                    if e.name == 'sys' and e.call == 'write' and e.role == NN:
                        rep.check(cx.steady(root, e, NN), e, 'the event of a waiting teardown is used without the mutex', 'event used under the mutex')
                        rep.check(nobody or m is not None and some(lambda f: knows(root, f, NN, not_minus1, m), [e.facts]), e,
                                  'the event of a teardown that does not wait is used')
    for root in cx.ex.roots:
        if root.how == 'thread' or root.name in changed or root.cls not in (CONN, CLIENT):
            continue
        for p in root.paths:
            for e in p.evs:
                if e.name == 'set' and e.off == C(REFS):
                    ok = '::Connection(' in root.name and e.val == ZERO or '::Client(' in root.name and e.val == ZERO
                    rep.check(ok, e, 'the number of references is overwritten', 'no other change')
    first = False
    for root in cx.roots(r'Connection::Connection\(\)'):
        for p in cx.paths(root):
            c = p.st.mem[root.this].cells.get(REFS)
            first = True
            rep.check(c is not None and p.st.res(c[1]) == ZERO, root.F, 'a new connection has references', 'starts without references')
    # destructors
    for root in cx.roots(r'Connection::~Connection|Client::~Client'):
        refs_wait(cx, root)
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            goes = [e for e in evs if e.name == 'sys' and e.call == 'close' and e.role == ro.STOPPED]
            end = goes[0] if goes else evs[-1]
            fs = [e.facts for e in evs[:evs.index(end) + 1]]
            rep.check(some(lambda f: knows(root, f, REFS, zero), fs), end, 'a connection is destroyed while it may be referenced', 'destroyed without references')
    # holders
    balance_rule(cx)
    for root in cx.roots(r'Server::GetConnection\('):
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            r = p.ret
            end = evs[-1] if evs else root.F
            incs = [e for e in evs if e.name == 'ccall' and e.meth == 'IncreaseRefs']
            if r is None or r.__class__ is L and zero(p.st.facts, r):
                rep.check(not incs, end, 'a reference is taken that nobody releases', 'no reference')
                continue
            if not rep.check(r.__class__ is Ptr and r.o in p.st.mem, end, 'it is not known what GetConnection() returns'):
                continue
            c = p.st.mem[r.o].cells.get(0)
            c = p.st.res(c[1]) if c else None
            for e in incs:
                rep.check(heldlists(cx, root, e), e, 'the reference is taken when the server may already be deleting the connection', 'taken under the mutex')
            n = sum(1 for e in incs if c.__class__ is Ptr and e.obj == c.o)
            rep.check(n == 1 and len(incs) == 1, end, 'GetConnection() does not return exactly one reference', 'one reference returned')


def symbolsof(root, v, off):
    return [S(s) for s, k in v.t if source(s) == (root.this, off)]


def heldlists(cx, root, e):
    """every list of connections of the server is protected at the event"""
    offs = set(x.off for r in cx.ex.roots if r.cls == SERVER for p in r.paths for x in p.evs if x.name in ('push', 'erase', 'remove', 'pop', 'clear', 'swap') and x.get('oid') == r.this)
    offs |= set(k[1] for k, t in cx.ex.ftype.items() if k[0] == SERVER and t[0] == 'cont')
    return bool(offs) and all(cx.steady(root, e, o) for o in offs)


def refs_wait(cx, root):
    """waiting until nobody holds a reference"""
    ro, rep = cx.roles, cx.rep
    REFS, NN = ro.REFS, ro.NOTNEEDED
    wake = set(e.key[1] for r in cx.roots(r'Connection::DecreaseRefs\(') for p in r.paths for e in p.evs if e.name == 'lock' and e.key[0] == r.this)
    for p in cx.paths(root, 'root', 'part', 'post', 'leave'):
        evs = flat(cx.ex, p.evs)
        for e in polls(evs):
            if not any(d.get('role') == NN for d in e.fds.values()):
                continue
            rep.check(negative(e.facts, e.timeout), e, 'the teardown does not wait until the references are gone', 'waits for the references')
            rep.check(not heldoffs(root, e) & wake, e, 'the teardown waits with the mutex held that is needed to release a reference', 'waits without the mutex')
            before = [x for x in evs[:evs.index(e)] if x.name == 'set' and x.off == C(NN)]
            if p.kind == 'part' and p.evs[0] is e:
                continue             # a wait that was interrupted
            if not before and not any(x.name == 'fdnew' for x in evs):
                continue
            if rep.check(before and any(x.name == 'fdnew' and x.fd == before[-1].val for x in evs), e, 'the teardown waits for an event that nobody raises', 'event created'):
                s = before[-1]
                m = since(cx, root, evs, s, REFS) if cx.steady(root, s, NN) else None
                rep.check(m is not None, s, 'the event is set without the mutex of the references', 'event set under the mutex')
        for e in evs:
            if e.name == 'sys' and e.call == 'close' and e.role == NN:
                nxt = [x for x in evs[evs.index(e):] if x.name == 'set' and x.off == C(NN)]
                rep.check(cx.steady(root, e, NN) and nxt and minus1(e.facts, nxt[0].val) and cx.together(root, evs, e, nxt[0], (NN,)), e,
                          'the closed event of the teardown may be used', 'event reset')


def balance_rule(cx):
    """SafeConnection: as many references as holders"""
    rep, ex = cx.rep, cx.ex
    seen = 0
    for root in ex.roots:
        if root.cls != 'SafeConnection':
            continue
        parts = root.F.short.split('::')
        life = 'new' if parts[-1] == parts[-2] else 'dead' if parts[-1].startswith('~') else ''
        seen += 1
        for p in cx.paths(root):
            st = p.st
            end = p.evs[-1]
            others = [a.o for a, t in zip(root.args, [None] + split_(root.F)) if t and re.match(r'DowowNetwork::SafeConnection', t) and a.__class__ is Ptr]
            holders = [root.this] + others
            n = {}

            def count(v, k):
                v = st.res(v) if v is not None else None
                if v.__class__ is Ptr:
                    n[v.o] = n.get(v.o, 0) + k
                elif v.__class__ is PSym:
                    n[('p', v.id)] = n.get(('p', v.id), 0) + k
            for o in holders:
                cell = st.mem[o].cells.get(0)
                before = [i for i, a in absint.PSORIG.items() if a == (o, 0)]
                first = psym_of(ex, before[0], (o, 0)) if before else None
                if not (life == 'new' and o == root.this) and (first is not None):
                    count(first, -1)
                    if cell is None and not (life == 'dead' and o == root.this):
                        count(first, 1)
                if cell is not None and not (life == 'dead' and o == root.this):
                    count(cell[1], 1)
            got = {}
            for e in p.evs:
                if e.name == 'ccall' and e.meth in ('IncreaseRefs', 'DecreaseRefs'):
                    got[e.obj] = got.get(e.obj, 0) + (1 if e.meth == 'IncreaseRefs' else -1)
            for k in set(n) | set(got):
                a, b = n.get(k, 0), got.get(k, 0)
                rep.check(a == b, end, 'a SafeConnection %s' % ('keeps no reference' if b < a else 'keeps a reference after it is gone'), 'as many references as holders')
            rep.ok('special member', (root.name, id(p)))
    if not seen:
        raise Missing('no class SafeConnection')


def split_(F_):
    from .models import split_params
    return split_params(F_.dem)


def psym_of(ex, i, origin):
    return PSym(i, origin)
