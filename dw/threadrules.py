"""Rules over the background thread of a connection (properties P09 to P13, P17, P28 and parts of P16)."""
from .netrules import *
from .netrules import View
from . import absint
from .net import iscons


def eq(f, a, b):
    return a.__class__ is L and b.__class__ is L and f.ent_eq(a - b)


def ge(f, a, b):
    return a.__class__ is L and b.__class__ is L and f.ent_ge(a - b)


def isset(e, root, off):
    return e.name == 'set' and e.off == C(off) and e.get('oid', root.this) == root.this


def position(root, evs, base):
    """the member that holds the position in the buffer of a call"""
    out = None
    for e in evs:
        if e.buf.__class__ is not Ptr or not e.cells:
            continue
        o = e.buf.off.addc(-base)
        s = set(k for k, v in e.cells.items() if k.__class__ is int and k >= 0 and v.__class__ is L and eq(e.facts, v, o))
        out = s if out is None else out & s
    return out


# ---------------------------------------------------------------------------------------------------- P09, P10
def recv_rule(cx, root, want):
    """framing of the received bytes"""
    ro, rep = cx.roles, cx.rep
    vw = View(cx, root)
    RBUF, RLEN, MAXREQ, SOCK = vw.recvbuf, vw.rlen, ro.MAXREQ, ro.SOCK
    if RBUF is None or RLEN is None:
        raise Missing('the length or the body of a request is never received')
    pos = position(root, vw.bodies, 0) & position(root, vw.heads, RLEN)
    if not pos:
        raise Missing('received bytes are not stored behind the bytes received before')
    ROFF = min(pos)
    lens = vw.lens()
    FOUR = C(4)

    def chk(p, cond, e, msg, what=None):
        if want == p or p == '*':
            return rep.check(cond, e, msg, what)
        return cond
    # state: kind of the last receive, position before, number received, total, what has happened since
    IDLE = (None, None, None, None, frozenset())

    def step(s, e):
        if e.name == 'evloop':
            return IDLE
        if e.name == 'left' or s == 'post':
            return 'post'
        kind, old, ret, total, fl = s
        f = e.facts
        if e.name == 'sys' and e.call == 'recv' and e.role == SOCK:
            finish(s, e)
            f = cx.better(root, f, ro.RECVBLK)
            # nothing asked for, nothing received: looks like a closed connection
            chk('P28', ge(f, e.n, ONE), e, 'the connection ends although the peer has not closed it: no byte is asked for', 'at least one byte asked for')
            if not e.get('ok'):
                return ('failed', None, None, None, frozenset())
            off = e.cells.get(ROFF)
            if e.get('kind') == 'root' and e.buf.o == root.this:
                chk('P10', eq(f, e.buf.off, C(RLEN) + off), e, 'the bytes of a length are not stored one after the other', 'length stored in order')
                chk('P10', ge(f, e.n, ONE) and ge(f, FOUR, off + e.n), e, 'more than the four bytes of the length are received to it', 'length bounds')
                b = e.cells.get(RBUF)
                chk('P10', b.__class__ is L and zero(f, b), e, 'a length is received while a request is not complete', 'length between requests')
                return ('head', off, e.ret, FOUR, frozenset())
            if e.get('kind') == 'heap' and e.buf.__class__ is Ptr:
                b = e.cells.get(RBUF)
                chk('P10', b.__class__ is Ptr and b.o == e.buf.o and eq(f, e.buf.off - b.off, off), e,
                    'received bytes are not stored to their place in the buffer of the request', 'body stored in order')
                chk('P10', eq(f, e.buf.off, e.front), e, 'received bytes are not stored directly behind the bytes received before', 'body contiguous')
                chk('P10', ge(f, e.n, ONE) and ge(f, e.get('size'), e.buf.off + e.n), e, 'more bytes may be received than the buffer of the request holds',
                    'body bounds')
                return ('body', off, e.ret, e.get('size'), frozenset())
            chk('*', False, e, 'received bytes are stored to an unknown place')
            return ('failed', None, None, None, frozenset())
        if kind not in ('head', 'body'):
            if e.name == 'deserialize' and e.cls == 'Request':
                chk('P10', False, e, 'a request is decoded although nothing was received')
            return s
        new = old + ret
        if 'complete' not in fl and 'short' not in fl:
            if f.ent_eq(new - total):
                fl = fl | {'complete'}
            elif f.ent_ge(total - new - ONE):
                fl = fl | {'short'}
        if isset(e, root, ROFF):
            v = e.val
            if v.__class__ is L and f.ent_eq(v - new):
                fl = fl | {'advanced'}
            elif v == ZERO:
                chk('P10', kind == 'body' and 'complete' in fl, e, 'the position is reset although the request is not complete')
                fl = fl | {'reset'}
            else:
                chk('P10', False, e, 'the position is not advanced by the number of bytes received')
        elif e.name == 'alloc' and e.form == 'new[]' and kind == 'head' and 'buffer' not in fl:
            chk('P09', 'complete' in fl, e, 'a length is used before all of its bytes have arrived', 'length complete')
            n = e.get('size')
            chk('P09', sym(n) in lens, e, 'the buffer of a request does not have the announced length', 'buffer of the announced length')
            chk('P09', ge(f, n, FOUR.addc(1)), e, 'a length of four or less is accepted', 'length more than four')
            chk('P09', any(ge(f, m, n) for m in read(root, f, MAXREQ)), e, 'a buffer is allocated for a length above the limit', 'length at most the limit')
            fl = fl | {'buffer'}
        elif e.name == 'deserialize' and e.cls == 'Request':
            chk('P10', kind == 'body' and e.buf is not None and e.off == ZERO and eq(f, e.n, total) and eq(f, e.front, total), e,
                'a request is not decoded from exactly its received bytes', 'decoded from all bytes')
            chk('P10', 'decoded' not in fl, e, 'a request is decoded twice', 'decoded once')
            fl = fl | {'decoded'}
        return (kind, old, ret, total, fl)

    def finish(s, e):
        kind, old, ret, total, fl = s
        if kind == 'head':
            if 'buffer' in fl:
                chk('P10', 'advanced' in fl, e, 'the body of a request does not start behind its length', 'position after the length')
            else:
                chk('P09', 'short' in fl, e, 'a complete length is not evaluated', 'complete length evaluated')
                chk('P10', 'advanced' in fl, e, 'the position is not advanced after a part of a length was received', 'position after a part of the length')
        elif kind == 'body':
            if 'decoded' in fl:
                chk('P10', 'reset' in fl, e, 'the next request is not received from its start', 'position reset')
            else:
                chk('P10', 'short' in fl, e, 'a request is not decoded although all of its bytes have arrived', 'complete request decoded')
                chk('P10', 'advanced' in fl, e, 'the position is not advanced after a part of a request was received', 'position after a part of the request')

    def at_iter(s, p):
        if s != 'post':
            finish(s, p.evs[-1])
        return IDLE

    Auto(cx.ex, root, step, rep).whole(IDLE, None, at_iter, lambda s, p: None)


# ---------------------------------------------------------------------------------------------------- P11
def send_rule(cx, root):
    """requests are sent in order, completely and once"""
    ro, rep = cx.roles, cx.rep
    vw = View(cx, root)
    SBUF, Q, SOCK = vw.sendbuf, ro.PUSHQ, ro.SOCK
    if SBUF is None:
        raise Missing('it is not known what is sent')
    pos = position(root, vw.sends, 0)
    if not pos:
        raise Missing('bytes are not sent one after the other')
    SOFF = min(pos)
    # state: (request taken from the queue, flags), (position, sent, total, flags)
    NOREQ = (None, frozenset())
    NOSEND = (None, None, None, frozenset())

    def step(s, e):
        if e.name == 'evloop':
            return (NOREQ, NOSEND)
        if e.name == 'left' or s == 'post':
            return 'post'
        (obj, rf), (old, ret, total, fl) = s
        f = e.facts
        if e.name in ('pop', 'erase', 'clear', 'swap', 'remove') and e.get('oid') == root.this and e.off == Q:
            rep.check(e.name == 'pop' and e.get('first'), e, 'a request is taken out of the middle of the send queue', 'first request taken')
            rep.check(cx.steady(root, e, Q), e, 'the send queue is changed without its mutex', 'queue mutex')
            obj, rf = took(e, obj, rf, e.get('obj'), 'popped')
        elif e.name == 'serialize' and e.cls == 'Request':
            b = e.cells.get(SBUF)
            rep.check(b.__class__ is L and zero(f, b), e, 'the next request is encoded although the one before is not sent completely', 'encoded when the buffer is free')
            obj, rf = took(e, obj, rf, e.obj, 'encoded')
        elif e.name == 'free' and e.cls == 'Request' and (e.obj == obj or e.owner and e.owner.__class__ is tuple and e.owner[0] == 'cont'):
            obj, rf = took(e, obj, rf, e.obj, 'deleted')
        elif isset(e, root, SBUF) and e.val.__class__ is Ptr:
            rf = rf | {'stored'}
        elif isset(e, root, SOFF):
            v = e.val
            if v == ZERO:
                if ret is not None and 'freed' not in fl:
                    fl = fl | {'zeroed'}
                rf = rf | {'zeroed'}
            elif rep.check(ret is not None and v.__class__ is L and f.ent_eq(v - old - ret), e, 'the position is not advanced by the number of bytes sent',
                           'position after a send'):
                fl = fl | {'advanced'}
        if e.name == 'sys' and e.call in ('send', 'write') and e.role == SOCK:
            finish_send((old, ret, total, fl), e)
            f = cx.better(root, f, ro.SENDBLK)
            b = e.cells.get(SBUF) if e.cells else None
            flags = e.args[3] if len(e.args) > 3 else None
            rep.check(flags.__class__ is L and flags.isc() and flags.c & 0x4000, e, 'sending to a closed peer raises SIGPIPE', 'no signal')
            o = e.cells.get(SOFF) if e.cells else None
            if rep.check(b.__class__ is Ptr and e.buf.__class__ is Ptr and b.o == e.buf.o and e.get('sent') is not None, e,
                         'something else than the encoded request is sent', 'request sent'):
                rep.check(eq(f, e.buf.off, e.sent) and eq(f, e.buf.off - b.off, o), e, 'bytes are sent twice or left out', 'contiguous')
                rep.check(ge(f, e.n, ONE) and ge(f, e.get('size'), e.buf.off + e.n), e, 'bytes beyond the encoded request are sent', 'send bounds')
            if e.get('ok') and b.__class__ is Ptr:
                return ((obj, rf), (o, e.ret, e.get('size'), frozenset()))
            return ((obj, rf), NOSEND)
        if ret is not None:
            if 'short' not in fl and total.__class__ is L and f.ent_ge(total - old - ret - ONE):
                fl = fl | {'short'}
        if e.name == 'free' and e.get('sent') is not None and e.form == 'new[]':
            rep.check(eq(f, e.sent, e.get('size')), e, 'the buffer of a request is deleted before all of it is sent', 'sent completely')
            fl = fl | {'freed'}
        if isset(e, root, SBUF) and e.val == ZERO:
            fl = fl | {'null'}
        return ((obj, rf), (old, ret, total, fl))

    def took(e, obj, rf, o, what):
        if obj is None or o == obj and what not in rf:
            rf = rf | {what}
        else:
            if o == obj:
                rep.violation(e, 'a request is %s twice' % what)
            else:
                finish_req((obj, rf), e)
                rf = frozenset({what})
        rf2 = rf
        if {'popped', 'encoded', 'deleted', 'stored'} <= rf2:
            return None, frozenset()
        return o, rf2

    def finish_req(r, e):
        obj, rf = r
        if obj is None:
            return
        rep.check('popped' in rf, e, 'a request stays in the send queue after it was encoded: it is sent again', 'request popped')
        rep.check('encoded' in rf, e, 'a request is taken from the send queue but not sent', 'request encoded')
        rep.check('deleted' in rf, e, 'a request is not deleted after it was encoded', 'request deleted')
        rep.check('stored' in rf, e, 'an encoded request is not sent', 'request stored')

    def finish_send(s, e):
        old, ret, total, fl = s
        if ret is None:
            return
        if 'freed' in fl:
            rep.check('null' in fl, e, 'the deleted buffer may be sent again', 'buffer reset')
        else:
            rep.check('short' in fl, e, 'the connection stays with a buffer that is sent completely: later requests are never sent', 'buffer released')
            rep.check('advanced' in fl and 'zeroed' not in fl, e, 'the position is not advanced after a part of a request was sent', 'position after a part')

    def at_iter(s, p):
        if s != 'post':
            finish_req(s[0], p.evs[-1])
            finish_send(s[1], p.evs[-1])
        return (NOREQ, NOSEND)

    Auto(cx.ex, root, step, rep).whole((NOREQ, NOSEND), None, at_iter, lambda s, p: None)


# ---------------------------------------------------------------------------------------------------- P12
def dispose_rule(cx, root):
    """every decoded request has exactly one receiver"""
    ro, rep = cx.roles, cx.rep
    HN, HD, RQ, REV = ro.HNAMED, ro.HDEF, ro.RECVQ, ro.RECVEV
    NONE = (None, False, frozenset(), frozenset(), None)
    seen = [0]

    def step(s, e):
        if e.name == 'evloop':
            return NONE
        if e.name == 'left' or s == 'post':
            if s != 'post':
                finish(s, e)
            return 'post'
        obj, ok, names, fl, idx = s
        f = e.facts
        if e.name == 'deserialize' and e.cls == 'Request':
            finish(s, e)
            seen[0] += 1
            return (e.obj, e.ok, e.names, frozenset(), None)
        if e.name == 'callback':
            mine = obj is not None and len(e.args) == 2 and e.args[1].__class__ is Ptr and e.args[1].o == obj
            rep.check(mine, e, 'a handler is called with something else than the received request')
            if mine:
                rep.check(e.args[0].__class__ is Ptr and e.args[0].o == root.this, e, 'a handler is not given the connection')
                o = e.origin
                rep.check(ok and 'alive' not in fl, e, 'a handler sees a request that was not decoded or a keep-alive request', 'handlers see decoded requests')
                rep.check('notalive' in fl, e, 'a handler may see a keep-alive request', 'keep-alive checked')
                if o.__class__ is tuple and o[0] == 'mapel':
                    rep.check(idx is not None and o[2] == idx, e, 'the handler of another name is called', 'handler of the name')
                else:
                    rep.check(o == (root.this, HD), e, 'an unknown handler is called', 'default handler')
                    rep.check('notnamed' in fl, e, 'the default handler is called although there may be a handler for the name', 'named handler goes first')
                fl = given(e, fl)
        elif obj is not None:
            if e.name == 'streq':
                a, b = e.a, e.b
                if a.sid in names and b.lit == b'_' or b.sid in names and a.lit == b'_':
                    q = SY.uf.get(('streq', frozenset((a.sid if a.sid in names else b.sid, b'_'))))
                    fl = fl | {('q', q)}
            elif e.name == 'mapfind' and e.oid == root.this and e.off == HN:
                if e.key.__class__ is tuple and e.key[0] == 's' and e.key[1] in names:
                    idx = e.idx
                    rep.check(cx.steady(root, e, HN), e, 'the handlers are searched without their mutex', 'handlers mutex')
            elif e.name == 'push' and e.obj == obj:
                rep.check(e.oid == root.this and e.off == RQ and not e.front, e, 'a received request is not put to the end of the receive queue', 'queued in order')
                rep.check(ok, e, 'a request that failed to decode is queued', 'decoded requests are queued')
                rep.check('notalive' in fl, e, 'a keep-alive request may be queued', 'keep-alive checked')
                rep.check('notnamed' in fl, e, 'a request is queued although there may be a handler for its name', 'handlers go first')
                rep.check('nodefault' in fl, e, 'a request is queued although there may be a default handler', 'handlers go first')
                rep.check(cx.steady(root, e, RQ), e, 'the receive queue is changed without its mutex', 'receive queue mutex')
                fl = given(e, fl) | {'queued'}
                if 'woken' in fl and not cx.steady(root, e, RQ):
                    fl = fl - {'woken'}
            elif e.name == 'free' and e.obj == obj:
                rep.check(not ok or 'alive' in fl, e, 'a decoded request is deleted instead of being delivered', 'only keep-alive requests are deleted')
                fl = given(e, fl)
            elif e.name == 'sys' and e.call == 'write' and e.role == REV and writes_one(e):
                if cx.steady(root, e, RQ):
                    fl = fl | {'woken'}
            elif e.name == 'br':
                c = e.c
                if c[0] == 'null':
                    o = absint.PSORIG.get(c[1])
                    if o == (root.this, HD):
                        fl = fl | {'nodefault'}
                    elif o.__class__ is tuple and o and o[0] == 'mapel' and idx is not None and o[2] == idx:
                        fl = fl | {'notnamed'}
                elif c[0] == 'eq' and idx is not None and c[1].__class__ is L and idx.single() in dict(c[1].t) and len(c[1].t) == 2:
                    fl = fl | {'notnamed'}
                elif c[0] == 'ge' and idx is not None and len(c[1].t) == 2 and dict(c[1].t).get(idx.single()) == 1 and c[1].c <= 0:
                    fl = fl | {'notnamed'}
                if zero_handler(f):
                    fl = fl | {'nodefault'}
            if 'queued' in fl and 'woken' not in fl and e.name in ('br', 'unlock') and cx.steady(root, e, REV) and knows(root, f, REV, minus1):
                fl = fl | {'woken'}
            for x in fl:
                if x.__class__ is tuple and x[0] == 'q' and x[1] is not None and not fl & {'alive', 'notalive'}:
                    if f.ent_eq(S(x[1]).addc(-1)):
                        fl = fl | {'alive'}
                    elif f.ent_ne(S(x[1]).addc(-1)):
                        fl = fl | {'notalive'}
        return (obj, ok, names, fl, idx)

    def zero_handler(f):
        return knows(root, f, HD, zero)

    def given(e, fl):
        rep.check('given' not in fl, e, 'a received request has two receivers', 'one receiver')
        return fl | {'given'}

    def finish(s, e):
        obj, ok, names, fl, idx = s
        if obj is not None:
            rep.check('given' in fl, e, 'a received request is neither delivered nor deleted', 'a receiver')
            if 'queued' in fl:
                rep.check('woken' in fl, e, 'a waiting Pull() is not woken when a request was queued', 'Pull() woken')

    def at_iter(s, p):
        if s != 'post':
            finish(s, p.evs[-1])
        return NONE

    Auto(cx.ex, root, step, rep).whole(NONE, None, at_iter, lambda s, p: None)
    if not seen[0]:
        raise Missing('requests are never decoded')


# ---------------------------------------------------------------------------------------------------- P13
def rearms(cx, root, e, timer, interval):
    """the call starts a timer with an interval member"""
    if not (e.name == 'sys' and e.call == 'timerfd_settime' and e.role == timer):
        return False
    v = e.value[0]
    return e.get('vrole') == interval and not e.get('null')


def timer_rule(cx, root):
    """keep-alive timers in the thread of a connection"""
    ro, rep = cx.roles, cx.rep
    SOCK, SAT, NAT, OUR, THEIR, Q = ro.SOCK, ro.SATIMER, ro.NATIMER, ro.OURSA, ro.THEIRNA, ro.PUSHQ
    NONE = frozenset()
    vw = View(cx, root)
    sat = {}
    for e in vw.evs:
        if isround(e):
            sat.update(revents(e))

    def step(s, e):
        if e.name == 'evloop':
            return NONE
        if e.name == 'left' or s == 'post':
            return 'post'
        f = e.facts
        if e.name == 'sys' and e.get('ok') and e.role == SOCK:
            if e.call == 'recv':
                return s | {'received'}
            if e.call == 'send':
                return s | {'sent'}
        if rearms(cx, root, e, NAT, THEIR):
            return s - {'received'}
        if rearms(cx, root, e, SAT, OUR):
            return (s - {'sent'}) | {'our'}
        if e.name == 'push' and e.oid == root.this and e.off == Q:
            return s | {'pushed'}
        if e.name == 'free' and e.cls == 'Request' and e.form == 'new':
            # refused by Push()
            if knows(root, f, ro.TYPE, zero) or knows(root, f, ro.ISDISC, nonzero):
                return s | {'pushed'}
        if e.name == 'br' and not s & {'expired', 'quiet'}:
            v = sat.get(SAT)
            if v is not None:
                cs = set(x for l in e.c if l.__class__ is L for x, k in l.t)
                if v.single() in cs or near(v.single(), cs):
                    b = bitof(f, v, 0)
                    if b is not None:
                        s = s | {'expired' if b else 'quiet'}
        return s

    def at_iter(s, p):
        e = p.evs[-1]
        if s == 'post':
            return None
        rep.check('received' not in s, e, 'the not-alive timer is not restarted after something was received', 'not-alive timer restarted')
        rep.check('sent' not in s, e, 'the still-alive timer is not restarted after something was sent', 'still-alive timer restarted')
        if 'expired' in s:
            rep.check('pushed' in s, e, 'no keep-alive request is queued when the still-alive timer has expired', 'keep-alive queued')
            rep.check('our' in s, e, 'the still-alive timer is not restarted when it has expired', 'still-alive timer restarted after expiry')
        return NONE

    Auto(cx.ex, root, step, rep).whole(NONE, None, at_iter, lambda s, p: None)


def setter_rule(cx):
    """setters of the keep-alive intervals"""
    ro, rep = cx.roles, cx.rep
    for pat, timer, member in ((r'Connection::SetOurSaInterval\(', ro.SATIMER, ro.OURSA),
                               (r'Connection::SetTheirNaIntervalLimit\(', ro.NATIMER, ro.THEIRNA)):
        for root in cx.roots(pat):
            arg = root.args[1]
            for p in cx.paths(root):
                evs = flat(cx.ex, p.evs)
                last = evs[-1] if evs else root.F
                f = p.st.facts
                sets = [e for e in evs if e.name == 'set' and e.off == C(member)]
                if not rep.check(sets, last, 'the interval is not stored', 'interval stored'):
                    continue
                v = sets[-1].val
                small = signed_below_one(f, arg)
                if small is None:
                    rep.check(False, sets[-1], 'intervals below one are stored', 'interval at least one')
                else:
                    rep.check(v == ONE if small else eq(f, v, arg), sets[-1], 'another interval than the given one is stored', 'given interval stored')
                w = [e for e in evs if e.name == 'sys' and e.call == 'timerfd_settime' and e.role == timer]
                if rep.check(w, last, 'the timer is not restarted with the new interval', 'timer restarted'):
                    rep.check(eq(f, w[-1].value[0], v) and evs.index(w[-1]) > evs.index(sets[-1]) or eq(f, w[-1].value[0], v), w[-1],
                              'the timer is restarted with another interval', 'new interval')


def handler_rule(cx):
    """the handlers that are looked up are the ones that were set last"""
    ro, rep = cx.roles, cx.rep
    HD, HN = ro.HDEF, ro.HNAMED
    for root in cx.roots(r'Connection::SetHandlerDefault\('):
        h = root.args[-1]
        for p in cx.paths(root):
            evs = flat(cx.ex, p.evs)
            sets = [e for e in evs if e.name == 'set' and e.off == C(HD)]
            if rep.check(sets, evs[-1] if evs else root.F, 'the default handler is not stored', 'default handler stored'):
                rep.check(same_handler(p.st, sets[-1].val, h), sets[-1], 'another default handler than the given one is stored', 'given handler stored')
    for root in cx.roots(r'Connection::(Set|Get)HandlerNamed\('):
        setter = root.name.startswith('Connection::Set')
        for p in cx.paths(root):
            evs = [e for e in flat(cx.ex, p.evs) if e.get('oid') in (None, root.this)]
            end = evs[-1] if evs else root.F
            f, st = p.st.facts, p.st
            q = root.args[2 if p_sret(root) else 1]
            name = st.mem[q.o].cells.get(q.off.c) if q.__class__ is Ptr and q.o in st.mem else None
            name = name[1] if name else None
            mine = lambda k: k.__class__ is tuple and k[0] == 's' and name.__class__ is Str and k[1] == name.sid
            where = {e.idx for e in evs if e.name in ('mapfind', 'mapslot') and e.off == HN and mine(e.key)}
            mods = [e for e in evs if e.name in ('mapmod', 'clear', 'swap', 'mapset', 'mapslot', 'erase') and e.get('off') == HN]
            absent = [e for e in evs if e.name == 'mapfind' and e.idx in where and f.ent_ge(e.idx - e.n)]
            if not setter:
                rep.check(not mods, mods[0] if mods else end, 'looking a handler up changes the table', 'table unchanged')
                o = absint.PSORIG.get(p.ret.id) if p.ret.__class__ is PSym else None
                if p.ret.__class__ is L and zero(f, p.ret):
                    rep.check(absent, end, 'no handler is found although there may be one for the name', 'handler found')
                else:
                    rep.check(o.__class__ is tuple and o[0] == 'mapel' and o[2] in where, end, 'the handler of another name is found', 'handler of the name')
                continue
            h = root.args[-1]
            hv = st.res(h)
            gone = [e for e in mods if e.name == 'mapmod' and e.meth == 'erase']
            put = [e for e in mods if e.name == 'mapset' or e.name == 'mapmod' and e.val is not None and
                   (e.meth.startswith('insert_or_assign') or absent)]
            for e in mods:
                ok = e.name in ('mapset', 'mapmod') and (e.get('idx') in where or mine(e.get('key'))) and (e in gone or e in put) or \
                    e.name == 'mapslot' and mine(e.key) and put
                rep.check(ok, e, 'the handlers of other names are changed', 'other handlers kept')
            if hv.__class__ is L and zero(f, hv):
                rep.check(gone or put and same_handler(st, put[-1].val, h) or absent, end, 'the handler of a name is not removed', 'handler removed')
            else:
                if rep.check(put, end, 'the handler of a name is not stored', 'handler stored'):
                    rep.check(same_handler(st, put[-1].val, h), put[-1], 'another handler than the given one is stored', 'given handler stored')


def p_sret(root):
    return len(root.args) > 2 and root.name.startswith('Connection::Get')


def same_handler(st, a, b):
    a, b = st.res(a), st.res(b)
    return a == b


def arm_rule(cx, root=None):
    """a connection that starts has both timers running"""
    ro, rep = cx.roles, cx.rep
    n = 0
    for r in [root] if root is not None else [r for r in cx.ex.roots if r.how == 'api' and r.cls == CONN]:
        for p in r.paths:
            for evs in unfold(cx.ex, p.evs) if any(e.name == 'did' for e in p.evs) else [flat(cx.ex, p.evs)]:
                spawns = [e for e in evs if e.name == 'spawn']
                if not spawns or root is None and not iscons(r):
                    continue
                runs(rep, p)
                n += 1
                before = evs[:evs.index(spawns[0])]
                for timer, member, what in ((ro.SATIMER, ro.OURSA, 'still-alive'), (ro.NATIMER, ro.THEIRNA, 'not-alive')):
                    made = [e for e in before if e.name == 'set' and e.off == C(timer)]
                    w = [e for e in before if e.name == 'sys' and e.call == 'timerfd_settime' and e.role == timer and
                         (not made or before.index(e) > before.index(made[-1]))]
                    if rep.check(w, spawns[0], 'a connection starts without its %s timer' % what, '%s timer running' % what):
                        v = w[-1].value[0]
                        ok = origin(cx.ex, r, v) == member or v.__class__ is L and v.isc() and v.c > 0 and v in (
                            e.val for e in before if e.name == 'set' and e.off == C(member))
                        rep.check(ok, w[-1], 'the %s timer starts with another interval' % what, 'right interval')
    if root is None and not n:
        raise Missing('no constructor starts a connection')


def signed_below_one(f, v, bits=64):
    """is a number, taken as signed, below one?"""
    w = 1 << bits
    for x in {ZERO} | {l - v for l in f.ge if v.t and all(q in l.t for q in v.t)}:
        k = [q for q, c in x.t]
        if len(k) > 1 or k and dict(x.t)[k[0]] % w:
            continue
        sv = v + L(0, x.t)
        if f.ent_ge(sv.addc(w >> 1)) and f.ent_ge(sv.neg().addc((w >> 1) - 1)):
            if f.ent_ge(sv.addc(-1)):
                return False
            if f.ent_ge(sv.neg()):
                return True
    return None


# ---------------------------------------------------------------------------------------------------- P17
def exit_rule(cx, root):
    """the end of the thread of a connection"""
    ro, rep = cx.roles, cx.rep
    vw = View(cx, root)
    SBUF, RBUF, Q, RQ, REV = vw.sendbuf, vw.recvbuf, ro.PUSHQ, ro.RECVQ, ro.RECVEV
    FDS = {ro.SOCK: 'the socket', ro.PUSHEV: 'the push event', ro.TOSTOP: 'the stop event', ro.SATIMER: 'the still-alive timer', ro.NATIMER: 'the not-alive timer'}
    TYPE, DISC, REFS, NN, STOPPED = ro.TYPE, ro.ISDISC, ro.REFS, ro.NOTNEEDED, ro.STOPPED

    def step(s, e):
        if e.name == 'left':
            return (frozenset(), now(e.facts), None)
        if s == 'in':
            return s
        fl, m, owed = s
        f = e.facts
        if isset(e, root, DISC) and one(e.val):
            if rep.check(cx.steady(root, e, DISC), e, 'the connection is marked as disconnecting without the mutex', 'marked under the mutex'):
                fl = fl | {'refuse'}
        elif isset(e, root, DISC):
            rep.check(False, e, 'a stopping connection is marked as not disconnecting')
        if 'refuse' not in fl and knows(root, f, DISC, nonzero, m) and cx.steady(root, e, DISC):
            fl = fl | {'refuse'}
        if 'woken' not in fl:
            if e.name == 'sys' and e.call == 'write' and e.role == REV and writes_one(e) or \
                    e.name in ('br', 'unlock') and cx.steady(root, e, REV) and knows(root, f, REV, minus1, m):
                if rep.check('refuse' in fl, e, 'a waiting Pull() is woken before the connection refuses to wait', 'refused before waking'):
                    fl = fl | {'woken'}
        if e.name == 'sys' and e.call == 'poll':
            for d in e.fds.values():
                rep.check('woken' in fl, e, 'the thread waits for references before a waiting Pull() is woken', 'woken before waiting')
        if 'noref' not in fl and e.name in ('br', 'unlock') and knows(root, f, REFS, zero, m) and 'woken' in fl:
            fl = fl | {'noref'}
        if e.name == 'sys' and e.call == 'close' and e.role in FDS:
            r = e.role
            rep.check('noref' in fl, e, 'descriptors are closed while the connection may be referenced', 'closed without references')
            rep.check(('closed', r) not in fl, e, '%s is closed twice' % FDS[r], 'closed once')
            rep.check(cx.steady(root, e, r), e, '%s is closed without the mutex that protects it' % FDS[r])
            fl = fl | {('closed', r)}
        if e.name == 'set' and e.off.isc() and e.off.c in FDS:
            if minus1(f, e.val):
                fl = fl | {('reset', e.off.c)}
        if e.name == 'unlock' and not cx.steady(root, e, TYPE):
            pass
        if e.name == 'free' and e.form == 'new[]':
            rep.check('noref' in fl, e, 'buffers are deleted while the connection may be referenced')
            fl = fl | {('freed', e.obj)}
        for B in (SBUF, RBUF):
            if isset(e, root, B) and e.val == ZERO and e.cells:
                b = e.cells.get(B)
                if b.__class__ is Ptr:
                    rep.check(('freed', b.o) in fl, e, 'a buffer is not deleted when the connection stops', 'buffer deleted')
        if e.name in ('pop', 'clear', 'swap', 'erase', 'remove') and e.get('oid') == root.this:
            rep.check(e.off != RQ, e, 'received requests are thrown away when the connection stops', 'received requests stay')
            if e.off == Q:
                rep.check(e.name == 'pop', e, 'unsent requests are not deleted', 'unsent requests deleted')
                rep.check(cx.steady(root, e, Q), e, 'the send queue is changed without its mutex')
                owed = pay(e, owed, e.get('obj'), 'p')
        if e.name == 'free' and e.cls == 'Request':
            owed = pay(e, owed, e.obj, 'f')
        if isset(e, root, TYPE):
            rep.check(e.val == ZERO, e, 'a stopped connection does not have the undefined type')
            rep.check(cx.steady(root, e, TYPE), e, 'the connection is marked as stopped without the mutex', 'marked as stopped under the mutex')
            rep.check({'refuse', 'woken', 'noref'} <= fl, e, 'the connection is marked as stopped too early', 'marked as stopped at the end')
            for r, what in FDS.items():
                rep.check(('closed', r) in fl, e, '%s is not closed when the connection stops' % what, 'all closed')
            check_clean(e, fl, f)
            rep.check(owed is None, e, 'an unsent request is not deleted exactly once', 'unsent requests deleted')
            fl = fl | {'untyped'}
        if e.name == 'sys' and e.call == 'write' and e.role == STOPPED:
            rep.check(writes_one(e), e, 'the stop is not announced')
            rep.check('stopped' not in fl, e, 'the stop is announced twice', 'announced once')
            rep.check('untyped' in fl, e, 'the stop is announced before the connection is marked as stopped', 'announced last')
            for r, what in FDS.items():
                rep.check(('reset', r) in fl, e, '%s stays set after it was closed' % what, 'descriptors reset')
            fl = fl | {'stopped'}
        return (frozenset(x for x in fl if x.__class__ is not tuple or x[0] != 'freed' or e.name not in ('did',)), m, owed)

    def pay(e, owed, o, k):
        if owed is None:
            return (o, k)
        rep.check(owed == (o, 'p' if k == 'f' else 'f'), e, 'an unsent request is not deleted exactly once', 'unsent requests deleted')
        return None

    def check_clean(e, fl, f):
        for B, what in ((SBUF, 'send'), (RBUF, 'receive')):
            b = e.cells.get(B) if e.cells else None
            rep.check(b.__class__ is L and zero(f, b), e, 'the %s buffer is not deleted when the connection stops' % what, 'buffers deleted')
        q = e.cells.get(Q) if e.cells else None
        rep.check(q.__class__ is Cont and f.ent_eq(q.n - q.h), e, 'unsent requests stay in the queue of a stopped connection', 'send queue empty')

    def end(s, p):
        rep.check(s != 'in' and 'stopped' in s[0], p.evs[-1] if p.evs else root.name, 'the thread ends without announcing the stop', 'stop announced')

    Auto(cx.ex, root, step, rep).whole('in', end, lambda s, p: 'in', lambda s, p: s)
