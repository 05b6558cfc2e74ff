"""Rules over settings and addresses: what was asked for is what is used and told (property P30)."""
from .serverrules import *
from .models import streq
from .values import Str

INET, UNIX = 2, 1
LEAST = {'SendBlockSize': 1, 'RecvBlockSize': 1, 'MaxRequestSize': 10}


def member(ex, root, v):
    """the member of the analysed object that a value was read from"""
    if v.__class__ is L:
        s = source(sym(v)) if sym(v) is not None else None
        return s[1] if s and s[0] == root.this else None
    if v.__class__ is PSym:
        o = ex.psorigin(v.id)
        return o[1] if o.__class__ is tuple and o[0] == root.this else None
    return None


def string_of(st, p):
    """the std::string a pointer argument refers to"""
    if p.__class__ is Str:
        return p
    if p.__class__ is Ptr and p.o in st.mem and p.off.isc():
        c = st.mem[p.o].cells.get(p.off.c)
        if c and c[1].__class__ is Str:
            return c[1]
    return None


def given(root, p):
    """the arguments of a function: numbers and strings"""
    out = []
    for a in root.args:
        s = string_of(p.st, a)
        out.append(s if s is not None else a)
    return out


def same(f, a, b):
    if a.__class__ is Str or b.__class__ is Str:
        return a.__class__ is b.__class__ and a.sid == b.sid
    if a.__class__ is L and b.__class__ is L:
        return a == b or f is not None and f.ent_eq(a - b)
    return a == b


def access_rule(cx):
    """what a getter returns is what its setter stored"""
    rep, ex = cx.rep, cx.ex
    for cls, names in (('Connection', ('SendBlockSize', 'RecvBlockSize', 'MaxRequestSize', 'OurSaInterval', 'TheirNaIntervalLimit')),
                       ('Server', ('MaxConnections', 'ConnectedHandler', 'DisconnectedHandler'))):
        for n in names:
            got = set()
            for g in cx.roots(r'%s::Get%s\(' % (cls, n)):
                got |= set(member(ex, g, p.ret) for p in cx.paths(g))
            if len(got) != 1 or None in got:
                continue            # the value is computed: nothing to compare here
            off = got.pop()
            for s in cx.roots(r'%s::Set%s\(' % (cls, n)):
                arg = s.args[-1]
                for p in cx.paths(s):
                    evs = flat(ex, p.evs)
                    sets = [e for e in evs if e.name == 'set' and e.off == C(off)]
                    if not rep.check(sets, evs[-1] if evs else s.F, 'the value given to Set%s() is not what Get%s() returns' % (n, n), 'stored where it is read'):
                        continue
                    if n.endswith(('Interval', 'Limit')):
                        continue        # which value is stored is decided in P13
                    v, f = sets[-1].val, p.st.facts
                    ok = same(f, p.st.res(v), p.st.res(arg))
                    least = LEAST.get(n)
                    if not ok and least is not None and v.__class__ is L and arg.__class__ is L:
                        ok = v.isc() and v.c <= least and f.ent_ge(v - arg)
                    rep.check(ok, sets[-1], 'Set%s() stores another value than the given one' % n, 'given value stored')


def endpoint(cx, root, p, e, rep):
    """the address given to bind() or connect() is the one in the arguments"""
    what = 'bound' if e.call == 'bind' else 'connected'
    addr = e.get('addr')
    if addr is None:
        return
    cell = {o: (n, v) for o, n, v in addr}
    f = e.facts
    args = given(root, p)
    texts = [a for a in args if a.__class__ is Str]
    fam = cell.get(0)
    if fam is None or fam[1].__class__ is not L or not fam[1].isc():
        return
    if fam[1].c == INET:
        port = cell.get(2)
        if rep.check(port is not None and port[0] == 2, e, 'the port is not written to the address that is %s' % what, 'port given') and port[1].__class__ is L:
            s = sym(port[1])
            a = SY.ufargs.get(s) if s is not None else None
            x = a[1] if a and a[0] == 'bswap' and a[2] == 16 else None
            ok = x is not None and any(b.__class__ is L and not b.isc() and same(f, x, b) for b in args)
            rep.check(ok, e, 'the address is %s with another port than the given one, or not in network byte order' % what, 'given port')
        ip = cell.get(4)
        if rep.check(ip is not None, e, 'the IP address is not written to the address that is %s' % what, 'IP address given'):
            made = [x for x in flat(cx.ex, p.evs) if x.name == 'sys' and x.call == 'inet_aton' and x.get('made') is not None and x.made == ip[1]]
            if ip[1].__class__ is L and ip[1].isc():
                rep.check(False, e, 'the address is %s with a fixed IP address' % what)
            for x in made:
                rep.check(x.text is None or x.text.__class__ is Str and any(x.text.sid == t.sid for t in texts), x, 'the IP address is not made from the given text', 'given IP address')
    elif fam[1].c == UNIX:
        segs = [(o, n, c) for o, n, c in e.segs if c[0] == 'ent' and o == C(2)]
        if segs:
            o, n, c = segs[0]
            ok = any(c[1] == ('S', t.sid) and c[2] == ZERO and same(f, n, t.n) or c[1] == ('S', t.sid) and f.ent_ge(n - t.n) for t in texts) or c[1][0] == '?'
            rep.check(ok, e, 'the address is %s with another path than the given one' % what, 'given path')
            ln = e.args[2]
            if ok and ln.__class__ is L:
                rep.check(not ln.isc() or ln.c >= 110 or any(f.ent_ge(ln - t.n.addc(2)) for t in texts), e, 'the end of the path is cut off', 'whole path')


def start_addresses(cx):
    """StartTcp(), StartUnix(): what is bound, what the getters tell; ConnectTcp(), ConnectUnix(): what the thread is told"""
    rep, ex = cx.rep, cx.ex
    n = 0
    for root in cx.roots(r'Server::Start(Tcp|Unix)\('):
        tell = {}
        for g, k in ((r'Server::GetTcpPort\(', 'port'), (r'Server::GetTcpIp\(', 'ip')):
            offs = set(member(ex, r, p.ret) for r in cx.roots(g) for p in cx.paths(r))
            if len(offs) == 1 and None not in offs:
                tell[k] = offs.pop()
        for p in cx.paths(root):
            evs = flat(ex, p.evs)
            binds = [e for e in evs if e.name == 'sys' and e.call == 'bind']
            for e in binds:
                n += 1
                endpoint(cx, root, p, e, rep)
            spawn = [e for e in evs if e.name == 'spawn']
            if not binds or not spawn:
                continue
            args = given(root, p)
            before = evs[:evs.index(spawn[0])]
            last = lambda off: [e for e in before if e.name == 'set' and e.off == C(off)]
            if 'Tcp' in root.name:
                if 'port' in tell:
                    w = last(tell['port'])
                    if rep.check(w, spawn[0], 'GetTcpPort() does not tell the port of a started server', 'port stored'):
                        rep.check(any(a.__class__ is L and same(p.st.facts, w[-1].val, a) for a in args), w[-1], 'GetTcpPort() tells another port than the given one', 'given port stored')
                if 'ip' in tell:
                    w = last(tell['ip'])
                    if rep.check(w, spawn[0], 'GetTcpIp() does not tell the address of a started server', 'address stored'):
                        s = sym(w[-1].val)
                        a = SY.ufargs.get(s) if s is not None else None
                        made = [e.get('made') for e in evs if e.name == 'sys' and e.call == 'inet_aton']
                        if made:
                            rep.check(a and a[0] == 'bswap' and a[2] == 32 and a[1] in made, w[-1], 'GetTcpIp() tells another address than the given one', 'given address stored')
            else:
                w = [e for e in before if e.name == 'sets']
                t = [a for a in args if a.__class__ is Str]
                rep.check(any(x.val.__class__ is Str and x.val.sid == t[0].sid for x in w), spawn[0], 'GetUnixPath() does not tell the path of a started server', 'given path stored')
    for root in cx.roots(r'Client::Connect(Tcp|Unix)\('):
        for p in cx.paths(root):
            args = given(root, p)
            for e in flat(ex, p.evs):
                if e.name == 'spawn' and root.cls == 'Client':
                    vals = [string_of(p.st, x) or x for x in e.args]
                    for a in args[1:]:
                        n += 1
                        rep.check(any(same(e.facts, v, a) for v in vals), e, 'the thread that connects gets another address, port or timeout than the given one', 'arguments passed on')
    if not n:
        raise Missing('nothing is bound or connected')


def connect_addresses(cx, root):
    rep, ex = cx.rep, cx.ex
    if root.cls != 'Client':
        return
    n = 0
    for p in root.paths:
        for e in flat(ex, p.evs):
            if e.name == 'sys' and e.call == 'connect':
                n += 1
                endpoint(cx, root, p, e, rep)
    rep.check(n, root.F.short, 'nothing is connected', 'connects')


def found_rule(cx, thread):
    """GetConnection() finds the connection with the tag or id, and no other one"""
    rep, ex = cx.rep, cx.ex
    if thread.cls != SERVER:
        return
    ids = set(e.off for r in ex.roots if r.how == 'thread' and r.cls == SERVER for p in r.paths for e in every(cx, p) if e.name == 'cset' and e.val.__class__ is L and e.val != ZERO)
    n = 0
    for root in cx.roots(r'Server::GetConnection\('):
        for p in root.paths:
            arg = given(root, p)[-1]
            f = p.st.facts
            evs = flat(ex, p.evs)
            end = evs[-1] if evs else root.F.short

            def keys(o):
                """what the connection is found by"""
                cells = p.st.mem[o].cells if o in p.st.mem else {}
                if arg.__class__ is Str:
                    return [v for off, (z, v) in cells.items() if v.__class__ is Str]
                return [S(s) for s, a in SY.ufargs.items() if a[0] == 'in' and a[1] == o and (a[2] in ids or a[2].__class__ is L and a[2].isc() and a[2].c in ids) and a[3] == 4]
            if p.kind == 'root':
                for e in evs:
                    if e.name == 'ccall' and e.meth == 'IncreaseRefs':
                        n += 1
                        if arg.__class__ is Str:
                            ok = any(holds(ex, p.st, k, arg) for k in keys(e.obj))
                        else:
                            ok = any(same(f, k, arg) for k in keys(e.obj))
                        rep.check(ok, e, 'a connection is found whose %s is not the given one' % ('tag' if arg.__class__ is Str else 'id'), 'the right connection found')
            elif p.kind == 'part':
                # the element of the last round: it was compared with what is looked for
                objs = [o for o, x in p.st.mem.items() if x.cls == CONN and x.owner.__class__ is tuple and x.owner[0] == 'cont']
                for o in objs[-1:]:
                    ks = keys(o)
                    n += 1
                    if arg.__class__ is Str:
                        ok = any(e.name == 'streq' and {e.a.sid, e.b.sid} == {k.sid, arg.sid} for e in evs for k in ks)
                    else:
                        ok = any(f.ent_ne(k - arg) for k in ks)
                    rep.check(ok, end, 'a connection with the given %s may be passed over' % ('tag' if arg.__class__ is Str else 'id'), 'no match passed over')
    if not n:
        raise Missing('GetConnection() finds no connection')


def holds(ex, st, a, b):
    c = streq(ex, st, a, b)
    return not ex.assume(st.copy(), cnot(c))


def unlink_rule(cx, root):
    """the socket file of a server is removed when it stops, and no other file"""
    rep, ex, ro = cx.rep, cx.ex, cx.roles
    if root.cls != SERVER:
        return
    this = root.this
    paths = set(e.off for r in cx.roots(r'Server::StartUnix\(') for p in r.paths for e in flat(ex, p.evs) if e.name == 'sets')
    if len(paths) != 1:
        raise Missing('the path of the server is %s' % ('not stored' if not paths else 'ambiguous'))
    off = paths.pop()
    # the type that StartUnix() stores
    types = set(e.val.c for r in cx.roots(r'Server::StartUnix\(') for p in r.paths for e in flat(ex, p.evs) if e.name == 'set' and e.off == C(ro.STYPE) and e.val.__class__ is L and e.val.isc())
    for p in root.paths:
        if p.kind not in ('post', 'root'):
            continue
        evs = flat(ex, p.evs)
        un = [e for e in evs if e.name == 'sys' and e.call == 'unlink']
        for e in un:
            t = e.text
            ok = t is None or t.__class__ is Str and (t.sid.__class__ is tuple and str(this) in str(t.sid) and str(off) in str(t.sid))
            rep.check(ok, e, 'the server removes another file than its socket', 'own socket file removed')
        not_unix = any(knows(root, g, ro.STYPE, lambda f, v: all(f.ent_ne(v.addc(-t)) for t in types)) for g in [e.facts for e in evs if e.facts is not None] + [p.st.facts])
        is_unix = any(knows(root, g, ro.STYPE, lambda f, v: any(f.ent_eq(v.addc(-t)) for t in types)) for g in [e.facts for e in evs if e.facts is not None] + [p.st.facts])
        if not_unix:
            rep.check(not un, un[0] if un else p.evs[-1], 'a server that is not a UNIX server removes a file', 'nothing else removed')
        else:
            rep.check(un, p.evs[-1], 'the socket file of a UNIX server stays when the server stops', 'socket file removed')

