"""Rules over descriptors (property P19)."""
from .liferules import *
from .lockrules import Place

USES = ('read', 'write', 'recv', 'send', 'connect', 'bind', 'listen', 'fcntl', 'timerfd_settime', 'accept', 'setsockopt', 'getsockopt', 'shutdown', 'poll', 'ppoll',
        'select')


def members(cx):
    """(class, offset) of the members that hold descriptors"""
    return set(k[2] for k in cx.ex.fdlog)


def pretty(k):
    return 'the descriptor at offset %d of %s' % (k[1], k[0])


def race_rule(cx):
    """no thread closes a descriptor while another one uses it"""
    ex, rep = cx.ex, cx.rep
    by = {r.name: r for r in ex.roots}
    for r in ex.roots:
        rep.roots.add(r.name)
        for p in r.paths:
            runs(rep, p)
    closers, uses = {}, {}
    for (root, call, k, held), at in ex.fdlog.items():
        (closers if call == 'close' else uses).setdefault(k, []).append((root, call, held, at))
    spawned = lambda a, b: by[b].how == 'thread' and by[b].F.name in set(n for n, _ in by[a].spawned)
    for k, cs in closers.items():
        for cr, _, ch, cat in cs:
            if '~' in cr:
                continue                        # nobody else uses the object then
            for ur, call, uh, uat in uses.get(k, ()):
                if ur == cr or '~' in ur or iscons(by[ur]):
                    continue
                where = Place(uat)
                rep.ok('descriptors used by one thread while no other closes them', (k, cr, ur, call, uat[2]))
                if ch & uh:
                    continue
                # who closes it has waited for the other thread, which uses it only once
                waits = any(r == cr and c in ('poll', 'read') for r, c, h, at in uses.get(k, ()))
                if by[cr].how == by[ur].how == 'api' and by[cr].cls == by[ur].cls == 'Client':
                    continue                    # the functions of a client that connect are called by one thread
                if by[cr].how == "thread" and by[ur].spawned and not after_spawn(cx, by[ur], call, k):
                    continue
                if call == 'write' and waits and by[ur].how == 'thread' and by[cr].spawned and by[cr].cls == by[ur].cls:
                    continue
                rep.check(False, where, '%s is used while %s may close it' % (pretty(k), cr))


def after_spawn(cx, r, call, k):
    """the function uses the member after the thread was started"""
    ex = cx.ex
    for e in every_event(cx, r):
        if e.name == 'sys' and e.call == call and cx.key(r, e.role) == k if e.get('role').__class__ is int else False:
            i = e.parent
            while i:
                if ex.nodes[i].name == 'spawn':
                    return True
                i = ex.nodes[i].parent
    return False


def fd_rule(cx, root=None):
    """every descriptor is closed once or kept, and no number is kept after closing"""
    ex, ro, rep = cx.ex, cx.roles, cx.rep
    M = members(cx)
    cx.kept = {}
    api = [r for r in ex.roots if r.how == 'api']
    for r in [root] if root is not None else sorted(api, key=lambda r: '~' in r.name):
        one_root(cx, r, M)
    if root is None and not M:
        raise Missing('no descriptors')


def one_root(cx, r, M):
    ex, ro, rep = cx.ex, cx.roles, cx.rep
    cons, dest = iscons(r), '~' in r.name
    TYPE = {SERVER: lambda: ro.STYPE}.get(r.cls, lambda: ro.TYPE)()
    if not any(e.name in ('fdnew', 'spawn') or e.name == 'sys' and e.call == 'close' or e.name == 'set' and e.off.isc() and cx.key(r, e.off.c) in M
               for e in (every_event(cx, r))):
        return

    def known(f, off, pred):
        return f is not None and knows(r, f, off, pred)
    # members that this function creates and closes again, always
    scoped = set(e.role for e in every_event(cx, r) if e.name == 'sys' and e.call == 'close' and e.role.__class__ is int)

    def step(s, e):
        # ('open', symbol): made here and not stored yet; ('shut', symbol): closed
        # ('closed', member): the member still has the number of a closed descriptor; ('moved', member): it was copied to another member
        f = e.facts
        if ('fresh', 0) not in s and known(f, TYPE, zero):
            s = s | {('fresh', 0)}
        if e.name == 'set' and e.off == C(TYPE):
            s = s - {('typed', 0)} if zero(f, e.val) else s | {('typed', 0)}
        if e.name == 'fdnew':
            v = sym(e.fd)
            if v is None:
                return s
            if ('open', v) in s and not failed(f, S(v)):
                rep.check(False, e, 'the descriptor is lost')
            return s - {('shut', v)} | {('open', v)}
        if e.name == 'cctor':
            return s - {('open', sym(a)) for a in e.args if a.__class__ is L}
        if e.name == 'set' and e.off.isc() and cx.key(r, e.off.c) in M:
            off = e.off.c
            v = e.val
            rep.ok('descriptors stored', e.id)
            if minus1(f, v):
                gone = cons or ('closed', off) in s or ('moved', off) in s or known(f, off, minus1) or known(f, TYPE, lambda f, v: nonzero(f, v)) or strange(s)
                rep.ok('closed when it is forgotten', e.id)
                if not gone:
                    # it may be closed later
                    s = s | {('forgot', off)}
                return s - {('closed', off), ('moved', off)}
            src = origin(ex, r, v)
            if src is not None and src != off:
                s = s | {('moved', src)}
            fine = cons or dest or off in scoped or ('closed', off) in s or known(f, off, minus1) or ('fresh', 0) in s
            rep.check(fine, e, '%s may be open when a new one is stored' % pretty(cx.key(r, off)), 'nothing overwritten')
            sv = sym(v)
            if sv is not None:
                rep.check(('shut', sv) not in s, e, '%s is already closed when it is stored' % pretty(cx.key(r, off)), 'open when stored')
            if ('forgot', off) in s:
                forgot(e, off)
            if ('open', sv) in s:
                s = s | {('kept', off, sv)}
            return s - {('open', sv), ('closed', off), ('forgot', off)}
        if e.name == 'sys':
            v = sym(e.fd) if e.get('fd').__class__ is L else None
            if e.call == 'close':
                rep.ok('descriptors closed', e.id)
                if v is not None and ('open', v) in s:
                    return s - {('open', v)} | {('shut', v)}
                rep.check(v is None or ('shut', v) not in s, e, 'a descriptor is closed twice', 'closed once')
                if dest:
                    s = s | {('done', e.role)}
                if ('forgot', e.role) in s:
                    return nokept(s, e.role) - {('forgot', e.role)}
                if e.role.__class__ is int:
                    s = nokept(s, e.role)
                    rep.check(('moved', e.role) not in s, e, '%s is closed although another member has taken it' % pretty(cx.key(r, e.role)), 'closed by its owner')
                    rep.check(('closed', e.role) not in s, e, '%s is closed twice' % pretty(cx.key(r, e.role)), 'closed once')
                    return s | {('closed', e.role)}
                return s
            if e.call in USES:
                if v is not None and ('shut', v) in s:
                    rep.check(False, e, 'a descriptor is used after it was closed')
                if e.role.__class__ is int and ('closed', e.role) in s:
                    rep.check(False, e, '%s is used after it was closed' % pretty(cx.key(r, e.role)))
            if e.call == 'getsockopt' and e.get('val') is not None:
                s = frozenset(x for x in s if x[0] != 'asked') | {('asked', 0)}
        if e.name == 'unlock' and e.key[0] == r.this and not dest and not idle(s):
            left = [x for x in s if x[0] == 'closed']
            for x in left:
                ws = ex.wlocks[r.name].get(cx.key(r, x[1]))
                if e.key[1] in set(m for w in ws or () for m in w):
                    rep.check(False, e, '%s keeps the number of a closed descriptor' % pretty(cx.key(r, x[1])))
        return s

    def nokept(s, off):
        return frozenset(x for x in s if x[:2] != ('kept', off))

    def forgot(e, off):
        rep.check(False, e, '%s is forgotten without being closed' % pretty(cx.key(r, off)))

    def idle(s):
        # nobody looks at the descriptors of an object without a type
        return ('fresh', 0) in s and ('typed', 0) not in s

    def strange(s):
        return ('asked', 0) in s

    def final(s, p):
        end = p.evs[-1] if p.evs else r.F
        f = p.st.facts
        if dest:
            # what the constructors open is closed by the destructor
            for off in cx.kept.get(r.cls, ()):
                rep.check(('done', off) in s, end, '%s is not closed when the object is destroyed' % pretty(cx.key(r, off)), 'closed when destroyed')
        for x in s:
            if x[0] == 'open':
                rep.check(failed(f, S(x[1])) or any(failed(e.facts, S(x[1])) for e in p.evs if e.facts is not None), end, 'a descriptor is lost', 'no descriptor lost')
            if x[0] == 'forgot':
                forgot(end, x[1])
            if x[0] == 'kept' and r.how == 'api' and not cons and idle(s) and not any(e.name == 'spawn' for e in p.evs) and not gone(p, x[2]) and not any(known(e.facts, x[1], minus1) for e in p.evs):
                rep.check(False, end, '%s stays open although nothing was started' % pretty(cx.key(r, x[1])))
            if x[0] == 'closed' and not dest and not idle(s):
                rep.check(False, end, '%s keeps the number of a closed descriptor' % pretty(cx.key(r, x[1])))
    auto = Auto(ex, r, step, rep)
    bythread = set(k[2] for k in ex.fdlog if k[1] == 'close' and k[0] in set(x.name for x in ex.threads))
    if cons and r.how == 'api':
        final0 = final

        def final(s, p):
            final0(s, p)
            cx.kept.setdefault(r.cls, set()).update(x[1] for x in s if x[0] == 'kept' and cx.key(r, x[1]) not in bythread)
    auto.whole(frozenset(), end=final, at_iter=lambda s, p: frozenset(x for x in s if x[0] not in ('shut', 'asked') and not (x[0] == 'open' and gone(p, x[1]))))


def gone(p, v):
    return failed(p.st.facts, S(v)) or any(failed(e.facts, S(v)) for e in p.evs if e.facts is not None)


def failed(f, v):
    return f is not None and (negative(f, v) or f.ent_ge(v.neg().addc(-1)))


def every_event(cx, r):
    if not hasattr(r, 'nodes'):
        return ()
    return [e for e in cx.ex.nodes[r.nodes[0]:r.nodes[1]] if e is not None]
