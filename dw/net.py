"""Path-sensitive analysis of Connection, Client, Server and SafeConnection.

Every public function and every function that is started as a thread is a root.  A root is
interpreted on an object about which nothing is known; each path yields a trace of events
(locks, system calls, queue operations, object life-time, stores to the object, branches) together
with the facts that hold there.  Other threads interfere: a field somebody else may write keeps its
value only while a mutex that all its writers hold is held."""
import re
from . import absint, models, lin
from .absint import *
from .engine import *
from .ir import PTRTY, int_ty
from .models import split_params, STRSZ, CSZ, Cont, Str

NETCLS = ('Connection', 'Client', 'Server', 'SafeConnection')
WAITS = ('poll', 'ppoll', 'select', 'pselect', 'epoll_wait')
G_FRONT = -20        # ghost cell of a heap block: number of leading bytes written so far
G_SENT = -21         # ghost cell of a heap block: bytes of it that were sent
G_HDR = -22          # ghost cell of the connection: bytes of a length field received so far


def source_of(v):
    s = v.single() if not v.isc() else None
    a = SY.ufargs.get(s) if s is not None else None
    return a[1] if a and a[0] == 'in' else None


class Ev:
    __slots__ = ('name', 'kw', 'locks', 'facts', 'fn', 'file', 'line', 'chain', 'parent', 'id', 'cells')

    def __getattr__(self, k):
        try:
            return self.kw[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, d=None):
        return self.kw.get(k, d)

    @property
    def call(self):
        return self.kw.get('fn')

    def at(self):
        return '%s:%s (%s)' % (self.file.split('/')[-1], self.line, self.fn.replace(NS, ''))

    def __repr__(self):
        return '%s%s@%s' % (self.name, {k: v for k, v in self.kw.items() if k not in ('st', 'cont')}, self.line)


class Path:
    """one path: kind is 'root' (start to return), 'pre' (start to the event loop), 'iter' (one round of the event loop),
    'leave' (a round that ends the loop), 'post' (after the event loop to return), 'part' (one round of a small loop)"""
    __slots__ = ('root', 'kind', 'evs', 'st', 'ret', 'start', 'env')

    def __init__(self, root, kind, evs, st, ret=None, start=0):
        self.root, self.kind, self.evs, self.st, self.ret, self.start = root, kind, evs, st, ret, start
        self.env = None          # what the variables are at the end of a round of the event loop


class Root:
    def __init__(self, name, cls, F_, how):
        self.name, self.cls, self.F, self.how = name, cls, F_, how
        self.paths = []
        self.this = None
        self.spawned = []
        self.args = []
        self.nodes = (0, 0)
        self.heads = []          # what the variables are at the start of the event loop


def super_merge(ex, fr, b, lst):
    return Engine.merge(ex, fr, b, lst)


def super_mid(ex, fr, lst, live):
    return Engine.merge_mid(ex, fr, lst, live)


def super_rets(ex, lst):
    return Engine.merge_rets(ex, lst)


class Net(Engine):
    def __init__(self, mod, **kw):
        super().__init__(mod, **kw)
        self.maxparts = 4000
        self.nodes = [None]
        self.relockable = {}      # mutex -> may its owner lock it again?
        self.rmw = set()         # (cls, off) that are read, changed and written back
        self.fdlog = {}
        self.locklog = {}        # what is acquired, awaited, raised and called while holding which mutexes
        self.acc = {}            # (cls, off) -> set of (root, 'r'|'w', locks, pre)
        self.ftype = {}          # (cls, off) -> type
        self.guard = {}          # (cls, off) -> set of mutex offsets
        self.wlocks = {}         # (cls, off) -> the sets of mutexes its writers hold
        self.vol = {}            # root -> set of (cls, off)
        self.cur = None
        self.tracing = True
        self.phase = 1
        self.private = {}
        self.pollinfo = {}
        self.reach_cache = {}
        self.headps = {}
        self.origin = {}
        self.loopinfo = []
        self.oom = True
        self.evframe = None
        self.cutat = 4
        self.marks = ()
        self.cancells = {}
        self.spawncells = {}
        self.ctorcells = {}
        self.altat = 10
        self.debug = False
        for c in ('Connection',):
            self.vtslots = {}
        for cls, (g, fns) in self.vtables.items():
            if cls == 'Connection':
                for slot, fn in fns.items():
                    self.vtslots[slot] = 'D0' if 'D0Ev' in fn else 'D1' if '~' in mod.funcs[fn].short else mod.funcs[fn].short
        self.net_contracts()

    # ------------------------------------------------------------------ traces
    LOGGED = frozenset(('acquire', 'ccall', 'cdelete', 'callback', 'sys', 'thread_join', 'spawn'))

    def lockid(self, st, key):
        """(class, offset) of a mutex"""
        oid, off = key
        if self.cur is not None and oid == self.cur.this:
            return self.fkey(off)
        o = st.mem.get(oid)
        return (o.cls or o.kind if o is not None else None, off)

    def lognote(self, st, name, inst, kw):
        """for the lock analysis: what is acquired, awaited, raised or called while holding what"""
        if self.cur is None:
            return
        what = None
        if name == 'acquire':
            what = self.lockid(st, kw['key'])
        elif name in ('ccall', 'cdelete'):
            what = kw.get('meth') or '~'
        elif name == 'callback':
            what = 'callback'
        elif name == 'thread_join':
            what = 'join'
        elif name == 'spawn':
            what = kw.get('fn')
        elif kw.get('fn') == 'write':
            what = ('write', self.fkey(kw['role'])) if kw.get('role').__class__ is int else None
        elif kw.get('fn') in ('poll', 'ppoll', 'select'):
            t = kw.get('timeout')
            if t.__class__ is L and st.facts.ent_eq(t):
                return
            what = ('wait',) + tuple(sorted((self.fkey(d['role']) if d.get('role').__class__ is int else ('', -1)) for d in kw['fds'].values()))
        if what is None:
            return
        held = frozenset(self.lockid(st, l[0]) for l in st.locks)
        k = (self.cur.name, name, what, held)
        if k not in self.locklog:
            self.locklog[k] = self.where(inst)

    def fdnote(self, st, inst, kw):
        """for the analysis of descriptors: which members are used and closed under which mutexes"""
        if self.cur is None:
            return
        roles = [kw['role']] if kw.get('role').__class__ is int else [d['role'] for d in (kw.get('fds') or {}).values() if d.get('role').__class__ is int]
        if roles:
            held = frozenset(self.lockid(st, l[0]) for l in st.locks)
            for r in roles:
                k = (self.cur.name, kw['fn'], self.fkey(r), held)
                if k not in self.fdlog:
                    self.fdlog[k] = self.where(inst)

    def ev(self, st, name, inst, **kw):
        if name in self.LOGGED:
            self.lognote(st, name, inst, kw)
        if name == 'sys':
            self.fdnote(st, inst, kw)
        if not self.tracing:
            return
        e = Ev()
        e.name, e.kw, e.locks, e.facts = name, kw, st.locks, st.facts
        e.fn, e.file, e.line = self.where(inst)
        e.chain = self.chain()
        e.parent = st.gh.get('T', 0)
        e.cells = self.snap(st, name, kw)
        e.id = len(self.nodes)
        self.nodes.append(e)
        st.gh['T'] = e.id
        return e

    def evs_since(self, t, stop=0):
        out = []
        while t != stop and t:
            e = self.nodes[t]
            out.append(e)
            t = e.parent
        return out[::-1]

    def event(self, st, name, inst, **kw):
        h = getattr(self, 'on_' + name, None)
        if h is not None:
            if h(st, inst, **kw) is False:
                return
        elif name in ('push', 'pop', 'erase', 'remove', 'clear', 'swap', 'mapfind', 'mapslot', 'mapmod', 'mapset', 'spawn', 'sys', 'fdnew',
                      'serialize', 'thread_join', 'thread_detach', 'free', 'streq', 'front'):
            self.ev(st, name, inst, **self.clean(st, kw))
        super().event(st, name, inst, **kw)

    def clean(self, st, kw):
        return {k: (st.res(v) if v.__class__ is PSym else v) for k, v in kw.items()}

    def branch(self, st, I, c):
        self.ev(st, 'br', I, c=c)

    SNAP = frozenset(('push', 'pop', 'callback', 'spawn', 'unlock', 'serialize', 'cctor', 'cdelete', 'ccall', 'set', 'deserialize'))
    SNAPSYS = frozenset(('poll', 'recv', 'send', 'accept4', 'accept'))

    def snap(self, st, name, kw):
        if name in self.SNAP or name == 'sys' and kw.get('fn') in self.SNAPSYS:
            if self.phase > 1 and self.cur is not None:
                return {k: st.res(v) for k, (z, v) in st.mem[self.cur.this].cells.items()}

    def oblige(self, kind, ok, inst, msg, st):
        if not ok and self.tracing and st is not None:
            self.ev(st, 'bad', inst, kind=kind, msg=msg)
        return super().oblige(kind, ok, inst, msg, st)

    # ------------------------------------------------------------------ fields of the analysed object
    def tracked(self, st, oid):
        r = self.cur
        return r is not None and r.this == oid

    def fkey(self, off):
        """owner class of a member of the analysed object"""
        c = self.cur.cls
        if c == 'Client' and off < self.clientbase:
            c = 'Connection'
        return (c, off)

    @property
    def clientbase(self):
        m = self.mod.members.get('Connection')
        return m[1] if m else 1 << 30

    def access(self, st, off, rw, ty, inst, val=None):
        k = self.fkey(off)
        if ty is not None:
            self.ftype.setdefault(k, ty)
        held = frozenset(l[0][1] for l in st.locks if l[0][0] == self.cur.this)
        r = self.cur
        life = 'new' if '~' not in r.name and r.F.short.split('::')[-1] == r.F.short.split('::')[-2] else 'dead' if '~' in r.F.short else ''
        sp = tuple(sorted(st.gh.get('spawned', ())))
        fn, file, line = self.where(inst)
        self.acc.setdefault(k, {}).setdefault((r.name, rw, held, sp, life, fn, line), (inst, st.gh.get('T', 0), val))

    def stable(self, st, k, without=None):
        """is a mutex held that every writer of the member needs?  (one of the held mutexes for each writer)"""
        ws = self.wlocks[self.cur.name].get(k)
        if not ws:
            return False
        this = self.cur.this
        held = set(l[0][1] for l in st.locks if l[0][0] == this and l[0][1] != without)
        return all(held & w for w in ws)

    def isvol(self, st, k):
        v = self.vol.get(self.cur.name)
        if not v or k not in v:
            return False
        cond = v[k]
        if cond is True:
            return True
        # only once one of these threads was started
        return bool(cond & set(st.gh.get('spawned', ())))

    def refresh(self, st, k, ty=None):
        ty = ty or self.ftype.get(k)
        if ty is None:
            return
        oid, off = self.cur.this, k[1]
        if ty[0] == 'int':
            v = ufn(('vol', oid, off, newid()), 'v%d' % off, 0, (1 << (8 * ty[1])) - 1)
            self.put(st, oid, C(off), ty[1], v)
        elif ty[0] == 'ptr':
            p = new_psym((oid, off))
            self.put(st, oid, C(off), 8, p)
        elif ty[0] == 'cont':
            n = ufn(('vol', oid, off, newid()), 'count', 0, STRMAX)
            st.w(oid).cells[off] = (CSZ[ty[1]], Cont(ty[1], ('n', newid()), ZERO, n, elem=ty[2]))
        elif ty[0] == 'str':
            st.w(oid).cells[off] = (STRSZ, models.new_str(self, st))

    def touch(self, st, oid, off, ty, inst):
        """before a container or string member is read"""
        if not self.tracked(st, oid):
            return
        k = self.fkey(off)
        self.access(st, off, 'r', ty, inst)
        if self.phase > 1 and self.isvol(st, k) and not self.stable(st, k):
            self.refresh(st, k, ty)
        c = st.mem[oid].cells.get(off)
        if c is not None and c[1].__class__ is Cont:
            # no container has more elements than memory could hold
            f = st.facts.add_ge((c[1].h - c[1].n).addc(STRMAX))
            if f is not None:
                st.facts = f

    def keepsyms(self, st):
        """what is known about the members of connections in the list of a server"""
        out = set()
        if self.cur is not None and self.cur.cls == 'Server' and self.cur.how == 'api':
            for o in st.mem.values():
                if o.kind == 'elem' and o.cls == 'Connection':
                    for off, (z, v) in o.cells.items():
                        if v.__class__ is L and off > 0:
                            out.update(s for s, k in v.t)
        return out

    def load(self, st, p, ty, inst):
        q = st.res(p)
        if q.__class__ is Ptr and q.off.isc() and self.tracked(st, q.o) and inst is not None:
            k = self.fkey(q.off.c)
            t = ('ptr',) if ty.kind == 'ptr' else ('int', ty.size)
            self.access(st, q.off.c, 'r', t, inst)
            if self.phase > 1 and self.isvol(st, k) and not self.stable(st, k):
                self.refresh(st, k, t)
        v = super().load(st, p, ty, inst)
        if v.__class__ is L and self.cur is not None and self.cur.cls == 'Server' and self.cur.how == 'api' and q.__class__ is Ptr and q.off.isc() and q.o in st.mem:
            o = st.mem[q.o]
            if o.kind == 'elem' and o.cls == 'Connection' and q.off.c not in o.cells and source_of(v) == q.o:
                st.w(q.o).cells[q.off.c] = (ty.size, v)     # facts about it are kept
                self.ev(st, 'cget', inst, obj=q.o, off=q.off.c, val=v)
        return v

    def store(self, st, p, v, ty, inst):
        q = st.res(p)
        if q.__class__ is Ptr and self.tracked(st, q.o):
            if q.off.isc():
                self.access(st, q.off.c, 'w', ('ptr',) if ty.kind == 'ptr' else ('int', ty.size), inst)
                w = st.res(v)
                if w.__class__ is L and any(SY.ufargs.get(s, ('',))[0] in ('in', 'vol') and SY.ufargs[s][1:3] in (
                        (q.o, q.off), (q.o, q.off.c)) for s, k in w.t):
                    self.rmw.add(self.fkey(q.off.c))
            self.ev(st, 'set', inst, off=q.off, val=st.res(v), size=ty.size, cls=self.cur.cls)
        elif q.__class__ is Ptr and q.o in st.mem and st.mem[q.o].cls in NETCLS and q.off.isc():
            self.ev(st, 'cset', inst, obj=q.o, off=q.off.c, val=st.res(v))
            if self.cur is not None and self.cur.cls == 'Server' and self.cur.how == 'thread':
                st.gh['given%d' % q.off.c] = st.res(v)
        elif self.cur is not None and self.cur.cls == 'Server' and self.cur.how == 'thread' and q.__class__ is Ptr and q.o in st.mem and st.mem[q.o].kind == 'heap' and \
                not q.off.isc():
            self.ev(st, 'aset', inst, obj=q.o, off=q.off, val=st.res(v), size=ty.size)
        elif q.__class__ is Ptr and q.o in st.mem and st.mem[q.o].cls in OWNED and q.off.isc():
            self.ev(st, 'oset', inst, obj=q.o, off=q.off.c, val=st.res(v))
        if q.__class__ is Ptr and q.o in st.mem:
            self.frontier(st, q.o, q.off, C(ty.size))
        return super().store(st, p, v, ty, inst)

    def frontier(self, st, oid, off, n):
        o = st.mem[oid]
        c = o.cells.get(G_FRONT)
        if c is None or n is None or c[1].__class__ is not L:
            return
        f = st.facts
        if f.ent_ge(c[1] - off) and f.ent_ge(off + n - c[1]):
            st.w(oid).cells[G_FRONT] = (0, off + n)

    def role(self, st, v):
        """which member of the analysed object the value is: its offset, or None"""
        v = st.res(v)
        this = self.cur.this
        if v.__class__ is L:
            s = v.single() if not v.isc() else None
            a = SY.ufargs.get(s) if s is not None else None
            if a and a[0] in ('in', 'vol') and a[1] == this:
                return a[2]
            if not v.isc():
                for off, (sz, c) in st.mem[this].cells.items():
                    if c.__class__ is L and off >= 0 and (c == v):
                        return off
        elif v.__class__ is PSym:
            o = self.psorigin(v.id)
            if o.__class__ is tuple and o[0] == this:
                return o[1]
        elif v.__class__ is Ptr:
            for off, (sz, c) in st.mem[this].cells.items():
                if off >= 0 and st.res(c) == v:
                    return off
        return None

    # ------------------------------------------------------------------ events
    def on_locked(self, st, inst, key):
        self.ev(st, 'lock', inst, key=key)
        if self.phase > 1 and self.cur is not None and key[0] == self.cur.this:
            for k in self.wlocks[self.cur.name]:
                if k in self.vol.get(self.cur.name, ()) and self.isvol(st, k) and k[1] in self.fieldsof(self.cur.cls, k) and \
                        self.stable(st, k) and not self.stable(st, k, key[1]):
                    self.refresh(st, k)
        return False

    def fieldsof(self, cls, k):
        if k[0] == cls or (cls == 'Client' and k[0] == 'Connection'):
            return (k[1],)
        return ()

    def on_lock(self, st, inst, key, kind=None):
        self.relockable[self.lockid(st, key)] = kind != 'mutex'
        self.ev(st, 'acquire', inst, key=key)
        return False

    def on_relock(self, st, inst, key):
        return False

    def on_unlock(self, st, inst, key):
        self.ev(st, 'unlock', inst, key=key)
        return False

    def on_alloc(self, st, inst, size, form, ptr):
        if ptr is None:
            return False
        e = self.ev(st, 'alloc', inst, size=size, form=form, obj=ptr.o)
        if form == 'new[]':
            st.w(ptr.o).cells[G_FRONT] = (0, ZERO)
        return False

    def on_free(self, st, inst, o, form):
        w = o.cells.get(G_SENT)
        self.ev(st, 'free', inst, obj=o.id, form=form, cls=o.cls, size=o.size, sent=w[1] if w else None, owner=o.owner,
                mem=dict(o.cells) if o.cls in OWNED else None)
        return False

    def text(self, st, p):
        """the string whose characters the pointer points to, or None"""
        if p.__class__ is Ptr and p.o in st.mem and p.off == ZERO:
            for m in st.mem[p.o].meta:
                if m.__class__ is tuple and m[0] == 'strbuf':
                    return m[1]
        return None

    def newerrno(self, st):
        """a system call was made: the error number is unknown"""
        models.m_errno(self, None, st, None, ())
        v = fresh('errno', 0, M32)
        self.put(st, absint.GOBJ['errno'], ZERO, 4, v)
        return v

    def on_sys(self, st, inst, fn, args, ret, **kw):
        a = [st.res(x) for x in args]
        k = {'fn': fn, 'args': a, 'ret': ret, 'errno': self.newerrno(st)}
        if fn in ('close', 'shutdown', 'read', 'write', 'recv', 'send', 'connect', 'bind', 'listen', 'fcntl', 'timerfd_settime',
                  'accept', 'setsockopt', 'getsockopt'):
            k['fd'] = a[0]
            k['role'] = self.role(st, a[0])
        if fn == 'getsockopt':
            k['val'] = kw.get('val')
        if fn in ('bind', 'connect') and len(a) > 1 and a[1].__class__ is Ptr and a[1].o in st.mem and a[1].off.isc():
            o, at = st.mem[a[1].o], a[1].off.c
            k['addr'] = [(x - at, n, st.res(v)) for x, (n, v) in o.cells.items() if x >= at]
            k['segs'] = [(x.addc(-at), n, c) for x, n, c in o.segs]
        if fn in ('inet_aton', 'inet_pton', 'unlink', 'access'):
            k['text'] = self.text(st, a[1 if fn == 'inet_pton' else 0])
            k['made'] = kw.get('made')
        if fn in ('read', 'recv', 'send', 'write'):
            k['n'] = kw.get('n')
            p = a[1]
            k['buf'] = p
            if p.__class__ is Ptr and p.o in st.mem:
                o = st.mem[p.o]
                k['size'] = o.size
                k['kind'] = o.kind
                k['sent'] = o.cells.get(G_SENT, (0, None))[1]
                k['front'] = o.cells.get(G_FRONT, (0, None))[1]
                if fn == 'write' and o.kind == 'alloca':
                    c = o.cells.get(p.off.c) if p.off.isc() else None
                    k['val'] = c[1] if c else None
            if ret.__class__ is L and st.facts.ent_ge(ret - ONE):
                k['ok'] = True
                if p.__class__ is Ptr and p.o in st.mem and st.mem[p.o].kind == 'heap':
                    if fn == 'send' or fn == 'write':
                        w = st.w(p.o)
                        w.cells[G_SENT] = (0, w.cells.get(G_SENT, (0, ZERO))[1] + ret)
                    else:
                        self.frontier(st, p.o, p.off, ret)
        if fn == 'timerfd_settime' and a[2].__class__ is Ptr:
            o = st.mem.get(a[2].o)
            if o is not None:
                def cell(off):
                    c = o.cells.get(off)
                    return st.res(c[1]) if c else None
                k['interval'] = (cell(0), cell(8))
                k['value'] = (cell(16), cell(24))
                v = k['value'][0]
                k['vrole'] = self.role(st, v) if v is not None and v.__class__ is L else None
                k['null'] = False
        self.ev(st, 'sys', inst, **k)
        return False

    def getsockopt(self, st, inst, args):
        out = super().getsockopt(st, inst, args)
        for s, r in out:
            p = s.res(args[3])
            v = s.mem[p.o].cells.get(p.off.c) if p.__class__ is Ptr and p.off.isc() and p.o in s.mem else None
            self.on_sys(s, inst, 'getsockopt', args, r, val=v[1] if v else None)
        return out

    def on_fdnew(self, st, inst, fn, fd, args):
        self.ev(st, 'fdnew', inst, fn=fn, fd=fd, args=[st.res(x) for x in args], role=self.role(st, args[0]) if fn == 'accept' else None)
        return False

    def pollevent(self, st, inst, args, p, n):
        err = self.newerrno(st)
        pid = newid()
        fds = {}
        if p.__class__ is Ptr:
            o = st.w(p.o)
            base = p.off.c if p.off.isc() else None
            if base is not None:
                for off, (sz, v) in list(o.cells.items()):
                    r = off - base
                    if r < 0:
                        continue
                    if r % 8 == 0 and sz == 4:
                        fds.setdefault(r // 8, {})['fd'] = v
                    elif r % 8 == 0 and sz == 8 and v.__class__ is L and v.isc():
                        fds.setdefault(r // 8, {})['fd'] = C(v.c & M32)
                        fds[r // 8]['events'] = C((v.c >> 32) & 0xffff)
                    elif r % 8 == 4 and sz == 2:
                        fds.setdefault(r // 8, {})['events'] = v
                    elif r % 8 == 4 and sz == 4 and v.__class__ is L and v.isc():
                        fds.setdefault(r // 8, {})['events'] = C(v.c & 0xffff)
        for i, d in fds.items():
            d['role'] = self.role(st, d['fd']) if 'fd' in d else None
        if self.frame is self.evframe and self.evframe is not None:
            # one name for each answer, so that histories can be joined
            pid = ('ev', self.cur.name, id(inst), tuple((i, d['role']) for i, d in sorted(fds.items())))
        if p.__class__ is Ptr:
            if base is not None:
                new = {}
                for i in fds:
                    new[i] = ufn(('revents', pid, i), 'revents', 0, 0xffff)
                if pid.__class__ is tuple:
                    old = set(v.single() for v in new.values())
                    keep = set(x for g in (st.facts.ge, st.facts.eq, st.facts.ne) for l in g for x, _ in l.t) - old
                    st.facts = st.facts.restrict(keep)
                for i, v in new.items():
                    self.put(st, p.o, C(base + 8 * i + 6), 2, v)
                    if pid.__class__ is tuple and fds[i]['role'] is not None and 'fd' in fds[i] and not fds[i]['fd'].isc():
                        self.put(st, p.o, C(base + 8 * i), 4, ufn(('vol', self.cur.this, fds[i]['role'], pid), 'fd', 0, M32))
            o = st.w(p.o)
            o.segs = ()
        t = args[2] if len(args) > 2 else None
        t = self.asint(st, t) if t is not None else None
        self.pollinfo[pid] = fds
        r = fresh('poll', -1, 1 << 20)
        self.ev(st, 'sys', inst, fn='poll', args=[st.res(x) for x in args], ret=r, fds=fds, pid=pid, timeout=t, n=n, buf=p,
                role=None, errno=err)
        return [(st, r)]

    def on_uninit(self, st, inst, **kw):
        return False

    def on_pop(self, st, inst, oid, off, cont, idx):
        v = None
        for ix, x in reversed(cont.over):
            if st.facts.ent_eq(ix - idx):
                v = st.res(x)
        o = None
        if v is None and cont.elem:
            o = models.elem_obj(self, st, cont, idx)
        elif v.__class__ is Ptr:
            o = v.o
        self.ev(st, 'pop', inst, oid=oid, off=off, idx=idx, first=st.facts.ent_eq(idx - cont.h), obj=o, kind=cont.kind)
        return False

    def on_push(self, st, inst, oid, off, cont, val, front=False):
        v = st.res(val)
        self.ev(st, 'push', inst, oid=oid, off=off, val=v, obj=v.o if v.__class__ is Ptr else None, front=front)
        return False

    def on_contstore(self, ex, st, inst, oid, off, old, new):
        if self.tracked(st, oid):
            self.access(st, off, 'w', ('cont', new.kind, new.elem), inst)

    def on_strstore(self, ex, st, inst, p, s):
        if p.__class__ is Ptr and self.tracked(st, p.o) and p.off.isc():
            self.access(st, p.off.c, 'w', ('str',), inst)
            self.ev(st, 'sets', inst, off=p.off.c, val=s)
        elif p.__class__ is Ptr and p.o in st.mem and st.mem[p.o].cls in OWNED and p.off.isc():
            self.ev(st, 'osets', inst, obj=p.o, off=p.off.c, val=s)

    def on_spawn(self, st, inst, fn, args, template, params):
        name = fn.name if fn.__class__ is Fn else None
        rargs = []
        for a in args:
            a = st.res(a) if a.__class__ is PSym else a
            if a.__class__ is Ptr and self.tracked(st, a.o) and a.off == ZERO:
                rargs.append('this')
            else:
                rargs.append(a)
        self.ev(st, 'spawn', inst, fn=name, args=args, rargs=rargs)
        st.gh['spawned'] = tuple(sorted(set(st.gh.get('spawned', ())) | {name or '?'}))
        self.cur.spawned.append((name, rargs))
        if self.phase == 1:
            d = self.consts(st)
            e = self.spawncells.get(name)
            self.spawncells[name] = d if e is None else {k: v for k, v in e.items() if d.get(k) == v}
        return False

    def consts(self, st):
        """members with a known constant value"""
        out = {}
        for off, (sz, v) in st.mem[self.cur.this].cells.items():
            v = st.res(v)
            if off >= 0 and v.__class__ is L and v.isc():
                out[self.fkey(off)] = (sz, v)
        return out

    def on_serialize(self, st, inst, obj, buf):
        o = st.mem[obj]
        w = st.w(buf.o)
        w.cells[G_SENT] = (0, ZERO)
        w.cells.pop(G_FRONT, None)
        self.ev(st, 'serialize', inst, obj=obj, buf=buf.o, cls=o.cls, owner=o.owner)
        return False

    # ------------------------------------------------------------------ contracts
    def make_generic(self, st, o, cls, tag=None):
        if cls in NETCLS:
            o.cls = cls
            o.lazy = True
            if cls in ('Connection', 'Client'):
                o.cells[0] = (8, Opaque(('vt', 'Connection', 0)))
            return o
        r = super().make_generic(st, o, cls, tag)
        return r

    def materialise(self, st, p):
        v = super().materialise(st, p)
        return v

    def recv_oid(self, st, p):
        p = st.res(p)
        if p.__class__ is PSym:
            p = self.materialise(st, p)
        return p.o if p.__class__ is Ptr and p.off == ZERO else None

    def call(self, name, args, st, inst=None):
        F_ = self.mod.funcs[name]
        s = F_.short
        if s.startswith(NS) and self.cur is not None and args:
            rest = s[len(NS):]
            c = rest.split('::')[0]
            meth = rest[len(c) + 2:]
            if c in ('Connection', 'Client', 'Server') and '::' not in meth and meth and not F_.static and self.frame is not None:
                k = 1 if F_.sret else 0
                oid = self.recv_oid(st, args[k]) if len(args) > k else None
                if oid is not None and not self.tracked(st, oid) and st.mem[oid].kind not in ('root', 'alloca'):
                    return self.ccall(st, inst, F_, c, meth, oid, args)
            if self.evframe is not None and self.frame is self.evframe and not F_.decl:
                return self.cut_call(name, args, st, inst, F_)
        return super().call(name, args, st, inst)

    def cut_call(self, name, args, st, inst, F_):
        """a call made by the event loop itself: its paths are kept apart from those of the round"""
        t0 = st.gh.get('T', 0)
        res = super().call(name, args, st, inst)
        if len(res) <= self.cutat:
            return res
        groups = {}
        for s, v in res:
            v = s.res(v) if v is not None else None
            key = None
            if v.__class__ is L and v.isc():
                key = v.c
            elif v.__class__ is Bool and v.c in (T, F):
                key = 1 if v.c == T else 0
            groups.setdefault(key, []).append((s, v))
        out = []
        for key, lst in groups.items():
            subs = [(s.gh.get('T', 0), s.facts) for s, v in lst]
            lst = [(s.copy(), v) for s, v in lst]
            s0 = lst[0][0]
            s0.gh['T'] = t0
            self.ev(s0, 'did', inst, callee=F_.short, ret=key, subs=subs, start=t0)
            k = s0.gh['T']
            for s, v in lst:
                s.gh['T'] = k
            out += self.merge_rets(lst)
        return out

    def ccall(self, st, inst, F_, c, meth, oid, args):
        o = st.mem[oid]
        self.oblige('uaf', o.alive == 1, inst, 'call of %s::%s() on %s that was already %s' % (
            c, meth, self.oname(o), 'freed'), st)
        if o.cls is None:
            self.make_generic(st, st.w(oid), c)
        if meth == c:
            self.ev(st, 'cctor', inst, obj=oid, cls=c, args=[st.res(x) for x in args[1:]])
            return [(st, None)]
        if meth == '~' + c:
            self.ev(st, 'cdtor', inst, obj=oid)
            w = st.w(oid)
            w.alive = 2
            return [(st, None)]
        ret = None
        if meth == 'GetStoppedEvent':
            ret = ufn(('cstopped', oid), 'stopped', 0, STRMAX)
        elif inst is not None and inst.ty.kind != 'void':
            ret = self.unknown(inst.ty, meth)
        if F_.sret:
            models.sset(self, st, args[0], models.new_str(self, st), inst)
        self.ev(st, 'ccall', inst, obj=oid, meth=meth, args=[st.res(x) for x in args[1:]], ret=ret)
        return [(st, ret)]

    def indirect_hook(self, fr, st, I, fv, args):
        if fv.__class__ is Opaque and fv.tag.__class__ is tuple and fv.tag[0] == 'vf' and fv.tag[1] == 'Connection':
            oid = self.recv_oid(st, args[0])
            meth = self.vtslots.get(fv.tag[2], '?')
            if oid is not None:
                o = st.mem[oid]
                self.oblige('uaf', o.alive == 1, I, '%s of a connection that was already deleted' % (
                    'destruction' if meth in ('D0', 'D1') else 'use'), st)
                self.ev(st, 'cdelete' if meth == 'D0' else 'cdtor' if meth == 'D1' else 'cvirt', I, obj=oid)
                if meth in ('D0', 'D1'):
                    w = st.w(oid)
                    w.alive = 0 if meth == 'D0' else 2
                return [(st, self.unknown(I.ty, 'ret') if I.ty.kind != 'void' else None)]
        if fv.__class__ in (PSym,) or fv.__class__ is Ptr:
            # a function of the user
            objs = []
            for a in args:
                a = st.res(a)
                oid = None
                if a.__class__ is Ptr and a.off == ZERO and a.o in st.mem:
                    oid = a.o
                objs.append(oid)
            origin = self.psorigin(fv.id) if fv.__class__ is PSym else None
            if fv.__class__ is Ptr:
                ob = st.mem.get(fv.o)
                if ob is not None and ob.owner.__class__ is tuple and ob.owner[0] == 'ps':
                    origin = self.psorigin(ob.owner[1])
            self.ev(st, 'callback', I, origin=origin, args=[st.res(a) for a in args], objs=objs, this=self.cur.this)
            for oid in objs:
                if oid is not None and st.mem[oid].cls == 'Request':
                    w = st.w(oid)
                    w.alive = 3
                    w.meta = w.meta + (('given',),)
            return [(st, self.unknown(I.ty, 'ret') if I.ty.kind != 'void' else None)]
        return super().indirect_hook(fr, st, I, fv, args)

    def psorigin(self, psid):
        return absint.PSORIG.get(psid)

    def net_contracts(self):
        c = self.contracts

        def copyfrom(ex, fr, st, inst, a):
            oid = ex.recv_obj(st, a[0], 'Request', inst)
            if oid is None:
                return None
            src = ex.recv_obj(st, a[1], 'Request', inst)
            ex.redefine(st, oid)
            w = st.w(oid)
            if src is not None:
                for off, k in ex.layout['Request'].items():
                    if k[0] in ('int', 'str') and off in st.mem[src].cells:
                        w.cells[off] = st.mem[src].cells[off]
            ex.ev(st, 'copy', inst, dst=oid, src=src)
            return [(st, None)]
        c[NS + 'Request::CopyFrom'] = copyfrom

    def m_deserialize(self, st, oid, cls, least, p, n, inst):
        q = st.res(p)
        front = size = bo = None
        off = None
        if q.__class__ is Ptr and q.o in st.mem:
            o = st.mem[q.o]
            front, size, bo, off = o.cells.get(G_FRONT, (0, None))[1], o.size, q.o, q.off
        out = super().m_deserialize(st, oid, cls, least, p, n, inst)
        for s, r in out:
            names = frozenset(v.sid for z, v in s.mem[oid].cells.values() if v.__class__ is Str)
            self.ev(s, 'deserialize', inst, obj=oid, cls=cls, n=n, front=front, size=size, buf=bo, off=off,
                    ok=not (r.isc() and r.c == 0), ret=r, names=names)
        return out

    # ------------------------------------------------------------------ joins: only paths with the same trace
    def by_trace(self, sts):
        g = {}
        for e, s in sts:
            g.setdefault(s.gh.get('T', 0), []).append((e, s))
        return g

    def canon(self, sts):
        """members that may change at any time have no value worth remembering"""
        if self.phase < 2 or not self.vol.get(self.cur.name):
            return
        this = self.cur.this
        for s in sts:
            o = s.mem.get(this)
            if o is None:
                continue
            for off in list(o.cells):
                if off < 0:
                    continue
                k = self.fkey(off)
                c = o.cells[off]
                if c is self.cancells.get((this, off)) or not self.isvol(s, k) or self.stable(s, k):
                    continue
                ty = self.ftype.get(k)
                n = self.cancells.get((this, off))
                if n is None:
                    if ty is None:
                        continue
                    if ty[0] == 'int':
                        n = (ty[1], ufn(('vol', this, off, 'any'), 'v%d' % off, 0, (1 << (8 * ty[1])) - 1))
                    elif ty[0] == 'ptr':
                        n = (8, new_psym((this, off)))
                    elif ty[0] == 'cont':
                        n = (CSZ[ty[1]], Cont(ty[1], ('n', ('any', this, off)), ZERO,
                                              ufn(('vol', this, off, 'any'), 'count', 0, STRMAX), elem=ty[2]))
                    elif ty[0] == 'str':
                        n = (STRSZ, Str(('n', ('any', this, off)), ufn(('len', 'any', this, off), 'len', 0, STRMAX)))
                    self.cancells[(this, off)] = n
                if n[0] == c[0]:
                    s.w(this).cells[off] = n
                    o = s.mem[this]

    def merge(self, fr, b, sts):
        live = fr.fn.live[b]
        self.canon([s for e, s in sts])
        out = []
        for lst in self.by_trace(sts).values():
            if len(lst) == 1:
                e, s = lst[0]
                out.append(({i: e[i] for i in live if i in e}, s))
            else:
                out += self.silently(super_merge, fr, b, lst)
        if fr is self.evframe and len(out) > self.altat:
            by = {}
            for e, s in out:
                by.setdefault((self.mark_of(s, self.marks),) + tuple(e[i].c if e[i].isc() else None for i in sorted(fr.fn.ctl & set(e)) if e[i].__class__ is L),
                              []).append((e, s))
            out = []
            for lst in by.values():
                out += self.alternatives(fr, live, lst) if len(lst) > self.altat else lst
        return out

    def ancestor(self, ts):
        """nearest common ancestor of the trace nodes"""
        ts = set(ts)
        while len(ts) > 1:
            t = max(ts)
            ts.discard(t)
            ts.add(self.nodes[t].parent if t else 0)
        return ts.pop()

    def alternatives(self, fr, live, sts):
        """too many histories: join the states whatever their history"""
        from .join import merge
        a = self.ancestor(s.gh.get('T', 0) for e, s in sts)
        subs = []
        for e, s in sts:
            t = s.gh.get('T', 0)
            if all(t != x for x, _ in subs):
                subs.append((t, s.facts))
        sts = [(e, s.copy()) for e, s in sts]
        s0 = sts[0][1]
        s0.gh['T'] = a
        self.ev(s0, 'did', None, callee=None, ret=None, subs=subs, start=a)
        for e, s in sts:
            s.gh['T'] = s0.gh['T']
        return self.silently(merge, fr, live, sts)

    def silently(self, f, *a):
        """joining states is not an action of the program"""
        old, self.tracing = self.tracing, False
        try:
            return f(self, *a)
        finally:
            self.tracing = old

    def merge_mid(self, fr, states, live):
        self.canon([s for e, s in states])
        out = []
        for lst in self.by_trace(states).values():
            out += lst if len(lst) == 1 else self.silently(super_mid, fr, lst, live)
        return out

    def merge_rets(self, rets):
        self.canon([s for s, v in rets])
        g = {}
        for s, v in rets:
            g.setdefault(s.gh.get('T', 0), []).append((s, v))
        out = []
        for lst in g.values():
            out += lst if len(lst) == 1 else self.silently(super_rets, lst)
        return out

    # ------------------------------------------------------------------ loops
    def reaches(self, name, names):
        """may the function call one of these system calls?"""
        k = (name, names)
        r = self.reach_cache.get(k)
        if r is None:
            self.reach_cache[k] = False
            F_ = self.mod.funcs[name]
            r = F_.short in names
            if not r and not F_.decl:
                for b in F_.blocks:
                    for i in b.insts:
                        if i.op in ('call', 'invoke') and i.x[0] == 'f' and self.reaches(i.x[1], names):
                            r = True
                            break
                    if r:
                        break
            self.reach_cache[k] = r
        return r

    def loop_reaches(self, F_, body, names):
        for b in body:
            for i in F_.blocks[b].insts:
                if i.op in ('call', 'invoke') and i.x[0] == 'f' and self.reaches(i.x[1], names):
                    return True
        return False

    def event_loop(self, fr, h, body):
        if self.cur is None or self.cur.how != 'thread' or st_has_loop(self):
            return False
        F_ = fr.fn
        if not self.loop_reaches(F_, body, WAITS):
            return False
        return self.loop_reaches(F_, body, ('recv', 'accept4', 'accept', 'read'))

    def project(self, fr, env, st, tag):
        """forget everything but the private members and the live locals"""
        from .join import traverse, prune
        st = st.copy()
        this = self.cur.this
        o = st.w(this)
        priv = self.private.get(self.cur.name, ())
        for off in list(o.cells):
            if off >= 0 and self.fkey(off) not in priv:
                del o.cells[off]
        if o.segs:
            o.segs = ()
        # local arrays and structures are written anew
        for i, a in fr.env.items():
            if a.__class__ is Ptr and a.o in st.mem:
                x = st.mem[a.o]
                if x.kind == 'alloca' and x.owner is fr and (x.cells or x.segs) and \
                        (i not in fr.fn.slots or self.only_in(fr.fn, i, tag)):
                    if all(v.__class__ in (L, Opaque) for k, (sz, v) in x.cells.items()):
                        x = st.w(a.o)
                        x.cells, x.segs, x.lazy = {}, (), True
        t = st.gh.get('T', 0)
        st.gh = {}
        sh = traverse(self, fr, env, st, True)
        env, st = prune(self, fr, env, st, sh)
        for oid in list(st.mem):
            if oid not in sh.num and st.mem[oid].kind in ('lazy', 'elem'):
                del st.mem[oid]
        st.gh = {'T': t}
        # the other members are whatever they are now
        st.psub = dict(st.psub)
        for k, ty in list(self.ftype.items()):
            cls, off = k
            if k in priv or not self.fieldsof(self.cur.cls, k):
                continue
            if ty[0] == 'int':
                self.put(st, this, C(off), ty[1], ufn(('vol', this, off, tag), 'v%d' % off, 0, (1 << (8 * ty[1])) - 1))
            elif ty[0] == 'ptr':
                p = self.headps.get((this, off, tag))
                if p is None:
                    p = self.headps[(this, off, tag)] = new_psym((this, off))
                st.psub.pop(p.id, None)
                self.put(st, this, C(off), 8, p)
            elif ty[0] == 'cont':
                n = ufn(('vol', this, off, tag), 'count', 0, STRMAX)
                st.w(this).cells[off] = (CSZ[ty[1]], Cont(ty[1], ('n', ('h', this, off, tag)), ZERO, n, elem=ty[2]))
            elif ty[0] == 'str':
                st.w(this).cells[off] = (STRSZ, Str(('n', ('h', this, off, tag)), ufn(('len', 'h', this, off, tag), 'len', 0, STRMAX)))
        return env, st

    def only_in(self, F_, i, tag):
        if tag[0] != 'h':
            return False
        body = F_.loops[tag[1]]
        for B in F_.blocks:
            if B.idx in body:
                continue
            for I in B.insts:
                if I.op in ('call', 'invoke') and I.x[0] == 'f' and I.x[1].startswith(('llvm.dbg', 'llvm.lifetime')):
                    continue
                if any(o[0] == 'v' and o[1] == i for o in I.ops):
                    return False
        return True

    def loop(self, fr, h, body, sts, rets):
        from .join import merge, widen
        self.stats['loops'] += 1
        evl = self.event_loop(fr, h, body)
        if evl:
            self.in_loop = True
            self.evframe = fr
        try:
            return self.loop_(fr, h, body, sts, rets, evl)
        finally:
            if evl:
                self.in_loop = False
                self.evframe = None

    def loop_(self, fr, h, body, sts, rets, evl):
        head = self.merge(fr, h, sts)
        if not evl:
            exits = self.unrolled(fr, h, body, head, rets)
            if exits is not None:
                return exits
        marks = set()
        new = []
        for env, st in head:
            if evl:
                if self.phase > 1:
                    self.paths_out('pre', st, None, 0)
                env, st = self.project(fr, env, st, ('h', h))
                st.gh['T'] = 0
                self.ev(st, 'evloop', fr.inst, h=h)
                mk = st.gh['T']
            else:
                st = st.copy()
                self.ev(st, 'loop', fr.inst, h=h, loopfn=fr.fn.short)
                mk = st.gh.get('T', 0)
            marks.add(mk)
            new.append((env, st))
        if evl:
            # one name for all heads
            m0 = min(marks)
            for env, st in new:
                st.gh['T'] = m0
            marks = {m0}
            new = self.merge(fr, h, new)
        head = new
        it = 0
        old_marks, self.marks = self.marks, marks
        try:
            return self.loop_rounds(fr, h, body, head, marks, rets, evl)
        finally:
            self.marks = old_marks

    def loop_rounds(self, fr, h, body, head, marks, rets, evl):
        it = 0
        while True:
            it += 1
            if it > 24:
                self.give_up(fr, h)
            myrets = []
            nsp = len(self.cur.spawned)
            self.buf.append([])
            seg0 = len(self.pend_paths)
            back, exits = self.region(fr, {h: list(head)}, h, myrets, body)
            recs = self.buf.pop()
            bk = []
            for env, st in back:
                m = self.mark_of(st, marks)
                if evl:
                    self.pend_paths.append(('iter', st, m, None, env))
                    self.end_locks(st, fr)
                    env, st = self.project(fr, env, st, ('h', h))
                else:
                    self.pend_paths.append(('part', st, m))
                    st = st.copy()
                st.gh['T'] = m
                bk.append((env, st))
            if evl and bk:
                bk = self.merge(fr, h, bk)
                for env, st in bk:
                    st.gh['T'] = m
            if evl and self.debug:
                print("evl", it, len(head), len(back), "->", len(bk), sum(len(e) for t, e in exits), len(self.pend_paths), flush=True)
            if evl and self.phase == 1:
                break
            if bk and not evl:
                head, bk = self.weaken_arrays(head, bk)
            new, changed = self.silently(lambda x: x.widen(fr, h, head, bk, it))
            if not changed:
                break
            del self.pend_paths[seg0:]
            if self.debug == 3 and (evl or it > 4):
                self.dump_heads(fr, h, it, new)
            if self.debug == 2 and it > 4:
                from .join import traverse
                print('loop', fr.fn.short, h, it, len(head), len(bk), len(new))
                for e, s in new:
                    sh = traverse(self, fr, e, s, True)
                    print('   ', s.gh, [str(v)[:60] for v in e.values()], str([(k, str(v)[:40]) for k, v in sh.slots])[:900])
                    print('   F', str(s.facts)[:500])
            head = new
        if evl:
            self.cur.heads = [env for env, st in head]
        for r in recs:
            if self.buf:
                self.buf[-1].append(r)
            else:
                self._commit(r)
        rets.extend(myrets)
        if evl:
            out = []
            for t, es in exits:
                nes = []
                for env, st in es:
                    self.pend_paths.append(('leave', st, self.mark_of(st, marks)))
                    live = fr.fn.live[t]
                    env, st = self.project(fr, {i: env[i] for i in live if i in env}, st, ('x', h))
                    st.gh = {'T': 0}
                    self.ev(st, 'left', fr.inst, h=h)
                    nes.append((env, st))
                out.append((t, nes))
            # all leave nodes alike
            k0 = None
            for t, nes in out:
                for env, st in nes:
                    if k0 is None:
                        k0 = st.gh['T']
                    st.gh['T'] = k0
            exits = [(t, self.merge(fr, t, nes)) for t, nes in out]
        return exits

    def dump_heads(self, fr, h, it, new):
        from .join import traverse
        print('loop', fr.fn.short, h, it, len(new))
        sgs = []
        for e, s in new:
            sgs.append((s.gh, traverse(self, fr, e, s, True).sig))
        from collections import Counter
        print(Counter(len(g) for _, g in sgs))
        for i in range(max(len(g) for _, g in sgs)):
            c = Counter(str(g[i])[:100] if i < len(g) else '-' for _, g in sgs)
            if len(c) > 1:
                if i < 58: print('     ', i, c.most_common(6), str(sgs[0][1][i-1:i]))
        for e, s in new[:60]:
            print([(off, s.res(v).__class__.__name__, str(s.res(v))[:24]) for off, (sz, v) in sorted(s.mem[self.cur.this].cells.items()) if self.fkey(off) in self.private[self.cur.name]])

    def weaken_arrays(self, head, back):
        """what a loop writes to an array of unknown length is forgotten"""
        hit = {}
        for e, s in back:
            for oid, o in s.mem.items():
                if o.kind != 'heap' or o.size is None or o.size.isc() or o.cls is not None or not o.alive:
                    continue
                for he, hs in head:
                    ho = hs.mem.get(oid) if hs.gh.get('T', 0) == s.gh.get('T', 0) else None
                    if ho is None or ho is o:
                        continue
                    d = hit.setdefault(oid, set())
                    for off, c in o.cells.items():
                        if off >= 0 and ho.cells.get(off) != c:
                            d.add(off)
                    if ho.segs != o.segs:
                        d.add(None)
        hit = {k: v for k, v in hit.items() if v}
        if not hit:
            return head, back
        def weak(items):
            out = []
            for e, s in items:
                s = s.copy()
                for oid, offs in hit.items():
                    if oid not in s.mem:
                        continue
                    o = s.w(oid)
                    for off in offs:
                        o.cells.pop(off, None)
                    o.segs = ()
                    o.lazy = True
                out.append((e, s))
            return out
        return weak(head), weak(back)

    def end_locks(self, st, fr):
        if st.locks:
            self.oblige('lock', False, None, 'a mutex is still held at the end of a round of the event loop', st)

    def mark_of(self, st, marks):
        t = st.gh.get('T', 0)
        while t and t not in marks:
            t = self.nodes[t].parent
        return t

    def paths_out(self, kind, st, ret, stop):
        self.pend_paths.append((kind, st, stop, ret))

    # ------------------------------------------------------------------ roots
    def make_args(self, st, F_, this, given=None):
        args = []
        tys = F_.argty_()
        params = split_params(F_.dem)
        static = F_.static
        if F_.sret:
            o = Obj(newid(), 'alloca', C(STRSZ), site='result')
            st.mem[o.id] = o
            args.append(Ptr(o.id))
            tys = tys[1:]
        if not static:
            args.append(Ptr(this))
            tys = tys[1:]
        for i, (t, p) in enumerate(zip(tys, params + [''] * 9)):
            g = given[i] if given is not None and i < len(given) else None
            if g == 'this':
                args.append(Ptr(this))
            elif 'basic_string' in p:
                o = Obj(newid(), 'param', C(STRSZ), site='argument')
                o.cells[0] = (STRSZ, models.new_str(self, st))
                st.mem[o.id] = o
                args.append(Ptr(o.id))
            elif re.match(r'DowowNetwork::(Request|Connection|SafeConnection|Server)( const)?[*&]', p):
                c = re.match(r'DowowNetwork::(\w+)', p).group(1)
                o = Obj(newid(), 'lazy', None, 'new', lazy=True, site='argument', cls=c)
                self.make_generic(st, o, c)
                if c == 'SafeConnection':
                    o.cls = None
                st.mem[o.id] = o
                args.append(Ptr(o.id))
            elif t.kind == 'ptr':
                args.append(new_psym(('arg', i)))
            else:
                args.append(ufn(('arg', newid(), i, p), 'arg%d' % i, 0, (1 << t.bits) - 1) if t.kind == 'int' else self.unknown(t, 'arg'))
        return args

    def run_root(self, root, init=None):
        st = State()
        o = Obj(newid(), 'root', None, lazy=True, site='this', cls=root.cls)
        st.mem[o.id] = o
        root.this = o.id
        self.cur = root
        self.root = root.name
        self.frame = None
        self.in_loop = False
        self.pend_paths = []
        root.spawned = []
        root.paths = []
        if self.phase > 1 and root.how == 'thread':
            # what only this thread changes has the value that it had when the thread was started
            root.expect = {}
            for k in self.private.get(root.name, ()):
                c = self.spawncells.get(root.F.name, {}).get(k)
                if c is None:
                    c = self.ctorcells.get(k)
                    if c is None:
                        continue
                    root.expect[k] = c
                o.cells[k[1]] = c
                if self.ftype.get(k, ('',))[0] == 'ptr':
                    self.ptrcells.add((o.id, k[1]))
        root.args = self.make_args(st, root.F, o.id, root.given if root.how == 'thread' else None)
        life = root.F.short.split('::')[-1]
        if life == root.F.short.split('::')[-2]:
            o.lazy = False
        st.gh['T'] = 0
        self.ev(st, 'enter', None, args=root.args)
        res = self.call(root.F.name, root.args, st)
        for s, v in res:
            if s.locks:
                self.oblige('lock', False, None, 'a mutex is still held when %s returns' % root.name, s)
            self.pend_paths.append(('root', s, 0, v))
        for p in self.pend_paths:
            kind, s, stop = p[0], p[1], p[2]
            ret = p[3] if len(p) > 3 else None
            evs = self.evs_since(s.gh.get('T', 0), stop if kind == 'part' else 0)
            if kind == 'root' and evs and evs[0].name == 'left':
                kind = 'post'
            if kind == 'root' and evs and evs[0].name == 'evloop':
                kind = 'leave'
            root.paths.append(Path(root, kind, evs, s, ret, stop))
            if len(p) > 4:
                root.paths[-1].env = p[4]
        self.cur = None
        return root

    def public_roots(self):
        out = []
        for name, F_ in self.mod.funcs.items():
            if F_.decl or not F_.short.startswith(NS):
                continue
            parts = models.method_split(F_.short)
            if not parts:
                continue
            c, meth = F_.short[len(NS):parts], F_.short[parts + 2:]
            if c not in NETCLS or self.mod.access.get(name) != 'public' or '<' in meth:
                continue
            if re.search(r'(C1|D1|D0)E', name) and (meth == c or meth.startswith('~')):
                continue
            r = Root('%s::%s(%s)' % (c, meth, ','.join(short_ty(p) for p in split_params(F_.dem))), c, F_, 'api')
            out.append(r)
        # constructors are not public in the base classes that are only derived from
        for c in NETCLS:
            for F_ in self.ctors(c):
                if 'C2E' in F_.name and not any(r.F is F_ for r in out):
                    out.append(Root('%s::%s(%s)' % (c, c, ','.join(short_ty(p) for p in split_params(F_.dem))), c, F_, 'api'))
            for F_ in self.mod.funcs.values():
                if not F_.decl and F_.short == '%s%s::~%s' % (NS, c, c) and 'D2E' in F_.name and not any(r.F is F_ for r in out):
                    out.append(Root('%s::~%s()' % (c, c), c, F_, 'api'))
        return sorted(out, key=lambda r: r.name)

    def thread_roots(self, roots):
        out = {}
        for r in roots:
            for fn, rargs in r.spawned:
                if fn is None or fn in out:
                    continue
                F_ = self.mod.funcs[fn]
                c = F_.short[len(NS):].split('::')[0]
                t = Root(F_.short[len(NS):], c if c in NETCLS else r.cls, F_, 'thread')
                t.given = rargs
                out[fn] = t
        return sorted(out.values(), key=lambda r: r.name)

    # ------------------------------------------------------------------ the whole analysis
    def prepare(self):
        """first round: who writes what while holding which mutex; second round: paths under interference"""
        self.probe_layouts()
        self.phase = 1
        self.tracing = False
        roots = self.public_roots()
        for r in roots:
            self.run_root(r)
        threads = self.thread_roots(roots)
        done = set()
        while any(t.F.name not in done for t in threads):
            for t in threads:
                if t.F.name not in done:
                    done.add(t.F.name)
                    self.run_root(t)
            threads = self.thread_roots(roots + threads)
        self.roots = roots + threads
        self.threads = threads
        self.infer()
        self.ctorcells = {}
        first = True
        for r in roots:
            if r.name == 'Connection::Connection()':
                for p in r.paths:
                    self.cur = r
                    d = self.consts(p.st)
                    self.ctorcells = d if first else {k: v for k, v in self.ctorcells.items() if d.get(k) == v}
                    first = False
        self.cur = None
        self.tracing = True
        self.findings.clear()
        self.oblig.clear()
        self.phase = 2
        self.spent = {}
        self.acc1, self.acc = self.acc, {}
        return self

    def examine(self, r):
        """second round for one root"""
        import time
        t = time.time()
        a = len(self.nodes)
        # the rounds of a server are few: all of them are kept apart
        self.cutat, self.altat = (1000, 1000) if r.cls == 'Server' else (4, 10)
        self.run_root(r)
        r.nodes = (a, len(self.nodes))
        self.spent[r.name] = time.time() - t
        if self.debug:
            print(r.name, len(r.paths), '%.2f' % self.spent[r.name], flush=True)

    def analyse(self):
        self.prepare()
        for r in self.roots:
            self.examine(r)
        return self

    @staticmethod
    def minimal(sets):
        return [a for a in sets if not any(b < a for b in sets)]

    def infer(self):
        """guards, interference and the members private to a thread"""
        byname = {r.name: r for r in self.roots}
        self.guard, self.vol, self.wlocks = {}, {}, {}
        self.private = {}
        writes = {}
        for k, d in self.acc.items():
            for (rn, rw, held, sp, life, fn, line) in d:
                if rw == 'w' and not life:
                    writes.setdefault(k, []).append((rn, held, sp))
        for k, ws in writes.items():
            g = None
            for rn, held, sp in ws:
                g = held if g is None else g & held
            self.guard[k] = g
        for r in self.roots:
            v = self.vol[r.name] = {}
            wl = self.wlocks[r.name] = {}
            mine = set(n for n, _ in r.spawned)
            ctor = iscons(r)
            priv = self.private[r.name] = set()
            for k, d in self.acc.items():
                if not (k[0] == r.cls or r.cls == 'Client' and k[0] == 'Connection'):
                    continue
                conds = set()
                for rn, held, sp in writes.get(k, ()):
                    w = byname[rn]
                    if ctor and w.cls != r.cls:
                        continue            # not an object of that class
                    if w is r and (r.how == 'thread' or r.cls == 'Client'):
                        continue
                    if w.how == 'thread':
                        if r.how == 'api' and w.F.name in mine:
                            conds.add(w.F.name)
                        else:
                            conds.add(True)
                        wl.setdefault(k, set()).add(held)
                        continue
                    # a function of the interface
                    if r.how == 'thread':
                        sp_w = set(n for n, _ in w.spawned)
                        if r.F.name in sp_w and r.F.name not in sp:
                            continue        # happens before this thread is started
                        conds.add(True)
                    elif k[0] == 'Client':
                        continue            # one thread at a time uses the interface of the class Client
                    elif ctor:
                        conds |= mine       # nobody knows the object until a thread gets it
                    else:
                        conds.add(True)
                    wl.setdefault(k, set()).add(held)
                if k in wl:
                    wl[k] = self.minimal(wl[k])
                if True in conds:
                    v[k] = True
                elif conds:
                    v[k] = frozenset(conds)
                elif r.how == 'thread' and any(w[0] == r.name for w in writes.get(k, ())):
                    priv.add(k)


def short_ty(p):
    p = p.replace(NS, '')
    if 'basic_string' in p:
        return 'string'
    return p.replace('unsigned ', 'u').replace(' const', '')


def iscons(r):
    return r.F.short.split('::')[-1] == r.F.short.split('::')[-2]


def st_has_loop(ex):
    return getattr(ex, 'in_loop', False)
