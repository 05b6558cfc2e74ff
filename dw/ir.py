"""LLVM IR of the library, loaded through the LLVM C API (no Python bindings are
installed) into small Python objects.  Functions are decoded lazily."""
import ctypes as C
import re
import subprocess

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


P = C.c_void_p
_ctx = _f('LLVMContextCreate', P)
_membuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
_parse = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
_dl = _f('LLVMGetModuleDataLayout', P, P)
_first_fn = _f('LLVMGetFirstFunction', P, P)
_next_fn = _f('LLVMGetNextFunction', P, P)
_first_gl = _f('LLVMGetFirstGlobal', P, P)
_next_gl = _f('LLVMGetNextGlobal', P, P)
_name = _f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
_isdecl = _f('LLVMIsDeclaration', C.c_int, P)
_first_bb = _f('LLVMGetFirstBasicBlock', P, P)
_next_bb = _f('LLVMGetNextBasicBlock', P, P)
_first_in = _f('LLVMGetFirstInstruction', P, P)
_next_in = _f('LLVMGetNextInstruction', P, P)
_opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
_copcode = _f('LLVMGetConstOpcode', C.c_int, P)
_nops = _f('LLVMGetNumOperands', C.c_int, P)
_op = _f('LLVMGetOperand', P, P, C.c_uint)
_kind = _f('LLVMGetValueKind', C.c_int, P)
_typeof = _f('LLVMTypeOf', P, P)
_tkind = _f('LLVMGetTypeKind', C.c_int, P)
_iwidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
_zext = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
_abisize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
_offof = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
_nelems = _f('LLVMCountStructElementTypes', C.c_uint, P)
_elem = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
_eltype = _f('LLVMGetElementType', P, P)
_arrlen = _f('LLVMGetArrayLength2', C.c_ulonglong, P)
_sname = _f('LLVMGetStructName', C.c_char_p, P)
_gepty = _f('LLVMGetGEPSourceElementType', P, P)
_allocty = _f('LLVMGetAllocatedType', P, P)
_icmp = _f('LLVMGetICmpPredicate', C.c_int, P)
_called = _f('LLVMGetCalledValue', P, P)
_nargs = _f('LLVMGetNumArgOperands', C.c_uint, P)
_nsucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
_succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
_normdest = _f('LLVMGetNormalDest', P, P)
_cond = _f('LLVMGetCondition', P, P)
_iscond = _f('LLVMIsConditional', C.c_int, P)
_ninc = _f('LLVMCountIncoming', C.c_uint, P)
_incv = _f('LLVMGetIncomingValue', P, P, C.c_uint)
_incb = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
_nidx = _f('LLVMGetNumIndices', C.c_uint, P)
_idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
_line = _f('LLVMGetDebugLocLine', C.c_uint, P)
_dfile = _f('LLVMGetDebugLocFilename', P, P, C.POINTER(C.c_uint))
_nparams = _f('LLVMCountParams', C.c_uint, P)
_param = _f('LLVMGetParam', P, P, C.c_uint)
_init = _f('LLVMGetInitializer', P, P)
_gvt = _f('LLVMGlobalGetValueType', P, P)
_isconstg = _f('LLVMIsGlobalConstant', C.c_int, P)
_isstr = _f('LLVMIsConstantString', C.c_int, P)
_asstr = _f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
_aggel = _f('LLVMGetAggregateElement', P, P, C.c_uint)
_isnull = _f('LLVMIsNull', C.c_int, P)
_rettype = _f('LLVMGetReturnType', P, P)
_bbname = _f('LLVMGetBasicBlockName', C.c_char_p, P)
_bbasval = _f('LLVMBasicBlockAsValue', P, P)
_valbb = _f('LLVMValueAsBasicBlock', P, P)
_subp = _f('LLVMGetSubprogram', P, P)
_spline = _f('LLVMDISubprogramGetLine', C.c_uint, P)
_enumattr = _f('LLVMGetCallSiteEnumAttribute', P, P, C.c_uint, C.c_uint)
_volatile = _f('LLVMGetVolatile', C.c_int, P)
_isatomicsingle = _f('LLVMGetOrdering', C.c_int, P)
_rmwop = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
_print = _f('LLVMPrintValueToString', C.c_char_p, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add',
       9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor'}


class Ty:
    """kind: 'int' (bits), 'ptr', 'void', 'struct' (elems, offs), 'array' (elem, n), 'other'"""
    __slots__ = ('kind', 'bits', 'size', 'elems', 'offs', 'elem', 'n', 'name')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'struct':
            return self.name or 'struct'
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.kind


def _mkty(kind, bits, size):
    t = Ty()
    t.kind, t.bits, t.size, t.n = kind, bits, size, 0
    t.elems = t.offs = t.elem = t.name = None
    return t


PTRTY = _mkty('ptr', 64, 8)
_ity = {}


def int_ty(bits):
    t = _ity.get(bits)
    if t is None:
        t = _ity[bits] = _mkty('int', bits, (bits + 7) // 8)
    return t


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'x', 'id', 'line', 'file', 'fn', 'succ')

    def __repr__(self):
        return '%%%d=%s %s @%s:%s' % (self.id, self.op, self.ops, self.file, self.line)


class Block:
    __slots__ = ('idx', 'name', 'insts', 'phis', 'succ', 'pred', 'term')


class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(_isdecl(ref))
        self.dem = name            # demangled, filled by the module
        self._blocks = None
        self.nargs = _nparams(ref)

    @property
    def blocks(self):
        if self._blocks is None:
            self._decode()
        return self._blocks

    @property
    def short(self):
        s = self.__dict__.get('_short')
        if s is None:
            s = self._short = short_name(self.dem)
        return s

    def argty_(self):
        if self._blocks is None and not self.decl:
            self._decode()
        return self.argty

    @property
    def static(self):
        from .frontend import STATIC
        return self.name in STATIC

    @property
    def sret(self):
        return bool(self.nargs and _getattr(self.ref, 1, _sret_kind))

    def _decode(self):
        m = self.mod
        ids = {}
        args = {}
        for i in range(self.nargs):
            args[_param(self.ref, i)] = i
        self.argty = [m.type(_typeof(_param(self.ref, i))) for i in range(self.nargs)]
        bbs = []
        b = _first_bb(self.ref)
        while b:
            bbs.append(b)
            b = _next_bb(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        raw = []
        n = 0
        for b in bbs:
            lst = []
            i = _first_in(b)
            while i:
                ids[i] = n
                n += 1
                lst.append(i)
                i = _next_in(i)
            raw.append(lst)
        self.ninsts = n
        blocks = []

        def val(v):
            if v in ids:
                return ('v', ids[v])
            if v in args:
                return ('a', args[v])
            return m.const(v)
        sp = _subp(self.ref)
        fline = _spline(sp) if sp else 0
        for bi, b in enumerate(bbs):
            B = Block()
            B.idx = bi
            B.name = (_bbname(b) or b'').decode()
            B.insts, B.phis, B.succ, B.pred = [], [], [], []
            for i in raw[bi]:
                I = Inst()
                I.op = OPC.get(_opcode(i), 'op%d' % _opcode(i))
                I.ty = m.type(_typeof(i))
                I.id = ids[i]
                I.fn = self
                I.line = _line(i) or 0
                ln = C.c_uint()
                p = _dfile(i, C.byref(ln))
                I.file = C.string_at(p, ln.value).decode() if p else ''
                I.x = None
                I.ops = ()
                I.succ = ()
                op = I.op
                if op == 'br':
                    if _iscond(i):
                        I.ops = (val(_cond(i)),)
                        I.succ = (bidx[_succ(i, 0)], bidx[_succ(i, 1)])
                    else:
                        I.succ = (bidx[_succ(i, 0)],)
                elif op == 'switch':
                    nop = _nops(i)
                    I.ops = (val(_op(i, 0)),)
                    I.x = [(_zext(_op(i, k)), bidx[_valbb(_op(i, k + 1))]) for k in range(2, nop, 2)]
                    d = bidx[_valbb(_op(i, 1))]
                    I.succ = (d,) + tuple(t for _, t in I.x)
                elif op in ('call', 'invoke'):
                    I.ops = tuple(val(_op(i, k)) for k in range(_nargs(i)))
                    I.x = val(_called(i))
                    if op == 'invoke':
                        I.succ = (bidx[_normdest(i)],)
                elif op == 'phi':
                    I.x = {bidx[_incb(i, k)]: val(_incv(i, k)) for k in range(_ninc(i))}
                elif op == 'alloca':
                    I.x = m.type(_allocty(i))
                    I.ops = (val(_op(i, 0)),)
                elif op == 'gep':
                    I.x = m.type(_gepty(i))
                    I.ops = tuple(val(_op(i, k)) for k in range(_nops(i)))
                elif op == 'icmp':
                    I.x = PRED[_icmp(i)]
                    I.ops = (val(_op(i, 0)), val(_op(i, 1)))
                elif op in ('extractvalue', 'insertvalue'):
                    k = _nidx(i)
                    ip = _idx(i)
                    I.x = tuple(ip[j] for j in range(k))
                    I.ops = tuple(val(_op(i, k)) for k in range(_nops(i)))
                elif op == 'atomicrmw':
                    I.x = RMW.get(_rmwop(i), 'other')
                    I.ops = tuple(val(_op(i, k)) for k in range(_nops(i)))
                elif op in ('landingpad', 'resume'):
                    pass
                else:
                    I.ops = tuple(val(_op(i, k)) for k in range(_nops(i)))
                    if op == 'store':
                        I.x = m.type(_typeof(_op(i, 0)))
                    elif op in ('load',):
                        I.x = _isatomicsingle(i)
                    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
                        I.x = m.type(_typeof(_op(i, 0)))
                if op == 'phi':
                    B.phis.append(I)
                else:
                    B.insts.append(I)
            B.term = B.insts[-1]
            B.succ = list(dict.fromkeys(B.term.succ))
            blocks.append(B)
        for B in blocks:
            for s in B.succ:
                blocks[s].pred.append(B.idx)
        self.line = fline
        self._blocks = blocks
        self._analyse_cfg()

    def _analyse_cfg(self):
        """reverse post-order, natural loops (back edges to dominators), liveness"""
        bl = self._blocks
        n = len(bl)
        seen = [False] * n
        post = []
        st = [(0, iter(bl[0].succ))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(bl[s].succ)))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        self.pos = pos
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in bl[b].pred if p in idom and p in pos]
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while pos[a] > pos[c]:
                            a = idom[a]
                        while pos[c] > pos[a]:
                            c = idom[c]
                    d = a
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while pos[b] > pos[a]:
                b = idom[b]
            return a == b
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in bl[b].succ:
                if pos[s] <= pos[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x in body:
                                continue
                            body.add(x)
                            w.extend(p for p in bl[x].pred if p in pos)
                    else:
                        self.irreducible = True
        self.loops = loops          # header -> body set
        # liveness of instruction values at block entry (phis are defined on the edge)
        use = [set() for _ in bl]
        de = [set() for _ in bl]
        for B in bl:
            u, d = use[B.idx], de[B.idx]
            for I in B.phis:
                d.add(I.id)
            for I in B.insts:
                ops = I.ops
                if I.op in ('call', 'invoke'):
                    ops = ops + (I.x,)
                for o in ops:
                    if o[0] == 'v' and o[1] not in d:
                        u.add(o[1])
                d.add(I.id)
        live = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in bl[b].succ:
                    out |= live[s] - {p.id for p in bl[s].phis}
                    for p in bl[s].phis:
                        o = p.x.get(b)
                        if o and o[0] == 'v':
                            out.add(o[1])
                ne = use[b] | (out - de[b])
                if ne != live[b]:
                    live[b] = ne
                    ch = True
        # locals in memory whose content is not used any more on entry to a block
        slots = {}
        for I in bl[0].insts:
            if I.op == 'alloca' and I.x.kind in ('int', 'ptr'):
                slots[I.id] = I.x.size
        suse = [set() for _ in bl]
        sdef = [set() for _ in bl]
        for B in bl:
            for I in B.phis:
                for o in I.x.values():
                    if o[0] == 'v':
                        slots.pop(o[1], None)
            for I in B.insts:
                # the address is kept somewhere
                for k, o in enumerate(I.ops):
                    if o[0] == 'v' and o[1] in slots and not (
                            I.op in ('load', 'call', 'invoke') or I.op == 'store' and k == 1):
                        slots.pop(o[1])
        for B in bl:
            u, d = suse[B.idx], sdef[B.idx]
            for I in B.insts:
                if I.op == 'store' and I.ops[1][0] == 'v' and I.ops[1][1] in slots:
                    a = I.ops[1][1]
                    if I.ops[0] == I.ops[1]:
                        u.add(a)
                    elif I.x.size == slots[a]:
                        if a not in u:
                            d.add(a)
                        continue
                ops = I.ops
                if I.op in ('call', 'invoke'):
                    if I.x[0] == 'f' and I.x[1].startswith(('llvm.dbg', 'llvm.lifetime')):
                        if I.x[1].startswith('llvm.lifetime.end') and len(ops) > 1 and ops[1][0] == 'v' and ops[1][1] in slots and ops[1][1] not in u:
                            d.add(ops[1][1])
                        continue
                for o in ops:
                    if o[0] == 'v' and o[1] in slots and o[1] not in d:
                        u.add(o[1])
        slive = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in bl[b].succ:
                    out |= slive[s]
                ne = suse[b] | (out - sdef[b])
                if ne != slive[b]:
                    slive[b] = ne
                    ch = True
        self.slots = slots
        self.slotdead = [tuple(a for a in slots if a not in slive[b.idx]) for b in bl]
        self.unroll = self._trips(bl)
        # numbers that only say where the control flow goes on
        phis = {p.id: p for B in bl for p in B.phis}
        const = set(phis)
        ch = True
        while ch:
            ch = False
            for i in list(const):
                if any(not (o[0] in ('c', 'u') or o[0] == 'v' and o[1] in const) for o in phis[i].x.values()):
                    const.discard(i)
                    ch = True
        todo = [B.insts[-1].ops[0][1] for B in bl if B.insts and B.insts[-1].op == 'switch' and B.insts[-1].ops[0][0] == 'v']
        self.ctl = set()
        # flags that end a loop
        ins = {i.id: i for B in bl for i in list(B.phis) + B.insts}
        self.flaghead = set()
        for h in self.loops:
            B = bl[h]
            if B.term.op != 'br' or not B.term.ops or any(
                    i.op not in ('icmp', 'trunc', 'zext', 'xor', 'br') and not (
                        i.op == 'call' and i.x[0] == 'f' and i.x[1].startswith('llvm.dbg')) for i in B.insts):
                continue
            o = B.term.ops[0]
            while o[0] == 'v' and o[1] in ins and ins[o[1]].op in ('icmp', 'trunc', 'zext', 'xor') and (
                    len(ins[o[1]].ops) == 1 or ins[o[1]].ops[1][0] == 'c'):
                o = ins[o[1]].ops[0]
            if o[0] == 'v' and o[1] in const and phis[o[1]].ty.kind == 'int' and phis[o[1]].ty.bits <= 8:
                todo.append(o[1])
                self.flaghead.add(h)
        while todo:
            i = todo.pop()
            if i in const and i not in self.ctl:
                self.ctl.add(i)
                todo += [o[1] for o in phis[i].x.values() if o[0] == 'v']
        # phis of the block itself are live at its entry (after the edge)
        self.live = [live[b.idx] | {p.id for p in b.phis} for b in bl]


    def _trips(self, bl):
        """loops with a small number of rounds that can be read off: head -> rounds"""
        ins = {i.id: i for B in bl for i in list(B.phis) + B.insts}
        where = {i.id: B.idx for B in bl for i in list(B.phis) + B.insts}

        def const(o, depth=0):
            if o[0] == 'c':
                v = o[1] - (1 << o[2]) if o[2] and o[1] >> (o[2] - 1) & 1 else o[1]
                return (None, v)
            if o[0] != 'v' or depth > 8 or o[1] not in ins:
                return None
            i = ins[o[1]]
            if i.op == 'alloca':
                return (i.id, 0)
            if i.op == 'gep':
                b = const(i.ops[0], depth + 1)
                k = gepoff(i)
                return (b[0], b[1] + k) if b is not None and k is not None else None
            return None

        def gepoff(i):
            off, cur = 0, i.x
            for k, o in enumerate(i.ops[1:]):
                if o[0] != 'c':
                    return None
                v = o[1] - (1 << o[2]) if o[2] and o[1] >> (o[2] - 1) & 1 else o[1]
                if k and cur.kind == 'struct':
                    off += cur.offs[o[1]]
                    cur = cur.elems[o[1]]
                    continue
                if k:
                    cur = cur.elem
                off += v * cur.size
            return off

        def step(o, phi):
            """o = phi + constant"""
            if o[0] != 'v':
                return None
            if o[1] == phi:
                return 0
            i = ins.get(o[1])
            if i is None:
                return None
            if i.op in ('zext', 'sext', 'trunc'):
                return step(i.ops[0], phi)
            if i.op in ('add', 'sub') and i.ops[1][0] == 'c':
                b, c = step(i.ops[0], phi), const(i.ops[1])
                return None if b is None else b + (c[1] if i.op == 'add' else -c[1])
            if i.op == 'gep':
                b, c = step(i.ops[0], phi), gepoff(i)
                return None if b is None or c is None else b + c
            return None
        test = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': lambda a, b: a < b, 'slt': lambda a, b: a < b,
                'ule': lambda a, b: a <= b, 'sle': lambda a, b: a <= b, 'ugt': lambda a, b: a > b,
                'sgt': lambda a, b: a > b, 'uge': lambda a, b: a >= b, 'sge': lambda a, b: a >= b}
        out = {}
        for h, body in self.loops.items():
            latch = [p for p in bl[h].pred if p in body]
            entry = [p for p in bl[h].pred if p not in body]
            if len(latch) != 1 or not entry or len(body) > 24:
                continue
            for t in {h, latch[0]}:
                T = bl[t].term
                if T.op != 'br' or not T.ops or T.ops[0][0] != 'v' or len(T.succ) != 2:
                    continue
                I = ins.get(T.ops[0][1])
                if I is None or I.op != 'icmp' or I.x not in test or (T.succ[0] in body) == (T.succ[1] in body):
                    continue
                for phi in bl[h].phis:
                    st = step(phi.x[latch[0]], phi.id)
                    init = {const(phi.x[p]) for p in entry}
                    if not st or len(init) != 1 or None in init:
                        continue
                    base, v0 = init.pop()
                    sd = [(step(I.ops[0], phi.id), const(I.ops[1]), False), (step(I.ops[1], phi.id), const(I.ops[0]), True)]
                    for d, c, rev in sd:
                        if d is None or c is None or c[0] != base:
                            continue
                        n = 0
                        while n <= 12:
                            a, b = v0 + n * st + d, c[1]
                            r = test[I.x](b, a) if rev else test[I.x](a, b)
                            if (T.succ[0] if r else T.succ[1]) not in body:
                                break
                            n += 1
                        if n <= 12:
                            out[h] = min(n, out.get(h, n))
        return out


def short_name(dem):
    """demangled name without arguments and clone suffix"""
    s = re.sub(r' \[clone [^\]]*\]', '', dem)
    # strip trailing " const"
    s = s.removesuffix(' const')
    # cut the argument list: find the matching '(' of the last ')'
    if s.endswith(')'):
        d = 0
        for k in range(len(s) - 1, -1, -1):
            if s[k] == ')':
                d += 1
            elif s[k] == '(':
                d -= 1
                if d == 0:
                    s = s[:k]
                    break
    # strip leading return type of templates: split at top-level space
    d = 0
    cut = 0
    k = 0
    while k < len(s):
        c = s[k]
        if s.startswith('operator', k) and d == 0:
            break
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        elif c == ' ' and d == 0:
            cut = k + 1
        k += 1
    s = s[cut:]
    return s.replace('[abi:cxx11]', '')


class Module:
    def __init__(self, path):
        self.ctx = _ctx()
        mb = P()
        msg = C.c_char_p()
        if _membuf(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError('cannot read ' + path)
        m = P()
        if _parse(self.ctx, mb, C.byref(m), C.byref(msg)):
            raise RuntimeError('cannot parse IR: %s' % msg.value)
        self.m = m
        self.dl = _dl(m)
        self._types = {}
        self.funcs = {}
        self._fref = {}
        f = _first_fn(m)
        while f:
            nm = self._vname(f)
            F = Function(self, f, nm)
            self.funcs[nm] = F
            self._fref[f] = nm
            f = _next_fn(f)
        out = subprocess.run(['c++filt'], input='\n'.join(self.funcs), text=True, capture_output=True).stdout.split('\n')
        if len(out) < len(self.funcs):
            raise RuntimeError('c++filt failed')
        for F, d in zip(self.funcs.values(), out):
            F.dem = d
        self.by_short = {}
        for F in self.funcs.values():
            self.by_short.setdefault(F.short, []).append(F)
        self.globals = {}
        self._gref = {}
        g = _first_gl(m)
        while g:
            nm = self._vname(g)
            self.globals[nm] = g
            self._gref[g] = nm
            g = _next_gl(g)
        self._ginit = {}

    def _vname(self, v):
        n = C.c_size_t()
        p = _name(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        k = _tkind(t)
        T = Ty()
        self._types[t] = T
        T.bits = T.size = T.n = 0
        T.elems = T.offs = T.elem = T.name = None
        if k == 8:
            T.kind = 'int'
            T.bits = _iwidth(t)
            T.size = _abisize(self.dl, t)
        elif k == 12:
            T.kind = 'ptr'
            T.bits = 64
            T.size = 8
        elif k == 0:
            T.kind = 'void'
        elif k == 10:
            T.kind = 'struct'
            nm = _sname(t)
            T.name = nm.decode() if nm else None
            n = _nelems(t)
            T.elems = [self.type(_elem(t, i)) for i in range(n)]
            try:
                T.size = _abisize(self.dl, t)
                T.offs = [_offof(self.dl, t, i) for i in range(n)]
            except Exception:
                T.offs = []
        elif k == 11:
            T.kind = 'array'
            T.elem = self.type(_eltype(t))
            T.n = _arrlen(t)
            T.size = _abisize(self.dl, t)
        elif k in (2, 3):
            T.kind = 'float'
            T.size = _abisize(self.dl, t)
        else:
            T.kind = 'other'
        return T

    def const(self, v):
        k = _kind(v)
        # kinds: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 11 ConstantExpr
        if v in self._fref:
            return ('f', self._fref[v])
        if v in self._gref:
            return ('g', self._gref[v], 0)
        if k == 6:
            return self.const(_aliasee(v))
        t = self.type(_typeof(v))
        s = None
        if k == 18 or (t.kind == 'int' and not _isundef(v) and k != 10 and k != 11):  # ConstantInt
            try:
                return ('c', _zext(v), t.bits)
            except Exception:
                pass
        if _isundef(v):
            return ('u', t)
        if _isnull(v):
            if t.kind == 'ptr':
                return ('n',)
            if t.kind == 'int':
                return ('c', 0, t.bits)
            return ('z', t)
        if k in (10, 11) or _isce(v):
            op = OPC.get(_copcode(v))
            if op == 'gep':
                base = self.const(_op(v, 0))
                st = self.type(_gepty(v))
                off = 0
                cur = st
                for i in range(1, _nops(v)):
                    c = self.const(_op(v, i))
                    if c[0] != 'c':
                        return ('x', 'gep')
                    iv = c[1] - (1 << c[2]) if c[1] >> (c[2] - 1) else c[1]
                    if i == 1:
                        off += iv * cur.size
                    elif cur.kind == 'struct':
                        off += cur.offs[iv]
                        cur = cur.elems[iv]
                    else:
                        cur = cur.elem
                        off += iv * cur.size
                if base[0] == 'g':
                    return ('g', base[1], base[2] + off)
                return ('x', 'gep')
            if op in ('bitcast', 'addrspacecast'):
                return self.const(_op(v, 0))
            if op == 'inttoptr':
                c = self.const(_op(v, 0))
                if c[0] == 'c' and c[1] == 0:
                    return ('n',)
            return ('x', op)
        if t.kind in ('struct', 'array'):
            n = len(t.elems) if t.kind == 'struct' else t.n
            return ('agg', t, tuple(self.const(_aggel(v, i)) for i in range(min(n, 4096))))
        return ('x', 'kind%d' % k)

    def ginit(self, name):
        """list of (offset, size, const operand) of a constant global, or bytes, or None"""
        if name in self._ginit:
            return self._ginit[name]
        g = self.globals[name]
        r = None
        ini = _init(g)
        if ini and _isconstg(g):
            if _kind(ini) == 15:
                r = bytes(self.gsize(name)) if self.type(_gvt(g)).kind == 'array' else []
            elif _kind(ini) == 16 and _isstr(ini):
                n = C.c_size_t()
                p = _asstr(ini, C.byref(n))
                r = C.string_at(p, n.value)
            else:
                r = []
                self._flat(ini, 0, r)
        self._ginit[name] = r
        return r

    def gsize(self, name):
        return self.type(_gvt(self.globals[name])).size

    def _flat(self, v, off, out):
        t = self.type(_typeof(v))
        if t.kind == 'struct':
            for i in range(len(t.elems)):
                self._flat(_aggel(v, i), off + t.offs[i], out)
        elif t.kind == 'array':
            for i in range(t.n):
                self._flat(_aggel(v, i), off + i * t.elem.size, out)
        else:
            out.append((off, t.size, self.const(v)))


_isundef = _f('LLVMIsUndef', C.c_int, P)
_isce = _f('LLVMIsAConstantExpr', P, P)
_getattr = _f('LLVMGetEnumAttributeAtIndex', P, P, C.c_uint, C.c_uint)
_sret_kind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)(b'sret', 4)
_aliasee = _f('LLVMAliasGetAliasee', P, P)
