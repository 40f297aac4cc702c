"""LLVM IR reader (through the LLVM-C API of the installed libLLVM-18).

Loads the bitcode clang produced from /repo's current sources into plain Python
objects.  Nothing here interprets the code; see vc.py.
"""
import ctypes as C
import os, re, subprocess

_LIBS = ['/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so.1',
         '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so']
for _p in _LIBS:
    if os.path.exists(_p):
        L = C.CDLL(_p)
        break
else:
    raise RuntimeError('libLLVM-18 not found')

vp = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


_ctx = _f('LLVMContextCreate', vp)()
_membuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
_parse = _f('LLVMParseIRInContext', C.c_int, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p))
_getdl = _f('LLVMGetModuleDataLayout', vp, vp)
_firstfn = _f('LLVMGetFirstFunction', vp, vp)
_nextfn = _f('LLVMGetNextFunction', vp, vp)
_firstgl = _f('LLVMGetFirstGlobal', vp, vp)
_nextgl = _f('LLVMGetNextGlobal', vp, vp)
_name = _f('LLVMGetValueName2', vp, vp, C.POINTER(C.c_size_t))
_isdecl = _f('LLVMIsDeclaration', C.c_int, vp)
_countparams = _f('LLVMCountParams', C.c_uint, vp)
_getparam = _f('LLVMGetParam', vp, vp, C.c_uint)
_firstbb = _f('LLVMGetFirstBasicBlock', vp, vp)
_nextbb = _f('LLVMGetNextBasicBlock', vp, vp)
_firsti = _f('LLVMGetFirstInstruction', vp, vp)
_nexti = _f('LLVMGetNextInstruction', vp, vp)
_opcode = _f('LLVMGetInstructionOpcode', C.c_int, vp)
_typeof = _f('LLVMTypeOf', vp, vp)
_kind = _f('LLVMGetTypeKind', C.c_int, vp)
_intw = _f('LLVMGetIntTypeWidth', C.c_uint, vp)
_numops = _f('LLVMGetNumOperands', C.c_int, vp)
_op = _f('LLVMGetOperand', vp, vp, C.c_uint)
_icmp = _f('LLVMGetICmpPredicate', C.c_int, vp)
_fcmp = _f('LLVMGetFCmpPredicate', C.c_int, vp)
_numin = _f('LLVMCountIncoming', C.c_uint, vp)
_inval = _f('LLVMGetIncomingValue', vp, vp, C.c_uint)
_inbb = _f('LLVMGetIncomingBlock', vp, vp, C.c_uint)
_numsucc = _f('LLVMGetNumSuccessors', C.c_uint, vp)
_succ = _f('LLVMGetSuccessor', vp, vp, C.c_uint)
_gepty = _f('LLVMGetGEPSourceElementType', vp, vp)
_allocty = _f('LLVMGetAllocatedType', vp, vp)
_isconst = _f('LLVMIsConstant', C.c_int, vp)
_valkind = _f('LLVMGetValueKind', C.c_int, vp)
_zext = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, vp)
_getreal = _f('LLVMConstRealGetDouble', C.c_double, vp, C.POINTER(C.c_int))
_constop = _f('LLVMGetConstOpcode', C.c_int, vp)
_isnull = _f('LLVMIsNull', C.c_int, vp)
_init = _f('LLVMGetInitializer', vp, vp)
_isglobconst = _f('LLVMIsGlobalConstant', C.c_int, vp)
_gvt = _f('LLVMGlobalGetValueType', vp, vp)
_sizeof = _f('LLVMABISizeOfType', C.c_ulonglong, vp, vp)
_offel = _f('LLVMOffsetOfElement', C.c_ulonglong, vp, vp, C.c_uint)
_nel = _f('LLVMCountStructElementTypes', C.c_uint, vp)
_elat = _f('LLVMStructGetTypeAtIndex', vp, vp, C.c_uint)
_elty = _f('LLVMGetElementType', vp, vp)
_arrlen = _f('LLVMGetArrayLength', C.c_uint, vp)
_veclen = _f('LLVMGetVectorSize', C.c_uint, vp)
_linkage = _f('LLVMGetLinkage', C.c_int, vp)
_firstuse = _f('LLVMGetFirstUse', vp, vp)
_nextuse = _f('LLVMGetNextUse', vp, vp)
_user = _f('LLVMGetUser', vp, vp)
_constop = _f('LLVMGetConstOpcode', C.c_int, vp)
_print = _f('LLVMPrintValueToString', vp, vp)
_printt = _f('LLVMPrintTypeToString', vp, vp)
_dispose = _f('LLVMDisposeMessage', None, vp)
_aggel = _f('LLVMGetAggregateElement', vp, vp, C.c_uint)
_calledv = _f('LLVMGetCalledValue', vp, vp)
_numarg = _f('LLVMGetNumArgOperands', C.c_uint, vp)
_nidx = _f('LLVMGetNumIndices', C.c_uint, vp)
_idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), vp)
_nsw = _f('LLVMGetNSW', C.c_int, vp)
_nuw = _f('LLVMGetNUW', C.c_int, vp)
_rmw = _f('LLVMGetAtomicRMWBinOp', C.c_int, vp)
_order = _f('LLVMGetOrdering', C.c_int, vp)
_inbounds = _f('LLVMIsInBounds', C.c_int, vp)
_dbgline = _f('LLVMGetDebugLocLine', C.c_uint, vp)
_dbgfile = _f('LLVMGetDebugLocFilename', vp, vp, C.POINTER(C.c_uint))
_structname = _f('LLVMGetStructName', C.c_char_p, vp)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 67: 'callbr', 49: 'vaarg'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}


class Type:
    __slots__ = ('k', 'w', 'size', 'els', 'offs', 'el', 'n', 'name', 's')

    def __repr__(self):
        return self.s


class Const:
    """kind: int, fp, null, undef, global, func, agg, zero, cexpr"""
    __slots__ = ('kind', 'ty', 'val', 'ops', 'extra')

    def __init__(self, kind, ty, val=None, ops=None, extra=None):
        self.kind, self.ty, self.val, self.ops, self.extra = kind, ty, val, ops, extra

    def __repr__(self):
        return 'Const(%s,%s)' % (self.kind, self.val)


class SSA:
    """an SSA value: argument or instruction"""
    __slots__ = ('id', 'ty', 'name', 'op', 'ops', 'x', 'block', 'line', 'file', 'fn')

    def __repr__(self):
        return '%%%s#%d' % (self.name or self.op, self.id)


class Block:
    __slots__ = ('id', 'name', 'insts', 'phis', 'succs', 'preds', 'fn', 'doomed', 'term')

    def __repr__(self):
        return 'bb%d' % self.id


class Function:
    def __repr__(self):
        return 'fn ' + (self.dname or self.name)


class Loop:
    pass


class Module:
    def __init__(self, path):
        buf, err = vp(), C.c_char_p()
        if _membuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = vp()
        if _parse(_ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = _getdl(m)
        self.types = {}
        self.fns = {}
        self.globals = {}
        self._fnptr = {}
        self._glptr = {}
        f = _firstfn(m)
        while f:
            fn = Function()
            fn.ptr = f
            fn.name = self._nm(f)
            fn.decl = bool(_isdecl(f))
            fn.loaded = False
            fn.mod = self
            fn.dname = None
            self.fns[fn.name] = fn
            self._fnptr[f] = fn
            f = _nextfn(f)
        g = _firstgl(m)
        while g:
            self._glptr[g] = self._nm(g)
            self.globals[self._nm(g)] = g
            g = _nextgl(g)
        names = list(self.fns) + list(self.globals)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.demangle = dict(zip(names, out))
        for fn in self.fns.values():
            fn.dname = self.demangle[fn.name]
        self._icache = {}

    def _nm(self, v):
        n = C.c_size_t()
        p = _name(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        if t in self.types:
            return self.types[t]
        r = Type()
        self.types[t] = r
        k = _kind(t)
        r.els = r.offs = r.el = None
        r.w = r.n = 0
        r.size = 0
        r.name = None
        p = _printt(t)
        r.s = C.string_at(p).decode()
        _dispose(p)
        if k == 0:
            r.k = 'void'
        elif k == 2:
            r.k = 'fp'; r.w = 32
        elif k == 3:
            r.k = 'fp'; r.w = 64
        elif k in (4, 5, 6):
            r.k = 'fp'; r.w = 80
        elif k == 7:
            r.k = 'label'
        elif k == 8:
            r.k = 'int'; r.w = _intw(t)
        elif k == 9:
            r.k = 'fn'
        elif k == 10:
            r.k = 'struct'
            r.n = _nel(t)
            r.els = [self.ty(_elat(t, i)) for i in range(r.n)]
            sized = all(e.k != 'opaque' for e in r.els)
            try:
                r.offs = [_offel(self.dl, t, i) for i in range(r.n)]
            except Exception:
                r.offs = None
            nm = _structname(t)
            r.name = nm.decode() if nm else None
        elif k == 11:
            r.k = 'array'; r.n = _arrlen(t); r.el = self.ty(_elty(t))
        elif k == 12:
            r.k = 'ptr'; r.w = 64
        elif k == 13:
            r.k = 'vector'; r.n = _veclen(t); r.el = self.ty(_elty(t))
        elif k == 14:
            r.k = 'metadata'
        elif k == 16:
            r.k = 'token'
        else:
            r.k = 'other%d' % k
        if r.k in ('int', 'fp', 'ptr', 'struct', 'array', 'vector'):
            if r.k == 'struct' and r.n == 0 and 'opaque' in r.s:
                r.k = 'opaque'
            else:
                r.size = _sizeof(self.dl, t)
        return r

    def const(self, v):
        ty = self.ty(_typeof(v))
        vk = _valkind(v)
        # LLVMValueKind: 0 Arg,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 IFunc,8 GlobalVar,
        # 9 BlockAddress,10 ConstantExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,
        # 16 DataArray,17 DataVector,18 Int,19 FP,20 PtrNull,21 TokenNone,22 MDAsValue,23 InlineAsm,24 Instruction,25 Poison
        if vk == 18:
            if ty.w > 64:
                p = _print(v); s = C.string_at(p).decode(); _dispose(p)
                return Const('int', ty, int(s.split()[-1]) % (1 << ty.w))
            return Const('int', ty, _zext(v))
        if vk == 19:
            li = C.c_int()
            return Const('fp', ty, _getreal(v, C.byref(li)))
        if vk == 20:
            return Const('null', ty)
        if vk in (14, 25):
            return Const('undef', ty)
        if vk == 5:
            return Const('func', ty, self._fnptr[v])
        if vk == 8:
            return Const('global', ty, self._glptr[v])
        if vk == 6:
            return Const('alias', ty, self._nm(v))
        if vk == 15:
            return Const('zero', ty)
        if vk in (11, 12, 13, 16, 17):
            n = ty.n
            return Const('agg', ty, [self.const(_aggel(v, i)) for i in range(n)])
        if vk == 10:
            op = OPC.get(_constop(v), 'op%d' % _constop(v))
            ops = [self.const(_op(v, i)) for i in range(_numops(v))]
            ex = None
            if op == 'gep':
                ex = self.ty(_gepty(v))
            return Const('cexpr', ty, op, ops, ex)
        if vk == 22:
            return Const('metadata', ty)
        if vk == 23:
            p = _print(v); s = C.string_at(p).decode(); _dispose(p)
            return Const('asm', ty, s)
        return Const('other%d' % vk, ty)

    def global_init(self, name):
        g = self.globals[name]
        i = _init(g)
        return self.const(i) if i else None

    def global_type(self, name):
        return self.ty(_gvt(self.globals[name]))

    def global_is_const(self, name):
        return bool(_isglobconst(self.globals[name])) or self.only_read(name)

    def only_read(self, name):
        """a variable of this translation unit or function alone that is only indexed and loaded from is a constant"""
        if not hasattr(self, '_only_read'):
            self._only_read = {}
        if name not in self._only_read:
            g = self.globals[name]
            todo, ok = [g], _linkage(g) in (8, 9) or name.startswith('_ZZ') and _linkage(g) in (3, 5)
            while todo and ok:
                u = _firstuse(todo.pop())
                while u and ok:
                    x = _user(u)
                    if _valkind(x) == 24:
                        op = _opcode(x)
                        if op == 29:                       # getelementptr: whatever it is used for
                            todo.append(x)
                        elif op != 27:                     # load
                            ok = False
                    elif _valkind(x) == 10 and _constop(x) == 29:
                        todo.append(x)
                    else:
                        ok = False
                    u = _nextuse(u)
            self._only_read[name] = ok
        return self._only_read[name]

    def load(self, fn):
        if fn.loaded or fn.decl:
            return fn
        fn.loaded = True
        vals = {}
        cnt = [0]

        def mk(v, op):
            s = SSA()
            s.id = cnt[0]; cnt[0] += 1
            s.ty = self.ty(_typeof(v))
            s.name = self._nm(v)
            s.op = op
            s.ops = []
            s.x = {}
            s.fn = fn
            s.line = 0; s.file = None
            vals[v] = s
            return s
        fn.args = [mk(_getparam(fn.ptr, i), 'arg') for i in range(_countparams(fn.ptr))]
        blocks = {}
        fn.blocks = []
        b = _firstbb(fn.ptr)
        raw = []
        while b:
            bl = Block()
            bl.id = len(fn.blocks); bl.insts = []; bl.phis = []; bl.succs = []; bl.preds = []; bl.fn = fn
            bl.name = ''
            blocks[b] = bl
            fn.blocks.append(bl)
            i = _firsti(b)
            while i:
                s = mk(i, OPC.get(_opcode(i), 'op%d' % _opcode(i)))
                s.block = bl
                raw.append((i, s, bl))
                i = _nexti(i)
            b = _nextbb(b)

        def val(v):
            if v in vals:
                return vals[v]
            if v in blocks:
                return blocks[v]
            return self.const(v)
        for i, s, bl in raw:
            n = _numops(i)
            s.line = _dbgline(i)
            ln = C.c_uint()
            p = _dbgfile(i, C.byref(ln)) if s.line else None
            s.file = C.string_at(p, ln.value).decode() if p else None
            if s.op == 'phi':
                s.ops = [(val(_inval(i, k)), blocks[_inbb(i, k)]) for k in range(_numin(i))]
                bl.phis.append(s)
                continue
            if s.op in ('br', 'switch', 'invoke', 'indirectbr'):
                bl.succs = [blocks[_succ(i, k)] for k in range(_numsucc(i))]
            if s.op == 'br':
                s.ops = [val(_op(i, 0))] if len(bl.succs) == 2 else []
            elif s.op == 'switch':
                cond = val(_op(i, 0))
                cases = [(val(_op(i, k)), blocks[_op(i, k + 1)] if _op(i, k + 1) in blocks else None)
                         for k in range(2, n, 2)]
                # successors: [default, case1, ...]
                s.ops = [cond]
                s.x['cases'] = [(cases[k][0], bl.succs[k + 1]) for k in range(len(cases))]
                s.x['default'] = bl.succs[0]
            elif s.op in ('call', 'invoke'):
                na = _numarg(i)
                s.ops = [val(_op(i, k)) for k in range(na)]
                s.x['callee'] = val(_calledv(i))
            else:
                s.ops = [val(_op(i, k)) for k in range(n)]
            if s.op == 'icmp':
                s.x['pred'] = ICMP[_icmp(i)]
            elif s.op == 'fcmp':
                s.x['pred'] = FCMP[_fcmp(i)]
            elif s.op == 'gep':
                s.x['ty'] = self.ty(_gepty(i))
                s.x['inbounds'] = bool(_inbounds(i))
            elif s.op == 'alloca':
                s.x['ty'] = self.ty(_allocty(i))
            elif s.op in ('extractvalue', 'insertvalue'):
                k = _nidx(i); p = _idx(i)
                s.x['idx'] = [p[j] for j in range(k)]
            elif s.op in ('add', 'sub', 'mul', 'shl'):
                s.x['nsw'] = bool(_nsw(i)); s.x['nuw'] = bool(_nuw(i))
            elif s.op == 'atomicrmw':
                s.x['rmw'] = RMW.get(_rmw(i), '?')
                s.x['ordering'] = _order(i)
            bl.insts.append(s)
        for bl in fn.blocks:
            bl.term = bl.insts[-1] if bl.insts else None
            for t in bl.succs:
                t.preds.append(bl)
        self._doomed(fn)
        self._loops(fn)
        return fn

    def _doomed(self, fn):
        """blocks from which no return is reachable"""
        good = set()
        work = [b for b in fn.blocks if b.term is not None and b.term.op == 'ret']
        good.update(b.id for b in work)
        while work:
            b = work.pop()
            for p in b.preds:
                if p.id not in good:
                    good.add(p.id); work.append(p)
        for b in fn.blocks:
            b.doomed = b.id not in good

    def _loops(self, fn):
        # dominators
        order, seen = [], set()
        stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b); stack.pop()
        order.reverse()
        num = {b.id: i for i, b in enumerate(order)}
        idom = {order[0].id: order[0].id}
        changed = True
        bid = {b.id: b for b in order}

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p.id for p in b.preds if p.id in idom]
                n = ps[0]
                for p in ps[1:]:
                    n = inter(p, n)
                if idom.get(b.id) != n:
                    idom[b.id] = n; changed = True

        def dom(a, b):  # a dominates b
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]
        fn.loops = {}
        for b in order:
            for s in b.succs:
                if s.id in num and dom(s.id, b.id):
                    l = fn.loops.get(s.id)
                    if l is None:
                        l = Loop(); l.header = s; l.blocks = {s.id}; l.latches = []
                        fn.loops[s.id] = l
                    l.latches.append(b)
                    w = [b]
                    while w:
                        x = w.pop()
                        if x.id in l.blocks:
                            continue
                        l.blocks.add(x.id)
                        w.extend(p for p in x.preds if p.id in num)
        fn.irreducible = any(num[s.id] <= num[b.id] and not dom(s.id, b.id) for b in order for s in b.succs if s.id in num)

    def find(self, pat, decl=None):
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(f.dname) and (decl is None or f.decl == decl)]
