#!/usr/bin/env python3
"""ir2c: translate LLVM IR (clang 18, x86-64) to plain C for CBMC (and, for validation, for gcc).

usage: ir2c.py in.ll out.c out.json [entry ...]

Integers become unsigned machine words (canonical, zero extended), pointers become u8*,
memory accesses become typed dereferences, GEPs byte arithmetic.  UBSan traps, abort(),
__assert_fail, std::terminate and reached unmodelled externals become assertions.
"""
import sys, json, re
import ctypes as C
from llvmc import *
import llvmc as L

sys.setrecursionlimit(100000)

class Unsupported(Exception): pass

UBK = {0:'add_overflow',1:'builtin_unreachable',2:'cfi',3:'divrem_overflow',4:'dynamic_type_cache_miss',5:'float_cast_overflow',
 6:'function_type_mismatch',7:'implicit_conversion',8:'invalid_builtin',9:'invalid_objc_cast',10:'load_invalid_value',
 11:'missing_return',12:'mul_overflow',13:'negate_overflow',14:'nullability_arg',15:'nullability_return',16:'nonnull_arg',
 17:'nonnull_return',18:'out_of_bounds',19:'pointer_overflow',20:'shift_out_of_bounds',21:'sub_overflow',22:'type_mismatch',
 23:'alignment_assumption',24:'vla_bound_not_positive'}

class Mod:
    def __init__(self, path):
        self.m = load(path)
        self.dl = GetModuleDataLayout(self.m)
        self.types = {}      # typeptr -> cname
        self.typedecls = []
        self.byshape = {}
        self.gnames = {}
        self.funcs = {}
        self.todo = []
        self.done = set()
        self.globs_needed = []
        self.protos = []
        self.bodies = []
        self.externals = set()
        self.nassert = 0
        self.fnlist = []
        self.byval_kind = GetEnumAttributeKindForName(b"byval", 5)
        self.fnames = {}
        self.loopinfo = {}

    # ---- types
    def ct(self, t):
        k = TK[GetTypeKind(t)]
        if k == 'int':
            w = GetIntTypeWidth(t)
            return self.iw(w)
        if k == 'ptr': return 'u8*'
        if k == 'void': return 'void'
        if k == 'float': return 'float'
        if k == 'double': return 'double'
        if k == 'x86_fp80': return 'long double'
        if k in ('struct', 'array', 'vector'):
            return self.agg(t, k)
        raise Unsupported('type ' + tstr(t))
    def iw(self, w):
        if w <= 8: return 'u8'
        if w <= 16: return 'u16'
        if w <= 32: return 'u32'
        if w <= 64: return 'u64'
        if w <= 128: return 'u128'
        raise Unsupported('i%d' % w)
    def agg(self, t, k):
        if t in self.types: return self.types[t]
        if k == 'struct':
            if IsOpaqueStruct(t): return 'u8'
            n = CountStructElementTypes(t)
            el = [self.ct(StructGetTypeAtIndex(t, j)) for j in range(n)]
            packed = IsPackedStruct(t)
            body = ' '.join('%s f%d;' % (e, j) for j, e in enumerate(el))
            key = ('s', body, packed)
            if key not in self.byshape:
                cn = 'struct S%d' % len(self.byshape)
                self.byshape[key] = cn
                nm = GetStructName(t) or b''
                self.typedecls.append('%s { %s }%s; /* %s */' % (cn, body, ' __attribute__((packed))' if packed else '', nm.decode().replace('*/', '')))
                self.typedecls.append('_Static_assert(sizeof(%s) == %d, "layout");' % (cn, ABISizeOfType(self.dl, t)) if n else '')
            self.types[t] = self.byshape[key]
        elif k == 'array':
            e = self.ct(GetElementType(t)); n = GetArrayLength2(t)
            key = ('a', e, n)
            if key not in self.byshape:
                cn = 'struct S%d' % len(self.byshape)
                self.byshape[key] = cn
                self.typedecls.append('%s { %s a[%d]; };' % (cn, e, n))
            self.types[t] = self.byshape[key]
        else:
            e = self.ct(GetElementType(t)); n = GetVectorSize(t)
            ek = TK[GetTypeKind(GetElementType(t))]
            if ek == 'int' and GetIntTypeWidth(GetElementType(t)) not in (8, 16, 32, 64):
                if GetIntTypeWidth(GetElementType(t)) != 1: raise Unsupported('vector ' + tstr(t))
            key = ('v', e, n)
            if key not in self.byshape:
                cn = 'struct S%d' % len(self.byshape)
                self.byshape[key] = cn
                self.typedecls.append('%s { %s a[%d]; };' % (cn, e, n))
            self.types[t] = self.byshape[key]
        return self.types[t]

    # ---- names
    def fname(self, f):
        if f in self.fnames: return self.fnames[f]
        n = name(f)
        c = re.sub(r'[^A-Za-z0-9_]', '_', n)
        if len(c) > 60: c = c[:60]
        c = 'F%d_%s' % (len(self.fnames), c)
        self.fnames[f] = c
        if f not in self.done:
            self.todo.append(f)
        return c
    def gname(self, g):
        if g not in self.gnames:
            c = 'G%d_%s' % (len(self.gnames), re.sub(r'[^A-Za-z0-9_]', '_', name(g))[:40])
            self.gnames[g] = c
            self.globs_needed.append(g)
        return self.gnames[g]

    # ---- constants
    def const(self, v, init=False):
        """C expression for a constant value (init: inside a static initialiser)."""
        t = TypeOf(v); k = TK[GetTypeKind(t)]
        if IsAConstantInt(v):
            w = GetIntTypeWidth(t)
            if w > 64:
                s_ = pstr(v).split()[-1]
                n = int(s_) & ((1 << w) - 1)
                return '((((u128)0x%xUL)<<64)|0x%xUL)' % (n >> 64, n & (2**64 - 1))
            x = ConstIntGetZExtValue(v) & ((1 << w) - 1)
            if w == 1: return str(x)
            return '((%s)%dUL)' % (self.iw(w), x)
        if IsAConstantFP(v):
            lost = i()
            d = ConstRealGetDouble(v, C.byref(lost))
            if lost.value: raise Unsupported('fp const ' + pstr(v))
            if d != d: return '(0.0/0.0)'
            if d in (float('inf'), float('-inf')): return '(%s1.0/0.0)' % ('-' if d < 0 else '')
            return '((%s)%s)' % (self.ct(t), float.hex(d))
        if IsAConstantPointerNull(v): return '((u8*)0)'
        if IsAPoisonValue(v) or IsAUndefValue(v):
            if init: return self.zero(t, init)
            return self.undef(t)
        if IsAFunction(v): return '((u8*)&%s)' % self.fname(v)
        if IsAGlobalVariable(v): return '((u8*)&%s)' % self.gname(v)
        if IsAGlobalAlias(v): return self.const(AliasGetAliasee(v), init)
        if IsAConstantAggregateZero(v): return self.zero(t, init)
        if k in ('struct', 'array', 'vector'):
            if k == 'struct': n = CountStructElementTypes(t)
            elif k == 'array': n = GetArrayLength2(t)
            else: n = GetVectorSize(t)
            els = [self.const(GetAggregateElement(v, j), True) for j in range(n)]
            b = '{' + ','.join(els) + '}'
            if k != 'struct': b = '{' + b + '}' if n else '{}'
            return b if init else '((%s)%s)' % (self.ct(t), b)
        if IsAConstantExpr(v):
            op = OP.get(GetConstOpcode(v))
            if op == 'gep': return self.gep(v, lambda x: self.const(x, init))
            if op in ('bitcast', 'addrspacecast'): return self.const(GetOperand(v, 0), init)
            if op == 'ptrtoint': return '((%s)%s)' % (self.ct(t), self.const(GetOperand(v, 0), init))
            if op == 'inttoptr': return '((u8*)%s)' % self.const(GetOperand(v, 0), init)
            if op in ('add', 'sub', 'mul', 'xor', 'shl'):
                o = {'add': '+', 'sub': '-', 'mul': '*', 'xor': '^', 'shl': '<<'}[op]
                return '((%s)(%s %s %s))' % (self.ct(t), self.const(GetOperand(v, 0), init), o, self.const(GetOperand(v, 1), init))
            if op == 'trunc':
                return '((%s)%s)' % (self.ct(t), self.const(GetOperand(v, 0), init))
            raise Unsupported('constexpr %s: %s' % (op, pstr(v)))
        raise Unsupported('constant ' + pstr(v)[:200])
    def zero(self, t, init):
        k = TK[GetTypeKind(t)]
        if k == 'ptr': return '((u8*)0)'
        if k in ('struct', 'array', 'vector'):
            empty = (k == 'struct' and CountStructElementTypes(t) == 0) or (k == 'array' and GetArrayLength2(t) == 0)
            def z(t):
                k = TK[GetTypeKind(t)]
                if k == 'struct':
                    n = CountStructElementTypes(t)
                    return '{' + (z(StructGetTypeAtIndex(t, 0)) if n else '') + '}'
                if k in ('array', 'vector'):
                    n = GetArrayLength2(t) if k == 'array' else GetVectorSize(t)
                    return '{{' + (z(GetElementType(t)) if n else '') + '}}'
                if k == 'ptr': return '0'
                return '0'
            return z(t) if init else '((%s)%s)' % (self.ct(t), z(t))
        return '((%s)0)' % self.ct(t)
    def undef(self, t):
        c = self.ct(t)
        nm = 'undef_' + re.sub(r'[^A-Za-z0-9]', '_', c.replace('*', 'p'))
        if nm not in self.undefs:
            self.undefs[nm] = c
        e = nm + '()'
        k = TK[GetTypeKind(t)]
        if k == 'int':
            e = self.mask(e, GetIntTypeWidth(t))
        return e
    def mask(self, e, w):
        if w in (8, 16, 32, 64, 128): return '((%s)(%s))' % (self.iw(w), e)
        if w > 64: return '((u128)((%s) & ((((u128)1)<<%d)-1)))' % (e, w)
        return '((%s)((%s) & 0x%xUL))' % (self.iw(w), e, (1 << w) - 1)

    def gep(self, v, val):
        n = GetNumOperands(v)
        st = GetGEPSourceElementType(v)
        base = val(GetOperand(v, 0))
        off = 0; terms = []
        t = st
        for j in range(1, n):
            ix = GetOperand(v, j)
            if j > 1:
                k = TK[GetTypeKind(t)]
                if k == 'struct':
                    c = ConstIntGetZExtValue(ix)
                    off += OffsetOfElement(self.dl, t, int(c)); t = StructGetTypeAtIndex(t, int(c)); continue
                t = GetElementType(t)
            sz_ = ABISizeOfType(self.dl, t)
            if IsAConstantInt(ix):
                w = GetIntTypeWidth(TypeOf(ix)); c = ConstIntGetZExtValue(ix) & ((1 << w) - 1)
                if c >> (w - 1): c -= 1 << w
                off += c * sz_
            else:
                w = GetIntTypeWidth(TypeOf(ix))
                e = self.sx(val(ix), w, 64)
                terms.append('%s*%d' % (e, sz_) if sz_ != 1 else e)
        r = base
        if terms:
            r = '%s + (%s)' % (r, ' + '.join(terms))
        if off: r = '%s %s %d' % (r, '+' if off > 0 else '-', abs(off))
        return '(%s)' % r
    def sx(self, e, w, to=64):
        st = 's%d' % (to if to in (8, 16, 32, 64, 128) else (64 if to <= 64 else 128))
        if w in (8, 16, 32, 64, 128):
            return '((%s)(s%d)%s)' % (st, w, e)
        W = 64 if w < 64 else 128
        return '((%s)(((s%d)((u%d)%s << %d)) >> %d))' % (st, W, W, e, W - w, W - w)

    def run(self, entries):
        self.undefs = {}
        byname = {}
        f = GetFirstFunction(self.m)
        while f:
            byname[name(f)] = f
            f = GetNextFunction(f)
        ctors = []
        g = GetFirstGlobal(self.m)
        while g:
            if name(g) == 'llvm.global_ctors' and GetInitializer(g):
                it = GetInitializer(g)
                n = GetArrayLength2(TypeOf(it))
                for j in range(n):
                    e = GetAggregateElement(it, j)
                    p = GetAggregateElement(e, 0); fn_ = GetAggregateElement(e, 1)
                    ctors.append((ConstIntGetZExtValue(p), fn_))
            g = GetNextGlobal(g)
        for e in entries:
            if e not in byname: raise SystemExit('no function ' + e)
        ents = [(e, self.fname(byname[e])) for e in entries]
        ctors.sort(key=lambda x: x[0])
        ctn = [self.fname(c) for _, c in ctors]
        while self.todo or self.globs_needed:
            while self.todo:
                f = self.todo.pop()
                if f in self.done: continue
                self.done.add(f)
                FnTr(self, f).go()
            # globals may pull in functions
            gl = self.globs_needed; self.globs_needed = []
            for g in gl:
                t = GlobalGetValueType(g)
                c = self.ct(t)
                n = self.gnames[g]
                it = GetInitializer(g)
                self.protos.append('extern %s %s; /* %s */' % (c, n, name(g)))
                if it:
                    self.gdefs.append('%s %s = %s;' % (c, n, self.const(it, True)))
                else:
                    self.externals.add('global ' + name(g))
                    self.gdefs.append('%s %s;' % (c, n))
        out = []
        for e, n in ents:
            out.append('void verif_entry_%s(void) { %s %s(); }' % (e, ' '.join('%s();' % c for c in ctn), n))
        return out
    gdefs = None

RUNTIME = {}

class FnTr:
    def __init__(self, M, f):
        self.M = M; self.f = f; self.names = {}; self.decls = []; self.code = []; self.bb = {}
        self.n = 0

    def sig(self, cname):
        M = self.M; f = self.f
        ft = GlobalGetValueType(f)
        ret = M.ct(GetReturnType(ft))
        np = CountParams(f)
        ps = []
        for j in range(np):
            p = GetParam(f, j)
            self.names[p] = 'a%d' % j
            ps.append('%s a%d' % (M.ct(TypeOf(p)), j))
        return '%s %s(%s)' % (ret, cname, ', '.join(ps) or 'void')

    def go(self):
        M = self.M; f = self.f; nm = name(f)
        cname = M.fname(f)
        if IsDeclaration(f):
            if nm.startswith('llvm.'):
                return
            return self.external(nm, cname)
        sig = self.sig(cname)
        M.protos.append(sig + '; /* %s */' % nm)
        bbs = []
        b = GetFirstBasicBlock(f)
        while b:
            self.bb[b] = 'B%d' % len(bbs); bbs.append(b); b = GetNextBasicBlock(b)
        # byval copies
        pre = []
        for j in range(CountParams(f)):
            a = GetEnumAttributeAtIndex(f, j + 1, M.byval_kind)
            if a:
                t = GetTypeAttributeValue(a); c = M.ct(t)
                self.decls.append('%s byv%d;' % (c, j))
                pre.append('byv%d = *(%s*)a%d; a%d = (u8*)&byv%d;' % (j, c, j, j, j))
        # infer pointee types for aggregate copies
        self.ptype = {}
        for b in bbs:
            ins = GetFirstInstruction(b)
            while ins:
                if OP.get(GetInstructionOpcode(ins)) == 'gep':
                    st = GetGEPSourceElementType(ins)
                    if TK[GetTypeKind(st)] == 'struct':
                        self.ptype.setdefault(GetOperand(ins, 0), st)
                ins = GetNextInstruction(ins)
        self.phis = {}
        for b in bbs:
            ins = GetFirstInstruction(b)
            while ins and GetInstructionOpcode(ins) == 44:
                n = CountIncoming(ins)
                for j in range(n):
                    self.phis.setdefault((GetIncomingBlock(ins, j), b), []).append((ins, GetIncomingValue(ins, j)))
                ins = GetNextInstruction(ins)
        for b in bbs:
            self.code.append('%s: ;' % self.bb[b])
            ins = GetFirstInstruction(b)
            while ins:
                try:
                    self.ins(ins, b)
                except Unsupported as e:
                    self.code.append('  __CPROVER_assert(0, "UNSUPPORTED %s"); __CPROVER_assume(0);' % str(e).replace('"', "'").replace('\\', '/').replace('\n', ' ')[:150])
                ins = GetNextInstruction(ins)
        M.fnlist.append(nm)
        M.bodies.append('%s\n{\n  %s\n  %s\n%s\n}\n' % (sig, ' '.join(self.decls), ' '.join(pre), '\n'.join(self.code)))

    def external(self, nm, cname):
        M = self.M
        ft = GlobalGetValueType(self.f)
        if IsFunctionVarArg(ft):
            ret = M.ct(GetReturnType(ft))
            sig = '%s %s()' % (ret, cname)
        else:
            sig = self.sig(cname)
        M.protos.append(sig + '; /* extern %s */' % nm)
        np = CountParams(self.f)
        ret = M.ct(GetReturnType(ft))
        args = ', '.join('a%d' % j for j in range(np))
        simple = {'verif_assert', 'verif_assume', 'verif_reach', 'verif_u8', 'verif_u16', 'verif_u32', 'verif_u64', 'verif_bool',
            'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'strchr', 'strcat', 'strnlen',
            'wmemcpy', 'wcslen', 'toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'abs', 'labs', 'verif_f32', 'verif_f64', 'verif_known', 'verif_bytes', 'bcmp', 'strtol', 'free', 'malloc',
            'isupper', 'islower', 'isxdigit', 'isalnum', 'isprint', 'div', 'ldiv', 'lldiv', 'verif_range', 'verif_same_object'}
        M.externals.add(nm)
        if nm in simple:
            call = 'rt_%s(%s)' % (nm, args)
            if nm in ('verif_assert', 'verif_reach'):
                raise Unsupported('address of ' + nm)
        elif nm in ('abort', '_ZSt9terminatev', 'exit', '__cxa_pure_virtual', '__clang_call_terminate', '_ZSt20__throw_length_errorPKc',
                    '__assert_fail', '__cxa_throw', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
                    '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__cxa_bad_cast', '__cxa_bad_typeid', '__cxa_throw_bad_array_new_length') or nm.startswith('_ZSt') and '__throw_' in nm:
            M.bodies.append('%s { __CPROVER_assert(0, "ABORT: %s reached"); __CPROVER_assume(0); }' % (sig if np or True else sig, nm))
            return
        elif nm in ('_Znwm', '_Znam'):
            call = 'rt_new(a0)'
        elif nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            call = 'rt_delete(a0)'
        elif nm in ('__cxa_atexit', '__cxa_guard_release', '__cxa_begin_catch', '__cxa_end_catch', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_free_exception'):
            if ret == 'void': call = '(void)0'
            else: call = '(%s)0' % ret
        elif nm == '__cxa_guard_acquire':
            call = 'rt_guard_acquire(a0)'
        elif nm == '__cxa_allocate_exception':
            call = 'rt_new(a0)'
        elif nm.startswith('verif_native_'):
            call = '(%s)0' % ret if ret != 'void' else '(void)0'
        elif nm in ('sqrt', 'floor', 'ceil', 'fabs', 'trunc', 'round', 'pow', 'fmod'):
            call = '%s(%s)' % (nm, args)
        else:
            M.bodies.append('%s { __CPROVER_assert(0, "UNMODELLED external %s"); __CPROVER_assume(0); }' % (sig, nm))
            return
        if ret == 'void': M.bodies.append('%s { %s; }' % (sig, call))
        else: M.bodies.append('%s { return (%s)%s; }' % (sig, ret, call))

    # ---- values
    def v(self, x):
        if x in self.names: return self.names[x]
        if IsAConstant(x): return self.M.const(x)
        if IsAInlineAsm(x): raise Unsupported('inline asm')
        if IsAInstruction(x):
            return self.define(x)
        raise Unsupported('value ' + pstr(x)[:100])
    def define(self, ins):
        if ins not in self.names:
            self.n += 1
            nm = 'v%d' % self.n
            self.names[ins] = nm
            t = self.M.ct(TypeOf(ins))
            if GetInstructionOpcode(ins) == 26:
                pass
            self.decls.append('%s %s;' % (t, nm))
        return self.names[ins]
    def emit(self, s_): self.code.append('  ' + s_)

    def edge(self, src, dst):
        """copies for phis then goto"""
        ph = self.phis.get((src, dst), [])
        seen = set(); out = []
        lst = []
        for p, val in ph:
            if p in seen: continue
            seen.add(p); lst.append((p, val))
        if len(lst) == 1:
            p, val = lst[0]
            out.append('%s = %s;' % (self.define(p), self.v(val)))
        elif lst:
            self.n += 1
            tmps = []
            for p, val in lst:
                self.n += 1
                t = 't%d' % self.n
                self.decls.append('%s %s;' % (self.M.ct(TypeOf(p)), t))
                out.append('%s = %s;' % (t, self.v(val))); tmps.append((p, t))
            for p, t in tmps: out.append('%s = %s;' % (self.define(p), t))
        out.append('goto %s;' % self.bb[dst])
        return ' '.join(out)

    def width(self, x): return GetIntTypeWidth(TypeOf(x))

    def ins(self, I, b):
        M = self.M
        op = OP.get(GetInstructionOpcode(I))
        o = lambda j: GetOperand(I, j)
        ty = TypeOf(I)
        line = GetDebugLocLine(I)
        if op == 'phi': self.define(I); return
        if op == 'ret':
            if GetNumOperands(I): self.emit('return %s;' % self.v(o(0)))
            else: self.emit('return;')
            return
        if op == 'br':
            if IsConditional(I):
                self.emit('if(%s) { %s } else { %s }' % (self.v(GetCondition(I)), self.edge(b, GetSuccessor(I, 0)), self.edge(b, GetSuccessor(I, 1))))
            else: self.emit(self.edge(b, GetSuccessor(I, 0)))
            return
        if op == 'switch':
            c = self.v(o(0)); n = GetNumOperands(I)
            for j in range(2, n, 2):
                self.emit('if(%s == %s) { %s }' % (c, self.v(o(j)), self.edge(b, GetSuccessor(I, j // 2))))
            self.emit(self.edge(b, GetSuccessor(I, 0)))
            return
        if op == 'unreachable':
            self.emit('__CPROVER_assert(0, "UB: unreachable reached line %d"); __CPROVER_assume(0);' % line); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
            if TK[GetTypeKind(ty)] == 'vector': return self.vecbin(I, op)
            self.emit('%s = %s;' % (self.define(I), self.binop(op, self.v(o(0)), self.v(o(1)), GetIntTypeWidth(ty))))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            s_ = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op]
            self.emit('%s = %s %s %s;' % (self.define(I), self.v(o(0)), s_, self.v(o(1)))); return
        if op == 'frem': raise Unsupported('frem')
        if op == 'fneg': self.emit('%s = -%s;' % (self.define(I), self.v(o(0)))); return
        if op == 'alloca':
            t = GetAllocatedType(I)
            if not IsAConstantInt(o(0)): raise Unsupported('dynamic alloca')
            cnt = ConstIntGetZExtValue(o(0))
            self.n += 1
            a = 'al%d' % self.n
            self.decls.append('%s %s%s;' % (M.ct(t), a, '[%d]' % cnt if cnt != 1 else ''))
            self.emit('%s = (u8*)&%s;' % (self.define(I), a))
            return
        if op == 'load':
            self.emit('%s = %s;' % (self.define(I), self.ld(self.v(o(0)), ty))); return
        if op == 'store':
            self.emit(self.st(self.v(o(1)), self.v(o(0)), TypeOf(o(0)))); return
        if op == 'gep':
            self.emit('%s = %s;' % (self.define(I), M.gep(I, self.v))); return
        if op == 'trunc': self.emit('%s = %s;' % (self.define(I), M.mask(self.v(o(0)), GetIntTypeWidth(ty)))); return
        if op == 'zext': self.emit('%s = (%s)%s;' % (self.define(I), M.ct(ty), self.v(o(0)))); return
        if op == 'sext':
            w = self.width(o(0)); W = GetIntTypeWidth(ty)
            self.emit('%s = %s;' % (self.define(I), M.mask(M.sx(self.v(o(0)), w, W), W))); return
        if op in ('fptoui',): self.emit('%s = (%s)%s;' % (self.define(I), M.ct(ty), self.v(o(0)))); return
        if op == 'fptosi':
            W = GetIntTypeWidth(ty)
            cw = {1: 8, 8: 8, 16: 16, 32: 32, 64: 64, 128: 128}.get(W)
            if not cw: raise Unsupported('fptosi')
            self.emit('%s = (%s)(s%d)%s;' % (self.define(I), M.ct(ty), cw, self.v(o(0)))); return
        if op == 'uitofp': self.emit('%s = (%s)%s;' % (self.define(I), M.ct(ty), self.v(o(0)))); return
        if op == 'sitofp':
            self.emit('%s = (%s)%s;' % (self.define(I), M.ct(ty), M.sx(self.v(o(0)), self.width(o(0)), 64 if self.width(o(0)) <= 64 else 128))); return
        if op in ('fptrunc', 'fpext'): self.emit('%s = (%s)%s;' % (self.define(I), M.ct(ty), self.v(o(0)))); return
        if op == 'ptrtoint': self.emit('%s = %s;' % (self.define(I), M.mask('(u64)' + self.v(o(0)), GetIntTypeWidth(ty)))); return
        if op == 'inttoptr': self.emit('%s = (u8*)(u64)%s;' % (self.define(I), self.v(o(0)))); return
        if op in ('bitcast', 'addrspacecast'):
            st = TypeOf(o(0))
            if M.ct(st) == M.ct(ty): self.emit('%s = %s;' % (self.define(I), self.v(o(0))))
            else:
                self.n += 1
                u_ = 'bc%d' % self.n
                self.decls.append('union { %s a; %s b; } %s;' % (M.ct(st), M.ct(ty), u_))
                self.emit('%s.a = %s; %s = %s.b;' % (u_, self.v(o(0)), self.define(I), u_))
            return
        if op == 'icmp':
            p = GetICmpPredicate(I); a = self.v(o(0)); c = self.v(o(1)); t0 = TypeOf(o(0))
            k0 = TK[GetTypeKind(t0)]
            if k0 == 'vector': raise Unsupported('vector icmp')
            S = {32: '==', 33: '!=', 34: '>', 35: '>=', 36: '<', 37: '<=', 38: '>', 39: '>=', 40: '<', 41: '<='}[p]
            if k0 == 'int' and p >= 38:
                w = GetIntTypeWidth(t0); W = 64 if w <= 64 else 128
                if w in (8, 16, 32, 64, 128): a = '(s%d)%s' % (w, a); c = '(s%d)%s' % (w, c)
                else: a = M.sx(a, w, W); c = M.sx(c, w, W)
            elif k0 == 'ptr' and p >= 34:
                self.emit('%s = PTRCMP(%s, %s, %s);' % (self.define(I), a, S, c)); return
            self.emit('%s = (%s %s %s);' % (self.define(I), a, S, c)); return
        if op == 'fcmp':
            p = GetFCmpPredicate(I); a = self.v(o(0)); c = self.v(o(1))
            ordc = '((%s)==(%s)&&(%s)==(%s))' % (a, a, c, c)
            S = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!='}
            if p == 0: e = '0'
            elif p == 15: e = '1'
            elif p == 7: e = ordc
            elif p == 8: e = '!' + ordc
            elif p == 6: e = '(%s && %s != %s)' % (ordc, a, c)
            elif p < 7: e = '(%s %s %s)' % (a, S[p], c)
            elif p == 14: e = '(%s != %s)' % (a, c)
            else: e = '(!%s || (%s %s %s))' % (ordc, a, S[p - 8], c)
            self.emit('%s = %s;' % (self.define(I), e)); return
        if op == 'select':
            self.emit('%s = %s ? %s : %s;' % (self.define(I), self.v(o(0)), self.v(o(1)), self.v(o(2)))); return
        if op == 'freeze': self.emit('%s = %s;' % (self.define(I), self.v(o(0)))); return
        if op == 'extractvalue':
            n = GetNumIndices(I); ix = GetIndices(I)
            e = self.v(o(0)); t = TypeOf(o(0))
            for j in range(n):
                if TK[GetTypeKind(t)] == 'struct': e += '.f%d' % ix[j]; t = StructGetTypeAtIndex(t, ix[j])
                else: e += '.a[%d]' % ix[j]; t = GetElementType(t)
            self.emit('%s = %s;' % (self.define(I), e)); return
        if op == 'insertvalue':
            n = GetNumIndices(I); ix = GetIndices(I)
            d = self.define(I)
            if not (IsAUndefValue(o(0)) or IsAPoisonValue(o(0))):
                self.emit('%s = %s;' % (d, self.v(o(0))))
            e = d; t = ty
            for j in range(n):
                if TK[GetTypeKind(t)] == 'struct': e += '.f%d' % ix[j]; t = StructGetTypeAtIndex(t, ix[j])
                else: e += '.a[%d]' % ix[j]; t = GetElementType(t)
            self.emit('%s = %s;' % (e, self.v(o(1)))); return
        if op == 'extractelement':
            self.emit('%s = %s.a[%s];' % (self.define(I), self.v(o(0)), self.v(o(1)))); return
        if op == 'insertelement':
            d = self.define(I)
            if not (IsAUndefValue(o(0)) or IsAPoisonValue(o(0))): self.emit('%s = %s;' % (d, self.v(o(0))))
            self.emit('%s.a[%s] = %s;' % (d, self.v(o(2)), self.v(o(1)))); return
        if op == 'shufflevector':
            d = self.define(I); a = self.v(o(0)); n0 = GetVectorSize(TypeOf(o(0)))
            c = None
            for j in range(GetNumMaskElements(I)):
                m = GetMaskValue(I, j)
                if m < 0: continue
                if m < n0: self.emit('%s.a[%d] = %s.a[%d];' % (d, j, a, m))
                else:
                    if c is None: c = self.v(o(1))
                    self.emit('%s.a[%d] = %s.a[%d];' % (d, j, c, m - n0))
            return
        if op in ('call', 'invoke'):
            self.call(I, b, line)
            if op == 'invoke': self.emit(self.edge(b, GetNormalDest(I)))
            return
        if op == 'landingpad':
            self.define(I); self.emit('__CPROVER_assert(0, "ABORT: landingpad reached"); __CPROVER_assume(0);'); return
        if op == 'resume':
            self.emit('__CPROVER_assert(0, "ABORT: resume reached"); __CPROVER_assume(0);'); return
        if op == 'fence': return
        if op == 'atomicrmw':
            d = self.define(I); p = self.v(o(0)); x = self.v(o(1)); c = M.ct(ty); w = GetIntTypeWidth(ty) if TK[GetTypeKind(ty)] == 'int' else 64
            k = GetAtomicRMWBinOp(I)
            opn = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}
            if k not in opn: raise Unsupported('atomicrmw')
            self.emit('%s = *(%s*)%s; *(%s*)%s = %s;' % (d, c, p, c, p, x if k == 0 else self.binop(opn[k], d, x, w))); return
        if op == 'cmpxchg':
            d = self.define(I); p = self.v(o(0)); c = M.ct(TypeOf(o(1)))
            self.emit('%s.f0 = *(%s*)%s; %s.f1 = (%s.f0 == %s); if(%s.f1) *(%s*)%s = %s;' % (d, c, p, d, d, self.v(o(1)), d, c, p, self.v(o(2)))); return
        raise Unsupported('instruction ' + str(op) + ' ' + pstr(I)[:80])

    def vecbin(self, I, op):
        t = TypeOf(I); n = GetVectorSize(t); w = GetIntTypeWidth(GetElementType(t))
        d = self.define(I); a = self.v(GetOperand(I, 0)); c = self.v(GetOperand(I, 1))
        for j in range(n):
            self.emit('%s.a[%d] = %s;' % (d, j, self.binop(op, '%s.a[%d]' % (a, j), '%s.a[%d]' % (c, j), w)))

    def binop(self, op, a, c, w):
        M = self.M; ct = M.iw(w)
        wide = 'u32' if w <= 32 else ('u64' if w <= 64 else 'u128')
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            s_ = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            return M.mask('(%s)%s %s (%s)%s' % (wide, a, s_, wide, c), w)
        if op == 'udiv': return M.mask('%s / %s' % (a, c), w)
        if op == 'urem': return M.mask('%s %% %s' % (a, c), w)
        if op in ('sdiv', 'srem'):
            W = 64 if w > 32 else 32
            if w > 64: W = 128
            W2 = w if w in (8, 16, 32, 64, 128) else W
            s_ = '/' if op == 'sdiv' else '%'
            return M.mask('%s %s %s' % (M.sx(a, w, W2), s_, M.sx(c, w, W2)), w)
        if op == 'shl': return M.mask('(%s)%s << %s' % (wide, a, c), w)
        if op == 'lshr': return M.mask('%s >> %s' % (a, c), w)
        if op == 'ashr':
            return M.mask('%s >> %s' % (M.sx(a, w, 64 if w <= 64 else 128), c), w)

    def ld(self, p, ty):
        M = self.M; k = TK[GetTypeKind(ty)]
        if k == 'int':
            w = GetIntTypeWidth(ty)
            if w == 1: return '(*(u8*)%s & 1)' % p
            if w not in (8, 16, 32, 64, 128):
                n = (w + 7) // 8
                W = M.iw(w)
                return M.mask('|'.join('((%s)((u8*)%s)[%d] << %d)' % (W, p, j, 8 * j) for j in range(n)), w)
        return '*(%s*)%s' % (M.ct(ty), p)
    def st(self, p, x, ty):
        M = self.M; k = TK[GetTypeKind(ty)]
        if k == 'int':
            w = GetIntTypeWidth(ty)
            if w == 1: return '*(u8*)%s = %s;' % (p, x)
            if w not in (8, 16, 32, 64, 128):
                n = (w + 7) // 8
                return ' '.join('((u8*)%s)[%d] = (u8)(%s >> %d);' % (p, j, x, 8 * j) for j in range(n))
        return '*(%s*)%s = %s;' % (M.ct(ty), p, x)

    def pointee(self, x, n):
        """guess an aggregate type of size n that pointer x points to"""
        M = self.M
        if x in self.ptype and ABISizeOfType(M.dl, self.ptype[x]) == n: return self.ptype[x]
        if IsAInstruction(x):
            op = OP.get(GetInstructionOpcode(x))
            if op == 'alloca':
                t = GetAllocatedType(x)
                if ABISizeOfType(M.dl, t) == n: return t
                # first-field descent
                while TK[GetTypeKind(t)] == 'struct' and CountStructElementTypes(t):
                    t = StructGetTypeAtIndex(t, 0)
                    if ABISizeOfType(M.dl, t) == n: return t
            if op == 'gep':
                t = GetGEPSourceElementType(x); nn = GetNumOperands(x)
                for j in range(2, nn):
                    k = TK[GetTypeKind(t)]
                    if k == 'struct':
                        t = StructGetTypeAtIndex(t, int(ConstIntGetZExtValue(GetOperand(x, j))))
                    elif k in ('array', 'vector'): t = GetElementType(t)
                    else: return None
                while True:
                    if ABISizeOfType(M.dl, t) == n: return t
                    if TK[GetTypeKind(t)] == 'struct' and CountStructElementTypes(t): t = StructGetTypeAtIndex(t, 0)
                    else: break
        if IsAGlobalVariable(x):
            t = GlobalGetValueType(x)
            if ABISizeOfType(M.dl, t) == n: return t
        if x in self.ptype:
            t = self.ptype[x]
            while TK[GetTypeKind(t)] == 'struct' and CountStructElementTypes(t):
                t = StructGetTypeAtIndex(t, 0)
                if ABISizeOfType(M.dl, t) == n: return t
        return None

    def call(self, I, b, line):
        M = self.M
        cal = GetCalledValue(I)
        na = GetNumArgOperands(I)
        args = [GetOperand(I, j) for j in range(na)]
        ty = TypeOf(I)
        isvoid = TK[GetTypeKind(ty)] == 'void'
        if IsAInlineAsm(cal):
            if 'sideeffect' in pstr(cal) and '""' in pstr(cal): return
            raise Unsupported('inline asm')
        if IsAGlobalAlias(cal): cal = AliasGetAliasee(cal)
        if IsAFunction(cal):
            nm = name(cal)
            if nm.startswith('llvm.'): return self.intrinsic(I, nm, args, line)
            A = [None if TK[GetTypeKind(TypeOf(a))] == 'metadata' else a for a in args]
            if nm in ('verif_assert', 'verif_reach', 'verif_known'):
                s_ = self.cstr(args[-1])
                if nm == 'verif_assert':
                    self.emit('__CPROVER_assert(%s, "PROP %s");' % (self.v(args[0]), s_))
                elif nm == 'verif_reach':
                    self.emit('__CPROVER_assert(0, "REACH %s");' % s_)
                return
            if nm in ('memcpy', 'memmove') and IsAConstantInt(args[2]):
                self.memcopy(args, I); self.emit('%s = %s;' % (self.define(I), self.v(args[0]))); return
            e = '%s(%s)' % (M.fname(cal), ', '.join(self.v(a) for a in args))
        else:
            ft = GetCalledFunctionType(I)
            ret = M.ct(GetReturnType(ft))
            e = '((%s (*)(%s))%s)(%s)' % (ret, ', '.join(M.ct(TypeOf(a)) for a in args) or 'void', self.v(cal), ', '.join(self.v(a) for a in args))
        if isvoid: self.emit(e + ';')
        else: self.emit('%s = %s;' % (self.define(I), e))

    def cstr(self, x):
        if IsAGlobalVariable(x):
            it = GetInitializer(x)
            n = GetArrayLength2(TypeOf(it)); r = ''
            for j in range(n):
                c = ConstIntGetZExtValue(GetAggregateElement(it, j)) & 255
                if c: r += chr(c)
            return r.replace('"', "'").replace('\\', '/')
        return '?'

    def memcopy(self, args, I=None):
        M = self.M
        n = ConstIntGetZExtValue(args[2])
        if n == 0: return
        d = self.v(args[0]); s_ = self.v(args[1])
        t = self.pointee(args[0], n) or self.pointee(args[1], n)
        if t and TK[GetTypeKind(t)] in ('struct', 'array', 'int', 'ptr', 'double', 'float'):
            c = M.ct(t)
            self.emit('*(%s*)%s = *(%s*)%s;' % (c, d, c, s_))
        elif n in (1, 2, 4):
            c = {1: 'u8', 2: 'u16', 4: 'u32'}[n]
            self.emit('*(%s*)%s = *(%s*)%s;' % (c, d, c, s_))
        else:
            k = self.align(I)
            if n <= 64 and k >= 4 and n % k == 0:
                ct = 'u64' if k == 8 else 'u32'
                for o in range(0, n, k): self.emit('*(%s*)(%s + %d) = *(%s*)(%s + %d);' % (ct, d, o, ct, s_, o))
            else: self.emit('rt_memcpy(%s, %s, %d);' % (d, s_, n))

    def align(self, I):
        """the smallest alignment (4 or 8, else 1) stated for the pointers of a memory intrinsic"""
        t = pstr(I)
        a = [int(x) for x in re.findall(r'ptr[^,()%@]*align (\d+)', t)]
        k = len(re.findall(r'ptr ', t[t.index('('):])) if '(' in t else 9
        if not a or len(a) < k: return 1
        a = min(a); return 8 if a >= 8 else 4 if a == 4 else 1

    def intrinsic(self, I, nm, args, line):
        M = self.M
        base = nm[5:]
        def a(j): return self.v(args[j])
        ty = TypeOf(I)
        if base.startswith(('dbg.', 'lifetime.', 'assume', 'donothing', 'invariant.', 'experimental.noalias', 'stackrestore', 'var.annotation', 'prefetch')):
            if TK[GetTypeKind(ty)] != 'void':
                self.emit('%s = (u8*)0;' % self.define(I))
            return
        if base.startswith(('memcpy', 'memmove')):
            if IsAConstantInt(args[2]): return self.memcopy(args, I)
            self.emit('rt_memmove(%s, %s, %s);' % (a(0), a(1), a(2))); return
        if base.startswith('memset'):
            if IsAConstantInt(args[2]) and IsAConstantInt(args[1]) and ConstIntGetZExtValue(args[1]) == 0:
                n = ConstIntGetZExtValue(args[2])
                if n == 0: return
                t = self.pointee(args[0], n)
                if t and TK[GetTypeKind(t)] in ('struct', 'array'):
                    self.emit('*(%s*)%s = %s;' % (M.ct(t), a(0), M.zero(t, False))); return
                k = self.align(I)
                if n % k: k = 1
                if n <= 128:
                    for o in range(0, n, k): self.emit('*(%s*)(%s + %d) = 0;' % ({8: 'u64', 4: 'u32', 1: 'u8'}[k], a(0), o))
                    return
            self.emit('rt_memset(%s, %s, %s);' % (a(0), a(1), a(2))); return
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
        if m:
            d = self.define(I)
            w = self.width(args[0])
            if w not in (8, 16, 32, 64):
                # odd widths (mixed sign builtins): exact result in a wider type, then a range test
                k = m.group(2)
                if w > 126 or (k == 'mul' and w > 63): raise Unsupported(nm)
                def eff(x):     # bits really used by an operand
                    if IsAInstruction(x) and OP.get(GetInstructionOpcode(x)) in ('zext', 'sext'): return self.width(GetOperand(x, 0)) + 1
                    return w
                W = 64 if ((k != 'mul' and w <= 62) or eff(args[0]) + eff(args[1]) <= 63) else 128
                self.n += 1
                wv = 'ow%d' % self.n
                self.decls.append('s%d %s;' % (W, wv))
                ext = (lambda x: '(s%d)%s' % (W, M.sx(x, w, W))) if m.group(1) == 's' else (lambda x: '(s%d)%s' % (W, x))
                c = {'add': '+', 'sub': '-', 'mul': '*'}[k]
                self.emit('%s = %s %s %s;' % (wv, ext(a(0)), c, ext(a(1))))
                res = M.mask('(u%d)%s' % (W, wv), w)
                self.emit('%s.f0 = %s;' % (d, res))
                back = M.sx('(u%d)%s.f0' % (W, d), w, W) if m.group(1) == 's' else d + '.f0'
                self.emit('%s.f1 = (%s != (s%d)%s);' % (d, wv, W, back)); return
            self.n += 1
            tv = 'ov%d' % self.n
            tt = ('s%d' if m.group(1) == 's' else 'u%d') % w
            self.decls.append('%s %s;' % (tt, tv))
            self.emit('%s.f1 = __builtin_%s_overflow((%s)%s, (%s)%s, &%s); %s.f0 = (u%d)%s;' % (d, m.group(2), tt, a(0), tt, a(1), tv, d, w, tv)); return
        m = re.match(r'([us])(min|max)\.', base)
        if m:
            w = self.width(args[0]); x, y = a(0), a(1)
            if m.group(1) == 's': X, Y = M.sx(x, w, 64 if w <= 64 else 128), M.sx(y, w, 64 if w <= 64 else 128)
            else: X, Y = x, y
            self.emit('%s = %s %s %s ? %s : %s;' % (self.define(I), X, '<' if m.group(2) == 'min' else '>', Y, x, y)); return
        m = re.match(r'([us])(add|sub)\.sat', base)
        if m:
            w = self.width(args[0])
            self.emit('%s = %s;' % (self.define(I), 'rt_%s%s_sat%d(%s,%s)' % (m.group(1), m.group(2), w, a(0), a(1)))); return
        if base.startswith('abs.'):
            w = self.width(args[0]); x = a(0)
            self.emit('%s = %s;' % (self.define(I), M.mask('%s < 0 ? -(u64)%s : (u64)%s' % (M.sx(x, w), x, x), w))); return
        if base.startswith('expect'): self.emit('%s = %s;' % (self.define(I), a(0))); return
        if base.startswith('is.constant'): self.emit('%s = 0;' % self.define(I)); return
        if base.startswith('objectsize'): self.emit('%s = (%s)-1;' % (self.define(I), M.ct(ty))); return
        if base.startswith('bswap.'):
            w = self.width(args[0])
            self.emit('%s = __builtin_bswap%d(%s);' % (self.define(I), w, a(0))); return
        m = re.match(r'(ctpop|ctlz|cttz)\.i(\d+)', base)
        if m:
            self.emit('%s = rt_%s(%s, %s);' % (self.define(I), m.group(1), a(0), m.group(2))); return
        m = re.match(r'(fshl|fshr)\.i(\d+)', base)
        if m:
            w = int(m.group(2))
            if w not in (8, 16, 32, 64): raise Unsupported(nm)
            self.emit('%s = rt_%s(%s, %s, %s, %d);' % (self.define(I), m.group(1), a(0), a(1), a(2), w)); return
        if base.startswith('ubsantrap'):
            k = ConstIntGetZExtValue(args[0])
            self.emit('__CPROVER_assert(0, "UB: %s line %d"); __CPROVER_assume(0);' % (UBK.get(k, str(k)), line)); return
        if base == 'trap' or base == 'debugtrap':
            self.emit('__CPROVER_assert(0, "ABORT: trap line %d"); __CPROVER_assume(0);' % line); return
        if base.startswith('stacksave'): self.emit('%s = (u8*)0;' % self.define(I)); return
        if base.startswith('launder.invariant') or base.startswith('strip.invariant'):
            self.emit('%s = %s;' % (self.define(I), a(0))); return
        if base.startswith('eh.typeid'): self.emit('%s = 0;' % self.define(I)); return
        m = re.match(r'(fabs|floor|ceil|trunc|round|sqrt|copysign|minnum|maxnum|rint|nearbyint)\.f(32|64)', base)
        if m:
            fnn = {'minnum': 'fmin', 'maxnum': 'fmax'}.get(m.group(1), m.group(1)) + ('f' if m.group(2) == '32' else '')
            self.emit('%s = %s(%s);' % (self.define(I), fnn, ', '.join(self.v(x) for x in args))); return
        if base.startswith('fmuladd'):
            self.emit('%s = %s * %s + %s;' % (self.define(I), a(0), a(1), a(2))); return
        raise Unsupported('intrinsic ' + nm)

PRELUDE = open(__file__.replace('ir2c.py', 'rt.h')).read()

def main():
    src, out, meta = sys.argv[1:4]
    M = Mod(src); M.gdefs = []
    ents = M.run(sys.argv[4:] or ['harness'])
    with open(out, 'w') as f:
        f.write(PRELUDE + '\n')
        f.write('\n'.join(x for x in M.typedecls if x) + '\n')
        for nm, c in M.undefs.items(): f.write('%s %s(void) { %s x; return x; }\n' % (c, nm, c))
        f.write('\n'.join(M.protos) + '\n')
        f.write('\n'.join(M.gdefs) + '\n')
        f.write('\n'.join(M.bodies) + '\n')
        f.write('\n'.join(ents) + '\n')
    json.dump({'functions': M.fnlist, 'externals': sorted(M.externals)}, open(meta, 'w'))

if __name__ == '__main__':
    main()
