"""Minimal ctypes binding to libLLVM-18's C API (only what ir2c needs)."""
import ctypes as C, os
_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "libLLVM-18.so"]
L = None
for p in _paths:
    try:
        L = C.CDLL(p); break
    except OSError:
        pass
if L is None:
    raise SystemExit("libLLVM-18 not found")
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    globals()[name[4:]] = f
    return f
u = C.c_uint; i = C.c_int; s = C.c_char_p; sz = C.c_size_t; ull = C.c_ulonglong; ll = C.c_longlong
for name, res, *args in [
    ("LLVMCreateMemoryBufferWithContentsOfFile", i, s, C.POINTER(P), C.POINTER(s)),
    ("LLVMParseIRInContext", i, P, P, C.POINTER(P), C.POINTER(s)),
    ("LLVMGetGlobalContext", P),
    ("LLVMGetModuleDataLayout", P, P),
    ("LLVMABISizeOfType", ull, P, P), ("LLVMStoreSizeOfType", ull, P, P),
    ("LLVMABIAlignmentOfType", u, P, P),
    ("LLVMOffsetOfElement", ull, P, P, u),
    ("LLVMGetFirstFunction", P, P), ("LLVMGetNextFunction", P, P),
    ("LLVMGetFirstGlobal", P, P), ("LLVMGetNextGlobal", P, P),
    ("LLVMGetFirstGlobalAlias", P, P), ("LLVMGetNextGlobalAlias", P, P), ("LLVMAliasGetAliasee", P, P),
    ("LLVMGetInitializer", P, P), ("LLVMIsGlobalConstant", i, P), ("LLVMIsDeclaration", i, P),
    ("LLVMGlobalGetValueType", P, P),
    ("LLVMGetValueName2", s, P, C.POINTER(sz)),
    ("LLVMCountParams", u, P), ("LLVMGetParam", P, P, u),
    ("LLVMGetFirstBasicBlock", P, P), ("LLVMGetNextBasicBlock", P, P),
    ("LLVMGetFirstInstruction", P, P), ("LLVMGetNextInstruction", P, P),
    ("LLVMGetBasicBlockTerminator", P, P),
    ("LLVMGetInstructionOpcode", i, P), ("LLVMGetConstOpcode", i, P),
    ("LLVMGetNumOperands", i, P), ("LLVMGetOperand", P, P, u),
    ("LLVMTypeOf", P, P), ("LLVMGetTypeKind", i, P), ("LLVMGetIntTypeWidth", u, P),
    ("LLVMGetElementType", P, P), ("LLVMGetArrayLength2", ull, P), ("LLVMGetVectorSize", u, P),
    ("LLVMCountStructElementTypes", u, P), ("LLVMStructGetTypeAtIndex", P, P, u),
    ("LLVMIsPackedStruct", i, P), ("LLVMGetStructName", s, P), ("LLVMIsOpaqueStruct", i, P),
    ("LLVMGetReturnType", P, P), ("LLVMCountParamTypes", u, P), ("LLVMGetParamTypes", None, P, C.POINTER(P)),
    ("LLVMIsFunctionVarArg", i, P),
    ("LLVMGetAllocatedType", P, P), ("LLVMGetGEPSourceElementType", P, P),
    ("LLVMGetICmpPredicate", i, P), ("LLVMGetFCmpPredicate", i, P),
    ("LLVMGetCalledValue", P, P), ("LLVMGetNumArgOperands", u, P), ("LLVMGetCalledFunctionType", P, P),
    ("LLVMCountIncoming", u, P), ("LLVMGetIncomingValue", P, P, u), ("LLVMGetIncomingBlock", P, P, u),
    ("LLVMGetNumIndices", u, P), ("LLVMGetIndices", C.POINTER(u), P),
    ("LLVMGetNumSuccessors", u, P), ("LLVMGetSuccessor", P, P, u),
    ("LLVMGetNormalDest", P, P),
    ("LLVMIsConditional", i, P), ("LLVMGetCondition", P, P),
    ("LLVMConstIntGetZExtValue", ull, P), ("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(i)),
    ("LLVMIsAConstantInt", P, P), ("LLVMIsAConstantFP", P, P), ("LLVMIsAConstantPointerNull", P, P),
    ("LLVMIsAUndefValue", P, P), ("LLVMIsAPoisonValue", P, P), ("LLVMIsAConstantAggregateZero", P, P),
    ("LLVMIsAConstantDataSequential", P, P), ("LLVMIsAConstantArray", P, P), ("LLVMIsAConstantStruct", P, P),
    ("LLVMIsAConstantVector", P, P),
    ("LLVMIsAConstantExpr", P, P), ("LLVMIsAFunction", P, P), ("LLVMIsAGlobalVariable", P, P),
    ("LLVMIsAGlobalAlias", P, P),
    ("LLVMIsAConstant", P, P), ("LLVMIsAArgument", P, P), ("LLVMIsAInstruction", P, P), ("LLVMIsAInlineAsm", P, P),
    ("LLVMGetAggregateElement", P, P, u),
    ("LLVMPrintValueToString", P, P), ("LLVMPrintTypeToString", P, P), ("LLVMDisposeMessage", None, P),
    ("LLVMGetInstructionParent", P, P), ("LLVMGetDebugLocLine", u, P),
    ("LLVMGetAtomicRMWBinOp", i, P),
    ("LLVMGetNumMaskElements", u, P), ("LLVMGetMaskValue", i, P, u),
    ("LLVMGetIntrinsicID", u, P),
]:
    try:
        fn(name, res, *args)
    except AttributeError as e:
        raise

def name(v):
    n = sz()
    r = GetValueName2(v, C.byref(n))
    return (r or b"").decode()

def pstr(v):
    p = PrintValueToString(v); r = C.cast(p, s).value.decode(errors="replace"); DisposeMessage(p); return r
def tstr(t):
    p = PrintTypeToString(t); r = C.cast(p, s).value.decode(errors="replace"); DisposeMessage(p); return r

def load(path):
    buf = P(); msg = s()
    if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value.decode())
    mod = P()
    if ParseIRInContext(GetGlobalContext(), buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(msg.value.decode())
    return mod

OP = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
 23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',
 34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',61:'cleanupret',62:'catchret',63:'catchpad',
 64:'cleanuppad',65:'catchswitch',66:'fneg',67:'callbr'}
TK = ['void','half','float','double','x86_fp80','fp128','ppc_fp128','label','int','function','struct','array','ptr',
      'vector','metadata','x86_mmx','token','scalable','bfloat','x86_amx','targetext']
for _n, _r, *_a in [("LLVMGetEnumAttributeKindForName", u, s, sz), ("LLVMGetEnumAttributeAtIndex", P, P, u, u), ("LLVMGetTypeAttributeValue", P, P)]:
    fn(_n, _r, *_a)
