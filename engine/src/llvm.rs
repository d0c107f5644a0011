//! Hand-declared part of the LLVM C API (the library of the installed Rust toolchain).
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

macro_rules! opaque { ($($n:ident),*) => { $( pub type $n = *mut c_void; )* } }
opaque!(Ctx, Module, Value, Type, Block, Buf, TD, Attr, PBOpts, Use);

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Buf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, m: *mut Module) -> c_int;
    pub fn LLVMWriteBitcodeToFile(m: Module, p: *const c_char) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TD;
    pub fn LLVMABISizeOfType(t: TD, ty: Type) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(t: TD, ty: Type) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(t: TD, ty: Type) -> c_uint;
    pub fn LLVMOffsetOfElement(t: TD, ty: Type, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(v: Value) -> Value;
    pub fn LLVMGetFirstGlobal(m: Module) -> Value;
    pub fn LLVMGetNextGlobal(v: Value) -> Value;
    pub fn LLVMGetFirstGlobalAlias(m: Module) -> Value;
    pub fn LLVMGetNextGlobalAlias(v: Value) -> Value;
    pub fn LLVMAliasGetAliasee(v: Value) -> Value;
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMGetAlignment(v: Value) -> c_uint;
    pub fn LLVMGetValueName2(v: Value, n: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMSetLinkage(v: Value, l: c_int);
    pub fn LLVMGetFirstBasicBlock(f: Value) -> Block;
    pub fn LLVMGetNextBasicBlock(b: Block) -> Block;
    pub fn LLVMGetFirstInstruction(b: Block) -> Value;
    pub fn LLVMGetNextInstruction(v: Value) -> Value;
    pub fn LLVMGetInstructionOpcode(v: Value) -> c_int;
    pub fn LLVMCountParams(f: Value) -> c_uint;
    pub fn LLVMGetParam(f: Value, i: c_uint) -> Value;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMGetReturnType(t: Type) -> Type;
    pub fn LLVMIsFunctionVarArg(t: Type) -> c_int;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetCalledValue(v: Value) -> Value;
    pub fn LLVMGetCalledFunctionType(v: Value) -> Type;
    pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
    pub fn LLVMGetNormalDest(v: Value) -> Block;
    pub fn LLVMGetUnwindDest(v: Value) -> Block;
    pub fn LLVMIsAInlineAsm(v: Value) -> Value;
    pub fn LLVMGetInlineAsmAsmString(v: Value, n: *mut usize) -> *const c_char;
    pub fn LLVMIsAFunction(v: Value) -> Value;
    pub fn LLVMIsAGlobalVariable(v: Value) -> Value;
    pub fn LLVMIsAGlobalAlias(v: Value) -> Value;
    pub fn LLVMIsAConstant(v: Value) -> Value;
    pub fn LLVMIsAConstantInt(v: Value) -> Value;
    pub fn LLVMIsAConstantExpr(v: Value) -> Value;
    pub fn LLVMIsAConstantFP(v: Value) -> Value;
    pub fn LLVMIsAConstantDataSequential(v: Value) -> Value;
    pub fn LLVMIsNull(v: Value) -> c_int;
    pub fn LLVMIsUndef(v: Value) -> c_int;
    pub fn LLVMIsPoison(v: Value) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Value) -> c_ulonglong;
    pub fn LLVMGetConstOpcode(v: Value) -> c_int;
    pub fn LLVMGetAggregateElement(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetRawDataValues(v: Value, n: *mut usize) -> *const c_char;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMGetICmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetAllocatedType(v: Value) -> Type;
    pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
    pub fn LLVMGetNumIndices(v: Value) -> c_uint;
    pub fn LLVMGetIndices(v: Value) -> *const c_uint;
    pub fn LLVMCountIncoming(v: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> Block;
    pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
    pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> Block;
    pub fn LLVMGetCondition(v: Value) -> Value;
    pub fn LLVMGetSwitchDefaultDest(v: Value) -> Block;
    pub fn LLVMGetSwitchCaseValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMIsASwitchInst(v: Value) -> Value;
    pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
    pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_int;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ctx, k: c_uint, v: u64) -> Attr;
    pub fn LLVMAddAttributeAtIndex(f: Value, i: c_uint, a: Attr);
    pub fn LLVMRemoveEnumAttributeAtIndex(f: Value, i: c_uint, k: c_uint);
    pub fn LLVMGetEnumAttributeAtIndex(f: Value, i: c_uint, k: c_uint) -> Attr;
    pub fn LLVMGetCallSiteEnumAttribute(f: Value, i: c_uint, k: c_uint) -> Attr;
    pub fn LLVMCreatePassBuilderOptions() -> PBOpts;
    pub fn LLVMPassBuilderOptionsSetLoopVectorization(o: PBOpts, b: c_int);
    pub fn LLVMPassBuilderOptionsSetSLPVectorization(o: PBOpts, b: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopUnrolling(o: PBOpts, b: c_int);
    pub fn LLVMRunPasses(m: Module, p: *const c_char, tm: *mut c_void, o: PBOpts) -> *mut c_void;
    pub fn LLVMGetErrorMessage(e: *mut c_void) -> *mut c_char;
    pub fn LLVMStripModuleDebugInfo(m: Module) -> c_int;
    pub fn LLVMDeleteFunction(f: Value);
}

pub fn name(v: Value) -> String {
    unsafe {
        let mut n = 0;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: Value) -> String {
    unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() }
}
pub fn print_ty(v: Type) -> String {
    unsafe { CStr::from_ptr(LLVMPrintTypeToString(v)).to_string_lossy().into_owned() }
}
pub fn load(path: &str) -> (Ctx, Module) {
    unsafe {
        let c = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut b = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut b, &mut msg) != 0 {
            panic!("cannot read {path}");
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(c, b, &mut m) != 0 {
            panic!("cannot parse {path}");
        }
        (c, m)
    }
}
pub fn functions(m: Module) -> Vec<Value> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextFunction(f);
        }
    }
    v
}
pub fn globals(m: Module) -> Vec<Value> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobal(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobal(f);
        }
    }
    v
}
pub fn aliases(m: Module) -> Vec<Value> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobalAlias(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobalAlias(f);
        }
    }
    v
}
