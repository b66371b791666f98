//! Minimal LLVM C API bindings (the libLLVM shipped with the Rust toolchain).
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
pub type Ref = *mut c_void;
extern "C" {
    pub fn LLVMContextCreate() -> Ref;
    pub fn LLVMContextDispose(c: Ref);
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseIRInContext(c: Ref, buf: Ref, out: *mut Ref, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMGetFirstFunction(m: Ref) -> Ref;
    pub fn LLVMGetNextFunction(f: Ref) -> Ref;
    pub fn LLVMGetNamedFunction(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMGetValueName2(v: Ref, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Ref) -> c_int;
    pub fn LLVMGetInitializer(v: Ref) -> Ref;
    pub fn LLVMGetFirstBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetNextBasicBlock(b: Ref) -> Ref;
    pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
    pub fn LLVMGetNextInstruction(i: Ref) -> Ref;
    pub fn LLVMGetInstructionOpcode(i: Ref) -> c_int;
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetNumOperands(v: Ref) -> c_int;
    pub fn LLVMGetOperand(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetValueKind(v: Ref) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Ref) -> c_ulonglong;
    pub fn LLVMPrintValueToString(v: Ref) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMCountIncoming(v: Ref) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetIncomingBlock(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetInstructionParent(v: Ref) -> Ref;
    pub fn LLVMIsConditional(v: Ref) -> c_int;
    pub fn LLVMGetCondition(v: Ref) -> Ref;
    pub fn LLVMGetNumSuccessors(v: Ref) -> c_uint;
    pub fn LLVMGetSuccessor(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetCalledValue(v: Ref) -> Ref;
    pub fn LLVMGetCalledFunctionType(v: Ref) -> Ref;
    pub fn LLVMGetNumArgOperands(v: Ref) -> c_uint;
    pub fn LLVMGetNormalDest(v: Ref) -> Ref;
    pub fn LLVMGetAllocatedType(v: Ref) -> Ref;
    pub fn LLVMGetAlignment(v: Ref) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(v: Ref) -> Ref;
    pub fn LLVMGetNumIndices(v: Ref) -> c_uint;
    pub fn LLVMGetIndices(v: Ref) -> *const c_uint;
    pub fn LLVMGetICmpPredicate(v: Ref) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: Ref) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: Ref) -> c_int;
    pub fn LLVMGetOrdering(v: Ref) -> c_int;
    pub fn LLVMGetNumMaskElements(v: Ref) -> c_uint;
    pub fn LLVMGetMaskValue(v: Ref, i: c_uint) -> c_int;
    pub fn LLVMGetUndefMaskElem() -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Ref) -> Ref;
    pub fn LLVMABISizeOfType(td: Ref, t: Ref) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: Ref, t: Ref) -> c_uint;
    pub fn LLVMOffsetOfElement(td: Ref, t: Ref, i: c_uint) -> c_ulonglong;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetArrayLength2(t: Ref) -> u64;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMGetVectorSize(t: Ref) -> c_uint;
    pub fn LLVMGetReturnType(t: Ref) -> Ref;
    pub fn LLVMGetAggregateElement(v: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetAsString(v: Ref, len: *mut usize) -> *const c_char;
    pub fn LLVMGetConstOpcode(v: Ref) -> c_int;
    pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
    pub fn LLVMAliasGetAliasee(v: Ref) -> Ref;
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMGetInlineAsmAsmString(v: Ref, len: *mut usize) -> *const c_char;
    pub fn LLVMConstRealGetDouble(v: Ref, loses: *mut c_int) -> f64;
    pub fn LLVMBasicBlockAsValue(b: Ref) -> Ref;
    pub fn LLVMValueAsBasicBlock(v: Ref) -> Ref;
    pub fn LLVMGetFirstGlobal(m: Ref) -> Ref;
    pub fn LLVMGetNextGlobal(g: Ref) -> Ref;
    pub fn LLVMGetFirstGlobalAlias(m: Ref) -> Ref;
    pub fn LLVMGetNextGlobalAlias(g: Ref) -> Ref;
    pub fn LLVMDisposeModule(m: Ref);
    pub fn LLVMIsAInstruction(v: Ref) -> Ref;
    pub fn LLVMStripModuleDebugInfo(m: Ref) -> c_int;
}
pub fn name(v: Ref) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: Ref) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn parse(path: &str) -> Result<(Ref, Ref), String> {
    unsafe {
        let c = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {path}"));
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseIRInContext(c, buf, &mut m, &mut msg) != 0 {
            return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
        }
        Ok((c, m))
    }
}
