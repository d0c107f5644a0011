//! Prepares the whole-program bitcode: keeps the intercepted functions out of line, internalises
//! everything but the entries and runs LLVM's scalar clean-up passes.
use crate::llvm::*;
use std::ffi::{CStr, CString};

/// Functions whose calls the interpreter intercepts or replaces.
pub fn intercepted(n: &str) -> bool {
    crate::models::model_of(n).is_some() || crate::models::override_of(n).is_some()
}

pub fn prep(input: &str, output: &str, entries: &[String]) {
    unsafe {
        let (c, m) = load(input);
        LLVMStripModuleDebugInfo(m);
        let kind = |s: &str| LLVMGetEnumAttributeKindForName(s.as_ptr() as *const _, s.len());
        let (noinline, always, hint) = (kind("noinline"), kind("alwaysinline"), kind("inlinehint"));
        let at = !0u32;
        let mut kept = 0;
        for f in functions(m) {
            if LLVMIsDeclaration(f) != 0 {
                continue;
            }
            let n = name(f);
            if intercepted(&n) {
                LLVMRemoveEnumAttributeAtIndex(f, at, always);
                LLVMRemoveEnumAttributeAtIndex(f, at, hint);
                LLVMAddAttributeAtIndex(f, at, LLVMCreateEnumAttribute(c, noinline, 0));
                LLVMSetLinkage(f, 0);
                kept += 1;
            } else if entries.iter().any(|e| *e == n) || n.starts_with("vp_") {
                LLVMSetLinkage(f, 0);
            } else {
                LLVMSetLinkage(f, 8); // internal
            }
        }
        for g in globals(m) {
            if LLVMIsDeclaration(g) == 0 && !name(g).starts_with("llvm.") {
                LLVMSetLinkage(g, 8);
            }
        }
        let o = LLVMCreatePassBuilderOptions();
        LLVMPassBuilderOptionsSetLoopVectorization(o, 0);
        LLVMPassBuilderOptionsSetSLPVectorization(o, 0);
        let p = CString::new("globaldce,default<O1>,globaldce").unwrap();
        let e = LLVMRunPasses(m, p.as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() {
            panic!("passes: {}", CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy());
        }
        let out = CString::new(output).unwrap();
        assert_eq!(LLVMWriteBitcodeToFile(m, out.as_ptr()), 0);
        eprintln!("prep: {} intercepted bodies kept out of line, {} functions", kept, functions(m).len());
    }
}
