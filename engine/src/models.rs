//! Functions the interpreter answers itself, and functions replaced by simple versions of the
//! harness crate. Every entry here is an assumption of the checks and is listed in DESIGN.md.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model {
    SymBytes,
    SymU64,
    SymChoice,
    SymAssume,
    SymAssert,
    SymReach,
    SymNote,
    SymParam,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Panic,
    Nop,
    RetZero,
    RetMinus1,
    RetMinus1w32,
    RetOne,
    /// memo of the lazy DFA: skipped when the input byte is symbolic (the next state is then
    /// recomputed whenever it is needed)
    Memo,
    Errno,
    Getrandom,
    Syscall,
}

pub fn model_of(n: &str) -> Option<Model> {
    use Model::*;
    Some(match n {
        "sym_bytes" => SymBytes,
        "sym_u64" => SymU64,
        "sym_choice" => SymChoice,
        "sym_assume" => SymAssume,
        "sym_assert" => SymAssert,
        "sym_reach" => SymReach,
        "sym_note" => SymNote,
        "sym_param" => SymParam,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "abort" | "exit" | "_exit" => Panic,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "getenv" | "pthread_self" | "__cxa_thread_atexit_impl" => RetZero,
        "write" | "writev" | "read" | "readlink" | "lseek64" | "mmap64" => RetMinus1,
        "open64" | "sched_getaffinity" | "stat64" | "fstat64" | "close" | "munmap" | "dl_iterate_phdr" => RetMinus1w32,
        "getcwd" | "realpath" => RetZero,
        "sysconf" => RetOne,
        "__errno_location" => Errno,
        "rust_begin_unwind" => Panic,
        _ => {
            if !n.starts_with("_R") && !n.starts_with("_ZN") {
                return None;
            }
            // the hash of every key is 0 (maps keep working, all keys collide, equality of keys
            // decides), except for byte strings and the states of the lazy DFA, which are looked up
            // as byte strings
            if n.starts_with("_RI") && n.contains("4core4hash11BuildHasher8hash_one") {
                let k = n.split("8hash_one").nth(1).unwrap_or("");
                if !k.contains("11determinize5state5State") && !k.starts_with("RSh") && !k.starts_with("Sh") && !k.contains("3VechE") {
                    return Some(RetZero);
                }
            }
            if n.contains("6hybrid3dfa") && n.contains("14set_transition") && n.contains("14regex_automata") {
                return Some(Memo);
            }
            if n.contains("4core9panicking9panic_fmt")
                || n.contains("4core9panicking18panic_nounwind_fmt")
                || n.contains("4core9panicking19panic_cannot_unwind")
            {
                return Some(Panic);
            }
            return None;
        }
    })
}

/// Byte searches: replaced by plain loops written in the harness crate.
pub fn override_of(n: &str) -> Option<&'static str> {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return None;
    }
    let core = n.contains("4core5slice6memchr");
    if core {
        for (p, o) in [("6memchr", "vp_core_memchr"), ("14memchr_aligned", "vp_core_memchr"), ("7memrchr", "vp_core_memrchr"), ("15memrchr_aligned", "vp_core_memrchr")] {
            if n.starts_with("_RNvNtNt") && n.contains(&format!("4core5slice6memchr{p}")) {
                return Some(o);
            }
        }
    }
    if n.contains("6memchr6memchr") && !core {
        for (p, o) in [
            ("10memchr_raw", "vp_memchr"),
            ("11memrchr_raw", "vp_memrchr"),
            ("11memchr2_raw", "vp_memchr2"),
            ("12memrchr2_raw", "vp_memrchr2"),
            ("11memchr3_raw", "vp_memchr3"),
            ("12memrchr3_raw", "vp_memrchr3"),
        ] {
            if n.starts_with("_RNvNt") && n.contains(&format!("6memchr6memchr{p}")) {
                return Some(o);
            }
        }
    }
    None
}
