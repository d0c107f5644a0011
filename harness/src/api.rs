//! Symbolic inputs and checks. Under the symbolic executor these functions are intrinsics; in the
//! native replay program they read the recorded inputs.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_u64() -> u64;
    fn sym_choice(k: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u64);
    fn sym_reach(id: u64);
    fn sym_note(v: u64);
    fn sym_param(i: u64) -> u64;
}

/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { sym_bytes(v.as_mut_ptr(), n) };
    }
    v
}
pub fn byte() -> u8 {
    let mut b = 0u8;
    unsafe { sym_bytes(&mut b, 1) };
    b
}
/// An arbitrary 64-bit value.
pub fn word() -> u64 {
    unsafe { sym_u64() }
}
/// An arbitrary value below `k`, every one explored on its own.
pub fn choice(k: usize) -> usize {
    unsafe { sym_choice(k as u64) as usize }
}
/// The same for larger `k`.
pub fn pick(k: usize) -> usize {
    if k <= 256 {
        return choice(k);
    }
    let h = choice(k.div_ceil(64));
    let l = choice(64);
    assume(h * 64 + l < k);
    h * 64 + l
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { sym_assert(c, id) }
}
/// Depth of the run: 0 quick, 1 thorough.
pub fn deep() -> bool {
    unsafe { sym_param(0) != 0 }
}
/// `quick` or `thorough`, by the depth of the run.
pub fn tier<T>(quick: T, thorough: T) -> T {
    if deep() {
        thorough
    } else {
        quick
    }
}
/// Marks a situation that must occur for the run to count (vacuity guard).
pub fn reach(id: u64) {
    unsafe { sym_reach(id) }
}
/// Observation compared between symbolic and native runs.
pub fn note(v: u64) {
    unsafe { sym_note(v) }
}
pub fn note_bytes(b: &[u8]) {
    note(b.len() as u64);
    for x in b {
        note(*x as u64);
    }
}

// ---- plain versions of the vectorised byte searches (the executor substitutes them)
macro_rules! fwd {
    ($n:ident, $($x:ident),+) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n($($x: u8,)+ start: *const u8, end: *const u8) -> Found<*const u8> {
            let mut p = start;
            while p < end {
                if $(*p == $x)||+ {
                    return Found(1, p);
                }
                p = p.add(1);
            }
            Found(0, core::ptr::null())
        }
    };
}
macro_rules! bwd {
    ($n:ident, $($x:ident),+) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n($($x: u8,)+ start: *const u8, end: *const u8) -> Found<*const u8> {
            let mut p = end;
            while p > start {
                p = p.sub(1);
                if $(*p == $x)||+ {
                    return Found(1, p);
                }
            }
            Found(0, core::ptr::null())
        }
    };
}
/// laid out like the scalar pair of an `Option`
#[repr(C)]
pub struct Found<T>(pub u64, pub T);
fwd!(vp_memchr, a);
fwd!(vp_memchr2, a, b);
fwd!(vp_memchr3, a, b, c);
bwd!(vp_memrchr, a);
bwd!(vp_memrchr2, a, b);
bwd!(vp_memrchr3, a, b, c);
#[no_mangle]
pub unsafe extern "C" fn vp_core_memchr(x: u8, p: *const u8, n: usize) -> Found<usize> {
    let mut i = 0;
    while i < n {
        if *p.add(i) == x {
            return Found(1, i);
        }
        i += 1;
    }
    Found(0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn vp_core_memrchr(x: u8, p: *const u8, n: usize) -> Found<usize> {
    let mut i = n;
    while i > 0 {
        i -= 1;
        if *p.add(i) == x {
            return Found(1, i);
        }
    }
    Found(0, 0)
}

/// keeps the substitutes in the program
pub fn keep() -> usize {
    (vp_memchr as usize)
        ^ (vp_memchr2 as usize)
        ^ (vp_memchr3 as usize)
        ^ (vp_memrchr as usize)
        ^ (vp_memrchr2 as usize)
        ^ (vp_memrchr3 as usize)
        ^ (vp_core_memchr as usize)
        ^ (vp_core_memrchr as usize)
}
