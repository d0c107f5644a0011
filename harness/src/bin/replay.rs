//! Runs one entry natively on recorded inputs: `replay ENTRY FILE`.
//! exit 0: ran to the end; 101: a check failed or a panic; 77: an assumption does not hold.
use std::cell::RefCell;
thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
}
fn next() -> u64 {
    IN.with(|x| {
        let mut x = x.borrow_mut();
        let i = x.1;
        x.1 += 1;
        x.0.get(i).copied().unwrap_or(0)
    })
}
#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() as u8 }
    }
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_choice(_k: u64) -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("assume failed");
        std::process::exit(77);
    }
}
#[no_mangle]
extern "C" fn sym_assert(c: bool, id: u64) {
    if !c {
        println!("ASSERT {id}");
    }
}
#[no_mangle]
extern "C" fn sym_reach(id: u64) {
    println!("reach {id}");
}
#[no_mangle]
extern "C" fn sym_note(v: u64) {
    println!("note {v}");
}
#[no_mangle]
extern "C" fn sym_param(i: u64) -> u64 {
    let p = std::env::var("VP_PARAM").unwrap_or_default();
    p.split(',').nth(i as usize).and_then(|s| s.parse().ok()).unwrap_or(0)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).unwrap();
    let v: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    IN.with(|x| *x.borrow_mut() = (v, 0));
    for (k, f) in vp_harness::ENTRIES {
        if *k == a[1] {
            f();
            println!("end");
            return;
        }
    }
    panic!("no entry {}", a[1]);
}
