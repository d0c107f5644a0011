//! C05: formulas are evaluated as C evaluates them.
use crate::api::*;
use crate::c01::{digits, plural_file};
use crate::obs::*;
use crate::warm;
use poreader::PoParser;

/// What the library answers for the formula at `n` (`None`: nothing below the number of forms).
pub fn value(p: &PoParser, formula: &[u8], nplurals: &str, n: u64) -> Option<Option<usize>> {
    let t = plural_file(formula, nplurals);
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return None,
    };
    match r.next() {
        Some(Ok(u)) => u.message().plural().and_then(|q| q.get_forms().map(|f| f.get_value(n as usize))),
        _ => None,
    }
}
/// more forms than any value
pub const ALL: &str = "9223372036854775808";

fn is(got: Option<usize>, want: i64, id: u64) {
    match got {
        Some(v) => check(v as i64 == want, id),
        None => check(want < 0, id + 1),
    }
}
type F = fn(i64) -> i64;
fn bi(b: bool) -> i64 {
    b as i64
}
/// The formulas of the gettext manual and of current catalogues, with the C expression.
pub static REAL: &[(&str, F)] = &[
    ("0", |_| 0),
    ("n != 1", |n| bi(n != 1)),
    ("(n != 1)", |n| bi(n != 1)),
    ("n>1", |n| bi(n > 1)),
    ("(n > 1)", |n| bi(n > 1)),
    ("n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2", |n| if (n % 10 == 1) & (n % 100 != 11) { 0 } else if n != 0 { 1 } else { 2 }),
    ("n==1 ? 0 : n==2 ? 1 : 2", |n| if n == 1 { 0 } else if n == 2 { 1 } else { 2 }),
    ("n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2", |n| {
        if n == 1 { 0 } else if (n == 0) | ((n % 100 > 0) & (n % 100 < 20)) { 1 } else { 2 }
    }),
    ("n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2", |n| {
        if (n % 10 == 1) & (n % 100 != 11) { 0 } else if (n % 10 >= 2) & ((n % 100 < 10) | (n % 100 >= 20)) { 1 } else { 2 }
    }),
    ("n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", |n| {
        if (n % 10 == 1) & (n % 100 != 11) { 0 } else if (n % 10 >= 2) & (n % 10 <= 4) & ((n % 100 < 10) | (n % 100 >= 20)) { 1 } else { 2 }
    }),
    ("(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2", |n| if n == 1 { 0 } else if (n >= 2) & (n <= 4) { 1 } else { 2 }),
    ("n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", |n| {
        if n == 1 { 0 } else if (n % 10 >= 2) & (n % 10 <= 4) & ((n % 100 < 10) | (n % 100 >= 20)) { 1 } else { 2 }
    }),
    ("n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3", |n| {
        if n % 100 == 1 { 0 } else if n % 100 == 2 { 1 } else if (n % 100 == 3) | (n % 100 == 4) { 2 } else { 3 }
    }),
    ("n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", |n| {
        if n == 0 { 0 } else if n == 1 { 1 } else if n == 2 { 2 } else if (n % 100 >= 3) & (n % 100 <= 10) { 3 } else if n % 100 >= 11 { 4 } else { 5 }
    }),
    ("n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4", |n| if n == 1 { 0 } else if n == 2 { 1 } else if n < 7 { 2 } else if n < 11 { 3 } else { 4 }),
    ("(n%10==1 && n%100!=11) ? 0 : ((n%10>=2 && n%10<=4 && (n%100<12 || n%100>14)) ? 1 : 2)", |n| {
        if (n % 10 == 1) & (n % 100 != 11) { 0 } else if (n % 10 >= 2) & (n % 10 <= 4) & ((n % 100 < 12) | (n % 100 > 14)) { 1 } else { 2 }
    }),
    ("n==1 || n==11 ? 0 : n==2 || n==12 ? 1 : n>2 && n<20 ? 2 : 3", |n| {
        if (n == 1) | (n == 11) { 0 } else if (n == 2) | (n == 12) { 1 } else if (n > 2) & (n < 20) { 2 } else { 3 }
    }),
    ("n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3", |n| {
        if n == 1 { 0 } else if (n == 0) | ((n % 100 > 1) & (n % 100 < 11)) { 1 } else if (n % 100 > 10) & (n % 100 < 20) { 2 } else { 3 }
    }),
    ("(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3", |n| if n == 1 { 0 } else if n == 2 { 1 } else if (n != 8) & (n != 11) { 2 } else { 3 }),
    ("n==1 || n%10==1 ? 0 : 1", |n| if (n == 1) | (n % 10 == 1) { 0 } else { 1 }),
    ("n%10!=1 || n%100==11", |n| bi((n % 10 != 1) | (n % 100 == 11))),
    ("(n%10==1 && n%100!=11 && n!=0) ? 0 : 1", |n| if (n % 10 == 1) & (n % 100 != 11) & (n != 0) { 0 } else { 1 }),
    ("not n", |n| bi(n == 0)),
    ("n > 1 and n < 5 or n == 9", |n| bi(((n > 1) & (n < 5)) | (n == 9))),
    ("n == 1 ? 0 : n % 1000000 == 0 && n != 0 ? 1 : 2", |n| if n == 1 { 0 } else if (n % 1000000 == 0) & (n != 0) { 1 } else { 2 }),
    ("(n/10)%10 == 1 ? 1 : 0", |n| bi((n / 10) % 10 == 1)),
];
#[no_mangle]
pub extern "C" fn h_c05_real() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let (f, c) = REAL[choice(REAL.len())];
    match value(p, f.as_bytes(), "6", n) {
        None => check(false, 1),
        Some(g) => {
            reach(1);
            is(g, c(n as i64), 2);
        }
    }
}

pub const OPS: [&str; 15] = ["+", "-", "*", "/", "%", "&&", "||", "==", "!=", "<", "<=", ">", ">=", " and ", " or "];
/// C's meaning on signed 64-bit values, wrapping; `None` where C leaves it open.
pub fn apply(op: usize, a: i64, b: i64) -> Option<i64> {
    Some(match op {
        0 => a.wrapping_add(b),
        1 => a.wrapping_sub(b),
        2 => a.wrapping_mul(b),
        3 => {
            if b == 0 {
                return None;
            }
            a.wrapping_div(b)
        }
        4 => {
            if b == 0 {
                return None;
            }
            a.wrapping_rem(b)
        }
        5 | 13 => bi((a != 0) & (b != 0)),
        6 | 14 => bi((a != 0) | (b != 0)),
        7 => bi(a == b),
        8 => bi(a != b),
        9 => bi(a < b),
        10 => bi(a <= b),
        11 => bi(a > b),
        _ => bi(a >= b),
    })
}
/// Every operator between the count and a number of up to two digits, either way around.
#[no_mangle]
pub extern "C" fn h_c05_ops() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let op = choice(OPS.len());
    let two = choice(2) == 1;
    let d = bytes(1 + two as usize);
    let mut v = 0i64;
    for c in &d {
        assume((*c >= b'0') & (*c <= b'9'));
        v = v * 10 + (*c - b'0') as i64;
    }
    let left = choice(2) == 1;
    let mut f = vec![];
    if left {
        f.extend_from_slice(&d);
        f.extend_from_slice(OPS[op].as_bytes());
        f.push(b'n');
    } else {
        f.push(b'n');
        f.extend_from_slice(OPS[op].as_bytes());
        f.extend_from_slice(&d);
    }
    let want = if left { apply(op, v, n as i64) } else { apply(op, n as i64, v) };
    if let Some(w) = want {
        match value(p, &f, ALL, n) {
            None => check(false, 1),
            Some(g) => {
                reach(1);
                is(g, w, 2);
            }
        }
    }
}
/// Negation, and nested arithmetic that leaves the range of small numbers.
#[no_mangle]
pub extern "C" fn h_c05_unary() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let s = n as i64;
    let (f, w): (&str, i64) = match choice(14) {
        0 => ("-n", s.wrapping_neg()),
        1 => ("!n", bi(s == 0)),
        2 => ("not n", bi(s == 0)),
        3 => ("0-n", 0i64.wrapping_sub(s)),
        4 => ("n-5", s.wrapping_sub(5)),
        5 => ("-(5-n)", 5i64.wrapping_sub(s).wrapping_neg()),
        6 => ("n+n", s.wrapping_add(s)),
        7 => ("n*3+1", s.wrapping_mul(3).wrapping_add(1)),
        8 => ("(n-7)%5+5", s.wrapping_sub(7).wrapping_rem(5).wrapping_add(5)),
        9 => ("(0-n)/3+n", s.wrapping_neg().wrapping_div(3).wrapping_add(s)),
        10 => ("!(n>3)", bi(!(s > 3))),
        11 => ("n?5:6", if s != 0 { 5 } else { 6 }),
        12 => ("-n<0", bi(s.wrapping_neg() < 0)),
        _ => ("n*n-n", s.wrapping_mul(s).wrapping_sub(s)),
    };
    match value(p, f.as_bytes(), ALL, n) {
        None => check(false, 1),
        Some(g) => {
            reach(1);
            is(g, w, 2);
        }
    }
}
/// Number literals of up to nineteen digits.
#[no_mangle]
pub extern "C" fn h_c05_literal() {
    let n = word();
    let p = warm();
    let d = digits(19, b"92233720368547758");
    let mut v = 0u64;
    for c in &d {
        v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64);
    }
    assume(v <= i64::MAX as u64);
    match value(p, &d, ALL, n) {
        None => check(false, 1),
        Some(g) => {
            reach(1);
            is(g, v as i64, 2);
        }
    }
}
/// Values at or above the number of forms are not an index.
#[no_mangle]
pub extern "C" fn h_c05_range() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let k = 1 + choice(9);
    let t = ["1", "2", "3", "4", "5", "6", "7", "8", "9"][k - 1];
    match value(p, b"n", t, n) {
        None => check(false, 1),
        Some(g) => {
            reach(1);
            match g {
                Some(v) => check((v as u64 == n) & (n < k as u64), 2),
                None => check(n >= k as u64, 3),
            }
        }
    }
    let _ = b("");
}
const NUMBERS: [i64; 20] = [
    0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 64, 100, 128, 256, 1000, 65536, 1 << 31, 1 << 32, i64::MAX,
];
/// Every operator on negative values as well, and numbers of all sizes, either way around.
#[no_mangle]
pub extern "C" fn h_c05_signed() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let s = n as i64;
    let op = choice(OPS.len());
    let (v, a) = match choice(4) {
        0 => ("(-n)", s.wrapping_neg()),
        1 => ("(5-n)", 5i64.wrapping_sub(s)),
        2 => ("n", s),
        _ => ("(n-100)", s.wrapping_sub(100)),
    };
    let c = NUMBERS[choice(NUMBERS.len())];
    let neg = choice(2) == 1;
    let num = if neg { format!("(-{c})") } else { format!("{c}") };
    let c = if neg { -c } else { c };
    let left = choice(2) == 1;
    if neg && !deep() && (op == 5 || op == 6 || op > 12) {
        // a number other than zero like any
        return;
    }
    let (x, y) = if left { (c, a) } else { (a, c) };
    if left && (op == 3 || op == 4) {
        // by a number that may be zero only
        assume(a != 0);
        if !deep() && (c > 10 || c < -10) {
            return;
        }
    }
    let mut f = if left { format!("{num}{}{v}", OPS[op]) } else { format!("{v}{}{num}", OPS[op]) };
    let turn = op < 5 && choice(2) == 1;
    if turn {
        f = format!("-({f})");
    }
    if let Some(w) = apply(op, x, y) {
        let w = if turn { w.wrapping_neg() } else { w };
        match value(p, f.as_bytes(), ALL, n) {
            None => check(false, 1),
            Some(g) => {
                reach(1);
                is(g, w, 2);
            }
        }
    }
}
