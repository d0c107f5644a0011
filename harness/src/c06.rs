//! C06: formulas are parsed with C's precedence and associativity; anything else is rejected.
use crate::api::*;
use crate::c01::plural_file;
use crate::c05::{ALL, OPS};
use crate::obs::*;
use crate::warm;
use poreader::PoParser;

/// A value in C; `open` where C leaves it open (division by zero).
#[derive(Clone, Copy)]
struct V {
    v: i64,
    open: bool,
}
fn val(v: i64) -> V {
    V { v, open: false }
}
fn sel(c: bool, a: i64, b: i64) -> i64 {
    let m = -(c as i64);
    (a & m) | (b & !m)
}

/// An expression parser after the grammar of C (operator precedence, left associative binary
/// operators, right associative conditional), on the operators of plural formulas.
pub struct C<'a> {
    t: &'a [u8],
    i: usize,
    n: i64,
    bad: bool,
    /// something outside the documented formula language although C (or its extension) has it
    odd: bool,
}
impl<'a> C<'a> {
    pub fn new(t: &'a [u8], n: i64) -> C<'a> {
        C { t, i: 0, n, bad: false, odd: false }
    }
    fn at(&self, k: usize) -> u8 {
        if self.i + k < self.t.len() {
            self.t[self.i + k]
        } else {
            0
        }
    }
    fn skip(&mut self) {
        while self.at(0) == b' ' || self.at(0) == b'\t' {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &[u8]) -> bool {
        for k in 0..s.len() {
            if self.at(k) != s[k] {
                return false;
            }
        }
        self.i += s.len();
        true
    }
    /// the binary operator at this place, with its level (1 weakest)
    fn op(&mut self) -> (u8, usize, usize) {
        self.skip();
        let (a, b) = (self.at(0), self.at(1));
        match a {
            b'|' if b == b'|' => (1, 6, 2),
            b'o' if b == b'r' => (1, 6, 2),
            b'&' if b == b'&' => (2, 5, 2),
            b'a' if b == b'n' && self.at(2) == b'd' => (2, 5, 3),
            b'=' if b == b'=' => (3, 7, 2),
            b'!' if b == b'=' => (3, 8, 2),
            b'<' => {
                if b == b'=' {
                    (4, 10, 2)
                } else {
                    (4, 9, 1)
                }
            }
            b'>' => {
                if b == b'=' {
                    (4, 12, 2)
                } else {
                    (4, 11, 1)
                }
            }
            b'+' => (5, 0, 1),
            b'-' => (5, 1, 1),
            b'*' => (6, 2, 1),
            b'/' => (6, 3, 1),
            b'%' => (6, 4, 1),
            _ => (0, 0, 0),
        }
    }
    fn expr(&mut self) -> V {
        let c = self.binary(1, true);
        self.skip();
        if self.bad || self.at(0) != b'?' {
            return c;
        }
        self.i += 1;
        let a = self.expr();
        self.skip();
        if self.at(0) != b':' {
            self.bad = true;
            return c;
        }
        self.i += 1;
        let b = self.expr();
        V { v: sel(c.v != 0, a.v, b.v), open: c.open | ((c.v != 0) & a.open) | ((c.v == 0) & b.open) }
    }
    /// `first`: at the start of a sum
    fn binary(&mut self, min: u8, first: bool) -> V {
        let mut l = self.unary(first, false);
        loop {
            if self.bad {
                return l;
            }
            let (lev, op, len) = self.op();
            if lev == 0 || lev < min {
                return l;
            }
            self.i += len;
            let r = self.binary(lev + 1, lev < 5);
            l = apply(op, l, r);
        }
    }
    fn unary(&mut self, first: bool, nested: bool) -> V {
        self.skip();
        let not = if self.at(0) == b'n' && self.at(1) == b'o' && self.at(2) == b't' {
            self.i += 3;
            true
        } else if self.at(0) == b'!' {
            self.i += 1;
            true
        } else if self.at(0) == b'-' {
            self.i += 1;
            if nested {
                self.odd = true;
            }
            let r = self.unary(false, true);
            return V { v: r.v.wrapping_neg(), open: r.open };
        } else {
            return self.primary();
        };
        debug_assert!(not);
        if !first || nested {
            self.odd = true;
        }
        let r = self.unary(false, true);
        if self.bad {
            return r;
        }
        V { v: (r.v == 0) as i64, open: r.open }
    }
    fn primary(&mut self) -> V {
        self.skip();
        let c = self.at(0);
        if c == b'n' {
            self.i += 1;
            return val(self.n);
        }
        if c == b'(' {
            self.i += 1;
            let r = self.expr();
            self.skip();
            if self.at(0) != b')' {
                self.bad = true;
            }
            self.i += 1;
            return r;
        }
        let s = self.i;
        let mut v = 0i64;
        while self.at(0) >= b'0' && self.at(0) <= b'9' {
            v = v.wrapping_mul(10).wrapping_add((self.at(0) - b'0') as i64);
            self.i += 1;
        }
        if self.i == s {
            self.bad = true;
            return val(0);
        }
        // decimal, also with leading zeros
        val(v)
    }
    /// `None`: not an expression
    fn all(&mut self) -> Option<V> {
        let v = self.expr();
        self.skip();
        if self.bad || self.i != self.t.len() {
            None
        } else {
            Some(v)
        }
    }
}
fn apply(op: usize, a: V, b: V) -> V {
    let z = b.v == 0;
    let d = b.v | (z as i64);
    let bi = |x: bool| x as i64;
    let v = match op {
        0 => a.v.wrapping_add(b.v),
        1 => a.v.wrapping_sub(b.v),
        2 => a.v.wrapping_mul(b.v),
        3 => a.v.wrapping_div(d),
        4 => a.v.wrapping_rem(d),
        5 => bi((a.v != 0) & (b.v != 0)),
        6 => bi((a.v != 0) | (b.v != 0)),
        7 => bi(a.v == b.v),
        8 => bi(a.v != b.v),
        9 => bi(a.v < b.v),
        10 => bi(a.v <= b.v),
        11 => bi(a.v > b.v),
        _ => bi(a.v >= b.v),
    };
    let open = match op {
        3 | 4 => a.open | b.open | z,
        5 => a.open | ((a.v != 0) & b.open),
        6 => a.open | ((a.v == 0) & b.open),
        _ => a.open | b.open,
    };
    V { v, open }
}

pub enum Got {
    Rejected,
    /// the file is accepted, its plural entry not found: never expected
    Lost,
    Value(Option<usize>),
}
pub fn eval(p: &PoParser, f: &[u8], n: u64) -> Got {
    let t = plural_file(f, ALL);
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return Got::Rejected,
    };
    match r.next() {
        Some(Ok(u)) => match u.message().plural().and_then(|q| q.get_forms()) {
            Some(f) => Got::Value(f.get_value(n as usize)),
            None => Got::Lost,
        },
        _ => Got::Lost,
    }
}
/// The library and the reference agree on the formula; `must`: it belongs to the language.
pub fn judge(p: &PoParser, f: &[u8], n: u64, must: bool) {
    let mut c = C::new(f, n as i64);
    let w = c.all();
    let odd = c.odd;
    match eval(p, f, n) {
        Got::Rejected => {
            reach(2);
            check(w.is_none() || odd || !must, 1);
        }
        Got::Lost => check(false, 2),
        Got::Value(g) => {
            reach(1);
            match w {
                None => check(false, 3),
                Some(w) => match g {
                    Some(v) => check(w.open | (v as i64 == w.v), 4),
                    None => check(w.open | (w.v < 0), 5),
                },
            }
        }
    }
}
fn digit() -> u8 {
    let d = byte();
    assume((d >= b'0') & (d <= b'9'));
    d
}
/// shows negative values too
fn lift(f: &[u8]) -> B {
    let mut t = b("5000000+(");
    t.extend_from_slice(f);
    t.push(b')');
    t
}
/// Operands of two operators: arbitrary digits; one of them where both operators multiply or divide.
fn operands(o: usize, q: usize) -> [u8; 3] {
    let hard = |x: usize| (2..=4).contains(&x);
    if hard(o) && hard(q) {
        let mut d = [b'7', b'3', b'2'];
        d[choice(3)] = digit();
        d
    } else {
        [digit(), digit(), digit()]
    }
}
/// Two operators of every kind between digits, with every grouping by parentheses.
#[no_mangle]
pub extern "C" fn h_c06_pairs() {
    let p = warm();
    let (o, q) = (choice(15), choice(15));
    let par = choice(4);
    let d = operands(o, q);
    let mut t = vec![];
    if par == 1 {
        t.push(b'(');
    }
    t.push(d[0]);
    push(&mut t, OPS[o]);
    if par == 2 {
        t.push(b'(');
    }
    t.push(if par == 3 { b'n' } else { d[1] });
    if par == 1 {
        t.push(b')');
    }
    push(&mut t, OPS[q]);
    t.push(d[2]);
    if par == 2 {
        t.push(b')');
    }
    judge(p, &lift(&t), 3, true);
}
use crate::gen::push;
/// Three operators, one of every level.
#[no_mangle]
pub extern "C" fn h_c06_triples() {
    let p = warm();
    let ops: &[&str] = if deep() { &OPS } else { &["||", "&&", "==", "<", "-", "/"] };
    let mut t = vec![digit()];
    for i in 0..3 {
        push(&mut t, ops[choice(ops.len())]);
        t.push(if i == 1 { b'n' } else { digit() });
    }
    judge(p, &lift(&t), 2, true);
}
/// Negations before any operand.
#[no_mangle]
pub extern "C" fn h_c06_unary() {
    let p = warm();
    let (o, q) = (choice(15), choice(if deep() { 15 } else { 6 }));
    let q = if deep() { q } else { [1, 2, 5, 6, 7, 9][q] };
    let place = choice(3);
    let neg = ["-", "!", "not ", "!-", "-(!", "!("][choice(6)];
    let d = operands(o, q);
    let mut t = vec![];
    for i in 0..3 {
        if i == 1 {
            push(&mut t, OPS[o]);
        }
        if i == 2 {
            push(&mut t, OPS[q]);
        }
        if i == place {
            push(&mut t, neg);
        }
        t.push(d[i]);
        if i == place && neg.ends_with("(") || i == place && neg == "-(!" {
            t.push(b')');
        }
    }
    judge(p, &lift(&t), 1, true);
}
/// Conditionals, nested and beside operators.
#[no_mangle]
pub extern "C" fn h_c06_cond() {
    let p = warm();
    let form = [
        "d?d:d", "d?d:d?d:d", "d?d?d:d:d", "d?d?d:d:d?d:d", "dod?d:d", "d?dod:d", "d?d:dod", "(d?d:d)od", "do(d?d:d)", "d?(d?d:d):d",
        "dod?dod:dod", "d?d:dod?d:d", "!d?d:d", "-d?d:-d", "(d?d:d)?d:d", "d?d:(d?d:d)", "d or d?d:d", "(dod)?d:d",
    ][choice(18)];
    let o = if form.contains('o') && !form.contains(" or") { choice(15) } else { 0 };
    let mut t = vec![];
    let mut k = 0;
    for c in form.bytes() {
        match c {
            b'd' => {
                // enough arbitrary digits to tell the branches apart
                k += 1;
                t.push(if k <= 5 { digit() } else { b'0' + k });
            }
            b'o' if !form.contains(" or") => push(&mut t, OPS[o]),
            c => t.push(c),
        }
    }
    judge(p, &lift(&t), 1, true);
}
/// Blanks between any two tokens, and parentheses around any operand, change nothing.
#[no_mangle]
pub extern "C" fn h_c06_blanks() {
    let n = word();
    assume(n < 1 << 62);
    let p = warm();
    let toks: &[&str] = [
        &["n", "%", "10", "==", "1", "&&", "!", "n", "?", "-", "3", ":", "n", "<=", "20", "||", "n", ">=", "7"][..],
        &["n", "!=", "1", "?", "n", ">", "4", "and", "n", "<", "9", ":", "(", "n", "+", "2", ")", "*", "3", "-", "1"][..],
        &["not", "n", "or", "n", "/", "2", "==", "3"][..],
    ][choice(3)];
    let tight = choice(2) == 1;
    let (i, j) = (choice(toks.len() + 1), if deep() { choice(toks.len() + 1) } else { 0 });
    let kind = [" ", "\t", "   ", "( )"][choice(4)];
    let mut t: B = vec![];
    let mut plain: B = vec![];
    for k in 0..=toks.len() {
        let put = k == i || deep() && k == j;
        if put && kind != "( )" {
            push(&mut t, kind);
        } else if !tight || k > 0 && k < toks.len() && word_token(toks[k - 1]) && word_token(toks[k]) {
            t.push(b' ');
        }
        if k < toks.len() {
            let wrap = put && kind == "( )" && (toks[k] == "n" || toks[k].as_bytes()[0].is_ascii_digit());
            push(&mut t, if wrap { "((" } else { "" });
            push(&mut t, toks[k]);
            push(&mut t, if wrap { "))" } else { "" });
            plain.push(b' ');
            push(&mut plain, toks[k]);
        }
    }
    judge(p, &t, n, true);
    // the reference reads both alike
    let (a, b) = (C::new(&t, n as i64).all(), C::new(&plain, n as i64).all());
    check(matches!((a, b), (Some(a), Some(b)) if a.v == b.v), 6);
}
fn word_token(t: &str) -> bool {
    t.as_bytes()[0].is_ascii_alphanumeric()
}
fn formula_byte() -> u8 {
    let c = byte();
    assume((c >= 0x20) & (c <= 0x7e) & (c != b'"') & (c != b'\\') & (c != b';'));
    c
}
/// Every short text: accepted exactly when it is an expression, and then with its value.
#[no_mangle]
pub extern "C" fn h_c06_text() {
    let p = warm();
    let k = 1 + choice(tier(3, 4));
    let mut t = vec![];
    for _ in 0..k {
        t.push(formula_byte());
    }
    let mut all = true;
    for c in &t {
        all &= *c == b' ';
    }
    assume(!all);
    judge(p, &t, 6, true);
}
/// Every short text in the middle of a formula.
#[no_mangle]
pub extern "C" fn h_c06_hole() {
    let p = warm();
    let (a, z) = [("n", "2"), ("(n", "n)"), ("n%10", ""), ("", "n>1"), ("n?", ":2"), ("n==1", "0:1"), ("n<", "9"), ("(", ")%3")][choice(8)];
    let k = 1 + choice(tier(2, 3));
    let mut t = b(a);
    for _ in 0..k {
        t.push(formula_byte());
    }
    push(&mut t, z);
    judge(p, &t, 13, true);
}
/// Numbers of one to eight (thorough: twelve) arbitrary digits at every kind of place.
#[no_mangle]
pub extern "C" fn h_c06_number() {
    let p = warm();
    let (a, z) = [
        ("", ""), ("n+", ""), ("n==", ""), ("(", ")"), ("n?", ":1"), ("n>9?1:", ""), ("", "-n"), ("", "<n"), ("n%10<=", "&&n"), ("1+2*", ""), ("-", ""), ("not ", ""),
        ("n or ", ""), ("", " and n"),
    ][choice(14)];
    let k = 1 + choice(tier(8, 12));
    let mut t = b(a);
    for _ in 0..k {
        t.push(digit());
    }
    push(&mut t, z);
    judge(p, &lift(&t), 3, true);
}
/// Two parts that are alike but for an operator or the order, joined by a third, every small count.
#[no_mangle]
pub extern "C" fn h_c06_alike() {
    let n = word();
    assume(n < 16);
    let p = warm();
    let (o, q) = (choice(13), choice(13));
    let r = if deep() { choice(13) } else { [7, 1, 5, 6, 9][choice(5)] };
    let (a, c) = match choice(tier(2, 4)) {
        0 => (("n", "5"), ("n", "5")),
        1 => (("n", "5"), ("5", "n")),
        2 => (("n", "n"), ("n", "1")),
        _ => (("n%4", "3"), ("n/4", "3")),
    };
    let t = format!("({}{}{}){}({}{}{})", a.0, OPS[o], a.1, OPS[r], c.0, OPS[q], c.1);
    judge(p, &lift(t.as_bytes()), n, true);
}
