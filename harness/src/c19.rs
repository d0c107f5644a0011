//! C19: the Plural-Forms definition is taken as written, or refused.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::plural::PluralForms;
use poreader::{Message, PoParser};

fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn trim(s: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, s.len());
    while i < j && ws(s[i]) {
        i += 1;
    }
    while j > i && ws(s[j - 1]) {
        j -= 1;
    }
    &s[i..j]
}
/// The pairs of a definition, or none if it is no list of pairs.
pub fn pairs(t: &[u8]) -> Option<Vec<(B, B)>> {
    let t = trim(t);
    let mut r = vec![];
    if t.is_empty() {
        return Some(r);
    }
    let mut parts: Vec<&[u8]> = t.split(|c| *c == b';').collect();
    if !trim(parts.pop().unwrap()).is_empty() {
        return None;
    }
    for q in parts {
        if trim(q).is_empty() {
            // stray semicolon
            continue;
        }
        let i = q.iter().position(|c| *c == b'=')?;
        let (k, v) = (trim(&q[..i]), trim(&q[i + 1..]));
        if k.is_empty() || k.iter().any(|c| ws(*c)) {
            return None;
        }
        r.push((k.to_vec(), v.to_vec()));
    }
    Some(r)
}
fn number(v: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in v {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    if v.is_empty() {
        None
    } else {
        Some(n)
    }
}
fn file(def: &[u8], other: usize) -> B {
    let mut t = b("msgid \"\"\nmsgstr \"\"\n\"A: b\\n\"\n");
    for i in 0..other {
        push(&mut t, &format!("\"X-{i}: nplurals={i}; plural={i};\\n\"\n"));
    }
    push(&mut t, "\"Plural-Forms: ");
    t.extend_from_slice(&esc(def));
    push(&mut t, "\\n\"\n\"Z: y\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"zero\"\n");
    t
}
/// `None`: opening failed; the inner `None`: no definition.
fn forms(p: &PoParser, def: &[u8], count: u64, other: usize) -> Option<Option<PluralForms>> {
    let t = file(def, other);
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return None,
    };
    match r.next() {
        Some(Ok(u)) => match u.message() {
            Message::Plural(q) => Some(q.get_forms().cloned()),
            _ => {
                check(false, 101);
                None
            }
        },
        r => {
            // with no forms declared no translation is allowed
            check(count == 0 && matches!(r, Some(Err(_))), 102);
            None
        }
    }
}
fn last<'a>(l: &'a [(B, B)], k: &[u8]) -> (usize, Option<&'a B>) {
    let mut n = 0;
    let mut r = None;
    for (a, v) in l {
        if a.len() == k.len() && eqb(a, k) {
            n += 1;
            r = Some(v);
        }
    }
    (n, r)
}
/// The formulas that are recognised here, by what they give for n = 7.
fn formula(v: &[u8]) -> Option<Option<usize>> {
    const L: [(&[u8], usize); 6] = [(b"", 7), (b"n", 7), (b"0", 0), (b"n+1", 8), (b"n!=1", 1), (b"n==1?0:1", 1)];
    for (t, r) in L {
        if t.len() == v.len() && eqb(t, v) {
            return Some(Some(r));
        }
    }
    None
}
fn expect(p: &PoParser, def: &[u8], other: usize) {
    if trim(def).is_empty() {
        reach(3);
        match forms(p, def, 2, other) {
            Some(f) => check(f.is_none(), 1),
            None => check(false, 2),
        }
        return;
    }
    let l = match pairs(def) {
        None => {
            reach(2);
            check(forms(p, def, 2, other).is_none(), 3);
            return;
        }
        Some(l) => l,
    };
    let (cn, cv) = last(&l, b"nplurals");
    let (fn_, fv) = last(&l, b"plural");
    if cn > 1 || fn_ > 1 {
        // a key given twice: not settled
        return;
    }
    if let Some(v) = cv {
        if v.len() > 1 && v[0] == b'+' {
            // a number with a sign: not settled
            return;
        }
    }
    let count = match cv {
        None => Some(2),
        Some(v) => number(v),
    };
    let count = match count {
        None => {
            reach(2);
            check(forms(p, def, 2, other).is_none(), 4);
            return;
        }
        Some(c) => c,
    };
    let none = vec![];
    let text = fv.unwrap_or(&none);
    match forms(p, def, count, other) {
        None => {
            // refused: only for its formula
            check(count == 0 || formula(text).is_none(), 5);
        }
        Some(None) => check(false, 6),
        Some(Some(f)) => {
            reach(1);
            check(f.get_count() as u64 == count, 7);
            check(eqb(f.get_definition().as_bytes(), trim(def)), 8);
            check(eqb(f.get_formula().as_bytes(), text), 9);
            if let Some(w) = formula(text) {
                check(f.get_value(7) == w.filter(|w| (*w as u64) < count), 10);
            }
        }
    }
}
fn text(n: usize) -> B {
    let v = bytes(n);
    for c in &v {
        assume((*c >= 0x20) & (*c <= 0x7e) | (*c == b'\t'));
    }
    v
}
/// The number of forms as written: arbitrary text.
#[no_mangle]
pub extern "C" fn h_c19_count() {
    let p = warm();
    let mut d = b("nplurals=");
    if choice(2) == 1 {
        // a number of nineteen digits and more, or what looks like one
        push(&mut d, ["18446744073709551", "1000000000000000000000", "00000000000000000000"][choice(3)]);
    }
    let n = choice(tier(4, 5));
    d.extend_from_slice(&text(n));
    push(&mut d, "; plural=n+1;");
    expect(p, &d, 0);
}
/// Arbitrary text before, between and after the pairs.
#[no_mangle]
pub extern "C" fn h_c19_around() {
    let p = warm();
    let (a, z) = [
        ("", "nplurals=9; plural=n!=1;"),
        ("nplurals=9;", "plural=n!=1;"),
        ("nplurals=9; plural=n!=1;", ""),
        ("nplurals=9; plural=n!=1", ""),
        ("nplurals=9; plural", "=n!=1;"),
        ("nplurals", "=9; plural=n!=1;"),
        ("plural=n+1;", "nplurals=9;"),
        ("x=y; ", "plural=0;"),
        ("nplurals=9; ", "plural=n+1;"),
        ("", ""),
    ][choice(10)];
    let n = choice(tier(4, 5));
    let mut d = b(a);
    d.extend_from_slice(&text(n));
    push(&mut d, z);
    expect(p, &d, 0);
}
/// Blanks wherever they may stand, either order, other pairs in between.
#[no_mangle]
pub extern "C" fn h_c19_blanks() {
    let p = warm();
    let mut d = vec![];
    let order = choice(2) == 1;
    let other = choice(4);
    let number = ["1", "9", "012"][choice(3)];
    let f = ["n+1", "n==1?0:1", "", "n  !=\t  1"][choice(4)];
    let mut list = vec![("nplurals", number), ("plural", f)];
    if order {
        list.reverse();
    }
    if other > 0 {
        list.insert(other - 1, ("plurals", "n-1"));
    }
    let at = choice(4 * list.len() + 1);
    let every = choice(2) == 1;
    let mut i = 0;
    let mut blank = |d: &mut B| {
        if i == at {
            for c in bytes(2) {
                assume(ws(c));
                d.push(c);
            }
        } else if every {
            d.push(b' ');
        }
        i += 1;
    };
    for (k, v) in &list {
        blank(&mut d);
        push(&mut d, k);
        blank(&mut d);
        push(&mut d, "=");
        blank(&mut d);
        push(&mut d, v);
        blank(&mut d);
        push(&mut d, ";");
    }
    blank(&mut d);
    expect(p, &d, 0);
}
/// The definition behind many other lines.
#[no_mangle]
pub extern "C" fn h_c19_late() {
    let p = warm();
    let other = [3, 70, tier(150, 400)][choice(3)];
    let (a, z) = [("nplurals=", "; plural=n+1;"), ("nplurals=9; ", "plural=n!=1;"), ("nplurals=9; plural=n!=1;", "")][choice(3)];
    let n = choice(tier(2, 3));
    let mut d = vec![];
    // other pairs before
    for i in 0..[0, 30, tier(100, 300)][choice(3)] {
        push(&mut d, &format!("x{i}={i}; "));
    }
    push(&mut d, a);
    d.extend_from_slice(&text(n));
    push(&mut d, z);
    expect(p, &d, other);
}
