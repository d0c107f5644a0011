//! C07: plural lookup returns the form the formula selects, or nothing.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::Message;

fn bi(b: bool) -> i64 {
    b as i64
}
const FORMULAS: [(&str, fn(i64) -> i64); 7] = [
    ("n", |n| n),
    ("n>5", |n| bi(n > 5)),
    ("n%4", |n| n % 4),
    ("3-n", |n| 3i64.wrapping_sub(n)),
    ("n==1?0:n==2?1:2", |n| if n == 1 { 0 } else if n == 2 { 1 } else { 2 }),
    ("-n", |n| n.wrapping_neg()),
    ("n/1000", |n| n / 1000),
];
fn tagged(tag: u8) -> B {
    let mut v = vec![tag];
    v.extend_from_slice(&plain(1));
    v
}
pub fn message(o: Option<Result<poreader::unit::Unit, poreader::error::Error>>) -> Option<Message> {
    match o {
        Some(Ok(u)) => Some(u.message().clone()),
        _ => None,
    }
}
pub fn is_text(got: Option<&str>, want: Option<&B>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => eqb(g.as_bytes(), w),
        _ => false,
    }
}
/// Every count, formula, number of declared forms and number of given translations.
#[no_mangle]
pub extern "C" fn h_c07_lookup() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let (f, c) = FORMULAS[choice(FORMULAS.len())];
    let k = 1 + choice(4);
    let g = 1 + choice(k);
    let vals: Vec<B> = (0..g).map(|i| if i == 2 && choice(2) == 1 { vec![] } else { tagged(b'0' + i as u8) }).collect();
    let mut e = Entry::simple(tagged(b'i'), vec![]);
    e.pl = Some(tagged(b'p'));
    e.vals = vals.clone();
    let mut t = b("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=");
    t.push(b'0' + k as u8);
    push(&mut t, "; plural=");
    push(&mut t, f);
    push(&mut t, ";\\n\"\n\n");
    e.write(&mut t, Lay::One);
    let before = choice(2) == 1;
    if before {
        push(&mut t, "\nmsgid \"z\"\nmsgstr \"z\"\n");
    }
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let m = match message(r.next()) {
        Some(m) => m,
        None => return check(false, 2),
    };
    let w = c(n as i64);
    let want = if w >= 0 && (w as u64) < k as u64 && (w as u64) < g as u64 { Some(&vals[w as usize]) } else { None };
    reach(if want.is_some() { 1 } else { 2 });
    note(want.map_or(9, |v| v.len() as u64));
    check(is_text(m.get_plural_text(n as usize), want), 3);
    check(M::of(&m).eq(&e.unit().msg), 5);
    match m.plural() {
        Some(q) => {
            check(is_text(q.get(n as usize), want), 4);
            check(eqb(q.first().as_bytes(), &vals[0]), 6);
            check(q.get_forms().map_or(false, |f| f.get_count() == k), 7);
        }
        None => check(false, 8),
    }
}
/// Counts beyond the largest represented one: nothing or a stored form, never anything else.
#[no_mangle]
pub extern "C" fn h_c07_many() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    // indices of two digits
    let g = [9, 10, 11, 12][choice(4)];
    let mut t = b("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=12; plural=n;\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\n");
    let mut vals = vec![];
    for i in 0..g {
        let v = tagged(b'a' + i as u8);
        push(&mut t, &format!("msgstr[{i}] \""));
        t.extend_from_slice(&v);
        push(&mut t, "\"\n");
        vals.push(v);
    }
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let m = match message(r.next()) {
        Some(m) => m,
        None => return check(false, 2),
    };
    let want = if n < g as u64 { Some(&vals[n as usize]) } else { None };
    reach(1);
    check(is_text(m.get_plural_text(n as usize), want), 3);
}
/// Three translations with arbitrary one-digit indices: in order from 0, or an error at the first
/// line out of order and nothing stored under a wrong index.
#[no_mangle]
pub extern "C" fn h_c07_indices() {
    let p = warm();
    let header = choice(2) == 1;
    let k = if header { 3 } else { 2 };
    let mut t = vec![];
    let mut line = 1;
    if header {
        push(&mut t, HEADER3);
        line += 4;
    }
    let a = Entry::simple(tagged(b'a'), b("x"));
    a.write(&mut t, Lay::One);
    push(&mut t, "\nmsgid \"i\"\nmsgid_plural \"p\"\n");
    line += 5;
    let n = 1 + choice(3);
    let ds = bytes(n);
    let mut vals = vec![];
    for d in &ds {
        assume((*d >= b'0') & (*d <= b'9'));
        let v = tagged(b'v');
        push(&mut t, "msgstr[");
        t.push(*d);
        push(&mut t, "] \"");
        t.extend_from_slice(&v);
        push(&mut t, "\"\n");
        vals.push(v);
    }
    push(&mut t, "\nmsgid \"z\"\nmsgstr \"z\"\n");
    let mut good = 0;
    while good < n && good < k && ds[good] == b'0' + good as u8 {
        good += 1;
    }
    let o = read(p, &t[..]);
    check(o.units.len() > 0 && o.units[0].eq(&a.unit()), 1);
    let u = M::Plural { id: b("i"), pl: b("p"), vals: vals[..good].to_vec() };
    if good == n {
        reach(1);
        check(o.err.is_none() && o.units.len() == 3, 2);
        check(o.units.len() > 1 && o.units[1].msg.eq(&u), 3);
    } else {
        reach(2);
        match &o.err {
            Some(e) => check((e.kind == PARSE) & (e.line == line + good), 4),
            None => check(false, 5),
        }
        // the entry itself, if given at all, with the translations that are in order
        check(o.units.len() <= 2, 6);
        if o.units.len() == 2 {
            check(good > 0 && o.units[1].msg.eq(&u), 7);
        }
    }
}
/// Without plural forms in the header no text is selected; the stored ones stay available.
#[no_mangle]
pub extern "C" fn h_c07_undeclared() {
    let n = word();
    let p = warm();
    let mut t = b(["", "msgid \"\"\nmsgstr \"\"\n\n", "msgid \"\"\nmsgstr \"Language: de\\n\"\n\n", "msgid \"\"\nmsgstr \"Plural-Forms: \\n\"\n\n"][choice(4)]);
    let g = 1 + choice(2);
    let mut e = Entry::simple(tagged(b'i'), vec![]);
    e.pl = Some(tagged(b'p'));
    e.vals = (0..g).map(|_| tagged(b'v')).collect();
    e.write(&mut t, Lay::One);
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let m = match message(r.next()) {
        Some(m) => m,
        None => return check(false, 2),
    };
    reach(1);
    check(m.get_plural_text(n as usize).is_none(), 3);
    check(m.plural().map_or(false, |q| q.get_forms().is_none()), 4);
    check(M::of(&m).eq(&e.unit().msg), 5);
}
/// The definition in its variants of writing: number of forms and formula are both taken from it.
#[no_mangle]
pub extern "C" fn h_c07_definition() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let k = byte();
    assume((k >= b'1') & (k <= b'9'));
    let (a, c, z, w): (&str, &str, &str, fn(i64) -> i64) = [
        ("nplurals=", "; plural=n;", "", (|n| n) as fn(i64) -> i64),
        (" nplurals = ", " ; plural = n ;", " ", |n| n),
        ("plural=n+1; nplurals=", ";", "", |n| n.wrapping_add(1)),
        ("nplurals=", ";plural=(n==3);", "", |n| bi(n == 3)),
        ("nplurals=", ";", "", |n| n),
        ("nplurals=", "; plural=;", "", |n| n),
        ("nplurals=", "; plural=n!=1;", "  x=y;", |n| bi(n != 1)),
    ][choice(7)];
    let mut t = b("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: ");
    push(&mut t, a);
    t.push(k);
    push(&mut t, c);
    push(&mut t, z);
    push(&mut t, "\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"zero\"\n");
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let m = match message(r.next()) {
        Some(m) => m,
        None => return check(false, 2),
    };
    reach(1);
    let w = w(n as i64);
    match m.plural().and_then(|q| q.get_forms()) {
        None => check(false, 3),
        Some(f) => {
            check(f.get_count() == (k - b'0') as usize, 4);
            match f.get_value(n as usize) {
                Some(v) => check((v as i64 == w) & (w < (k - b'0') as i64), 5),
                None => check((w < 0) | (w >= (k - b'0') as i64), 6),
            }
        }
    }
    check(m.get_plural_text(n as usize).is_some() == (w == 0), 7);
}
