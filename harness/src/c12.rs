//! C12: message accessors agree with the stored content; equality is lawful.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::Message;

fn text(max: usize) -> String {
    let n = choice(max + 1);
    let v = ascii(n);
    unsafe { String::from_utf8_unchecked(v) }
}
fn simple(max: usize) -> (Message, B, B) {
    let id = text(max);
    let t = if choice(2) == 1 { Some(text(max)) } else { None };
    let (i, c) = (b(&id), t.as_ref().map(|t| b(t)).unwrap_or_default());
    (Message::Simple { id, text: t }, i, c)
}
/// Two simple messages: equal exactly when identifier and text agree.
#[no_mangle]
pub extern "C" fn h_c12_equal() {
    let m = tier(2, 3);
    let (x, i, s) = simple(m);
    let (y, j, t) = simple(m);
    let same = eqb(&i, &j) & eqb(&s, &t);
    reach(1);
    check((x == y) == same, 1);
    check((y == x) == same, 2);
    check((x != y) == !same, 3);
    check(x == x, 4);
    check(x.clone() == x, 5);
}
/// Equality is transitive.
#[no_mangle]
pub extern "C" fn h_c12_transitive() {
    let (x, _, _) = simple(1);
    let (y, _, _) = simple(1);
    let (z, _, _) = simple(1);
    if x == y && y == z {
        reach(1);
        check(x == z, 1);
    }
}
/// What the accessors answer on a simple message.
#[no_mangle]
pub extern "C" fn h_c12_simple() {
    let n = word();
    let (x, i, s) = simple(tier(3, 4));
    reach(1);
    check(eqb(x.get_id().as_bytes(), &i), 1);
    check(eqb(x.get_text().as_bytes(), &s), 2);
    check(x.is_blank() == s.is_empty(), 3);
    check(!x.is_plural(), 4);
    check(x.is_simple() == !i.is_empty(), 5);
    check(x.get_plural_id().is_none(), 6);
    check(x.plural().is_none(), 7);
    let t = x.get_plural_text(n as usize);
    check(t.map_or(s.is_empty(), |t| eqb(t.as_bytes(), &s)), 8);
    let d = Message::default();
    check(d.is_blank() && d.get_id() == "" && d.get_text() == "" && !d.is_plural() && !d.is_simple(), 9);
    check((d == x) == (i.is_empty() & s.is_empty()), 10);
}
fn plural_file(es: &[Entry]) -> B {
    let mut t = b(HEADER3);
    for e in es {
        e.write(&mut t, Lay::One);
    }
    t
}
/// What the accessors answer on a plural message, and on the unit that holds it.
#[no_mangle]
pub extern "C" fn h_c12_plural() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let mut f = || {
        let n = choice(2);
        plain(n)
    };
    let mut e = Entry::simple(f(), vec![]);
    e.pl = Some(f());
    let g = 1 + choice(3);
    e.vals = (0..g).map(|_| f()).collect();
    if choice(2) == 1 {
        e.ctx = Some(b("c"));
    }
    e.obsolete = choice(2) == 1;
    let t = plural_file(&[e.clone()]);
    let u = match p.parse(&t[..]).ok().and_then(|mut r| r.next()) {
        Some(Ok(u)) => u,
        _ => return check(false, 1),
    };
    reach(1);
    let m = u.message();
    let blank = e.vals.iter().all(|v| v.is_empty());
    check(eqb(m.get_id().as_bytes(), &e.id), 2);
    check(eqb(m.get_text().as_bytes(), &e.vals[0]), 3);
    check(m.is_blank() == blank, 4);
    check(m.is_plural() && !m.is_simple(), 5);
    check(m.get_plural_id().map_or(false, |q| eqb(q.as_bytes(), e.pl.as_ref().unwrap())), 6);
    let want = if n < g as u64 { Some(&e.vals[n as usize]) } else { None };
    check(
        match (m.get_plural_text(n as usize), want) {
            (None, None) => true,
            (Some(a), Some(c)) => eqb(a.as_bytes(), c),
            _ => false,
        },
        7,
    );
    check(u.is_translated() == !blank, 8);
    check(u.context().is_some() == e.ctx.is_some(), 9);
    check(u.is_obsolete() == e.obsolete, 10);
    match m.plural() {
        None => check(false, 11),
        Some(q) => {
            check(q.is_blank() == blank, 12);
            check(eqb(q.singular().as_bytes(), &e.id) & eqb(q.plural().as_bytes(), e.pl.as_ref().unwrap()), 13);
            check(q.values().len() == g, 14);
            check(eqb(q.first().as_bytes(), &e.vals[0]), 15);
            match q.get_forms() {
                None => check(false, 16),
                Some(f) => check(f.get_count() == 3 && f.get_formula() == "n" && f.get_definition() == "nplurals=3; plural=n;", 17),
            }
        }
    }
    check(*m == m.clone() && m == m, 18);
}
/// Equality of plural messages among each other and with simple ones is an equivalence that tells
/// identifiers apart.
#[no_mangle]
pub extern "C" fn h_c12_mixed() {
    let p = warm();
    let mut ms = vec![];
    let begin = ["", "a longer"][choice(2)];
    let long = || {
        let n = 1 + choice(2);
        [b(begin), plain(n)].concat()
    };
    for i in 0..3 {
        // simple, plural under a definition, under none, plural as the previous message, simple as such
        let kind = if i == 0 { 1 } else { choice(5) };
        let mut e = Entry::simple(if i < 2 { long() } else { plain(1) }, if kind < 3 { plain(1) } else { vec![] });
        if kind % 4 > 0 {
            e.pl = Some(long());
        }
        let t = match kind {
            0 | 1 => plural_file(&[e.clone()]),
            2 => {
                let mut t = vec![];
                e.write(&mut t, Lay::One);
                t
            }
            _ => {
                let mut c = Entry::simple(b("current"), b("text"));
                c.pid = Some(e.id.clone());
                c.ppl = e.pl.clone();
                e.vals = vec![];
                plural_file(&[c])
            }
        };
        match p.parse(&t[..]).ok().and_then(|mut r| r.next()) {
            Some(Ok(u)) => {
                let m = if kind < 3 { u.message() } else { u.prev_message() };
                if kind == 4 {
                    e.vals.push(vec![]);
                }
                ms.push((m.clone(), e));
            }
            _ => return check(false, 1),
        }
    }
    let (x, y, z) = (&ms[0], &ms[1], &ms[2]);
    let (xy, yx, yz, xz) = (x.0 == y.0, y.0 == x.0, y.0 == z.0, x.0 == z.0);
    reach(1);
    check(xy == yx, 2);
    check(!xy | !yz | xz, 3);
    check(x.0 == x.0, 4);
    for (q, e) in [(xy, y), (xz, z)] {
        if q {
            check(eqb(&e.1.id, &x.1.id), 5);
            check(e.1.pl.as_ref().map_or(false, |q| eqb(q, x.1.pl.as_ref().unwrap())), 6);
        }
        if e.1.pl.is_some() {
            let all = eqb(&e.1.id, &x.1.id) & eqb(e.1.pl.as_ref().unwrap(), x.1.pl.as_ref().unwrap()) & eql(&e.1.vals, &x.1.vals);
            check(q | !all, 7);
        }
    }
}
/// The previous source, as a message of its own, and the state of its unit.
#[no_mangle]
pub extern "C" fn h_c12_previous() {
    let n = word();
    let p = warm();
    let mut f = || {
        let n = choice(2);
        plain(n)
    };
    let mut e = Entry::simple(b("m"), f());
    e.pid = Some(f());
    if choice(2) == 1 {
        e.ppl = Some(f());
    }
    if choice(2) == 1 {
        e.pctx = Some(f());
    }
    e.obsolete = choice(2) == 1;
    let fuzzy = choice(2) == 1;
    let mut t = b("msgid \"first\"\nmsgstr \"x\"\n\n");
    if fuzzy {
        push(&mut t, "#, fuzzy\n");
    }
    e.write(&mut t, Lay::One);
    let u = match p.parse(&t[..]).ok().and_then(|mut r| r.nth(1)) {
        Some(Ok(u)) => u,
        _ => return check(false, 1),
    };
    reach(1);
    let m = u.prev_message();
    let id = e.pid.as_ref().unwrap();
    check(eqb(m.get_id().as_bytes(), id), 2);
    check(m.is_blank() && m.get_text() == "", 3);
    check(m.is_plural() == e.ppl.is_some(), 4);
    check(m.is_simple() == (e.ppl.is_none() && !id.is_empty()), 5);
    check(m.plural().is_some() == e.ppl.is_some(), 6);
    match (m.get_plural_id(), &e.ppl) {
        (None, None) => {}
        (Some(a), Some(c)) => check(eqb(a.as_bytes(), c), 7),
        _ => check(false, 8),
    }
    check(m.get_plural_text(n as usize).map_or(true, |t| t.is_empty()), 9);
    check(eqo(&u.prev_context().map(b), &e.pctx), 10);
    let state = if fuzzy {
        NEEDS_WORK
    } else if e.vals[0].is_empty() {
        EMPTY
    } else {
        FINAL
    };
    check(U::of(&u).state == state, 11);
    check(u.is_translated() == (state == FINAL), 12);
    check(*m == m.clone() && (*m == *u.message()) == (e.ppl.is_none() && eqb(id, b"m") && e.vals[0].is_empty()), 13);
}
