//! C17: text that is not UTF-8 is an I/O error; UTF-8 text is kept byte for byte.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::PoParser;
use std::io::ErrorKind;

/// Table 3-7 of the Unicode standard.
pub fn valid(s: &[u8]) -> bool {
    let at = |i: usize| if i < s.len() { s[i] } else { 0 };
    let tail = |i: usize| (at(i) >= 0x80) & (at(i) <= 0xbf);
    let mut i = 0;
    while i < s.len() {
        let (c, d) = (s[i], at(i + 1));
        if c < 0x80 {
            i += 1;
        } else if c >= 0xc2 && c <= 0xdf {
            if !tail(i + 1) {
                return false;
            }
            i += 2;
        } else if c >= 0xe0 && c <= 0xef {
            let ok = if c == 0xe0 {
                (d >= 0xa0) & (d <= 0xbf)
            } else if c == 0xed {
                (d >= 0x80) & (d <= 0x9f)
            } else {
                tail(i + 1)
            };
            if !(ok & tail(i + 2)) {
                return false;
            }
            i += 3;
        } else if c >= 0xf0 && c <= 0xf4 {
            let ok = if c == 0xf0 {
                (d >= 0x90) & (d <= 0xbf)
            } else if c == 0xf4 {
                (d >= 0x80) & (d <= 0x8f)
            } else {
                tail(i + 1)
            };
            if !(ok & tail(i + 2) & tail(i + 3)) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// Every few bytes in every kind of text.
#[no_mangle]
pub extern "C" fn h_c17_bytes() {
    let p = warm();
    let n = tier(4, 5);
    text_at(p, choice(15), b"<", n);
}
/// The same behind a long text of characters of any width, shifted by any number of bytes.
#[no_mangle]
pub extern "C" fn h_c17_long() {
    let p = warm();
    let place = choice(15);
    let k = choice(3);
    let w = 1 + choice(4);
    let mut v = b("<");
    for _ in 0..choice(w) {
        v.push(b'-');
    }
    let size = [60, 300, tier(5000, 70000)][k];
    while v.len() < size {
        push(&mut v, ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][w - 1]);
    }
    text_at(p, place, &v, if k < tier(1, 2) { 2 } else { 1 });
}
fn text_at(p: &PoParser, place: usize, begin: &[u8], n: usize) {
    let s = bytes(n);
    for c in &s {
        assume((*c != b'\n') & (*c != b'\r') & (*c != b'"') & (*c != b'\\') & ((*c >= 0x80) | (*c > 0x20) & (*c < 0x7f)));
    }
    // what separates in this place
    if place == 9 || place == 11 {
        for c in &s {
            assume((*c != b',') & (*c != b':'));
        }
    }
    if place == 10 {
        for i in 0..n {
            let at = |k: usize| if i + k < n { s[i + k] } else { 0 };
            let (x, y, z) = (s[i], at(1), at(2));
            assume(!((x == 0xc2) & ((y == 0x85) | (y == 0xa0))));
            assume(!((x == 0xe1) & (y == 0x9a) & (z == 0x80)));
            assume(!((x == 0xe2) & (y == 0x80) & ((z <= 0x8a) | (z == 0xa8) | (z == 0xa9) | (z == 0xaf))));
            assume(!((x == 0xe2) & (y == 0x81) & (z == 0x9f)));
            assume(!((x == 0xe3) & (y == 0x80) & (z == 0x80)));
        }
    }
    let mut v = begin.to_vec();
    v.extend_from_slice(&s);
    v.push(b'>');
    // in a comment of the header
    let remark = place >= 12;
    let header = place == 8 || place == 11 || remark;
    let comment = (5..11).contains(&place) && !header;
    let a = Entry::simple(b("a"), b("x"));
    let mut t = vec![];
    let mut e = Entry::simple(b("m"), b("s"));
    let mut u;
    if !header {
        a.write(&mut t, Lay::One);
        t.push(b'\n');
    }
    match place {
        0 => e.id = v.clone(),
        1 => e.vals[0] = v.clone(),
        2 => e.ctx = Some(v.clone()),
        3 => {
            e.pl = Some(v.clone());
            e.vals.push(v.clone());
        }
        4 => {
            e.pctx = Some(v.clone());
            e.pid = Some(v.clone());
        }
        _ => {}
    }
    u = e.unit();
    match place {
        5 => {
            push(&mut t, "# ");
            u.notes.push((false, v.clone()));
        }
        6 => {
            push(&mut t, "#. ");
            u.notes.push((true, v.clone()));
        }
        7 => {
            push(&mut t, "#= ");
            u.comments.push((b'=' as u32, v.clone()));
        }
        8 => {
            push(&mut t, "msgid \"\"\nmsgstr \"X: ");
            t.extend_from_slice(&v);
            push(&mut t, "\"\n\n");
        }
        9 => {
            push(&mut t, "#, c-format,");
            u.flags = vec![b("c-format"), v.clone()];
        }
        10 => {
            push(&mut t, "#: ");
            u.locs.push(v.clone());
        }
        11 => {
            push(&mut t, "msgid \"\"\nmsgstr \"");
            t.extend_from_slice(&v);
            push(&mut t, ": y\"\n\n");
        }
        12..=14 => {
            push(&mut t, ["# ", "#. ", "#= "][place - 12]);
            t.extend_from_slice(&v);
            push(&mut t, "\nmsgid \"\"\nmsgstr \"X: y\"\n\n");
        }
        _ => {}
    }
    if comment {
        t.extend_from_slice(&v);
        t.push(b'\n');
    }
    let line = 1 + t.iter().filter(|c| **c == b'\n').count();
    e.write(&mut t, Lay::One);
    let o = read(p, &t[..]);
    let mut want = vec![];
    if !header {
        want.push(a.unit());
    }
    if valid(&s) {
        reach(1);
        want.push(u);
        check(o.is_units(&want), 1);
        if place == 8 {
            check(eq_props(&o.props, &[(b("X"), v)]), 2);
        } else if place == 11 {
            check(eq_props(&o.props, &[(v, b("y"))]), 11);
        } else if place == 14 {
            check(eq_comments(&o.hcomments, &[(b'=' as u32, v)]) && o.hnotes.is_empty(), 12);
        } else if remark {
            check(o.hcomments.is_empty() && o.hnotes.len() == 1 && o.hnotes[0].0 == (place == 13) && eqb(&o.hnotes[0].1, &v), 13);
        }
    } else {
        reach(2);
        match &o.err {
            None => check(false, 3),
            Some(e) => {
                check((e.kind == IO) & (e.io == Some(ErrorKind::InvalidData)), 4);
                check(e.line <= line + 1, 5);
            }
        }
        // the entry before, unless the bad line follows it directly
        check(o.units.len() <= 1, 6);
        if !header {
            let direct = place == 0 || place == 2 || place == 4 || comment;
            check(direct || o.units.len() == 1, 7);
            check(o.units.is_empty() || o.units[0].eq(&want[0]), 8);
        } else {
            check(o.open && o.units.is_empty(), 9);
        }
        check(!o.after, 10);
    }
}
/// Arbitrary bytes as a line of their own.
#[no_mangle]
pub extern "C" fn h_c17_line() {
    let p = warm();
    let a = Entry::simple(b("a"), b("x"));
    let z = Entry::simple(b("z"), b("y"));
    let mut t = vec![];
    a.write(&mut t, Lay::One);
    z.write(&mut t, Lay::One);
    let n = 1 + choice(tier(4, 5));
    let s = bytes(n);
    for c in &s {
        assume(*c != b'\n');
    }
    assume(s[n - 1] != b'\r');
    t.extend_from_slice(&s);
    t.push(b'\n');
    let o = read(p, &t[..]);
    if !valid(&s) {
        reach(1);
        match &o.err {
            None => check(false, 1),
            Some(e) => check((e.kind == IO) & (e.io == Some(ErrorKind::InvalidData)) & (e.line == 5), 2),
        }
    } else {
        reach(2);
        if let Some(e) = &o.err {
            check(e.kind != IO, 3);
        }
    }
    check(o.units.len() > 0 && o.units[0].eq(&a.unit()), 4);
}

/// Every character as the kind of a comment.
#[no_mangle]
pub extern "C" fn h_c17_kind() {
    let p = warm();
    let k = 1 + choice(4);
    let c = utf8(k);
    if k == 1 {
        assume((c[0] > b' ') & (c[0] < 0x7f));
        for s in b",:.~|" {
            assume(c[0] != *s);
        }
    }
    let x = |i: usize| (c[i] & 0x3f) as u32;
    let code = match k {
        1 => c[0] as u32,
        2 => (c[0] as u32 & 0x1f) << 6 | x(1),
        3 => (c[0] as u32 & 0xf) << 12 | x(1) << 6 | x(2),
        _ => (c[0] as u32 & 7) << 18 | x(1) << 12 | x(2) << 6 | x(3),
    };
    let header = choice(2) == 1;
    let mut t = if header { vec![] } else { b("msgid \"a\"\nmsgstr \"x\"\n\n") };
    push(&mut t, "#");
    t.extend_from_slice(&c);
    push(&mut t, " text\n");
    push(&mut t, if header { "msgid \"\"\nmsgstr \"K: v\"\n" } else { "msgid \"m\"\nmsgstr \"y\"\n" });
    let o = read(p, &t[..]);
    let want = [(code, b("text"))];
    reach(1);
    check(!o.open && o.err.is_none() && o.units.len() == if header { 0 } else { 2 }, 1);
    if header {
        check(eq_comments(&o.hcomments, &want), 2);
    } else if o.units.len() == 2 {
        check(eq_comments(&o.units[1].comments, &want), 3);
    }
}
