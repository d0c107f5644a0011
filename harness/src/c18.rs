//! C18: errors describe themselves consistently and keep their cause.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use poreader::error::Error;
use std::error::Error as StdError;
use std::io;

fn text() -> String {
    let n = choice(tier(3, 4));
    let v = plain(n);
    unsafe { String::from_utf8_unchecked(v) }
}
fn line() -> usize {
    [0, 1, 7, 10, 99, 100, 12345, usize::MAX][choice(8)]
}
/// does `t` occur in `s`
fn has(s: &[u8], t: &[u8]) -> bool {
    let mut r = t.is_empty();
    let mut i = 0;
    while i + t.len() <= s.len() {
        r |= eqb(&s[i..i + t.len()], t);
        i += 1;
    }
    r
}
/// The line number as a number of its own.
fn has_number(s: &[u8], n: usize) -> bool {
    let t = n.to_string();
    let t = t.as_bytes();
    let digit = |i: usize| i < s.len() && s[i].is_ascii_digit();
    let mut i = 0;
    while i + t.len() <= s.len() {
        if s[i..i + t.len()] == *t && !digit(i + t.len()) && (i == 0 || !digit(i - 1)) {
            return true;
        }
        i += 1;
    }
    false
}
const IOS: [io::ErrorKind; 5] = [io::ErrorKind::Other, io::ErrorKind::NotFound, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut];

/// what the message says around the texts, for the texts that must come in
fn described(shown: &[u8], l: usize, texts: &[&str]) {
    reach(1);
    for t in texts {
        check(has(shown, t.as_bytes()), 1);
    }
    if l > 0 {
        check(has_number(shown, l), 2);
    }
}
fn letters() -> String {
    let n = choice(tier(4, 5));
    let v = bytes(n);
    for c in &v {
        assume((*c >= b'a') & (*c <= b'z') | (*c == b'"') | (*c == b' ') | (*c == b'%') | (*c == b'{'));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// any characters but digits, among others
fn any() -> String {
    let n = choice(tier(3, 4));
    let v = bytes(n);
    for c in &v {
        assume((*c < 0x80) & !((*c >= b'0') & (*c <= b'9')));
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    match choice(4) {
        0 => s,
        1 => format!("a{s}\nb\nc"),
        2 => format!("\u{e9}{s}\u{1F600}"),
        _ => format!("{s}{}", "long ".repeat(60)),
    }
}
/// Texts of any characters, of several lines, long ones, in the display form.
#[no_mangle]
pub extern "C" fn h_c18_any() {
    let k = choice(3);
    let l = if k == 2 { 0 } else { [0, 7, usize::MAX][choice(3)] };
    let a = any();
    let c = if k == 0 { ["", "x\ny", "\u{e9}"][choice(3)] } else { "" };
    let e = plain_error(k, l, &a, c);
    described(e.to_string().as_bytes(), l, &[&a, c]);
    let x: io::Error = plain_error(k, l, &a, c).into();
    described(x.to_string().as_bytes(), l, &[&a, c]);
    check(e.source().is_none(), 4);
}
fn plain_error(k: usize, l: usize, a: &str, c: &str) -> Error {
    match k {
        0 => Error::Parse(l, a.to_string(), c.to_string()),
        1 => Error::Unexpected(l, a.to_string()),
        _ => Error::PluralForms(a.to_string()),
    }
}
/// Line and texts are part of both written forms.
#[no_mangle]
pub extern "C" fn h_c18_display() {
    let k = choice(3);
    let l = if k == 2 { 0 } else { line() };
    let (a, c) = (letters(), if k == 0 { letters() } else { String::new() });
    let e = plain_error(k, l, &a, &c);
    let s = if choice(2) == 0 { format!("{e}") } else { format!("{e:?}") };
    note(s.len() as u64);
    described(s.as_bytes(), l, &[&a, &c]);
    // what is expected is told apart from what was found
    if k == 0 && !a.is_empty() && !c.is_empty() {
        let s2 = format!("{}", plain_error(0, l, &c, &a));
        let same = eqb(a.as_bytes(), c.as_bytes());
        check(eqb(format!("{e}").as_bytes(), s2.as_bytes()) == same, 3);
    }
    check(e.source().is_none(), 4);
}
/// An I/O error keeps its cause.
#[no_mangle]
pub extern "C" fn h_c18_io() {
    let l = line();
    let k = IOS[choice(5)];
    let e = Error::Io(l, io::Error::new(k, Mark(9)));
    let s = e.to_string();
    reach(1);
    check(has(s.as_bytes(), b"mark"), 1);
    if l > 0 {
        check(has_number(s.as_bytes(), l), 2);
    } else {
        check(s == "mark", 3);
    }
    match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
        None => check(false, 4),
        Some(c) => {
            check(c.kind() == k, 5);
            check(c.get_ref().and_then(|m| m.downcast_ref::<Mark>()).map_or(false, |m| m.0 == 9), 6);
        }
    }
}
/// As a general error or a general I/O error, everything is kept.
#[no_mangle]
pub extern "C" fn h_c18_convert() {
    let k = choice(4);
    let l = if k == 2 { 0 } else { line() };
    let a = text();
    let c = if k == 0 { text() } else { String::new() };
    let make = || if k == 3 { Error::Io(l, io::Error::new(io::ErrorKind::NotFound, Mark(3))) } else { plain_error(k, l, &a, &c) };
    let want = make().to_string();
    reach(1);
    let same = |e: &Error| -> bool {
        match e {
            Error::Io(m, e) => k == 3 && *m == l && e.kind() == io::ErrorKind::NotFound && e.get_ref().map_or(false, |m| m.is::<Mark>()),
            Error::Parse(m, g, x) => k == 0 && *m == l && eqb(g.as_bytes(), a.as_bytes()) && eqb(x.as_bytes(), c.as_bytes()),
            Error::Unexpected(m, g) => k == 1 && *m == l && eqb(g.as_bytes(), a.as_bytes()),
            Error::PluralForms(g) => k == 2 && eqb(g.as_bytes(), a.as_bytes()),
        }
    };
    if choice(2) == 0 {
        let i: io::Error = make().into();
        check(eqb(i.to_string().as_bytes(), want.as_bytes()), 1);
        check(i.kind() == io::ErrorKind::Other, 2);
        check(i.get_ref().and_then(|e| e.downcast_ref::<Error>()).map_or(false, |e| same(e)), 3);
    } else {
        let x: Box<dyn StdError> = Box::new(make());
        check(eqb(x.to_string().as_bytes(), want.as_bytes()), 4);
        check(x.downcast_ref::<Error>().map_or(false, |e| same(e)), 5);
        check(x.source().is_some() == (k == 3), 6);
    }
}
/// Errors that come out of reading a file say the same in both written forms and hold the line.
#[no_mangle]
pub extern "C" fn h_c18_reading() {
    let p = crate::warm();
    let v = word_chars(2);
    let mut t = b("msgid \"a\"\nmsgstr \"b\"\n");
    let (l, k): (usize, usize) = match choice(3) {
        0 => {
            t.extend_from_slice(b"!");
            t.extend_from_slice(&v);
            t.push(b'\n');
            (4, 0)
        }
        1 => {
            push(&mut t, "msgid \"c\"\nmsgid \"");
            t.extend_from_slice(&v);
            push(&mut t, "\"\n");
            (4, 1)
        }
        _ => {
            push(&mut t, "msgid \"c\"\nmsgstr \"");
            t.extend_from_slice(&v);
            push(&mut t, "\"\nmsgid \"\"\nmsgstr \"\"\n");
            (5, 2)
        }
    };
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        // the line directly after the first entry
        Err(e) => {
            check(k == 0, 1);
            let s = e.to_string();
            check(has_number(s.as_bytes(), l) && has(s.as_bytes(), &v), 2);
            return;
        }
    };
    loop {
        match r.next() {
            None => return check(false, 3),
            Some(Ok(_)) => {}
            Some(Err(e)) => {
                reach(1);
                let s = e.to_string();
                check(has_number(s.as_bytes(), l), 4);
                check(e.source().is_none(), 5);
                return;
            }
        }
    }
}
