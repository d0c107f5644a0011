//! C11: malformed lines are rejected and located.
use crate::api::*;
use crate::gen::*;
use crate::grammar::*;
use crate::obs::*;
use crate::warm;

fn one() -> B {
    plain(1)
}
/// `n` kinds of line
pub const KINDS: usize = 18;
pub fn kind(i: usize) -> L {
    match i {
        0 => L::Str("", "msgid", one()),
        1 => L::Str("", "msgstr", one()),
        2 => L::Str("", "msgid_plural", one()),
        3 => L::Str("", "msgstr[0]", one()),
        4 => L::Str("", "msgctxt", one()),
        5 => L::Cont("", one()),
        6 => L::Comment(b(" c")),
        7 => L::Bad(b("junk")),
        8 => L::Str("|", "msgid", one()),
        9 => L::Str("~", "msgid", one()),
        10 => L::Str("~", "msgstr", one()),
        11 => L::Str("", "msgstr[1]", one()),
        12 => L::Str("|", "msgctxt", one()),
        13 => L::Str("|", "msgid_plural", one()),
        14 => L::Cont("|", one()),
        15 => L::Str("", "msgid", vec![]),
        16 => L::Str("", "msgstr[2]", one()),
        _ => L::Cont("~", one()),
    }
}
pub fn entry(tag: u8) -> [L; 2] {
    [L::Str("", "msgid", vec![tag]), L::Str("", "msgstr", vec![tag])]
}
pub fn compare(o: &Obs, v: &Verdict) {
    match v.defect {
        None => {
            reach(1);
            check(o.err.is_none(), 1);
        }
        Some((line, bad)) => {
            reach(2);
            match &o.err {
                None => check(false, 2),
                Some(e) => {
                    // a line not of the format is counted from the line after it
                    check(e.line == line + bad as usize, 3);
                    check((e.kind == PARSE) | (e.kind == UNEXPECTED), 4);
                }
            }
        }
    }
    check(!o.after, 5);
    check(o.units.len() == v.units.len(), 6);
    if o.units.len() == v.units.len() {
        check(eq_units(&o.units, &v.units), 7);
    }
}
fn run(p: &poreader::PoParser, ls: &[L]) {
    let mut t = vec![];
    for l in ls {
        l.write(&mut t);
    }
    let v = judge(ls, 2);
    let o = read(p, &t[..]);
    compare(&o, &v);
    check(!o.open || v.units.is_empty(), 8);
}
/// Lines of every kind in every order after a complete entry, followed by another one or the end.
#[no_mangle]
pub extern "C" fn h_c11_after() {
    let p = warm();
    let n = tier(4, 5);
    let mut ls = entry(b'A').to_vec();
    for _ in 0..n {
        ls.push(kind(choice(KINDS)));
    }
    ls.extend(entry(b'Z'));
    run(p, &ls);
}
/// The same at the start of the file.
#[no_mangle]
pub extern "C" fn h_c11_first() {
    let p = warm();
    let n = tier(4, 5);
    let mut ls = vec![];
    for _ in 0..n {
        ls.push(kind(choice(KINDS)));
    }
    ls.extend(entry(b'Z'));
    run(p, &ls);
}
/// Inside of a plural entry with everything.
#[no_mangle]
pub extern "C" fn h_c11_inside() {
    let p = warm();
    let mut e = vec![
        L::Comment(b(" n")), L::Str("|", "msgctxt", one()), L::Cont("|", one()), L::Str("|", "msgid", one()), L::Str("|", "msgid_plural", one()),
        L::Str("", "msgctxt", one()), L::Str("", "msgid", one()), L::Cont("", one()), L::Str("", "msgid_plural", one()), L::Str("", "msgstr[0]", one()),
        L::Cont("", one()), L::Str("", "msgstr[1]", one()),
    ];
    if choice(2) == 1 {
        for l in &mut e {
            match l {
                L::Str(p, ..) | L::Cont(p, _) => *p = if *p == "|" { "~|" } else { "~" },
                _ => {}
            }
        }
    }
    let n = e.len();
    let i = choice(n + 1);
    match choice(3) {
        // one line too many
        0 => e.insert(i, kind(choice(KINDS))),
        // one missing
        1 => {
            if i < n {
                e.remove(i);
            }
        }
        // two exchanged
        _ => {
            let j = choice(n);
            if i < n {
                e.swap(i, j);
            }
        }
    }
    let mut ls = entry(b'A').to_vec();
    ls.extend(e);
    ls.extend(entry(b'Z'));
    run(p, &ls);
}
/// The end of the file after every kind of lines.
#[no_mangle]
pub extern "C" fn h_c11_end() {
    let p = warm();
    let n = choice(tier(4, 5));
    let mut ls = entry(b'A').to_vec();
    for _ in 0..n {
        ls.push(kind(choice(KINDS)));
    }
    run(p, &ls);
}
fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\r' || c == 0x0b || c == 0x0c
}
fn trim(s: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, s.len());
    while i < j && ws(s[i]) {
        i += 1;
    }
    while j > i && ws(s[j - 1]) {
        j -= 1;
    }
    &s[i..j]
}
/// what a line without keyword is
fn recognise(l: &[u8]) -> L {
    let s = trim(l);
    if s.is_empty() {
        return L::Blank;
    }
    let (p, rest) = if s[0] != b'#' {
        ("", s)
    } else if s.len() > 2 && s[1] == b'~' && s[2] == b'|' {
        ("~|", &s[3..])
    } else if s.len() > 1 && s[1] == b'~' {
        ("~", &s[2..])
    } else if s.len() > 1 && s[1] == b'|' {
        ("|", &s[2..])
    } else {
        ("#", s)
    };
    let q = trim(rest);
    if p != "#" && q.len() >= 2 && q[0] == b'"' && q[q.len() - 1] == b'"' {
        // unescaped below
        return L::Cont(p, q[1..q.len() - 1].to_vec());
    }
    if s[0] == b'#' {
        return L::Comment(vec![]);
    }
    L::Bad(l.to_vec())
}
/// Every short line at every place of a catalogue.
#[no_mangle]
pub extern "C" fn h_c11_line() {
    let p = warm();
    let n = choice(tier(5, 6));
    let l = ascii(n);
    for c in &l {
        assume((*c != b'\n') & (*c != b'\\'));
    }
    // a carriage return at the end belongs to the line end
    assume(n == 0 || l[n - 1] != b'\r');
    let what = recognise(&l);
    let place = choice(4);
    let mut ls = entry(b'A').to_vec();
    ls.push(L::Str("", "msgctxt", one()));
    ls.push(L::Str("", "msgid", one()));
    ls.push(L::Str("", "msgstr", one()));
    ls.extend(entry(b'Z'));
    // a defect further on shows the line counted
    if choice(2) == 1 {
        ls.extend([L::Str("", "msgid", one()), if choice(2) == 1 { L::Bad(b("junk")) } else { L::Str("", "msgid", one()) }]);
    }
    let at = 2 + place;
    let mut t = vec![];
    for (i, x) in ls.iter().enumerate() {
        if i == at {
            t.extend_from_slice(&l);
            t.push(b'\n');
        }
        x.write(&mut t);
    }
    let comment = matches!(what, L::Comment(_));
    ls.insert(at, what);
    let v = judge(&ls, 2);
    let o = read(p, &t[..]);
    match v.defect {
        None => {
            reach(1);
            check(o.err.is_none(), 1);
        }
        Some((line, bad)) => {
            reach(2);
            match &o.err {
                None => check(false, 2),
                Some(e) => {
                    check((e.line == line + bad as usize) & (e.kind == PARSE), 3);
                    if bad && line == at + 1 {
                        check(eqb(&e.got, &l), 4);
                    }
                }
            }
        }
    }
    check(o.units.len() == v.units.len(), 6);
    for (a, c) in o.units.iter().zip(&v.units) {
        check(a.eq_fields(c), 7);
        check(comment || a.eq(c), 8);
    }
}
/// Every short text between a keyword and its string, and after the string.
#[no_mangle]
pub extern "C" fn h_c11_keyword() {
    let p = warm();
    let k = ["msgid", "msgstr", "msgctxt", "msgid_plural"][choice(4)];
    let n = choice(tier(3, 4));
    let s = ascii(n);
    let mut blank = true;
    for c in &s {
        assume((*c != b'\n') & (*c != b'"'));
        blank &= ws(*c);
    }
    let tail = choice(2) == 1;
    // the keyword msgstr takes an index, the others a plural: not within so few characters
    let mut l = b("  ");
    push(&mut l, k);
    if tail {
        push(&mut l, " \"x\"");
        l.extend_from_slice(&s);
    } else {
        l.extend_from_slice(&s);
        push(&mut l, "\"x\"");
    }
    let id = matches!(k, "msgid" | "msgctxt");
    let mut t = b("msgid \"A\"\nmsgstr \"A\"\n");
    // before the line what makes it fit
    match k {
        "msgid" | "msgctxt" => {}
        _ => push(&mut t, "msgid \"x\"\n"),
    }
    let line = 3 + !id as usize;
    t.extend_from_slice(&l);
    t.push(b'\n');
    push(&mut t, match k {
        "msgid" => "msgstr \"x\"\n",
        "msgctxt" => "msgid \"x\"\nmsgstr \"x\"\n",
        "msgid_plural" => "msgstr[0] \"x\"\n",
        _ => "",
    });
    push(&mut t, "msgid \"Z\"\nmsgstr \"Z\"\n");
    let o = read(p, &t[..]);
    let a = Entry::simple(b("A"), b("A")).unit();
    if blank {
        reach(1);
        check(o.err.is_none() && o.units.len() == 3, 1);
    } else {
        reach(2);
        match &o.err {
            None => check(false, 2),
            Some(e) => check((e.kind == PARSE) & (e.line == line + 1), 3),
        }
        // the entry before is complete only once the line after it is read
        check(o.units.is_empty() || o.units.len() == 1 && o.units[0].eq(&a), 4);
        check(id || o.units.len() == 1, 5);
    }
}

/// The characters that are blank: White_Space of Unicode beyond ASCII.
fn blank_char(c: &[u8]) -> bool {
    let at = |i: usize| if i < c.len() { c[i] } else { 0 };
    let (x, y, z) = (at(0), at(1), at(2));
    match c.len() {
        2 => (x == 0xc2) & ((y == 0x85) | (y == 0xa0)),
        3 => {
            ((x == 0xe1) & (y == 0x9a) & (z == 0x80))
                | ((x == 0xe2) & (y == 0x80) & ((z <= 0x8a) | (z == 0xa8) | (z == 0xa9) | (z == 0xaf)))
                | ((x == 0xe2) & (y == 0x81) & (z == 0x9f))
                | ((x == 0xe3) & (y == 0x80) & (z == 0x80))
        }
        _ => false,
    }
}
/// A character beyond ASCII where only blanks may be: on a line of its own, before the keyword,
/// after it, after the string; at the start of the file, in an entry, and after one.
#[no_mangle]
pub extern "C" fn h_c11_char() {
    let p = warm();
    let c = utf8(2 + choice(3));
    let blank = blank_char(&c);
    let place = choice(4);
    let at = choice(3);
    let mut line = vec![];
    if place == 1 {
        line.extend_from_slice(&c);
    }
    if place > 0 {
        push(&mut line, ["msgid", "msgstr", "msgid"][at]);
    }
    if place == 2 {
        line.extend_from_slice(&c);
    }
    push(&mut line, if place > 0 { "\"m\"" } else { "" });
    if place == 3 || place == 0 {
        line.extend_from_slice(&c);
    }
    let mut ls = vec![];
    if at == 1 {
        ls.push(L::Str("", "msgid", b("i")));
    }
    if at == 2 {
        ls.extend(entry(b'A'));
        ls.push(L::Blank);
    }
    let what = if !blank {
        L::Bad(line.clone())
    } else if place == 0 {
        L::Blank
    } else {
        L::Str("", ["msgid", "msgstr", "msgid"][at], b("m"))
    };
    let here = ls.len();
    ls.push(what);
    if place > 0 && at != 1 {
        ls.push(L::Str("", "msgstr", b("t")));
    }
    if place == 0 && at == 1 {
        ls.push(L::Str("", "msgstr", b("t")));
    }
    ls.extend(entry(b'Z'));
    let mut t = vec![];
    for (i, l) in ls.iter().enumerate() {
        if i == here {
            t.extend_from_slice(&line);
            t.push(b'\n');
        } else {
            l.write(&mut t);
        }
    }
    let v = judge(&ls, 2);
    let o = read(p, &t[..]);
    compare(&o, &v);
}
