//! C01: any byte stream is answered; errors are terminal.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::{CatalogueReader, Message, PoParser};

/// Reads everything a user can ask for; a panic, a fault or endless work is a violation by itself.
pub fn exercise(p: &PoParser, t: &[u8]) {
    let lines = t.iter().filter(|c| **c == b'\n').count() + 1;
    match p.parse(t) {
        Err(e) => {
            reach(1);
            let _ = e.to_string();
        }
        Ok(mut r) => {
            let keys = r.header_properties().len();
            let mut n = 0;
            let mut failed = false;
            loop {
                match r.next() {
                    None => break,
                    Some(Ok(u)) => {
                        n += 1;
                        check(n <= lines, 1);
                        if n > lines {
                            return;
                        }
                        let m = u.message();
                        let _ = (m.get_id(), m.get_text(), m.get_plural_id(), m.is_blank(), m.is_simple(), u.is_translated());
                        for c in [0, 1, 2, 5, usize::MAX] {
                            let _ = m.get_plural_text(c);
                        }
                        if let Message::Plural(q) = m {
                            if let Some(f) = q.get_forms() {
                                let _ = (f.get_definition(), f.get_formula(), f.get_count());
                                for c in [0, 1, 7, 1 << 31, 1 << 63, usize::MAX] {
                                    let _ = f.get_value(c);
                                }
                            }
                        }
                    }
                    Some(Err(e)) => {
                        reach(2);
                        let _ = e.to_string();
                        failed = true;
                        break;
                    }
                }
            }
            if !failed {
                reach(3);
            }
            for _ in 0..3 {
                check(r.next().is_none(), 2);
            }
            check(r.header_properties().len() == keys, 3);
            let _ = (r.target_language(), r.header_notes(), r.header_comments());
        }
    }
}

/// Every file of so many bytes.
#[no_mangle]
pub extern "C" fn h_c01_raw() {
    let p = warm();
    let n = choice(tier(5, 6));
    let t = bytes(n);
    exercise(p, &t);
}

pub const HOLES: usize = 22;
pub fn hole(i: usize) -> (&'static str, &'static str) {
    match i {
        0 => ("msgid \"a\"\nmsgstr \"b\"\n", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
        1 => ("msgid \"a\"\nmsgstr \"b\"\n\n#", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
        2 => ("msgid \"a\"\nmsgstr \"b\"\n\n#, ", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
        3 => ("msgid \"a\"\nmsgstr \"b\"\n\n#: ", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
        4 => ("msgid \"a\"\nmsgstr \"b\"\n\nmsgid", "\"c\"\nmsgstr \"d\"\n"),
        5 => ("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[", "] \"x\"\nmsgstr[1] \"y\"\n"),
        6 => ("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr", " \"x\"\n"),
        7 => ("msgid \"", "\"\nmsgstr \"x\"\n"),
        8 => ("msgid \"a\"\nmsgstr \"", "\"\n"),
        9 => ("msgid \"a\"\nmsgstr \"b\"", ""),
        10 => ("msgid \"\"\nmsgstr \"", "\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        11 => ("msgid \"\"\nmsgstr \"Language:", "\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        12 => ("msgid \"\"\nmsgstr \"Plural-Forms: ", "\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"),
        13 => ("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=", "; plural=n;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"),
        14 => ("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=", ";\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"),
        15 => ("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n", "n)%3;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"),
        16 => ("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2;", "plural=n;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"),
        17 => ("#~ msgid \"a\"\n#~", "\"b\"\n#~ msgstr \"c\"\n"),
        18 => ("#| msgid \"a\"\n#", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
        19 => ("", "msgid \"c\"\nmsgstr \"d\"\n"),
        20 => ("msgctxt \"a\"\n", "\nmsgstr \"d\"\n"),
        _ => ("msgid \"a\"\nmsgstr \"b\"\n\n# ", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
    }
}
/// Every few bytes at the sensitive places of a catalogue.
#[no_mangle]
pub extern "C" fn h_c01_hole() {
    let p = warm();
    let (a, z) = hole(choice(HOLES));
    let n = tier(2, 3);
    let n = choice(n + 1);
    let h = bytes(n);
    let mut t = b(a);
    t.extend_from_slice(&h);
    push(&mut t, z);
    exercise(p, &t);
}

/// A number of one to `max` digits, the longest with the given first digits.
pub fn digits(max: usize, first: &[u8]) -> B {
    let n = 1 + choice(max);
    let first = &first[..first.len() - tier(0, 3)];
    let (mut d, k) = if n < max { (vec![], n) } else { (first.to_vec(), max - first.len()) };
    for c in bytes(k) {
        assume((c >= b'0') & (c <= b'9'));
        d.push(c);
    }
    d
}

/// Every number of plural forms of up to twenty digits, with one stored form.
#[no_mangle]
pub extern "C" fn h_c01_nplurals() {
    let p = warm();
    let d = digits(20, b"184467440737095516");
    let mut t = b("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=");
    t.extend_from_slice(&d);
    push(&mut t, "; plural=n;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n\nmsgid \"c\"\nmsgstr \"d\"\n");
    exercise(p, &t);
}

pub fn plural_file(formula: &[u8], nplurals: &str) -> B {
    let mut t = b("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=");
    push(&mut t, nplurals);
    push(&mut t, "; plural=");
    t.extend_from_slice(formula);
    push(&mut t, ";\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n");
    t
}
/// Every count through every kind of arithmetic: no fault, also with overflow detection on.
#[no_mangle]
pub extern "C" fn h_c01_eval() {
    let n = word();
    let p = warm();
    let fs: [&str; 26] = [
        "-n", "-n-n", "n*n", "n*n*n", "n+n", "n-n-n", "n/n", "n%n", "n/0", "n%0", "n/(0-1)", "n%(0-1)", "-n/(0-1)", "-n%(0-1)",
        "n+9223372036854775807", "-n-9223372036854775807", "n*9223372036854775807", "-(n-1)", "!n", "n/(n%3-1)", "n%(n%3-1)",
        "n?n:-n", "-(n*n)", "(n-1)/(n-n)", "(-n)*(-n)", "n>5&&n/0",
    ];
    let t = plural_file(fs[choice(fs.len())].as_bytes(), "3");
    if let Ok(mut r) = p.parse(&t[..]) {
        if let Some(Ok(u)) = r.next() {
            reach(1);
            let _ = u.message().get_plural_text(n as usize);
        }
    }
}
/// Deeply nested and very long formulas: within the stack, or refused.
#[no_mangle]
pub extern "C" fn h_c01_deep() {
    let n = word();
    let p = warm();
    let (pre, mid, post): (&str, &str, &str) = [("", "n", "+1"), ("(", "n", ")"), ("n?1:", "n", ""), ("-(", "n", ")"), ("!(", "n", ")"), ("", "n", "&&n"), ("n%(n-", "n", ")")][choice(7)];
    let unit = pre.len() + post.len();
    // some within any reasonable limit, some far longer
    let k = [100, 1000 / unit, 4000 / unit, 120_000 / unit, 150_000 / unit][choice(tier(4, 5))];
    let mut f = b("");
    for _ in 0..k {
        push(&mut f, pre);
    }
    push(&mut f, mid);
    for _ in 0..k {
        push(&mut f, post);
    }
    let t = plural_file(&f, "3");
    match p.parse(&t[..]) {
        Err(e) => {
            reach(1);
            let _ = e;
        }
        Ok(mut r) => {
            if let Some(Ok(u)) = r.next() {
                reach(2);
                let _ = u.message().get_plural_text(n as usize);
                note(k as u64);
            }
        }
    }
}
fn wide_place() -> (&'static str, &'static str) {
    let at = [0usize, 1, 2, 3, 7, 8, 10, 11, 12, 13, 14, 16, 18, 20, 22, 23, 24, 25];
    match at[choice(at.len())] {
        22 => ("msgid \"\"\nmsgstr \"Language: ", "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        23 => ("msgid \"\"\nmsgstr \"\"\n\"Language: de", "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        24 => ("msgid \"\"\nmsgstr \"\"\n\"Content-Type: ", "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        25 => ("msgid \"\"\nmsgstr \"\"\n\"", ": v\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
        i => hole(i),
    }
}
/// Long texts of characters of any width, shifted by any number of bytes, wherever a text can stand.
#[no_mangle]
pub extern "C" fn h_c01_shift() {
    let p = warm();
    let (a, z) = wide_place();
    let w = 2 + choice(3);
    let mut t = b(a);
    let c = byte();
    assume((c >= 0x20) & (c <= 0x7e));
    if choice(2) == 1 {
        t.push(c);
    }
    for _ in 0..choice(w) {
        t.push(b'a');
    }
    let size = t.len() + [40, 300, tier(5000, 70000)][choice(3)];
    while t.len() < size {
        push(&mut t, ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][w - 1]);
    }
    push(&mut t, z);
    exercise(p, &t);
}
/// Texts of characters of different widths, wherever a text can stand.
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    let p = warm();
    let (a, z) = wide_place();
    let mut t = b(a);
    let most = if deep() { 5 } else { 4 };
    let mut syms = 0;
    for _ in 0..1 + choice(most) {
        match choice(4) {
            0 => {
                let c = byte();
                assume((c >= 0x20) & (c <= 0x7e));
                syms += 1;
                if syms > tier(1, 2) {
                    assume(c == b'a');
                }
                t.push(c);
            }
            1 => push(&mut t, "\u{e9}"),
            2 => push(&mut t, "\u{20ac}"),
            _ => push(&mut t, "\u{1f600}"),
        }
    }
    push(&mut t, z);
    exercise(p, &t);
}
