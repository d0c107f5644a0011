//! C02: string contents are decoded exactly.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::PoParser;

/// The string fields, by (kind of entry, which string).
pub const FIELDS: usize = 12;
pub struct Slot {
    pub before: &'static str,
    pub pre: &'static str,
    pub key: &'static str,
    pub after: &'static str,
}
pub fn slot(f: usize) -> Slot {
    let s = |before, pre, key, after| Slot { before, pre, key, after };
    match f {
        0 => s("", "", "msgctxt", "msgid \"i\"\nmsgstr \"t\"\n"),
        1 => s("", "", "msgid", "msgstr \"t\"\n"),
        2 => s("msgid \"i\"\n", "", "msgstr", ""),
        3 => s("msgid \"i\"\n", "", "msgid_plural", "msgstr[0] \"a\"\nmsgstr[1] \"b\"\n"),
        4 => s("msgid \"i\"\nmsgid_plural \"p\"\n", "", "msgstr[0]", "msgstr[1] \"b\"\n"),
        5 => s("msgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n", "", "msgstr[1]", ""),
        6 => s("", "#| ", "msgctxt", "msgid \"i\"\nmsgstr \"t\"\n"),
        7 => s("", "#| ", "msgid", "msgid \"i\"\nmsgstr \"t\"\n"),
        8 => s("#| msgid \"q\"\n", "#| ", "msgid_plural", "msgid \"i\"\nmsgstr \"t\"\n"),
        9 => s("", "#~ ", "msgid", "#~ msgstr \"t\"\n"),
        10 => s("#~ msgid \"i\"\n", "#~ ", "msgstr", ""),
        _ => s("", "#~| ", "msgid", "#~ msgid \"i\"\n#~ msgstr \"t\"\n"),
    }
}
/// the field's text in a unit read back
pub fn field(f: usize, u: &U) -> Option<B> {
    let id = |m: &M| match m {
        M::Simple { id, .. } | M::Plural { id, .. } => id.clone(),
    };
    let pl = |m: &M| match m {
        M::Plural { pl, .. } => Some(pl.clone()),
        _ => None,
    };
    let val = |m: &M, i: usize| match m {
        M::Simple { text, .. } => Some(text.clone()),
        M::Plural { vals, .. } => vals.get(i).cloned(),
    };
    match f {
        0 => u.ctx.clone(),
        1 | 9 => Some(id(&u.msg)),
        2 | 10 => val(&u.msg, 0),
        3 => pl(&u.msg),
        4 => val(&u.msg, 0),
        5 => val(&u.msg, 1),
        6 => u.pctx.clone(),
        7 | 11 => Some(id(&u.pmsg)),
        _ => pl(&u.pmsg),
    }
}
/// `pieces` are the escaped texts of the physical lines.
fn file(f: usize, pieces: &[B]) -> B {
    let s = slot(f);
    let mut t = b("msgid \"first\"\nmsgstr \"one\"\n\n");
    push(&mut t, s.before);
    for (i, p) in pieces.iter().enumerate() {
        push(&mut t, s.pre);
        if i == 0 {
            push(&mut t, s.key);
            push(&mut t, " ");
        }
        t.push(b'"');
        t.extend_from_slice(p);
        push(&mut t, "\"\n");
    }
    push(&mut t, s.after);
    push(&mut t, "\nmsgid \"last\"\nmsgstr \"two\"\n");
    t
}
fn expect(p: &PoParser, f: usize, pieces: &[B], want: &[u8]) {
    let t = file(f, pieces);
    let o = read(p, &t[..]);
    if f == 1 || f == 9 {
        // an entry with an empty source text is not a message
        if want.is_empty() {
            return;
        }
    }
    check(o.units.len() == 3 && o.err.is_none() && !o.after, 1);
    if o.units.len() == 3 {
        reach(1);
        match field(f, &o.units[1]) {
            Some(g) => {
                note_bytes(&g);
                check(eqb(&g, want), 2)
            }
            None => check(false, 3),
        }
    }
}

/// Every ASCII text, escaped by the writer, in every field, over up to three lines.
#[no_mangle]
pub extern "C" fn h_c02_escape() {
    let p = warm();
    let n = tier(3, 4);
    let s = ascii(n);
    let f = choice(FIELDS);
    let i = choice(n + 2);
    if i > n {
        expect(p, f, &[esc(&s)], &s);
        return;
    }
    let j = i + choice(n - i + 1);
    expect(p, f, &[esc(&s[..i]), esc(&s[i..j]), esc(&s[j..])], &s);
}

/// Longer texts in one field, without continuation lines.
#[no_mangle]
pub extern "C" fn h_c02_long() {
    let p = warm();
    let n = tier(5, 6);
    let s = ascii(n);
    expect(p, 2, &[esc(&s)], &s);
}

/// An arbitrary character next to an arbitrary escaped one.
#[no_mangle]
pub extern "C" fn h_c02_utf8() {
    let p = warm();
    let k = 1 + choice(4);
    let c = utf8(k);
    let d = ascii(1);
    let f = choice(FIELDS);
    let before = choice(2) == 1;
    let mut s = vec![];
    if before {
        s.extend_from_slice(&d);
    }
    s.extend_from_slice(&c);
    if !before {
        s.extend_from_slice(&d);
    }
    if choice(2) == 1 {
        expect(p, f, &[esc(&s)], &s);
    } else {
        let m = if before { 1 } else { k };
        expect(p, f, &[vec![], esc(&s[..m]), esc(&s[m..])], &s);
    }
}

/// A string body as written: escapes are replaced, every other backslash sequence is kept.
fn decode(t: &[u8]) -> Option<B> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == b'"' {
            return None;
        }
        if c != b'\\' {
            o.push(c);
            i += 1;
            continue;
        }
        if i + 1 >= t.len() {
            return None;
        }
        let d = t[i + 1];
        match d {
            b'n' => o.push(b'\n'),
            b't' => o.push(b'\t'),
            b'r' => o.push(b'\r'),
            b'"' => o.push(b'"'),
            b'\\' => o.push(b'\\'),
            _ => {
                o.push(b'\\');
                o.push(d);
            }
        }
        i += 2;
    }
    Some(o)
}
/// Every body of well-formed escapes.
#[no_mangle]
pub extern "C" fn h_c02_body() {
    let p = warm();
    let n = tier(4, 6);
    let s = ascii(n);
    for c in &s {
        assume((*c != b'\n') & (*c != b'\r'));
    }
    let f = if deep() { choice(FIELDS) } else { [1, 2, 5, 7, 10][choice(5)] };
    if let Some(w) = decode(&s) {
        reach(2);
        expect(p, f, &[s.clone()], &w);
    }
}
/// Lines that repeat, begin or end one another, are blank or empty.
#[no_mangle]
pub extern "C" fn h_c02_lines() {
    let p = warm();
    let x = plain(1);
    let f = choice(FIELDS);
    let k = 1 + choice(tier(3, 4));
    let mut pieces = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let mut s = match choice(9) {
            0 => vec![],
            1 => x.clone(),
            2 => [&x[..], b"yz"].concat(),
            3 => [&x[..], b"yz\n"].concat(),
            4 => [b"<", &x[..], b"yz", &x[..], b"yz"].concat(),
            5 => b(" "),
            6 => b("\\"),
            7 => b("\n"),
            _ => b("msgid \"u\""),
        };
        pieces.push(esc(&s));
        want.append(&mut s);
    }
    expect(p, f, &pieces, &want);
}
