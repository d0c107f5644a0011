//! Writers: produce catalogue text together with the units it must be read as.
use crate::api::*;
use crate::obs::*;

/// printable ASCII that needs no escape
pub fn plain_ok(c: u8) -> bool {
    (c >= 0x20) & (c <= 0x7e) & (c != b'"') & (c != b'\\')
}
/// `n` arbitrary characters of printable ASCII other than quote and backslash
pub fn plain(n: usize) -> B {
    let v = bytes(n);
    for c in &v {
        assume(plain_ok(*c));
    }
    v
}
/// the same, without blanks
pub fn word_chars(n: usize) -> B {
    let v = bytes(n);
    for c in &v {
        assume(plain_ok(*c) & (*c != b' '));
    }
    v
}
/// `n` arbitrary ASCII bytes
pub fn ascii(n: usize) -> B {
    let v = bytes(n);
    for c in &v {
        assume(*c < 0x80);
    }
    v
}
/// An arbitrary character, as UTF-8 of `n` bytes.
pub fn utf8(n: usize) -> B {
    let v = bytes(n);
    let t = |i: usize| (v[i] >= 0x80) & (v[i] <= 0xbf);
    match n {
        1 => assume(v[0] < 0x80),
        2 => assume((v[0] >= 0xc2) & (v[0] <= 0xdf) & t(1)),
        3 => {
            assume((v[0] >= 0xe0) & (v[0] <= 0xef));
            assume(t(1));
            assume(t(2));
            assume((v[0] != 0xe0) | (v[1] >= 0xa0));
            assume((v[0] != 0xed) | (v[1] <= 0x9f));
        }
        _ => {
            assume((v[0] >= 0xf0) & (v[0] <= 0xf4));
            assume(t(1));
            assume(t(2));
            assume(t(3));
            assume((v[0] != 0xf0) | (v[1] >= 0x90));
            assume((v[0] != 0xf4) | (v[1] <= 0x8f));
        }
    }
    v
}

/// The text between the quotes that stands for one byte of the string.
pub fn esc1(c: u8, out: &mut B) {
    match c {
        b'"' => out.extend_from_slice(b"\\\""),
        b'\\' => out.extend_from_slice(b"\\\\"),
        b'\n' => out.extend_from_slice(b"\\n"),
        b'\t' => out.extend_from_slice(b"\\t"),
        b'\r' => out.extend_from_slice(b"\\r"),
        c => out.push(c),
    }
}
pub fn esc(s: &[u8]) -> B {
    let mut o = vec![];
    for c in s {
        esc1(*c, &mut o);
    }
    o
}

/// How a string is laid out.
#[derive(Clone, Copy, PartialEq)]
pub enum Lay {
    /// on the keyword's line
    One,
    /// `""` and the text on the next line
    Next,
    /// one character per line
    Each,
}

#[derive(Clone)]
pub struct Entry {
    pub pctx: Option<B>,
    pub pid: Option<B>,
    pub ppl: Option<B>,
    pub ctx: Option<B>,
    pub id: B,
    pub pl: Option<B>,
    pub vals: Vec<B>,
    pub obsolete: bool,
}
impl Entry {
    pub fn simple(id: B, text: B) -> Entry {
        Entry { pctx: None, pid: None, ppl: None, ctx: None, id, pl: None, vals: vec![text], obsolete: false }
    }
    pub fn unit(&self) -> U {
        let mut u = U::new(match &self.pl {
            None => M::Simple { id: self.id.clone(), text: self.vals[0].clone() },
            Some(p) => M::Plural { id: self.id.clone(), pl: p.clone(), vals: self.vals.clone() },
        });
        u.ctx = self.ctx.clone();
        u.pctx = self.pctx.clone();
        if let Some(i) = &self.pid {
            u.pmsg = match &self.ppl {
                None => M::Simple { id: i.clone(), text: vec![] },
                Some(p) => M::Plural { id: i.clone(), pl: p.clone(), vals: vec![] },
            };
        }
        u.obsolete = self.obsolete;
        if self.vals.iter().any(|v| !v.is_empty()) {
            u.state = FINAL;
        }
        u
    }
    /// (previous, keyword, text) of every string, in file order
    pub fn strings(&self) -> Vec<(bool, B, B)> {
        let mut r = vec![];
        let mut put = |p: bool, k: &str, v: &Option<B>| {
            if let Some(v) = v {
                r.push((p, b(k), v.clone()));
            }
        };
        put(true, "msgctxt", &self.pctx);
        put(true, "msgid", &self.pid);
        put(true, "msgid_plural", &self.ppl);
        put(false, "msgctxt", &self.ctx);
        put(false, "msgid", &Some(self.id.clone()));
        put(false, "msgid_plural", &self.pl);
        if self.pl.is_none() {
            put(false, "msgstr", &Some(self.vals[0].clone()));
        } else {
            for (i, v) in self.vals.iter().enumerate() {
                put(false, &format!("msgstr[{i}]"), &Some(v.clone()));
            }
        }
        r
    }
    /// the lines of the entry, without line ends
    pub fn lines(&self, lay: Lay) -> Vec<B> {
        let mut r = vec![];
        for (p, k, v) in self.strings() {
            let pre = prefix(self.obsolete, p);
            string_lines(&mut r, pre, &k, &v, lay);
        }
        r
    }
    pub fn write(&self, t: &mut B, lay: Lay) {
        for l in self.lines(lay) {
            t.extend_from_slice(&l);
            t.push(b'\n');
        }
    }
}
pub fn prefix(obsolete: bool, previous: bool) -> &'static str {
    match (obsolete, previous) {
        (false, false) => "",
        (true, false) => "#~ ",
        (false, true) => "#| ",
        (true, true) => "#~| ",
    }
}
/// A string whose text needs no escapes.
pub fn string_lines(r: &mut Vec<B>, pre: &str, k: &[u8], v: &[u8], lay: Lay) {
    let one = |k: &[u8], s: &[u8]| {
        let mut l = b(pre);
        l.extend_from_slice(k);
        if !k.is_empty() {
            l.push(b' ');
        }
        l.push(b'"');
        l.extend_from_slice(s);
        l.push(b'"');
        l
    };
    match lay {
        Lay::One => r.push(one(k, v)),
        Lay::Next => {
            r.push(one(k, b""));
            r.push(one(b"", v));
        }
        Lay::Each => {
            r.push(one(k, if v.is_empty() { b"" } else { &v[..1] }));
            for i in 1..v.len() {
                r.push(one(b"", &v[i..i + 1]));
            }
        }
    }
}
pub const HEADER3: &str = "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=3; plural=n;\\n\"\n\n";

pub fn push(t: &mut B, s: &str) {
    t.extend_from_slice(s.as_bytes());
}
