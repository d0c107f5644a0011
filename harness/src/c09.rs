//! C09: the result does not depend on how the bytes arrive or are laid out.
use crate::api::*;
use crate::c03::shape;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use std::io::{Error, ErrorKind, Read};

/// Delivers the bytes up to the next cut per call, optionally with interrupted calls in between.
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub at: usize,
    /// positions that end a delivery, ascending
    pub cuts: Vec<usize>,
    /// at most so many bytes at a time
    pub max: usize,
    pub interrupt: bool,
    pub ready: bool,
}
impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], cuts: Vec<usize>, max: usize, interrupt: bool) -> Self {
        Chunks { data, at: 0, cuts, max, interrupt, ready: false }
    }
}
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt {
            self.ready = !self.ready;
            if self.ready {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let mut end = self.data.len().min(self.at + self.max).min(self.at + buf.len());
        for c in &self.cuts {
            if *c > self.at && *c < end {
                end = *c;
            }
        }
        let n = end - self.at;
        buf[..n].copy_from_slice(&self.data[self.at..end]);
        self.at = end;
        Ok(n)
    }
}
/// A catalogue with every kind of line and a few arbitrary characters.
pub fn catalogue(which: usize) -> B {
    let mut t = vec![];
    match which {
        0 => {
            push(&mut t, HEADER3);
            push(&mut t, "# n\n#, fuzzy\n");
            shape(2, b'a').write(&mut t, Lay::Next);
            push(&mut t, "\nmsgid \"\u{e9}\"\nmsgstr \"x\\n\"\n\"\u{20ac}y\"\n");
        }
        1 => {
            shape(3, b'a').write(&mut t, Lay::One);
            push(&mut t, "\r\n");
            shape(1, b'b').write(&mut t, Lay::One);
        }
        _ => {
            // with a defect
            shape(0, b'a').write(&mut t, Lay::One);
            push(&mut t, "msgid \"m\"\n# c\n");
            t.extend_from_slice(&plain(1));
            push(&mut t, "\nmsgstr \"q\"\n");
        }
    }
    t
}
/// Delivered in two pieces cut anywhere, with or without interrupted reads, or in small pieces.
#[no_mangle]
pub extern "C" fn h_c09_chunks() {
    let p = warm();
    let t = catalogue(choice(3));
    let want = read(p, &t[..]);
    let o = if choice(2) == 1 {
        let i = 1 + pick(t.len() - 1);
        let mut cuts = vec![i];
        if deep() {
            let d = [1, 2, 3, 7, 20][choice(5)];
            cuts.push(i + d);
        }
        read(p, Chunks::new(&t, cuts, 1000, choice(2) == 1))
    } else {
        read(p, Chunks::new(&t, vec![], 1 + choice(9), choice(2) == 1))
    };
    reach(1);
    check(o.eq(&want), 1);
}
/// Interrupted reads in runs, before every read or before one of them only.
struct Bursts<'a> {
    inner: Chunks<'a>,
    run: usize,
    left: usize,
    /// the read to interrupt, none for all
    only: usize,
    calls: usize,
}
impl<'a> Read for Bursts<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left > 0 && (self.only == 0 || self.calls + 1 == self.only) {
            self.left -= 1;
            return Err(if self.left % 2 == 1 { Error::from(ErrorKind::Interrupted) } else { Error::new(ErrorKind::Interrupted, "again") });
        }
        self.left = self.run;
        self.calls += 1;
        self.inner.read(buf)
    }
}
#[no_mangle]
pub extern "C" fn h_c09_bursts() {
    let p = warm();
    let t = catalogue(choice(3));
    let want = read(p, &t[..]);
    let max = [1, 16, 1000][choice(3)];
    let run = [1, 2, 3, 4, 5, 8, 10, 16, 17, 33, 100, 300][choice(12)];
    // reads needed, and the one that finds the end
    let reads = (t.len() + max - 1) / max + 1;
    let only = pick(if max == 1 { tier(30, 70) } else { reads + 1 });
    let o = read(p, Bursts { inner: Chunks::new(&t, vec![], max, false), run, left: run, only, calls: 0 });
    reach(1);
    check(o.eq(&want), 1);
}
/// Around the end of a read buffer of common sizes.
#[no_mangle]
pub extern "C" fn h_c09_buffer() {
    let p = warm();
    let size = [8192, 4096][choice(2)];
    let c = catalogue(0);
    let back = choice(tier(40, 60)) + 1;
    let mut t = b("#");
    for i in 0..size - back - 2 {
        t.push(if i % 80 == 79 { b'#' } else { b' ' });
        if i % 80 == 78 {
            let n = t.len();
            t[n - 1] = b'\n';
        }
    }
    if t[t.len() - 1] != b'\n' {
        t.push(b'\n');
    }
    let at = t.len();
    t.extend_from_slice(&c);
    let o = read(p, &t[..]);
    // the comment lines before it become notes of the header
    let want = read(p, &t[at..]);
    reach(1);
    check(eq_units(&o.units, &want.units) & o.err.is_none() & eq_props(&o.props, &want.props), 1);
    check(o.units.len() == 2, 2);
}
/// Line ends, indentation, blank lines, final line end.
#[no_mangle]
pub extern "C" fn h_c09_layout() {
    let p = warm();
    let e = [shape(choice(4), b'a'), shape(choice(4), b'b')];
    let header = choice(2) == 1;
    let mut lines: Vec<B> = vec![];
    // where an entry starts
    let mut starts = vec![];
    if header {
        for l in HEADER3.trim_end().lines() {
            lines.push(b(l));
        }
    }
    let mut units: Vec<U> = e.iter().map(|e| e.unit()).collect();
    for (i, e) in e.iter().enumerate() {
        starts.push(lines.len());
        if i == 1 {
            let v = word_chars(2);
            let mut l = b("# ");
            l.extend_from_slice(&v);
            lines.push(l);
            units[1].notes.push((false, v));
            lines.push(b("#, fuzzy"));
            units[1].flags.push(b("fuzzy"));
            units[1].state = NEEDS_WORK;
        }
        lines.extend(e.lines(if i == 0 { Lay::Next } else { Lay::One }));
    }
    let mut t = vec![];
    let kind = choice(8);
    let one = if kind == 1 || kind == 3 { choice(lines.len()) } else { 0 };
    for (i, l) in lines.iter().enumerate() {
        if starts.contains(&i) {
            match kind {
                4 => push(&mut t, "\n"),
                5 => push(&mut t, "\n  \t\n\r\n"),
                _ => {}
            }
        }
        match kind {
            2 => push(&mut t, "  "),
            3 if i == one => push(&mut t, ["\t", " ", " \t  "][choice(3)]),
            _ => {}
        }
        t.extend_from_slice(l);
        let last = i + 1 == lines.len();
        match kind {
            0 => push(&mut t, "\r\n"),
            1 if i == one => push(&mut t, "\r\n"),
            6 if last => {}
            7 => push(&mut t, if last { "" } else { "\r\n" }),
            _ => push(&mut t, "\n"),
        }
    }
    if kind == 4 || kind == 5 {
        push(&mut t, ["\n", " \n\n", "\r\n \r\n", "\n\t"][choice(4)]);
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&units), 1);
    check(o.props.len() == header as usize, 2);
}
/// Lines of arbitrary blanks between entries.
#[no_mangle]
pub extern "C" fn h_c09_blank() {
    let p = warm();
    let (a, z) = (shape(2, b'a'), shape(0, b'z'));
    let n = choice(tier(5, 6));
    let w = bytes(n);
    for c in &w {
        assume((*c == b' ') | ((*c >= b'\t') & (*c <= b'\r')));
    }
    let mut t = vec![];
    a.write(&mut t, Lay::One);
    t.extend_from_slice(&w);
    t.push(b'\n');
    z.write(&mut t, Lay::One);
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&[a.unit(), z.unit()]), 1);
}
/// Any indentation of any one line that holds arbitrary text, or of all.
#[no_mangle]
pub extern "C" fn h_c09_indent() {
    let x = bytes(3);
    for c in &x {
        assume(plain_ok(*c) | (*c == b'\t'));
    }
    assume((x[0] != b' ') & (x[0] != b'\t') & (x[2] != b' ') & (x[2] != b'\t'));
    let w = bytes(tier(2, 3));
    for c in &w {
        assume((*c == b' ') | (*c == b'\t'));
    }
    let p = warm();
    let kind = choice(4);
    let mut ind = w.clone();
    match kind {
        0 => {}
        1 => ind.truncate(1),
        2 => ind.extend_from_slice(&[b' '; 30]),
        _ => ind.extend_from_slice(&[b'\t'; 30]),
    }
    let obsolete = choice(2) == 1;
    let e = Entry { pctx: Some(x.clone()), pid: Some(b("p")), ppl: None, ctx: Some(b("c")), id: x.clone(), pl: Some(b("q")), vals: vec![x.clone(), b("v")], obsolete };
    let mut lines: Vec<B> = vec![b("msgid \"\""), b("msgstr \"\""), b("\"X: y\\n\"")];
    let mut u = e.unit();
    for k in [" ", ". ", ": ", ", ", "= "] {
        let mut c = b(k);
        c.extend_from_slice(&x);
        crate::c08::add_comment(&mut u, &c);
        let mut l = b("#");
        l.extend_from_slice(&c);
        lines.push(l);
    }
    lines.extend(e.lines(Lay::Next));
    let at = choice(lines.len() + 1);
    let mut t = vec![];
    for (i, l) in lines.iter().enumerate() {
        if i == at || at == lines.len() {
            t.extend_from_slice(&ind);
        }
        t.extend_from_slice(l);
        t.push(b'\n');
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&[u]), 1);
    check(eq_props(&o.props, &[(b("X"), b("y"))]), 2);
}

/// Any number of blanks between mark, keyword and text, and behind the text.
#[no_mangle]
pub extern "C" fn h_c09_parts() {
    let p = warm();
    let x = plain(1);
    let w = bytes(2);
    for c in &w {
        assume((*c == b' ') | (*c == b'\t'));
    }
    let gap = match choice(4) {
        0 => vec![],
        1 => vec![w[0]],
        2 => w.clone(),
        _ => [w.clone(), vec![b' '; 40]].concat(),
    };
    let obsolete = choice(2) == 1;
    let previous = choice(3);
    let f = |k: &str| [b(k), x.clone()].concat();
    let e = Entry {
        pctx: if previous > 0 { Some(f("a")) } else { None },
        pid: if previous > 0 { Some(f("b")) } else { None },
        ppl: if previous > 1 { Some(f("c")) } else { None },
        ctx: Some(f("d")),
        id: f("e"),
        pl: Some(f("f")),
        vals: vec![f("g"), f("h")],
        obsolete,
    };
    let lay = [Lay::One, Lay::Next][choice(2)];
    let lines = e.lines(lay);
    let at = choice(lines.len() + 1);
    // which of the places in the line
    let place = choice(4);
    let mut t = b("msgid \"first\"\nmsgstr \"x\"\n\n");
    for (i, l) in lines.iter().enumerate() {
        if i != at && at != lines.len() {
            t.extend_from_slice(l);
            t.push(b'\n');
            continue;
        }
        let q = l.iter().position(|c| *c == b'"').unwrap();
        let m = l.iter().position(|c| *c != b'#' && *c != b'~' && *c != b'|').unwrap();
        let word: B = l[m..q].iter().copied().filter(|c| *c != b' ').collect();
        t.extend_from_slice(&l[..m]);
        if m > 0 {
            if place == 0 || place == 3 {
                t.extend_from_slice(&gap);
            } else {
                t.push(b' ');
            }
        }
        if !word.is_empty() {
            t.extend_from_slice(&word);
            if place == 1 || place == 3 {
                t.extend_from_slice(&gap);
            } else {
                t.push(b' ');
            }
        }
        t.extend_from_slice(&l[q..]);
        if place == 2 || place == 3 {
            t.extend_from_slice(&gap);
        }
        t.push(b'\n');
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&[Entry::simple(b("first"), b("x")).unit(), e.unit()]), 1);
}
