//! The same guarantees behind a large beginning: the reader makes up the end of the catalogue when
//! everything before has been read, so that the work on the beginning is shared by all of the ends.
use crate::api::*;
use crate::c01::{hole, HOLES};
use crate::c02::{field, slot, FIELDS};
use crate::c03::shape;
use crate::c04::header_pairs;
use crate::c08::{add_comment, check_units, line_byte, marked_string};
use crate::gen::*;
use crate::grammar::*;
use crate::obs::*;
use crate::size::{many, write_all};
use crate::warm;
use poreader::{CatalogueReader, Message, PoParser};
use std::io::{Error, ErrorKind, Read};

struct Late<'a, F: FnMut() -> B> {
    head: &'a [u8],
    tail: B,
    make: Option<F>,
    /// at most so many bytes at a time of the tail
    max: usize,
    /// every second read is interrupted
    interrupt: bool,
    ready: bool,
    /// the error at the end
    fail: Option<ErrorKind>,
}
impl<'a, F: FnMut() -> B> Late<'a, F> {
    fn new(head: &'a [u8], make: F) -> Self {
        Late { head, tail: vec![], make: Some(make), max: 10000, interrupt: false, ready: false, fail: None }
    }
}
impl<'a, F: FnMut() -> B> Read for Late<'a, F> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if !self.head.is_empty() {
            let n = self.head.len().min(buf.len());
            buf[..n].copy_from_slice(&self.head[..n]);
            self.head = &self.head[n..];
            return Ok(n);
        }
        if let Some(mut f) = self.make.take() {
            self.tail = f();
        }
        if self.interrupt {
            self.ready = !self.ready;
            if self.ready {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let n = self.tail.len().min(buf.len()).min(self.max);
        if n == 0 {
            if let Some(k) = self.fail.take() {
                return Err(Error::new(k, Mark(7)));
            }
        }
        buf[..n].copy_from_slice(&self.tail[..n]);
        self.tail.drain(..n);
        Ok(n)
    }
}
/// The large beginnings: three forms are declared, `n` selects.
pub const HEADS: usize = 4;
pub fn large(which: usize) -> (B, Vec<U>) {
    let mut t = b(HEADER3);
    match which {
        // many entries
        0 => {
            let es = many(tier(280, 1400));
            write_all(&mut t, &es);
            (t, es.iter().map(|e| e.unit()).collect())
        }
        // an entry with many comments
        1 => {
            let e = shape(2, b'k');
            let mut u = e.unit();
            for i in 0..tier(100, 500) {
                for (k, w) in [" ", ".", ":", "=", ","].iter().zip(["n", "d", "f", "o", "w"]).take(if i < 12 { 5 } else { 4 }) {
                    let c = b(&format!("{k} {w}{i}"));
                    push(&mut t, "#");
                    t.extend_from_slice(&c);
                    t.push(b'\n');
                    add_comment(&mut u, &c);
                }
            }
            e.write(&mut t, Lay::One);
            t.push(b'\n');
            (t, vec![u])
        }
        // long lines and many lines in an entry
        2 => {
            let mut e = Entry::simple(vec![], vec![]);
            for i in 0..tier(9000, 70000) {
                e.id.push(b'a' + (i % 26) as u8);
            }
            for i in 0..tier(300, 1500) {
                e.vals[0].push(b'a' + (i % 26) as u8);
            }
            e.ctx = Some(plain(1));
            let each = e.strings().pop().map(|s| s.2).unwrap_or_default();
            let mut f = e.clone();
            f.vals[0].clear();
            f.write(&mut t, Lay::One);
            for c in each {
                t.push(b'"');
                t.push(c);
                push(&mut t, "\"\n");
            }
            t.push(b'\n');
            (t, vec![e.unit()])
        }
        // entries that have everything
        _ => {
            let p = |s: &str| {
                let mut v = b(s);
                v.extend_from_slice(&plain(1));
                Some(v)
            };
            let mut us = vec![];
            for o in [true, false] {
                let e = Entry { pctx: p("pc"), pid: p("pi"), ppl: p("pp"), ctx: p("c"), id: b("i"), pl: p("q"), vals: vec![b("x"), b(""), b("z")], obsolete: o };
                let mut u = e.unit();
                for c in [" n", ". d", ": f:1 g:2", ", fuzzy, c-format", "= o"] {
                    push(&mut t, "#");
                    push(&mut t, c);
                    t.push(b'\n');
                    add_comment(&mut u, c.as_bytes());
                }
                e.write(&mut t, Lay::One);
                t.push(b'\n');
                us.push(u);
            }
            (t, us)
        }
    }
}
/// What is read of a beginning and an end; the lines of the beginning; the units of the beginning.
fn with(p: &PoParser, which: usize, make: impl FnMut() -> B) -> (Obs, usize, Vec<U>) {
    let (head, us) = large(which);
    let lines = head.iter().filter(|c| **c == b'\n').count();
    (read(p, Late::new(&head, make)), lines, us)
}
/// The units of the beginning are as they are, those after are `want`.
fn is(o: &Obs, us: &[U], want: &[U]) {
    let n = us.len();
    reach(1);
    check(!o.open && o.err.is_none() && !o.after, 1);
    check(o.units.len() == n + want.len(), 2);
    if o.units.len() == n + want.len() {
        check(eq_units(&o.units[n..], want), 3);
        same(o, us);
    }
}
/// Some of the units of the beginning.
fn same(o: &Obs, us: &[U]) {
    let n = us.len();
    check(o.units.len() >= n, 4);
    if o.units.len() >= n {
        let mut l = vec![0, n / 2, n - 1];
        l.dedup();
        for i in l {
            check(o.units[i].eq(&us[i]), 5);
        }
    }
}
/// The end of the observation, as if there was no beginning.
fn rest(o: &Obs, n: usize, lines: usize) -> Obs {
    let mut r = o.clone();
    r.units.drain(..n.min(r.units.len()));
    if let Some(e) = &mut r.err {
        e.line = e.line.wrapping_sub(lines);
    }
    r
}
/// C02: any text in any field.
#[no_mangle]
pub extern "C" fn h_c02_late() {
    let p = warm();
    let which = choice(HEADS);
    let (mut f, mut text) = (0, vec![]);
    let (o, _, us) = with(p, which, || {
        f = choice(FIELDS);
        text = ascii(tier(2, 3));
        let s = slot(f);
        let mut t = vec![];
        push(&mut t, s.before);
        push(&mut t, s.pre);
        push(&mut t, s.key);
        push(&mut t, " \"");
        let at = choice(2);
        t.extend_from_slice(&esc(&text[..at]));
        if choice(2) == 1 {
            push(&mut t, "\"\n");
            push(&mut t, s.pre);
            push(&mut t, "\"");
        }
        t.extend_from_slice(&esc(&text[at..]));
        push(&mut t, "\"\n");
        push(&mut t, s.after);
        push(&mut t, "\nmsgid \"last\"\nmsgstr \"two\"\n");
        t
    });
    reach(1);
    check(!o.open && o.err.is_none() && !o.after, 1);
    check(o.units.len() == us.len() + 2, 2);
    if o.units.len() == us.len() + 2 {
        check(field(f, &o.units[us.len()]).map_or(false, |g| eqb(&g, &text)), 3);
    }
}
/// C03: every shape of entry.
#[no_mangle]
pub extern "C" fn h_c03_late() {
    let p = warm();
    let mut want = vec![];
    let which = choice(HEADS);
    let (o, _, us) = with(p, which, || {
        let e = crate::c03::any_entry(2, b'm', true);
        let z = shape(0, b'z');
        let mut t = vec![];
        e.write(&mut t, Lay::One);
        z.write(&mut t, Lay::One);
        want = vec![e.unit(), z.unit()];
        t
    });
    is(&o, &us, &want);
}
/// C07: every count, every number of given translations.
#[no_mangle]
pub extern "C" fn h_c07_late() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let (head, us) = large(choice(HEADS));
    let mut vals: Vec<B> = vec![];
    let m: Option<Message> = {
        let r = p.parse(Late::new(&head, || {
            let mut t = b(["", "# c\n", "#, fuzzy\n"][choice(3)]);
            let o = if choice(2) == 1 { "#~ " } else { "" };
            push(&mut t, &format!("{o}msgid \"i\"\n{o}msgid_plural \"p\"\n"));
            for i in 0..1 + choice(3) {
                let v = if choice(2) == 1 { plain(1) } else { vec![] };
                push(&mut t, &format!("{o}msgstr[{i}] \""));
                t.extend_from_slice(&v);
                push(&mut t, "\"\n");
                vals.push(v);
            }
            t
        }));
        match r {
            Ok(mut r) => crate::c07::message(r.nth(us.len())),
            Err(_) => None,
        }
    };
    let m = match m {
        Some(m) => m,
        None => return check(false, 1),
    };
    reach(1);
    check(crate::c07::is_text(m.get_plural_text(n as usize), if n < vals.len() as u64 { Some(&vals[n as usize]) } else { None }), 2);
}
/// C08: comments of all kinds.
#[no_mangle]
pub extern "C" fn h_c08_late() {
    let p = warm();
    let which = choice(HEADS);
    let mut want = vec![];
    let (o, _, us) = with(p, which, || {
        let mut e = Entry::simple(b("m"), [vec![], b("s")][choice(2)].clone());
        e.obsolete = choice(2) == 1;
        let mut cs: Vec<B> = vec![];
        for _ in 0..2 {
            let k = choice(9);
            let mut c = b([" ", ".", ":", ",", "=", "", "", ", fuzzy", ", c-format, fuzzy"][k]);
            match k {
                0..=4 => {
                    c.push(b' ');
                    c.extend_from_slice(&word_chars(1));
                    assume(k != 3 || c[2] != b',');
                }
                5 => {
                    c.push(line_byte());
                    c.push(line_byte());
                    assume(!marked_string(&c));
                }
                _ => {}
            }
            cs.push(c);
        }
        let mut t = vec![];
        let mut u = e.unit();
        for c in &cs {
            t.push(b'#');
            t.extend_from_slice(c);
            t.push(b'\n');
            add_comment(&mut u, c);
        }
        e.write(&mut t, Lay::One);
        let z = shape(0, b'z');
        z.write(&mut t, Lay::One);
        want = vec![u, z.unit()];
        t
    });
    reach(1);
    same(&o, &us);
    check_units(&rest(&o, us.len(), 0), &want);
}
/// C09: the end arrives in small pieces, interrupted, in every layout.
#[no_mangle]
pub extern "C" fn h_c09_late() {
    let p = warm();
    let (head, us) = large(choice(HEADS));
    let max = [1, 2, 5, 10000][choice(4)];
    let interrupt = choice(2) == 1;
    let mut want = vec![];
    let mut l = Late::new(&head, || {
        let mut t = vec![];
        for k in 0..2 {
            if k == 1 && !deep() {
                let e = shape(2, b'z');
                e.write(&mut t, Lay::One);
                want.push(e.unit());
                break;
            }
            let e = shape(choice(4), b'm' + k);
            let (end, ind, gap) = (["\n", "\r\n", " \n"][choice(3)], ["", " \t"][choice(2)], ["", "\n", " \r\n\n"][choice(3)]);
            for line in e.lines([Lay::One, Lay::Each][choice(2)]) {
                push(&mut t, ind);
                t.extend_from_slice(&line);
                push(&mut t, end);
            }
            push(&mut t, gap);
            want.push(e.unit());
        }
        t
    });
    l.max = max;
    l.interrupt = interrupt;
    let o = read(p, l);
    is(&o, &us, &want);
}
/// C10: the failure at every byte of the end.
#[no_mangle]
pub extern "C" fn h_c10_late() {
    let p = warm();
    let (head, us) = large(choice(HEADS));
    let lines = head.iter().filter(|c| **c == b'\n').count();
    let kind = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::NotFound][choice(4)];
    let (a, z) = (shape(choice(4), b'm'), shape(0, b'z'));
    let mut t = b("# c\n");
    a.write(&mut t, Lay::One);
    let (first, end) = (t.len(), t.len() + z.lines(Lay::One)[0].len() + 1);
    z.write(&mut t, Lay::One);
    let mut a = a.unit();
    a.notes.push((false, b("c")));
    let mut at = 0;
    let mut l = Late::new(&head, || {
        at = pick(t.len() + 1);
        t[..at].to_vec()
    });
    l.fail = Some(kind);
    let o = read(p, l);
    reach(1);
    match &o.err {
        None => check(false, 1),
        Some(e) => {
            let line = lines + 1 + t[..at].iter().filter(|c| **c == b'\n').count();
            check((e.kind == IO) & e.mark & (e.io == Some(kind)), 2);
            check(e.line == line, 3);
        }
    }
    check(!o.after, 6);
    if at > 4 {
        same(&o, &us);
    } else {
        check(o.units.len() + 1 >= us.len(), 7);
    }
    let r = rest(&o, us.len(), 0);
    check(r.units.len() <= 2 && (at + 1 >= first || r.units.is_empty()) && (at < end || r.units.len() > 0), 8);
    check(r.units.is_empty() || r.units[0].eq(&a), 9);
    check(r.units.len() < 2 || r.units[1].eq(&z.unit()), 10);
}
/// C11: lines of every kind in every order.
#[no_mangle]
pub extern "C" fn h_c11_late() {
    let p = warm();
    let which = choice(HEADS);
    let mut ls = vec![];
    let (o, lines, us) = with(p, which, || {
        ls = crate::c11::entry(b'A').to_vec();
        for _ in 0..tier(2, 3) {
            ls.push(crate::c11::kind(choice(crate::c11::KINDS)));
        }
        ls.extend(crate::c11::entry(b'Z'));
        let mut t = vec![];
        for l in &ls {
            l.write(&mut t);
        }
        t
    });
    same(&o, &us);
    crate::c11::compare(&rest(&o, us.len(), lines), &judge(&ls, 3));
}
/// C13: a large file before this one, read to its end or given up.
#[no_mangle]
pub extern "C" fn h_c13_late() {
    let p = warm();
    let (head, us) = large(choice(HEADS));
    let deep_in = us.len() * choice(3) / 2;
    let open = match p.parse(&head[..]) {
        Ok(mut r) => {
            for _ in 0..deep_in {
                check(matches!(r.next(), Some(Ok(_))), 1);
            }
            if choice(2) == 1 {
                Some(r)
            } else {
                None
            }
        }
        Err(_) => return check(false, 2),
    };
    let own = choice(3);
    let mut t = b(["", "msgid \"\"\nmsgstr \"Language: pl\\nPlural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n", "msgid \"\"\nmsgstr \"X: y\"\n"][own]);
    let es = [shape(choice(3), b'm'), shape(choice(3), b'n'), shape(3, b'o')];
    write_all(&mut t, &es);
    let o = read(p, &t[..]);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    reach(1);
    check(o.is_units(&want), 3);
    check(eqb(&o.lang, if own == 1 { b"pl" } else { b"" }), 4);
    check(o.props.len() == [0, 2, 1][own] && o.hnotes.is_empty() && o.hcomments.is_empty(), 5);
    if let Some(mut r) = open {
        match r.next() {
            Some(Ok(u)) => check(deep_in < us.len() && U::of(&u).eq(&us[deep_in]), 6),
            None => check(deep_in == us.len(), 7),
            _ => check(false, 8),
        }
    }
}
/// C14: cut anywhere in the end.
#[no_mangle]
pub extern "C" fn h_c14_late() {
    let p = warm();
    let which = choice(HEADS);
    let mut want = vec![];
    let (mut ends, mut at, mut len) = (vec![], 0, 0);
    let (o, _, us) = with(p, which, || {
        let es = [shape(choice(4), b'm'), shape(choice(4), b'n')];
        let mut t = vec![];
        ends = write_all(&mut t, &es);
        want = es.iter().map(|e| e.unit()).collect();
        len = t.len();
        at = pick(len + 1);
        t.truncate(at);
        t
    });
    let o = rest(&o, us.len() - 1, 0);
    let whole = ends.iter().filter(|e| **e <= at).count();
    reach(1);
    check(o.units.len() <= 3 && !o.after && !o.open, 1);
    // the last unit of the beginning
    if o.err.is_none() {
        check(o.units.len() >= whole + 1, 2);
    } else {
        check(o.units.len() >= whole && at < len, 3);
    }
    if o.units.len() > 0 {
        check(o.units[0].eq(us.last().unwrap()), 4);
        let g = &o.units[1..];
        if g.len() > whole {
            check(g.len() == whole + 1 && crate::c14::same_id(&g[whole], &want[whole]) & crate::c14::begins(&g[whole], &want[whole]), 5);
        }
        check(eq_prefix(g, &want, g.len().min(whole)), 6);
    }
}
/// C15: arbitrary bytes at the end.
#[no_mangle]
pub extern "C" fn h_c15_late() {
    let p = warm();
    let which = choice(HEADS);
    let (o, _, us) = with(p, which, || {
        let mut t = b("msgid \"y\"\nmsgstr \"Y\"\n");
        if choice(2) == 1 {
            t.extend_from_slice(&bytes(tier(3, 4)));
        } else {
            let c = bytes(1);
            push(&mut t, ["#", "#, ", "msg", "msgid \"", "#~ msgid \"q\"\nmsgstr \"", "msgid \"y\"\n", "msgid \"y\"\nmsgstr \""][choice(7)]);
            t.extend_from_slice(&c);
        }
        t
    });
    reach(1);
    check(!o.open && !o.after, 1);
    same(&o, &us);
    let r = rest(&o, us.len(), 0);
    if r.units.len() > 0 {
        check(matches!(&r.units[0].msg, M::Simple { id, .. } if eqb(id, b"y")), 6);
    }
}
/// C16: lines with and without the mark.
#[no_mangle]
pub extern "C" fn h_c16_late() {
    let p = warm();
    let which = choice(HEADS);
    let mut ls = vec![];
    let (o, lines, us) = with(p, which, || {
        let one = || plain(1);
        let mut mine = match choice(3) {
            0 => vec![L::Comment(b(" n")), L::Str("", "msgid", one()), L::Cont("", one()), L::Str("", "msgstr", one()), L::Cont("", one())],
            1 => vec![L::Str("|", "msgid", one()), L::Str("", "msgctxt", one()), L::Str("", "msgid", one()), L::Str("", "msgstr", one())],
            _ => vec![L::Str("", "msgid", one()), L::Str("", "msgid_plural", one()), L::Str("", "msgstr[0]", one()), L::Str("", "msgstr[1]", one()), L::Str("", "msgstr[2]", one())],
        };
        for l in &mut mine {
            if let L::Str(p, ..) | L::Cont(p, _) = l {
                if choice(2) == 1 {
                    *p = if *p == "|" { "~|" } else { "~" };
                }
            }
        }
        ls = crate::c11::entry(b'A').to_vec();
        ls.extend(mine);
        ls.extend(crate::c11::entry(b'Z'));
        let mut t = vec![];
        for l in &ls {
            l.write(&mut t);
        }
        t
    });
    same(&o, &us);
    crate::c11::compare(&rest(&o, us.len(), lines), &judge(&ls, 3));
}
/// C17: any few bytes in any text.
#[no_mangle]
pub extern "C" fn h_c17_late() {
    let p = warm();
    let which = choice(HEADS);
    let mut v = vec![];
    let (mut want, mut direct, mut line) = (vec![], false, 0);
    let (o, lines, us) = with(p, which, || {
        let place = choice(6);
        let s = bytes(tier(3, 4));
        for c in &s {
            assume((*c != b'\n') & (*c != b'\r') & (*c != b'"') & (*c != b'\\') & ((*c >= 0x80) | (*c > 0x20) & (*c < 0x7f)));
        }
        v = b("<");
        v.extend_from_slice(&s);
        v.push(b'>');
        let (a, mut e) = (shape(0, b'A'), Entry::simple(b("m"), b("s")));
        let mut t = vec![];
        a.write(&mut t, Lay::One);
        match place {
            0 => e.id = v.clone(),
            1 => e.vals[0] = v.clone(),
            2 => e.ctx = Some(v.clone()),
            3 => e.pid = Some(v.clone()),
            _ => {}
        }
        let mut u = e.unit();
        if place > 3 {
            let mut c = b([" ", "= "][place - 4]);
            c.extend_from_slice(&v);
            t.push(b'#');
            t.extend_from_slice(&c);
            t.push(b'\n');
            add_comment(&mut u, &c);
        }
        e.write(&mut t, Lay::One);
        direct = place != 1;
        line = if place == 1 { 4 } else { 3 };
        want = vec![a.unit(), u];
        t
    });
    same(&o, &us);
    let r = rest(&o, us.len(), lines);
    check(!o.open && !o.after, 1);
    if crate::c17::valid(&v) {
        reach(1);
        check(r.err.is_none() && eq_units(&r.units, &want), 2);
    } else {
        reach(2);
        match &r.err {
            None => check(false, 3),
            Some(e) => check((e.kind == IO) & (e.io == Some(ErrorKind::InvalidData)) & (e.line == line), 6),
        }
        check(r.units.len() == !direct as usize && eq_prefix(&want, &r.units, r.units.len()), 7);
    }
}
/// C04: the end of a large header.
#[no_mangle]
pub extern "C" fn h_c04_late() {
    let p = warm();
    let mut text = vec![];
    let mut t = vec![];
    let notes = [0, tier(100, 400)][choice(2)];
    for i in 0..notes {
        push(&mut t, &format!("# {i}\n#= {i}\n"));
    }
    push(&mut t, "msgid \"\"\nmsgstr \"\"\n");
    for i in 0..tier(100, 400) {
        let l = format!("X-{i}: v{i}\n");
        push(&mut text, &l);
        push(&mut t, &format!("\"X-{i}: v{i}\\n\"\n"));
    }
    let o = read(
        p,
        Late::new(&t, || {
            let mut s = b(["", "X-0", "K: ", "Language: de"][choice(4)]);
            for c in bytes(tier(3, 4)) {
                assume((c == b'a') | (c == b'B') | (c == b':') | (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'-'));
                s.push(c);
            }
            push(&mut s, "Z: y\n");
            let mut t = b("\"");
            t.extend_from_slice(&esc(&s));
            push(&mut t, "\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
            text.extend_from_slice(&s);
            t
        }),
    );
    reach(1);
    check(!o.open && o.err.is_none(), 1);
    check(eq_props(&o.props, &header_pairs(&text)), 2);
    check(o.is_units(&[Entry::simple(b("a"), b("b")).unit()]), 3);
    check(o.hnotes.len() == notes && o.hcomments.len() == notes, 4);
}
/// C01: arbitrary bytes at the sensitive places.
#[no_mangle]
pub extern "C" fn h_c01_late() {
    let p = warm();
    let (head, _) = large(choice(HEADS));
    let mut lines = head.iter().filter(|c| **c == b'\n').count() + 1;
    let l = Late::new(&head, || {
        let (a, z) = hole(choice(HOLES));
        let mut t = b(a);
        t.extend_from_slice(&bytes(tier(1, 2)));
        push(&mut t, z);
        lines += t.iter().filter(|c| **c == b'\n').count();
        t
    });
    let mut n = 0;
    let mut failed = false;
    match p.parse(l) {
        Err(_) => check(false, 3),
        Ok(mut r) => {
            loop {
                match r.next() {
                    None => break,
                    Some(Ok(u)) => {
                        n += 1;
                        if n > 4000 {
                            break;
                        }
                        let m = u.message();
                        let _ = (m.get_id(), m.get_text(), m.get_plural_id(), m.is_blank(), m.is_simple(), u.is_translated());
                        for c in [0, 2, usize::MAX] {
                            let _ = m.get_plural_text(c);
                        }
                    }
                    Some(Err(e)) => {
                        let _ = e.to_string();
                        failed = true;
                        break;
                    }
                }
            }
            for _ in 0..3 {
                check(r.next().is_none(), 2);
            }
        }
    }
    check(n <= lines, 1);
    reach(1 + failed as u64);
}
