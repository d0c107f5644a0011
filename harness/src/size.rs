//! The same guarantees where there is much: long lines, many lines, many entries, numbers beyond
//! one and two bytes. Each run is one size; some characters are symbolic.
use crate::api::*;
use crate::c02::{field, slot};
use crate::c03::shape;
use crate::c04::header_pairs;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::{CatalogueReader, Message};

fn number(n: usize) -> B {
    b(&n.to_string())
}
/// C02: a text in very many pieces, or in one very long line.
#[no_mangle]
pub extern "C" fn h_c02_big() {
    let p = warm();
    let f = [1, 2, 3, 5, 6, 10][choice(6)];
    let s = slot(f);
    let mut text = vec![];
    let mut t = b("msgid \"first\"\nmsgstr \"one\"\n\n");
    push(&mut t, s.before);
    push(&mut t, s.pre);
    push(&mut t, s.key);
    push(&mut t, " ");
    if choice(2) == 0 {
        let k = [20, 70, 300, tier(600, 3000)][choice(4)];
        for i in 0..k {
            if i > 0 {
                push(&mut t, s.pre);
            }
            let mut piece = number(i);
            if deep() && i == 0 || i == k / 2 || i == k - 1 {
                piece.extend_from_slice(&ascii(1));
            }
            t.push(b'"');
            t.extend_from_slice(&esc(&piece));
            push(&mut t, "\"\n");
            text.extend_from_slice(&piece);
        }
    } else {
        let k = [130, 260, 1030, 5000, tier(9000, 70000)][choice(5)];
        for i in 0..k {
            if i == k - 1 || i == k / 2 {
                text.extend_from_slice(&ascii(1));
            }
            text.push(if i % 97 == 96 { b'\n' } else { b'a' + (i % 26) as u8 });
        }
        t.push(b'"');
        t.extend_from_slice(&esc(&text));
        push(&mut t, "\"\n");
    }
    push(&mut t, s.after);
    push(&mut t, "\nmsgid \"last\"\nmsgstr \"two\"\n");
    let o = read(p, &t[..]);
    check(o.units.len() == 3 && o.err.is_none() && !o.after, 1);
    if o.units.len() == 3 {
        reach(1);
        check(field(f, &o.units[1]).map_or(false, |g| eqb(&g, &text)), 2);
    }
}
pub fn many(n: usize) -> Vec<Entry> {
    (0..n)
        .map(|i| {
            let k = number(i);
            let mut e = Entry::simple(k.clone(), k.clone());
            match i % 5 {
                1 => e.ctx = Some(k),
                2 => {
                    e.pl = Some(k.clone());
                    e.vals = vec![k.clone(), k];
                }
                3 => e.obsolete = true,
                4 => {
                    e.pid = Some(k.clone());
                    e.vals = vec![vec![]];
                }
                _ => {}
            }
            if i == 0 || i == n / 2 || i == n - 1 {
                e.id.extend_from_slice(&plain(1));
                e.vals[0].extend_from_slice(&plain(1));
            }
            e
        })
        .collect()
}
pub fn write_all(t: &mut B, es: &[Entry]) -> Vec<usize> {
    es.iter()
        .map(|e| {
            e.write(t, Lay::One);
            let n = t.len() - 1;
            t.push(b'\n');
            n
        })
        .collect()
}
/// C03: very many entries.
#[no_mangle]
pub extern "C" fn h_c03_big() {
    let p = warm();
    let n = [20, 70, tier(300, 1500)][choice(3)];
    let es = many(n);
    let mut t = b(["", HEADER3][choice(2)]);
    write_all(&mut t, &es);
    let o = read(p, &t[..]);
    reach(1);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    check(o.is_units(&want), 1);
}
/// C03: entries that may be alike in everything.
#[no_mangle]
pub extern "C" fn h_c03_alike() {
    let p = warm();
    let n = 3;
    let mut es = vec![];
    for i in 0..n {
        let mut e = Entry::simple(plain(1), plain(choice(2)));
        let k = if i == 0 && !deep() { choice(2) * 3 } else { choice(4) };
        match k {
            0 => {}
            1 => e.ctx = Some(plain(1)),
            2 => e.obsolete = true,
            _ => {
                e.pl = Some(plain(1));
                e.vals.push(plain(1));
            }
        }
        es.push(e);
    }
    let mut t = b(["", HEADER3][choice(2)]);
    for (i, e) in es.iter().enumerate() {
        e.write(&mut t, Lay::One);
        if i == 0 {
            t.push(b'\n');
        }
    }
    let o = read(p, &t[..]);
    reach(1);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    check(o.is_units(&want), 1);
}
/// C04: very many and very long header lines.
#[no_mangle]
pub extern "C" fn h_c04_big() {
    let p = warm();
    let mut text = vec![];
    match choice(3) {
        0 => {
            for i in 0..[20, 70, tier(150, 600)][choice(3)] {
                push(&mut text, &format!("X-{i}: v{i}"));
                if i == 17 {
                    text.extend_from_slice(&plain(1));
                }
                text.push(b'\n');
            }
        }
        1 => {
            push(&mut text, "A: b\nLong: ");
            let k = [100, 300, 2000, tier(5000, 70000)][choice(4)];
            for i in 0..k {
                text.push(b'a' + (i % 26) as u8);
            }
            text.extend_from_slice(&plain(1));
            push(&mut text, "z\nC: d\n");
        }
        // one key again and again
        _ => {
            for i in 0..[3, 20, tier(100, 400)][choice(3)] {
                push(&mut text, &format!("K: {i}"));
                if i == 2 {
                    text.extend_from_slice(&plain(1));
                }
                text.push(b'\n');
            }
        }
    }
    let mut t = b("");
    let notes = [0, 100][choice(2)];
    for i in 0..notes {
        push(&mut t, &format!("# {i}\n#= {i}\n"));
    }
    push(&mut t, "msgid \"\"\nmsgstr \"\"\n");
    for l in text.split_inclusive(|c| *c == b'\n') {
        t.push(b'"');
        t.extend_from_slice(&esc(l));
        push(&mut t, "\"\n");
    }
    push(&mut t, "\nmsgid \"a\"\nmsgstr \"b\"\n");
    let o = read(p, &t[..]);
    reach(1);
    check(eq_props(&o.props, &header_pairs(&text)), 2);
    check(o.is_units(&[Entry::simple(b("a"), b("b")).unit()]), 3);
    check(o.hnotes.len() == notes && o.hcomments.len() == notes, 4);
    for i in 0..notes.min(o.hnotes.len()).min(o.hcomments.len()) {
        let k = number(i);
        check(!o.hnotes[i].0 & eqb(&o.hnotes[i].1, &k) & (o.hcomments[i].0 == '=' as u32) & eqb(&o.hcomments[i].1, &k), 5);
    }
}
/// C05: long formulas.
#[no_mangle]
pub extern "C" fn h_c05_big() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let i = n as i64;
    let kind = choice(4);
    // the last nearly as long as allowed
    let k = [17, 40, 70, [380, 800, 390, 1000][kind]][choice(4)];
    let mut f = vec![];
    let want = match kind {
        // a chain of conditionals
        0 => {
            for j in 0..k {
                push(&mut f, &format!("n=={}?{j}:", j * 3));
            }
            push(&mut f, "999");
            if (i % 3 == 0) & (i < 3 * k as i64) { i / 3 } else { 999 }
        }
        // a sum
        1 => {
            push(&mut f, "n");
            let mut w = i;
            for j in 0..k {
                push(&mut f, &format!("{}{j}", if j % 3 == 0 { "-" } else { "+" }));
                w = if j % 3 == 0 { w.wrapping_sub(j as i64) } else { w.wrapping_add(j as i64) };
            }
            w
        }
        // alternatives
        2 => {
            let mut w = false;
            for j in 0..k {
                push(&mut f, &format!("n=={}||", j * 7));
                w |= i == j as i64 * 7;
            }
            push(&mut f, "n>100000");
            (w | (i > 100000)) as i64
        }
        // in parentheses
        _ => {
            for _ in 0..k {
                push(&mut f, "(1+");
            }
            push(&mut f, "n");
            for _ in 0..k {
                push(&mut f, ")");
            }
            i.wrapping_add(k as i64)
        }
    };
    match crate::c05::value(p, &f, crate::c05::ALL, n) {
        None => check(false, 1),
        Some(Some(v)) => {
            reach(1);
            check(v as i64 == want, 2)
        }
        Some(None) => check(want < 0, 3),
    }
}
/// C07: hundreds of forms.
#[no_mangle]
pub extern "C" fn h_c07_big() {
    let n = word();
    let p = warm();
    let k = [100, 256, 257, tier(300, 1000)][choice(4)];
    let given = k - choice(2);
    let mut t = b(&format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={k}; plural=n;\\n\"\n\nmsgid \"i\"\nmsgid_plural \"p\"\n"));
    let mut vals = vec![];
    for i in 0..given {
        let mut v = number(i);
        if i % 50 == 49 {
            v.extend_from_slice(&plain(1));
        }
        push(&mut t, &format!("msgstr[{i}] \""));
        t.extend_from_slice(&v);
        push(&mut t, "\"\n");
        vals.push(v);
    }
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let m: Message = match r.next() {
        Some(Ok(u)) => u.message().clone(),
        _ => return check(false, 2),
    };
    reach(1);
    for i in 0..k + 2 {
        let got = m.get_plural_text(i);
        if i < given {
            check(got.map_or(false, |g| eqb(g.as_bytes(), &vals[i])), 3);
        } else {
            check(got.is_none(), 4);
        }
    }
    assume((n >= k as u64) & (n <= i64::MAX as u64));
    check(m.get_plural_text(n as usize).is_none(), 5);
}
/// C08: very many comments, a very long one.
#[no_mangle]
pub extern "C" fn h_c08_big() {
    let p = warm();
    let kind = choice(8);
    let k = [20, 70, tier(300, 1000)][choice(3)];
    let mut t = b("msgid \"first\"\nmsgstr \"one\"\n\n");
    let mut u = Entry::simple(b("a"), b("b")).unit();
    for i in 0..k {
        let mut w = b(&format!("w{i}"));
        if i == 0 || i == k - 1 {
            w.extend_from_slice(&word_chars(1));
            assume(w[w.len() - 1] != b',');
        }
        match kind {
            0 => {
                push(&mut t, "# ");
                u.notes.push((false, w.clone()));
            }
            1 => {
                push(&mut t, "#. ");
                u.notes.push((true, w.clone()));
            }
            2 => {
                push(&mut t, "#: ");
                u.locs.push(w.clone());
            }
            3 => {
                push(&mut t, if i == k / 2 { "#, fuzzy, " } else { "#, " });
                if i == k / 2 {
                    u.flags.push(b("fuzzy"));
                    u.state = NEEDS_WORK;
                }
                u.flags.push(w.clone());
            }
            4 => {
                push(&mut t, "#+ ");
                u.comments.push(('+' as u32, w.clone()));
            }
            // all of them in one line
            5 => {
                push(&mut t, if i == 0 { "#: " } else { " " });
                u.locs.push(w.clone());
            }
            6 => {
                push(&mut t, if i == 0 { "#, " } else { ", " });
                if i == k / 2 {
                    push(&mut t, "fuzzy, ");
                    u.flags.push(b("fuzzy"));
                    u.state = NEEDS_WORK;
                }
                u.flags.push(w.clone());
            }
            _ => {
                push(&mut t, if i == 0 { "# " } else { " and " });
                if i == 0 {
                    u.notes.push((false, vec![]));
                } else {
                    u.notes[0].1.extend_from_slice(b" and ");
                }
                u.notes[0].1.extend_from_slice(&w);
            }
        }
        t.extend_from_slice(&w);
        if kind < 5 {
            t.push(b'\n');
        }
    }
    if kind >= 5 {
        t.push(b'\n');
    }
    Entry::simple(b("a"), b("b")).write(&mut t, Lay::One);
    push(&mut t, "\nmsgid \"last\"\nmsgstr \"two\"\n");
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&[Entry::simple(b("first"), b("one")).unit(), u, Entry::simple(b("last"), b("two")).unit()]), 1);
}
/// C10: failures around the ends of common buffer sizes.
#[no_mangle]
pub extern "C" fn h_c10_far() {
    let p = warm();
    let size = [4096, 8192][choice(2)];
    let fill = many(10);
    let mut t = vec![];
    let mut ends = vec![];
    let mut want = vec![];
    let mut lines = vec![0];
    while t.len() < size + 60 {
        let e = &fill[ends.len() % 10];
        ends.extend(write_all(&mut t, std::slice::from_ref(e)));
        want.push(e.unit());
    }
    for (i, c) in t.iter().enumerate() {
        lines.push(lines[i] + (*c == b'\n') as usize);
    }
    let fail = size - 20 + choice(40);
    let kind = if deep() { [0, 1, 3][choice(3)] } else { fail % 4 };
    let o = read(p, crate::c10::Failing::new(&t, fail, [1000, 4096, 7][choice(3)], kind, choice(3)));
    reach(1);
    match &o.err {
        None => check(false, 1),
        Some(e) => {
            check((e.kind == IO) & e.mark & (e.io == Some(crate::c10::KINDS[kind])), 2);
            check(e.line == lines[fail] + 1, 6);
        }
    }
    check(!o.after, 3);
    let full = ends.iter().filter(|e| **e <= fail).count();
    check(o.units.len() <= full && o.units.len() + 1 >= full, 4);
    check(eq_prefix(&want, &o.units, o.units.len()), 5);
}
/// C11: the defect very far down.
#[no_mangle]
pub extern "C" fn h_c11_far() {
    let p = warm();
    let mut t = b("msgid \"A\"\nmsgstr \"A\"\n");
    let k = [250, 1000, 32765, 65533][choice(4)];
    let what = choice(if k < 10000 { 4 } else { 1 });
    let mut units = 1;
    let mut lines = 2;
    for i in 0..k {
        match what {
            0 => push(&mut t, "\n"),
            1 => push(&mut t, "# c\n"),
            2 => push(&mut t, "\"x\"\n"),
            _ => {
                push(&mut t, &format!("msgid \"{i}\"\nmsgstr \"\"\n\n"));
                units += 1;
                lines += 2;
            }
        }
        lines += 1;
    }
    let extra = choice(12);
    for _ in 0..extra {
        t.push(b'\n');
    }
    lines += extra;
    let (text, up) = [("msgstr \"x\"\n", 0), ("junk ", 1), ("#~ \"x\"\n", 0), ("\u{0}", 9)][choice(4)];
    push(&mut t, "msgid \"Y\"\nmsgstr \"Y\"\n");
    lines += 2;
    if up == 9 {
        t.push(0xff);
        t.push(b'\n');
    } else {
        push(&mut t, text);
        if up == 1 {
            t.extend_from_slice(&plain(1));
            t.push(b'\n');
        }
    }
    let o = read(p, &t[..]);
    reach(1);
    match &o.err {
        None => check(false, 1),
        Some(e) if up == 9 => check((e.kind == IO) & (e.line == lines + 1), 2),
        Some(e) => check((e.kind == PARSE) & (e.line == lines + 1 + up), 3),
    }
    check(o.units.len() == units + (up == 0) as usize, 4);
    check(!o.after, 5);
}
/// C12: long texts that differ in one place only.
#[no_mangle]
pub extern "C" fn h_c12_big() {
    let k = [17, 33, 65, tier(129, 300)][choice(4)];
    let mut f = |at: usize| {
        let mut v: B = (0..k).map(|i| b'a' + (i % 26) as u8).collect();
        let c = ascii(1);
        v[at] = c[0];
        unsafe { String::from_utf8_unchecked(v) }
    };
    let at = pick(k);
    let (x, y) = (f(at), f(at));
    let same = eqb(x.as_bytes(), y.as_bytes());
    reach(1);
    let m = |i: &str, t: &str| Message::Simple { id: i.to_string(), text: Some(t.to_string()) };
    check((m("i", &x) == m("i", &y)) == same, 1);
    check((m(&x, "t") == m(&y, "t")) == same, 2);
    check(m(&x, "t").get_id() == x && m("i", &y).get_text() == y, 3);
}
/// C14: a big catalogue cut somewhere.
#[no_mangle]
pub extern "C" fn h_c14_big() {
    let p = warm();
    let n = tier(100, 300);
    let es = many(n);
    let mut t = b(HEADER3);
    let ends = write_all(&mut t, &es);
    let at = ends[pick(n)] + choice(3) - choice(9);
    let at = at.min(t.len());
    let o = read(p, &t[..at]);
    let full = ends.iter().filter(|e| **e <= at).count();
    reach(1);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    check(o.units.len() >= full.saturating_sub(1) && o.units.len() <= full + 1, 1);
    check(o.units.len() >= full || o.err.is_some(), 2);
    check(eq_prefix(&o.units, &want, full.min(o.units.len())), 3);
    // the errors the cut may bring are those of the last entry
    check(o.err.is_none() || o.units.len() + 1 >= full, 4);
    check(!o.after, 5);
}
/// C16: the shape of every entry is its own, far down as well.
#[no_mangle]
pub extern "C" fn h_c16_big() {
    let p = warm();
    let n = [20, 70, tier(300, 1000)][choice(3)];
    let which = choice(4);
    let mut t = vec![];
    let mut want = vec![];
    for i in 0..n {
        let mut e = if i == n - 1 { shape(0, b'z') } else { Entry::simple(number(i), number(i)) };
        e.obsolete = match which {
            0 => i == n - 1,
            1 => i != n - 1,
            2 => true,
            _ => i % 2 == 0,
        };
        e.write(&mut t, Lay::One);
        want.push(e.unit());
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&want), 1);
}
/// C18: long texts are part of the message whole.
#[no_mangle]
pub extern "C" fn h_c18_big() {
    use poreader::error::Error;
    let k = [20, 70, 130, tier(260, 1000)][choice(4)];
    let mut v: B = (0..k).map(|i| b'a' + (i % 26) as u8).collect();
    v[k / 2] = plain(1)[0];
    v[k - 1] = plain(1)[0];
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    let e = match choice(4) {
        0 => Error::Parse(70000, s, "x".into()),
        1 => Error::Parse(70000, "x".into(), s),
        2 => Error::Unexpected(70000, s),
        _ => Error::PluralForms(s),
    };
    let shown = e.to_string();
    reach(1);
    // the first place of the unchanged beginning is where it must be
    let h = shown.as_bytes();
    let mut found = false;
    for i in 0..h.len().saturating_sub(k - 1) {
        found |= eqb(&h[i..i + k], &v);
    }
    check(found, 1);
    check(std::io::Error::from(e).to_string() == shown, 2);
}
/// C03: the iterator's other ways of advancing; units stay what they are while reading goes on and
/// after the reader is gone.
#[no_mangle]
pub extern "C" fn h_c03_iter() {
    let p = warm();
    let n = 1 + choice(4);
    let es: Vec<Entry> = (0..n).map(|i| shape((i + choice(2)) % 4, b'a' + i as u8)).collect();
    let mut t = b(["", HEADER3][choice(2)]);
    write_all(&mut t, &es);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    let open = || p.parse(&t[..]).ok();
    let k = choice(n + 2);
    let eq = |u: Option<Result<poreader::unit::Unit, poreader::error::Error>>, w: Option<&U>| match (u, w) {
        (None, None) => true,
        (Some(Ok(u)), Some(w)) => U::of(&u).eq(w),
        _ => false,
    };
    match choice(6) {
        0 => {
            let mut r = match open() {
                Some(r) => r,
                None => return check(false, 1),
            };
            for i in 0..k {
                let (l, h) = r.size_hint();
                let rest = n.saturating_sub(i);
                check(l <= rest && h.map_or(true, |h| h >= rest), 2);
                r.next();
            }
            check(eq(r.next(), want.get(k)), 3);
        }
        1 => check(eq(open().and_then(|mut r| r.nth(k)), want.get(k)), 4),
        2 => check(open().map_or(false, |r| r.count() == n), 5),
        3 => check(eq(open().and_then(|r| r.last()), want.last()), 6),
        4 => check(eq(open().and_then(|r| r.skip(k).next()), want.get(k)), 7),
        _ => {
            let mut kept = vec![];
            if let Some(r) = open() {
                for u in r {
                    if let Ok(u) = u {
                        check(U::of(&u.clone()).eq(&U::of(&u)), 8);
                        kept.push(u);
                    }
                }
            }
            drop(std::mem::take(&mut t));
            check(eq_units(&kept.iter().map(U::of).collect::<Vec<_>>(), &want), 9);
            for u in &kept {
                check(u.is_translated() == (u.state() == poreader::State::Final), 10);
            }
        }
    }
    reach(1);
}
/// C01: very many lines of one kind.
#[no_mangle]
pub extern "C" fn h_c01_many() {
    let p = warm();
    let what = choice(9);
    let k = [1000, tier(20000, 60000)][choice(2)];
    let mut t = b(["msgid \"A\"\nmsgstr \"B\"\n", ""][choice(2)]);
    if what == 6 {
        push(&mut t, "msgid \"\"\nmsgstr \"\"\n");
    }
    for i in 0..k {
        if i == k / 2 {
            t.extend_from_slice(&[b'#']);
            t.extend_from_slice(&plain(1));
            t.push(b'\n');
        }
        push(
            &mut t,
            match what {
                0 => "\n",
                1 => " \t\r\n",
                2 => "# c\n",
                3 => "#, f\n",
                4 => "#: a:1\n",
                5 => "\"x\"\n",
                6 => "\"K: v\\n\"\n",
                7 => "#~ \"x\"\n",
                _ => "#~|\n",
            },
        );
    }
    push(&mut t, "msgid \"Y\"\nmsgstr \"Z\"\n");
    reach(4);
    crate::c01::exercise(p, &t);
}
