//! C13: a parser can be reused; no file influences another.
use crate::api::*;
use crate::c03::shape;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::{CatalogueReader, PoParser, PoReader};

fn file(k: usize) -> B {
    let mut t = vec![];
    match k {
        0 => push(
            &mut t,
            "# h\n#= c\nmsgid \"\"\nmsgstr \"Language: de\\nPlural-Forms: nplurals=3; plural=n>1;\\nX: y\\n\"\n\nmsgctxt \"c\"\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\nmsgstr[2] \"c\"\n#, fuzzy\n#~ msgid \"o\"\n#~ msgstr \"o\"\n",
        ),
        1 => push(&mut t, "msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nbad line\n"),
        2 => push(&mut t, "# only\n#, fuzzy\n#: x\nmsgid \"a"),
        3 => t.extend_from_slice(b"#, fuzzy\nmsgctxt \"c\"\n#| msgid \"x\"\nmsgid \"a\xff\"\nmsgstr \"b\"\n"),
        4 => push(&mut t, "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=x; plural=n;\"\n"),
        5 => push(&mut t, "#, fuzzy\n#| msgctxt \"pc\"\n#| msgid \"pi\"\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"q\"\nmsgstr[0] \"\"\n\n# rest\nmsgid \"b\"\n"),
        6 => {}
        // like the last target in length and language, but with another formula
        7 => push(&mut t, "msgid \"\"\nmsgstr \"Language: pl\\nPlural-Forms: nplurals=2; plural=n==1;\\n\"\n\nmsgid \"bi0\"\nmsgid_plural \"bp0\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n"),
        8 => push(&mut t, "msgid \"\"\nmsgstr \"Language: pt\\nPlural-Forms: nplurals=3; plural=n!=1;\\n\"\n\nmsgid \"a\"\n"),
        _ => push(&mut t, "msgid \"\"\nmsgstr \"Language: fr\\nPlural-Forms: nplurals=4; plural=n%4;\\n\"\n"),
    }
    t
}
pub struct Target {
    text: B,
    units: Vec<U>,
    props: Vec<(B, B)>,
    lang: B,
    /// the form each count selects in the plural unit
    form: fn(i64) -> Option<usize>,
}
pub fn target(k: usize) -> Target {
    let mut t = vec![];
    let es = [shape(0, b'a'), shape(2, b'b'), shape(3, b'c')];
    let mut r = Target { text: vec![], units: es.iter().map(|e| e.unit()).collect(), props: vec![], lang: vec![], form: |_| None };
    match k {
        0 => {}
        1 => {
            push(&mut t, "msgid \"\"\nmsgstr \"Y: z\\n\"\n\n");
            r.props = vec![(b("Y"), b("z"))];
        }
        _ => {
            push(&mut t, "msgid \"\"\nmsgstr \"Language: pl\\nPlural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n");
            r.props = vec![(b("Language"), b("pl")), (b("Plural-Forms"), b("nplurals=2; plural=n!=1;"))];
            r.lang = b("pl");
            r.form = |n| Some((n != 1) as usize);
        }
    }
    for e in &es {
        e.write(&mut t, Lay::One);
    }
    r.text = t;
    r
}
pub fn verify(p: &PoParser, g: &Target, n: u64) {
    let o = read(p, &g.text[..]);
    check(o.is_units(&g.units), 1);
    check(eq_props(&o.props, &g.props) & eqb(&o.lang, &g.lang), 2);
    check(o.hnotes.is_empty() && o.hcomments.is_empty(), 3);
    // the formula in force is the file's own
    if let Ok(mut r) = p.parse(&g.text[..]) {
        r.next();
        if let Some(Ok(u)) = r.next() {
            let w = (g.form)(n as i64);
            let got = u.message().get_plural_text(n as usize);
            match (&g.units[1].msg, w) {
                (M::Plural { vals, .. }, Some(i)) => check(got.map_or(false, |t| eqb(t.as_bytes(), &vals[i])), 4),
                _ => check(got.is_none(), 5),
            }
        } else {
            check(false, 6);
        }
    }
}
/// After any two earlier files, read completely or in part, or given up.
#[no_mangle]
pub extern "C" fn h_c13_history() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let h = tier(2, 3);
    let mut kept = vec![];
    for i in 0..h {
        // in deep runs, one of three kinds before the other two
        let (t, steps) = if deep() && i == 0 { (file([0, 3, 5][choice(3)]), 1) } else { (file(choice(10)), choice(4)) };
        if let Ok(mut r) = p.parse(std::io::Cursor::new(t)) {
            for _ in 0..steps {
                r.next();
            }
            if steps < 3 {
                // some stay open
                kept.push(r);
            }
        }
    }
    let g = target(choice(3));
    reach(1);
    verify(p, &g, n);
}
fn step(r: &mut Option<PoReader<'_, &[u8]>>, o: &mut Obs) {
    if let Some(r) = r {
        match r.next() {
            None => {}
            Some(Ok(u)) => o.units.push(U::of(&u)),
            Some(Err(e)) => o.err = Some(of_error(&e)),
        }
    }
}
/// Two readers of one parser, opened and advanced in any order.
#[no_mangle]
pub extern "C" fn h_c13_interleaved() {
    let p = warm();
    let (mut x, mut y) = (target(choice(3)), if choice(2) == 0 { target(0) } else { target(2) });
    let lines = |t: &[u8]| t.iter().filter(|c| **c == b'\n').count();
    // each may end in a defect: unexpected lines, lines that are none of the format
    let defect = [None, Some("msgid \"q\"\n\nmsgid \"r\"\n"), Some("msgid \"q\"\njunk\n")];
    let (dx, dy) = (choice(3), choice(2));
    let at = [lines(&x.text) + if dx == 0 { 0 } else { 3 }, lines(&y.text) + if dy == 0 { 0 } else { 3 }];
    push(&mut x.text, defect[dx].unwrap_or(""));
    push(&mut y.text, defect[dy].unwrap_or(""));
    let bad = [dx > 0, dy > 0];
    let (mut a, mut c) = (None, None);
    let (mut oa, mut oc) = (empty(), empty());
    let n = tier(7, 9);
    for _ in 0..n {
        let (r, o, t) = if choice(2) == 0 { (&mut a, &mut oa, &x) } else { (&mut c, &mut oc, &y) };
        if r.is_none() {
            match p.parse(&t.text[..]) {
                Ok(q) => {
                    head(o, &q);
                    *r = Some(q);
                }
                Err(_) => check(false, 1),
            }
        } else {
            step(r, o);
        }
    }
    for (i, (r, o, t)) in [(&mut a, &mut oa, &x), (&mut c, &mut oc, &y)].into_iter().enumerate() {
        if let Some(q) = r {
            reach(1);
            head(o, q);
            drain(o, q);
            check(eq_units(&o.units, &t.units) & !o.open & !o.after, 2);
            match &o.err {
                Some(e) => check(bad[i] & (e.line == at[i]) & (e.kind == PARSE), 4),
                None => check(!bad[i], 5),
            }
            check(eq_props(&o.props, &t.props) & eqb(&o.lang, &t.lang), 3);
        }
    }
}
/// A fresh parser and a used one read a file alike, also where the file is defective.
#[no_mangle]
pub extern "C" fn h_c13_same() {
    let p = warm();
    let k = choice(10);
    let mut t = file(k);
    let h = file(if deep() { choice(10) } else { (k + 3) % 10 });
    let n = t.len();
    let at = if n == 0 { 0 } else { choice(n.min(256)) };
    let k = choice(2);
    // any character inserted anywhere
    if k == 1 {
        let c = byte();
        assume((c < 0x80) & (c != b'\\'));
        t.insert(at, c);
    } else {
        t.truncate(at);
    }
    let first = read(p, &t[..]);
    let _ = read(p, &h[..]);
    let again = read(p, &t[..]);
    reach(1);
    check(first.eq(&again), 1);
}
