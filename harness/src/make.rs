//! Entries of any make-up: which fields, flags, comments, layout are there must not matter to what
//! does not concern them.
use crate::api::*;
use crate::c19::pairs;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::CatalogueReader;

/// Everything around the identifier and the translations of an entry: previous texts, context,
/// comments, obsolete mark.
pub struct Around {
    pub before: B,
    pub e: Entry,
    pub u: U,
}
/// `e` with some choice of the above.
pub fn around(mut e: Entry) -> Around {
    match choice(4) {
        0 => {}
        1 => e.pctx = Some(b("pc")),
        2 => e.pid = Some(b("pi")),
        _ => {
            e.pctx = Some(b("pc"));
            e.pid = Some(b("pi"));
            e.ppl = Some(b("pp"));
        }
    }
    e.obsolete = choice(2) == 1;
    let mut u = e.unit();
    let mut before = vec![];
    let comment = ["", " fuzzy", ", fuzzy", ", c-format, fuzzy", ", no-wrap", ": a.c:1", ". fuzzy", "~ fuzzy", "fuzzy"][choice(9)];
    if !comment.is_empty() {
        push(&mut before, "#");
        push(&mut before, comment);
        push(&mut before, "\n");
        crate::c08::add_comment(&mut u, comment.as_bytes());
    }
    Around { before, e, u }
}
impl Around {
    pub fn write(&self, t: &mut B, lay: Lay) {
        t.extend_from_slice(&self.before);
        self.e.write(t, lay);
    }
}
/// A plural entry of any make-up, at any place: the lookup, for every count.
#[no_mangle]
pub extern "C" fn h_c07_unit() {
    let n = word();
    assume(n <= i64::MAX as u64);
    let x = plain(2);
    let p = warm();
    let header = choice(2) == 1;
    let mut t = vec![];
    if header {
        push(&mut t, "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%4;\\n\"\n\n");
    }
    let first = choice(tier(2, 3)) * tier(2, 1);
    match first {
        0 => {}
        1 => push(&mut t, "msgid \"z\"\nmsgstr \"z\"\n\n"),
        _ => push(&mut t, "#, fuzzy\n#~ msgid \"z\"\n#~ msgid_plural \"zs\"\n#~ msgstr[0] \"y\"\n"),
    }
    let mut e = Entry::simple(b("i"), vec![]);
    e.pl = Some(b("p"));
    e.vals = match choice(4) {
        0 => vec![x[..1].to_vec()],
        1 => vec![x[..1].to_vec(), x[1..].to_vec()],
        2 => vec![vec![], x[..1].to_vec()],
        _ => vec![vec![], vec![]],
    };
    if header && choice(2) == 1 {
        e.vals.push(x.clone());
    }
    if choice(2) == 1 {
        e.ctx = Some(b("c"));
    }
    let a = around(e);
    a.write(&mut t, if if deep() { choice(2) == 0 } else { first == 0 } { Lay::One } else { Lay::Next });
    let u = match p.parse(&t[..]).ok().and_then(|mut r| r.nth((first > 0) as usize)) {
        Some(Ok(u)) => u,
        _ => return check(false, 1),
    };
    reach(1 + header as u64);
    check(U::of(&u).eq(&a.u), 2);
    let vals = &a.e.vals;
    let w = (n % 4) as usize;
    let want = if header && w < vals.len() && w < 3 { Some(&vals[w]) } else { None };
    let m = u.message();
    check(crate::c07::is_text(m.get_plural_text(n as usize), want), 3);
    match m.plural() {
        Some(q) => {
            check(crate::c07::is_text(q.get(n as usize), want), 4);
            check(crate::c07::is_text(q.clone().get(n as usize), want), 5);
            check(eqb(q.first().as_bytes(), &vals[0]) & eql(&q.values().iter().map(|v| b(v)).collect::<Vec<_>>(), vals), 6);
            match q.get_forms() {
                Some(f) => check(header && f.get_count() == 3 && f.get_value(n as usize) == if w < 3 { Some(w) } else { None }, 7),
                None => check(!header, 8),
            }
        }
        None => check(false, 9),
    }
}
/// A header of any make-up; everything that is in it is found.
fn header() {
    let x = word_chars(2);
    let p = warm();
    let mut e = Entry::simple(vec![], vec![]);
    let order = choice(3);
    let end = choice(2) == 1;
    let mut key = b("X-K");
    key.push(x[0]);
    assume(x[0] != b':');
    let mut parts: Vec<B> = vec![b("Language: de"), b("Plural-Forms: nplurals=3; plural=n%4;"), key.clone()];
    push(&mut parts[2], ": ");
    parts[2].push(x[1]);
    parts.rotate_left(order);
    // lines, in escaped form
    let mut text: Vec<B> = vec![];
    for (i, q) in parts.iter().enumerate() {
        let mut l = q.clone();
        if i < 2 || end {
            push(&mut l, "\\n");
        }
        text.push(l);
    }
    e.vals = vec![b("@")];
    let a = around(e);
    let mut t = a.before.clone();
    let lay = choice(3);
    for l in a.e.lines(Lay::One) {
        if !l.ends_with(b"\"@\"") {
            t.extend_from_slice(&l);
            t.push(b'\n');
            continue;
        }
        // the translation: in one line, or one line each
        t.extend_from_slice(&l[..l.len() - 2]);
        let pre = prefix(a.e.obsolete, false);
        match lay {
            0 => text.iter().for_each(|q| t.extend_from_slice(q)),
            _ => {
                for (i, q) in text.iter().enumerate() {
                    if i > 0 || lay == 2 {
                        push(&mut t, "\"\n");
                        push(&mut t, pre);
                        push(&mut t, "\"");
                    }
                    t.extend_from_slice(q);
                }
            }
        }
        push(&mut t, "\"\n");
    }
    push(&mut t, "\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\nmsgstr[2] \"c\"\n\n# after\nmsgid \"z\"\nmsgstr \"\"\n");
    let mut r = match p.parse(&t[..]) {
        Ok(r) => r,
        Err(_) => return check(false, 1),
    };
    let mut props = vec![(b("Language"), b("de")), (b("Plural-Forms"), b("nplurals=3; plural=n%4;"))];
    props.push((key, x[1..].to_vec()));
    let mut h = U::new(M::none());
    h.notes = a.u.notes.clone();
    h.comments = a.u.comments.clone();
    let mut u1 = Entry::simple(b("i"), vec![]);
    u1.pl = Some(b("p"));
    u1.vals = vec![b("a"), b("b"), b("c")];
    let mut u2 = Entry::simple(b("z"), vec![]).unit();
    u2.notes.push((false, b("after")));
    reach(1);
    for i in 0..4 {
        let mut o = empty();
        head(&mut o, &r);
        check(r.target_language().as_ref() == "de", 2);
        check(eq_props(&o.props, &props), 3);
        let mut v = U::new(M::none());
        v.notes = o.hnotes;
        v.comments = o.hcomments;
        check(v.eq_remarks(&h), 4);
        match (i, r.next()) {
            (0, Some(Ok(u))) => {
                check(U::of(&u).eq(&u1.unit()), 5);
                match u.message().plural().and_then(|q| q.get_forms()) {
                    Some(f) => {
                        check(f.get_definition() == "nplurals=3; plural=n%4;" && f.get_count() == 3 && f.get_formula() == "n%4", 6);
                        check(pairs(f.get_definition().as_bytes()).map_or(false, |v| v.len() == 2), 7);
                        for n in 0..5 {
                            check(u.message().get_plural_text(n) == [Some("a"), Some("b"), Some("c"), None, Some("a")][n], 8);
                        }
                    }
                    None => check(false, 9),
                }
            }
            (1, Some(Ok(u))) => check(U::of(&u).eq(&u2), 10),
            (_, None) => check(i > 1, 11),
            _ => check(false, 12),
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c04_whole() {
    header()
}
#[no_mangle]
pub extern "C" fn h_c19_whole() {
    header()
}
