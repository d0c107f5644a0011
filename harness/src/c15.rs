//! C15: entries are independent; what follows never changes what precedes.
use crate::api::*;
use crate::c03::shape;
use crate::gen::*;
use crate::obs::*;
use crate::warm;

fn base(which: usize) -> (B, Vec<U>, Vec<(B, B)>) {
    let mut t = vec![];
    let mut props = vec![];
    if which == 0 {
        push(&mut t, "msgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=3; plural=n;\\n\"\n\n");
        props = vec![(b("Language"), b("de")), (b("Plural-Forms"), b("nplurals=3; plural=n;"))];
    }
    let a = [shape(2, b'a'), shape(1, b'a'), shape(3, b'a')][which].clone();
    let z = [shape(0, b'z'), shape(2, b'z'), shape(1, b'z')][which].clone();
    let mut u = a.unit();
    let v = word_chars(1);
    push(&mut t, "# ");
    t.extend_from_slice(&v);
    push(&mut t, "\n#, c-format\n");
    u.notes.push((false, v));
    u.flags.push(b("c-format"));
    a.write(&mut t, Lay::One);
    t.push(b'\n');
    z.write(&mut t, Lay::One);
    (t, vec![u, z.unit()], props)
}
fn verify(p: &poreader::PoParser, t: &[u8], us: &[U], props: &[(B, B)], both: bool) {
    let o = read(p, t);
    reach(1);
    check(!o.open, 1);
    check(eq_props(&o.props, props), 2);
    check(o.units.len() > 0 && o.units[0].eq(&us[0]), 3);
    if both {
        check(eq_prefix(&o.units, us, 2), 4);
    }
    // the second one is either not given or has its identifier
    if o.units.len() > 1 {
        check(
            match (&o.units[1].msg, &us[1].msg) {
                (M::Simple { id: a, .. }, M::Simple { id: c, .. }) => eqb(a, c),
                (M::Plural { id: a, pl: p, .. }, M::Plural { id: c, pl: q, .. }) => eqb(a, c) & eqb(p, q),
                _ => false,
            },
            5,
        );
    }
    check(!o.after, 6);
}
/// Arbitrary bytes after two complete entries.
#[no_mangle]
pub extern "C" fn h_c15_bytes() {
    let p = warm();
    let (mut t, us, props) = base(choice(3));
    let n = choice(tier(5, 6));
    let s = bytes(n);
    t.extend_from_slice(&s);
    verify(p, &t, &us, &props, n == 0);
}
/// A further entry with a defect of every kind: the two before it come back whole.
#[no_mangle]
pub extern "C" fn h_c15_defects() {
    let p = warm();
    let (mut t, us, props) = base(choice(3));
    let bad: &[&[u8]] = &[
        b"msgid \"\"\nmsgstr \"x\"\n", b"msgid \"q\"\nmsgid \"r\"\n", b"msgid \"q\"\nmsgstr[0] \"r\"\n", b"msgctxt \"q\"\nmsgctxt \"r\"\n",
        b"msgid \"q\"\njunk\n", b"msgid \"q\"\n# c\nmsgstr \"r\"\n", b"msgid \"q\"\n#~ msgstr \"r\"\n", b"msgid \"q\"\n\xff\n",
        b"msgid \"q\"\nmsgid_plural \"r\"\nmsgstr[1] \"s\"\n", b"msgstr \"q\"\n", b"#| msgid \"q\"\nmsgstr \"r\"\n", b"#, fuzzy\nmsgid \"q\"\nmsgstr \"r\"\nmsgstr \"s\"\n",
        b"#~ msgid \"q\"\nmsgstr \"r\"\n", b"msgid \"q\"", b"# c", b"msgid \"a\"\nmsgstr \"again\"\n", b"#~ msgid \"q\"\n#~ msgstr \"r\"\n",
    ];
    let k = choice(bad.len());
    // an arbitrary comment before it
    let n = choice(3);
    let c = bytes(n);
    for x in &c {
        assume((*x >= 0x20) & (*x <= 0x7e) & (*x != b'"'));
    }
    if n > 0 {
        t.push(b'#');
        t.extend_from_slice(&c);
        t.push(b'\n');
    }
    t.extend_from_slice(bad[k]);
    verify(p, &t, &us, &props, true);
}
/// A complete entry of any shape appended.
#[no_mangle]
pub extern "C" fn h_c15_entries() {
    let p = warm();
    let (mut t, us, props) = base(choice(3));
    for k in 0..tier(2, 3) {
        shape(choice(4), b'k' + k as u8).write(&mut t, [Lay::One, Lay::Each][choice(2)]);
        if choice(2) == 1 {
            push(&mut t, "\n");
        }
    }
    verify(p, &t, &us, &props, true);
}
/// An entry of any make-up, and one behind it that shares any of its parts.
#[no_mangle]
pub extern "C" fn h_c15_twin() {
    let p = warm();
    let c = plain(1);
    let t = |s: &str| {
        let mut v = b(s);
        v.extend_from_slice(&c);
        v
    };
    let e = {
        let mut e = Entry::simple(t("id"), t("text"));
        match choice(4) {
            0 => {}
            1 => e.ctx = Some(t("cx")),
            2 => {
                e.pl = Some(t("pl"));
                e.vals = vec![t("fa"), t("fb")];
            }
            _ => {
                e.pid = Some(t("pi"));
                e.vals = vec![vec![]];
            }
        }
        e.obsolete = choice(2) == 1;
        e
    };
    let fuzzy = choice(2) == 1;
    let mut f = e.clone();
    match choice(3) {
        0 => {}
        1 => f.id = b("other"),
        _ => f.ctx = if e.ctx.is_some() { None } else { Some(b("ocx")) },
    }
    match choice(3) {
        0 => {}
        1 => f.vals = vec![b("ot"); f.vals.len()],
        _ => {
            if e.pl.is_some() {
                f.pl = None;
                f.vals = vec![t("fa")];
            } else {
                f.pl = Some(b("opl"));
                f.vals = vec![t("fa")];
            }
        }
    }
    match choice(3) {
        0 => {}
        1 => f.pid = None,
        _ => {
            // refers to the one before
            f.pid = Some(e.id.clone());
            f.ppl = e.pl.clone();
            f.pctx = e.ctx.clone();
        }
    }
    f.obsolete = choice(2) == 1;
    let note = choice(4);
    let mut text = vec![];
    let mut u = e.unit();
    if fuzzy {
        push(&mut text, "#, fuzzy\n");
        u.flags.push(b("fuzzy"));
        u.state = NEEDS_WORK;
    }
    e.write(&mut text, Lay::One);
    if choice(2) == 1 {
        text.push(b'\n');
    }
    let mut v = f.unit();
    match note {
        0 => {}
        1 => {
            push(&mut text, "#, fuzzy\n");
            v.flags.push(b("fuzzy"));
            v.state = NEEDS_WORK;
        }
        2 => {
            push(&mut text, "# ");
            text.extend_from_slice(&e.id);
            text.push(b'\n');
            let mut w = e.id.clone();
            assume(c[0] != b' ');
            v.notes.push((false, std::mem::take(&mut w)));
        }
        _ => {
            push(&mut text, "#, obsolete, no-fuzzy\n");
            v.flags.push(b("obsolete"));
            v.flags.push(b("no-fuzzy"));
        }
    }
    f.write(&mut text, Lay::One);
    if choice(2) == 1 {
        push(&mut text, "\nmsgid \"z\"\nmsgstr \"\"\n");
    }
    let o = read(p, &text[..]);
    reach(1);
    check(o.units.len() >= 2, 1);
    check(o.units.len() > 0 && o.units[0].eq(&u), 2);
    check(o.units.len() > 1 && o.units[1].eq(&v), 3);
    check(o.err.is_none(), 4);
}
