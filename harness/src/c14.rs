//! C14: a truncated catalogue yields only whole leading entries.
use crate::api::*;
use crate::c03::shape;
use crate::gen::*;
use crate::obs::*;
use crate::warm;

/// the identifier of a unit: everything but its translations
pub fn same_id(x: &U, y: &U) -> bool {
    let i = match (&x.msg, &y.msg) {
        (M::Simple { id: a, .. }, M::Simple { id: c, .. }) => eqb(a, c),
        (M::Plural { id: a, pl: p, .. }, M::Plural { id: c, pl: q, .. }) => eqb(a, c) & eqb(p, q),
        _ => false,
    };
    i & eqo(&x.ctx, &y.ctx) & eqo(&x.pctx, &y.pctx) & x.pmsg.eq(&y.pmsg) & x.eq_remarks(y) & (x.obsolete == y.obsolete)
}
/// The translations of `x` begin those of `y`.
pub fn begins(x: &U, y: &U) -> bool {
    fn pre(a: &[u8], c: &[u8]) -> bool {
        a.len() <= c.len() && eqb(a, &c[..a.len()])
    }
    match (&x.msg, &y.msg) {
        (M::Simple { text: a, .. }, M::Simple { text: c, .. }) => pre(a, c),
        (M::Plural { vals: a, .. }, M::Plural { vals: c, .. }) => {
            let mut r = a.len() <= c.len();
            for i in 0..a.len().min(c.len()) {
                r &= if i + 1 < a.len() { eqb(&a[i], &c[i]) } else { pre(&a[i], &c[i]) };
            }
            r
        }
        _ => false,
    }
}
fn build(which: usize) -> (B, Vec<usize>, Vec<U>) {
    let mut t = vec![];
    let es = match which {
        0 => {
            push(&mut t, HEADER3);
            [shape(2, b'a'), shape(3, b'b'), shape(0, b'c')]
        }
        1 => [shape(0, b'a'), shape(2, b'b'), shape(1, b'c')],
        _ => {
            push(&mut t, "# h\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=2; plural=n;\\n\"\n");
            [shape(3, b'a'), shape(1, b'b'), shape(2, b'c')]
        }
    };
    let mut ends = vec![];
    let mut units = vec![];
    for (i, e) in es.iter().enumerate() {
        let mut u = e.unit();
        if i == 1 {
            push(&mut t, "# \u{e9}n\n#: x:1\n#, c-format\n");
            u.notes.push((false, b("\u{e9}n")));
            u.locs.push(b("x:1"));
            u.flags.push(b("c-format"));
        }
        e.write(&mut t, if i == 0 { Lay::Each } else { Lay::One });
        // without the last line end
        ends.push(t.len() - 1);
        if which != 1 {
            push(&mut t, "\n");
        }
        units.push(u);
    }
    (t, ends, units)
}
/// Cut after every number of bytes.
#[no_mangle]
pub extern "C" fn h_c14_cut() {
    let p = warm();
    let (t, ends, units) = build(choice(3));
    let cut = pick(t.len() + 1);
    let o = read(p, &t[..cut]);
    let whole = ends.iter().filter(|e| **e <= cut).count();
    reach(1);
    check(o.units.len() <= 3, 1);
    // an error takes the place of the unit being read only
    if o.units.len() > whole {
        reach(2);
        check(o.units.len() == whole + 1, 2);
        let (x, y) = (&o.units[whole], &units[whole]);
        check(same_id(x, y), 3);
        check(begins(x, y), 4);
    }
    let k = o.units.len().min(whole);
    check(eq_prefix(&o.units, &units, k), 5);
    // the last whole one may be lost only when what follows it cannot be read
    if o.err.is_none() {
        check(o.units.len() >= whole, 6);
    } else {
        check(o.units.len() + 1 >= whole, 7);
        check(cut < t.len(), 8);
    }
    check(!o.after, 9);
}
/// Cut inside of a string that holds escapes and more than one line.
#[no_mangle]
pub extern "C" fn h_c14_string() {
    let p = warm();
    let a = Entry::simple(b("a"), b("x"));
    let mut t = vec![];
    a.write(&mut t, Lay::One);
    let s = ascii(tier(3, 4));
    for c in &s {
        assume(*c != b'\n');
    }
    let id = plain(1);
    push(&mut t, "msgctxt \"k\"\nmsgid \"");
    t.extend_from_slice(&id);
    push(&mut t, "\"\nmsgstr \"");
    let start = t.len();
    t.extend_from_slice(&esc(&s));
    push(&mut t, "\"\n\"");
    t.extend_from_slice(&esc(&s));
    push(&mut t, "\"");
    let cut = start + pick(t.len() - start + 1);
    let o = read(p, &t[..cut]);
    reach(1);
    check(o.units.len() <= 2, 1);
    if o.units.len() > 0 {
        check(o.units[0].eq(&a.unit()), 2);
    } else {
        check(false, 3);
    }
    if o.units.len() == 2 {
        reach(2);
        check(eqo(&o.units[1].ctx, &Some(b("k"))), 4);
        match &o.units[1].msg {
            M::Simple { id: i, .. } => check(eqb(i, &id), 5),
            _ => check(false, 6),
        }
    }
    check(cut < t.len() || o.units.len() == 2, 7);
}
/// An entry of any make-up, alone or behind another, cut before, after and inside of each of its lines.
#[no_mangle]
pub extern "C" fn h_c14_make() {
    let p = warm();
    let c = plain(1);
    let t = |s: &str| {
        let mut v = b(s);
        v.extend_from_slice(&c);
        v
    };
    let first = choice(3);
    let mut text = vec![];
    let mut units = vec![];
    match first {
        0 => {}
        1 => {
            let mut a = Entry::simple(b("first"), b("x"));
            a.obsolete = choice(2) == 1;
            a.write(&mut text, Lay::One);
            if choice(2) == 1 {
                text.push(b'\n');
            }
            units.push(a.unit());
        }
        _ => push(&mut text, HEADER3),
    }
    let mut e = Entry::simple(t("id"), t("text"));
    match choice(4) {
        0 => {}
        1 => e.pctx = Some(t("pc")),
        2 => e.pid = Some(t("pi")),
        _ => {
            e.pctx = Some(t("pc"));
            e.pid = Some(t("pi"));
            e.ppl = Some(t("pp"));
        }
    }
    if choice(2) == 1 {
        e.ctx = Some(t("cx"));
    }
    match choice(3) {
        0 => {}
        k => {
            e.pl = Some(t("pl"));
            e.vals = (0..k).map(|i| t(["fa", "fb"][i])).collect();
        }
    }
    e.obsolete = choice(2) == 1;
    let flag = choice(3);
    let lay = [Lay::One, Lay::Next, Lay::Each][choice(3)];
    let mut lines = e.lines(lay);
    let mut u = e.unit();
    if flag > 0 {
        let f = ["fuzzy", "c-format"][flag - 1];
        u.flags.push(b(f));
        let mut l = b("#, ");
        push(&mut l, f);
        lines.insert(0, l);
        if flag == 1 {
            u.state = NEEDS_WORK;
        }
    }
    // the cut: in this line, before its first, its last or after its last byte, or after its line end
    let k = pick(lines.len());
    for l in &lines[..k] {
        text.extend_from_slice(l);
        text.push(b'\n');
    }
    let l = &lines[k];
    let all = match choice(4) {
        0 => false,
        1 => {
            text.extend_from_slice(&l[..l.len() - 1]);
            false
        }
        2 => {
            text.extend_from_slice(l);
            k + 1 == lines.len()
        }
        _ => {
            text.extend_from_slice(l);
            text.push(b'\n');
            k + 1 == lines.len()
        }
    };
    let o = read(p, &text[..]);
    reach(1);
    let n = units.len();
    check(o.units.len() <= n + 1, 1);
    // what is before it is lost only when a line of it cannot be read
    let kept = o.units.len() >= n || o.err.is_some();
    check(kept, 2);
    check(eq_prefix(&o.units, &units, o.units.len().min(n)), 3);
    if o.units.len() == n + 1 {
        reach(2);
        let x = &o.units[n];
        check(same_id(x, &u), 4);
        check(begins(x, &u), 5);
        check((x.state == NEEDS_WORK) == (flag == 1), 6);
    }
    check(!all || (o.units.len() == n + 1 && o.units[n].eq(&u)), 7);
    check(!o.after, 8);
}
