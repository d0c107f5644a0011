//! C03: entries are returned complete, in order, each field in its place.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;

/// An entry of every shape; each text is two arbitrary characters (or empty where that is allowed).
pub fn any_entry(max_forms: usize, tag: u8, empties: bool) -> Entry {
    let mut k = 0u8;
    let mut text = |may: bool| -> B {
        k += 1;
        if may && empties && choice(2) == 1 {
            return vec![];
        }
        let mut v = vec![tag, b'0' + k];
        v.extend_from_slice(&plain(1));
        v
    };
    let pctx = if choice(2) == 1 { Some(text(true)) } else { None };
    let (pid, ppl) = match choice(3) {
        0 => (None, None),
        1 => (Some(text(true)), None),
        _ => (Some(text(true)), Some(text(true))),
    };
    let ctx = if choice(2) == 1 { Some(text(true)) } else { None };
    let id = text(false);
    let forms = choice(max_forms + 1);
    let (pl, vals) = if forms == 0 {
        (None, vec![text(true)])
    } else {
        (Some(text(true)), (0..forms).map(|_| text(true)).collect())
    };
    Entry { pctx, pid, ppl, ctx, id, pl, vals, obsolete: choice(2) == 1 }
}
pub fn shape(i: usize, tag: u8) -> Entry {
    let t = |k: u8| {
        let mut v = vec![tag, k];
        v.extend_from_slice(&plain(1));
        v
    };
    let mut e = Entry::simple(t(b'i'), t(b's'));
    match i {
        0 => {}
        1 => {
            e.ctx = Some(t(b'c'));
            e.obsolete = true;
        }
        2 => {
            e.pl = Some(t(b'p'));
            e.vals = vec![t(b'x'), t(b'y')];
        }
        _ => {
            e.pctx = Some(t(b'q'));
            e.pid = Some(t(b'r'));
            e.ppl = Some(t(b'u'));
            e.ctx = Some(t(b'c'));
            e.vals = vec![vec![]];
        }
    }
    e
}

/// Every shape of entry between two neighbours.
#[no_mangle]
pub extern "C" fn h_c03_shapes() {
    let p = warm();
    let header = choice(2) == 1;
    let e = any_entry(if header { 3 } else { 2 }, b'm', true);
    let lay = if choice(2) == 0 { Lay::One } else { Lay::Each };
    let blank = choice(2) == 1;
    let (a, z) = [(3, 0), (2, 1), (1, 2), (0, 3)][if deep() { choice(4) } else { 0 }];
    let (a, z) = (shape(a, b'a'), shape(z, b'z'));
    let mut t = vec![];
    if header {
        push(&mut t, HEADER3);
    }
    a.write(&mut t, Lay::One);
    if blank {
        t.push(b'\n');
    }
    e.write(&mut t, lay);
    if blank {
        t.push(b'\n');
    }
    z.write(&mut t, Lay::One);
    let o = read(p, &t[..]);
    reach(1);
    check(!o.open && o.err.is_none(), 1);
    check(o.units.len() == 3, 2);
    for (i, w) in [&a, &e, &z].into_iter().enumerate() {
        if let Some(u) = o.units.get(i) {
            check(u.eq_fields(&w.unit()), 10 + i as u64);
            check((u.obsolete == w.obsolete) & (u.state == w.unit().state), 20 + i as u64);
            check(u.eq_remarks(&w.unit()), 30 + i as u64);
        }
    }
    check(!o.after, 3);
}

/// Sequences of entries of different shapes: all come back, in order.
#[no_mangle]
pub extern "C" fn h_c03_order() {
    let p = warm();
    let n = tier(4, 6);
    let header = choice(2) == 1;
    let mut es = vec![];
    for i in 0..n {
        es.push(shape(choice(4), b'a' + i as u8));
    }
    let mut t = vec![];
    if header {
        push(&mut t, HEADER3);
    }
    for e in &es {
        e.write(&mut t, Lay::One);
        t.push(b'\n');
    }
    let o = read(p, &t[..]);
    reach(1);
    let want: Vec<U> = es.iter().map(|e| e.unit()).collect();
    check(o.is_units(&want), 1);
}

/// Fields of arbitrary lengths (0 to 3 characters of text) in one entry.
#[no_mangle]
pub extern "C" fn h_c03_lengths() {
    let p = warm();
    let mut f = || {
        let n = choice(4);
        plain(n)
    };
    let (c, i, s) = (f(), f(), f());
    let mut e = Entry::simple(i, s);
    e.ctx = Some(c);
    if choice(2) == 1 {
        e.pl = Some(f());
        e.vals.push(f());
    } else if e.id.is_empty() {
        return;
    }
    let mut t = b("msgid \"first\"\nmsgstr \"\"\n\n");
    e.write(&mut t, Lay::Each);
    push(&mut t, "\nmsgid \"last\"\nmsgstr \"x\"\n");
    let o = read(p, &t[..]);
    reach(1);
    check(o.units.len() == 3 && o.err.is_none(), 1);
    if o.units.len() == 3 {
        check(o.units[1].eq(&e.unit()), 2);
    }
}
