//! C16: obsolete entries are marked and never mixed with live ones.
use crate::api::*;
use crate::c03::any_entry;
use crate::gen::*;
use crate::grammar::*;
use crate::obs::*;
use crate::warm;

/// An obsolete entry is the live one with the mark, in every shape.
#[no_mangle]
pub extern "C" fn h_c16_mark() {
    let p = warm();
    let mut e = any_entry(3, b'm', false);
    e.obsolete = false;
    let lay = if choice(2) == 0 { Lay::One } else { Lay::Each };
    let tight = choice(2) == 1;
    let live = {
        let mut t = b(HEADER3);
        e.write(&mut t, lay);
        read(p, &t[..])
    };
    e.obsolete = true;
    let mut t = b(HEADER3);
    for l in e.lines(lay) {
        // with or without a blank after the mark
        let l = if tight {
            let mut m = vec![];
            let k = l.iter().position(|c| *c == b' ').unwrap();
            m.extend_from_slice(&l[..k]);
            m.extend_from_slice(&l[k + 1..]);
            m
        } else {
            l
        };
        t.extend_from_slice(&l);
        t.push(b'\n');
    }
    let dead = read(p, &t[..]);
    reach(1);
    check(live.units.len() == 1 && dead.units.len() == 1 && live.err.is_none() && dead.err.is_none(), 1);
    if live.units.len() == 1 && dead.units.len() == 1 {
        let mut d = dead.units[0].clone();
        check(d.obsolete && !live.units[0].obsolete, 2);
        d.obsolete = false;
        check(d.eq(&live.units[0]), 3);
    }
}
/// Every choice of marked lines.
#[no_mangle]
pub extern "C" fn h_c16_mixed() {
    let p = warm();
    let one = || plain(1);
    let mut ls = match choice(tier(3, 4)) {
        0 => vec![L::Str("", "msgid", one()), L::Cont("", one()), L::Str("", "msgstr", one()), L::Cont("", one())],
        1 => vec![L::Str("", "msgctxt", one()), L::Str("", "msgid", one()), L::Str("", "msgid_plural", one()), L::Str("", "msgstr[0]", one()), L::Str("", "msgstr[1]", one())],
        2 => vec![L::Str("|", "msgid", one()), L::Cont("|", one()), L::Str("", "msgid", one()), L::Str("", "msgstr", one())],
        _ => vec![
            L::Comment(b(" n")), L::Str("|", "msgctxt", one()), L::Str("|", "msgid", one()), L::Str("|", "msgid_plural", one()), L::Str("", "msgctxt", one()),
            L::Str("", "msgid", one()), L::Cont("", one()), L::Str("", "msgstr", one()), L::Cont("", one()),
        ],
    };
    let (mut some, mut all) = (false, true);
    for l in &mut ls {
        match l {
            L::Str(p, ..) | L::Cont(p, _) => {
                let m = choice(2) == 1;
                some |= m;
                all &= m;
                if m {
                    *p = if *p == "|" { "~|" } else { "~" };
                }
            }
            _ => {}
        }
    }
    let first = choice(2) == 1;
    let mut f = vec![];
    if !first {
        f.extend(crate::c11::entry(b'A'));
    }
    f.extend(ls);
    f.extend(crate::c11::entry(b'Z'));
    let mut t = vec![];
    for l in &f {
        l.write(&mut t);
    }
    let v = judge(&f, 2);
    let o = read(p, &t[..]);
    if some && !all {
        // the lines do not make one unit
        reach(1);
        check(o.err.is_some(), 1);
    } else {
        reach(2);
        check(o.err.is_none(), 2);
        let i = !first as usize;
        check(o.units.len() == i + 2, 3);
        check(o.units.len() > i && o.units[i].obsolete == all, 4);
    }
    check(eq_units(&o.units, &v.units), 5);
    match (&o.err, v.defect) {
        (Some(e), Some((line, bad))) => check(e.line == line + bad as usize, 6),
        (None, None) => {}
        _ => check(false, 7),
    }
}
/// Sequences of live and obsolete entries.
#[no_mangle]
pub extern "C" fn h_c16_sequence() {
    let p = warm();
    let n = tier(4, 6);
    let mut t = vec![];
    let mut us = vec![];
    for i in 0..n {
        let mut e = Entry::simple(vec![b'a' + i as u8], plain(1));
        if i == 1 {
            e.ctx = Some(plain(1));
        }
        if i == 2 {
            e.pl = Some(plain(1));
            e.pid = Some(plain(1));
        }
        e.obsolete = choice(2) == 1;
        e.write(&mut t, if i == 3 { Lay::Next } else { Lay::One });
        if choice(2) == 1 {
            push(&mut t, "\n");
        }
        us.push(e.unit());
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&us), 1);
}
/// Live and obsolete entries of all kinds that may be alike, with comments.
#[no_mangle]
pub extern "C" fn h_c16_alike() {
    let p = warm();
    let c = plain(1);
    let t = |s: &str| {
        let mut v = b(s);
        v.extend_from_slice(&c);
        v
    };
    let gap = choice(2) == 1;
    let mut text = b(["", HEADER3][choice(2)]);
    let mut us = vec![];
    for i in 0..3 {
        let mut e = Entry::simple(t(["id", "other"][if i == 0 { 0 } else { choice(2) }]), t("text"));
        let mut flags: &[&str] = &[];
        let mut note = false;
        let kinds = if i < 2 || deep() { 7 } else { 2 };
        match choice(kinds) {
            0 => {}
            1 => {
                flags = &["fuzzy"];
                note = true;
            }
            2 => e.ctx = Some(t("ctx")),
            3 => {
                e.pl = Some(t("pl"));
                e.vals = vec![t("fa"), vec![]];
            }
            4 => {
                e.pctx = Some(t("pc"));
                e.pid = Some(t("id"));
            }
            5 => e.vals = vec![vec![]],
            _ => {
                flags = &["c-format", "obsolete"];
                note = true;
            }
        }
        e.obsolete = choice(2) == 1;
        let mut u = e.unit();
        if note {
            push(&mut text, "# a note\n#. of both\n#: x:1\n#= rest\n");
            u.notes = vec![(false, b("a note")), (true, b("of both"))];
            u.locs = vec![b("x:1")];
            u.comments = vec![('=' as u32, b("rest"))];
        }
        if !flags.is_empty() {
            push(&mut text, &format!("#, {}\n", flags.join(", ")));
            u.flags = flags.iter().map(|f| b(f)).collect();
            if flags[0] == "fuzzy" {
                u.state = NEEDS_WORK;
            }
        }
        e.write(&mut text, Lay::One);
        if gap {
            text.push(b'\n');
        }
        us.push(u);
    }
    let o = read(p, &text[..]);
    reach(1);
    check(o.is_units(&us), 1);
}
/// The first entry of a file, obsolete or not, with or without a source.
#[no_mangle]
pub extern "C" fn h_c16_first() {
    let p = warm();
    let none = choice(2) == 1;
    let mut e = Entry::simple(if none { vec![] } else { plain(1) }, b("K: v"));
    match choice(3) {
        0 => {}
        1 => {
            e.pl = Some(plain(1));
            e.vals.push(plain(1));
        }
        _ => e.pid = Some(plain(1)),
    }
    e.obsolete = choice(2) == 1;
    let header = none && e.pl.is_none();
    let lay = [Lay::One, Lay::Next, Lay::Each][choice(3)];
    let mut text = vec![];
    e.write(&mut text, lay);
    let mut z = Entry::simple(plain(1), plain(1));
    z.obsolete = choice(2) == 1;
    z.write(&mut text, Lay::One);
    let o = read(p, &text[..]);
    reach(1);
    let want = if header { vec![z.unit()] } else { vec![e.unit(), z.unit()] };
    check(o.is_units(&want), 1);
    check(eq_props(&o.props, &if header { vec![(b("K"), b("v"))] } else { vec![] }), 2);
}
