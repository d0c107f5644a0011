//! The same thing asked again, and two things that may be alike in everything but little: an answer
//! must not depend on what was asked, read or looked up before.
use crate::api::*;
use crate::c05::REAL;
use crate::c07::is_text;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::plural::PluralForms;
use poreader::{CatalogueReader, Message, PoParser};

fn bi(b: bool) -> i64 {
    b as i64
}
/// further formulas: the value itself, and ones that tell large counts apart
const MORE: [(&str, fn(i64) -> i64); 4] =
    [("n", |n| n), ("n/4294967296", |n| n / 4294967296), ("n>4294967295", |n| bi(n > 4294967295)), ("n%256", |n| n % 256)];
fn small(i: usize) -> (&'static str, fn(i64) -> i64) {
    if i < MORE.len() {
        MORE[i]
    } else {
        REAL[[1, 4, 6, 7, 8, 10, 12, 20, 21, 24][i - MORE.len()]]
    }
}
fn file(formula: &str, nplurals: &str, id: u8) -> B {
    let mut t = b("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=");
    push(&mut t, nplurals);
    push(&mut t, "; plural=");
    push(&mut t, formula);
    push(&mut t, ";\\n\"\n\nmsgid \"");
    t.push(id);
    push(&mut t, "\"\nmsgid_plural \"p\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\nmsgstr[2] \"2\"\nmsgstr[3] \"3\"\n");
    t
}
fn message(p: &PoParser, t: &[u8]) -> Option<Message> {
    p.parse(t).ok().and_then(|mut r| crate::c07::message(r.next()))
}
fn forms(m: &Message) -> Option<PluralForms> {
    m.plural().and_then(|q| q.get_forms().cloned())
}
fn is(f: &PluralForms, n: u64, want: i64, id: u64) {
    match f.get_value(n as usize) {
        Some(v) => check(v as i64 == want, id),
        None => check(want < 0, id + 1),
    }
}
/// Two counts, in turn, of one formula (and of a copy).
#[no_mangle]
pub extern "C" fn h_c05_twice() {
    let (n, m) = (word(), word());
    assume((n <= i64::MAX as u64) & (m <= i64::MAX as u64));
    let p = warm();
    let (s, c) = small(choice(tier(8, 14)));
    let f = match message(p, &file(s, crate::c05::ALL, b'i')).and_then(|m| forms(&m)) {
        Some(f) => f,
        None => return check(false, 1),
    };
    reach(1);
    let g = f.clone();
    is(&f, n, c(n as i64), 2);
    is(&f, m, c(m as i64), 4);
    is(&f, n, c(n as i64), 6);
    is(&g, m, c(m as i64), 8);
}
/// Two catalogues of one parser, each with its formula; their messages looked up in turn, for any
/// two counts.
#[no_mangle]
pub extern "C" fn h_c07_twice() {
    let (n, m) = (word(), word());
    assume((n <= i64::MAX as u64) & (m <= i64::MAX as u64));
    let p = warm();
    const F: [(&str, fn(i64) -> i64); 6] = [
        ("n%4", |n| n % 4),
        ("n!=1", |n| bi(n != 1)),
        ("n==1", |n| bi(n == 1)),
        ("n", |n| n),
        ("n==1?0:n==2?1:2", |n| if n == 1 { 0 } else if n == 2 { 1 } else { 2 }),
        ("n/2147483648", |n| n / 2147483648),
    ];
    let i = choice(F.len());
    let j = (i + choice(tier(3, F.len()))) % F.len();
    let ids = choice(2);
    let counts = if deep() { choice(2) } else { 0 };
    let (ka, kb) = if counts == 0 { (4i64, 4i64) } else { (3, 4) };
    let a = message(p, &file(F[i].0, if counts == 0 { "4" } else { "3" }, b'a'));
    let c = message(p, &file(F[j].0, "4", if ids == 0 { b'a' } else { b'b' }));
    let (a, c) = match (a, c) {
        (Some(a), Some(c)) => (a, c),
        _ => return check(false, 1),
    };
    reach(1);
    let vals = ["0", "1", "2", "3"].map(b);
    let look = |q: &Message, v: i64, k: i64, n: u64, id: u64| {
        let want = if (v >= 0) & (v < k) { Some(&vals[v as usize]) } else { None };
        check(is_text(q.get_plural_text(n as usize), want), id);
    };
    let (va, vc) = (F[i].1, F[j].1);
    look(&a, va(n as i64), ka, n, 2);
    look(&c, vc(m as i64), kb, m, 3);
    look(&a, va(m as i64), ka, m, 4);
    look(&c, vc(n as i64), kb, n, 5);
    look(&a, va(n as i64), ka, n, 6);
}
/// Earlier files' messages looked up, with any count, before, between and after.
#[no_mangle]
pub extern "C" fn h_c13_lookup() {
    let (n, m) = (word(), word());
    assume((n <= i64::MAX as u64) & (m <= i64::MAX as u64));
    let p = warm();
    const F: [(&str, fn(i64) -> i64); 4] = [("n%4", |n| n % 4), ("n!=1", |n| bi(n != 1)), ("n==1", |n| bi(n == 1)), ("3-n", |n| 3i64.wrapping_sub(n))];
    let vals = ["0", "1", "2", "3"].map(b);
    let i = choice(F.len());
    let old = match message(p, &file(F[i].0, "4", b'b')) {
        Some(q) => q,
        None => return check(false, 20),
    };
    let v = F[i].1(m as i64);
    let want = if (v >= 0) & (v < 4) { Some(&vals[v as usize]) } else { None };
    let early = choice(2) == 1;
    if early {
        check(is_text(old.get_plural_text(m as usize), want), 21);
    }
    let g = crate::c13::target(choice(3));
    reach(1);
    crate::c13::verify(p, &g, n);
    check(is_text(old.get_plural_text(m as usize), want), 22);
    if deep() {
        crate::c13::verify(p, &g, m);
        check(is_text(old.get_plural_text(m as usize), want), 23);
    }
}
/// two texts of `n` characters each, in two strings of two entries
fn entries(x: &B, y: &B, i: usize, j: usize) -> [Entry; 2] {
    let mk = |k: &str| Entry {
        pctx: Some(b(k)),
        pid: Some(b("pi")),
        ppl: Some(b("pp")),
        ctx: Some(b("c")),
        id: b(k),
        pl: Some(b("p")),
        vals: vec![b("a"), b("b")],
        obsolete: false,
    };
    let mut es = [mk("i"), mk("j")];
    for (k, v) in [(i, x), (j, y)] {
        let e = &mut es[k / 8];
        match k % 8 {
            0 => e.pctx = Some(v.clone()),
            1 => e.pid = Some(v.clone()),
            2 => e.ppl = Some(v.clone()),
            3 => e.ctx = Some(v.clone()),
            4 => e.id = v.clone(),
            5 => e.pl = Some(v.clone()),
            6 => e.vals[0] = v.clone(),
            _ => e.vals[1] = v.clone(),
        }
    }
    es
}
/// Two strings of one file that are alike in length, and may be in any of their characters.
#[no_mangle]
pub extern "C" fn h_c02_pair() {
    let n = 4;
    let (x, y) = (plain(n), plain(n));
    let p = warm();
    let i = choice(16);
    let j = i + 1 + choice(tier(8, 15));
    if j >= 16 {
        return;
    }
    let lay = if deep() && choice(2) == 1 { Lay::Next } else { Lay::One };
    // as they are, or within longer texts, with escapes
    let around = ["@", "a long text with @ and more after it", "first line\n@\nlast one \"quoted\"", "@\n", "\\@", "\t@\r"][choice(tier(3, 6))];
    let wrap = |v: &B| {
        let k = around.find('@').unwrap();
        let mut r = b(&around[..k]);
        r.extend_from_slice(v);
        push(&mut r, &around[k + 1..]);
        r
    };
    // what is written: escapes only around
    let written = |v: &B| {
        let k = around.find('@').unwrap();
        let mut r = esc(around[..k].as_bytes());
        r.extend_from_slice(v);
        r.extend_from_slice(&esc(around[k + 1..].as_bytes()));
        r
    };
    let es = entries(&wrap(&x), &wrap(&y), i, j);
    let ws = entries(&written(&x), &written(&y), i, j);
    let mut t = vec![];
    ws.iter().for_each(|e| e.write(&mut t, lay));
    reach(1);
    check(read(p, &t[..]).is_units(&[es[0].unit(), es[1].unit()]), 1);
}
/// The same with characters that may need escapes.
#[no_mangle]
pub extern "C" fn h_c02_escapes() {
    let (x, y) = (ascii(2), ascii(2));
    for c in x.iter().chain(&y) {
        assume((*c >= 0x20) | (*c == b'\n') | (*c == b'\t') | (*c == b'\r'));
    }
    let p = warm();
    let (i, j) = [(4, 6), (4, 12), (6, 14), (6, 7), (3, 4), (0, 8), (1, 4), (5, 12)][choice(tier(3, 8))];
    let es = entries(&x, &y, i, j);
    let w = entries(&esc(&x), &esc(&y), i, j);
    let mut t = vec![];
    w.iter().for_each(|e| e.write(&mut t, Lay::One));
    reach(1);
    check(read(p, &t[..]).is_units(&[es[0].unit(), es[1].unit()]), 1);
}
/// Two comments of one kind, of two entries, alike in length.
#[no_mangle]
pub extern "C" fn h_c08_pair() {
    let (x, y) = (word_chars(3), word_chars(3));
    for v in [&x, &y] {
        assume((v[0] != b',') & (v[1] != b',') & (v[2] != b','));
    }
    let p = warm();
    let kinds = ["# ", "#. ", "#: ", "#, ", "#= ", "#. x "];
    let (k, l) = (choice(kinds.len()), choice(kinds.len()));
    let (mut t, mut us) = (vec![], vec![]);
    let mut both = vec![];
    if choice(2) == 1 {
        both = x.clone();
        both.extend_from_slice(b" ");
    }
    both.extend_from_slice(&y);
    for (k, v, id) in [(k, &x, "a"), (l, &both, "b")] {
        let e = Entry::simple(b(id), b("t"));
        let mut u = e.unit();
        let mut c = b(&kinds[k][1..]);
        c.extend_from_slice(v);
        crate::c08::add_comment(&mut u, &c);
        t.push(b'#');
        t.extend_from_slice(&c);
        t.push(b'\n');
        e.write(&mut t, Lay::One);
        us.push(u);
    }
    reach(1);
    check(read(p, &t[..]).is_units(&us), 1);
}
/// Two files of one parser that are alike but for their characters: texts, header values, comments.
#[no_mangle]
pub extern "C" fn h_c13_texts() {
    let (x, y) = (word_chars(3), word_chars(3));
    for v in [&x, &y] {
        assume((v[0] != b',') & (v[0] != b':') & (v[1] != b',') & (v[1] != b':') & (v[2] != b',') & (v[2] != b':'));
    }
    let p = warm();
    let k = choice(9);
    let long = choice(2) == 1;
    let mk = |v: &B| {
        let v = &(if long {
            let mut r = b("before-and-");
            r.extend_from_slice(v);
            push(&mut r, "-also-after");
            r
        } else {
            v.clone()
        });
        let mut t = vec![];
        let mut e = Entry::simple(b("i"), b("t"));
        e.ctx = Some(b("c"));
        let mut props = vec![];
        let mut add = None;
        match k {
            0 => e.ctx = Some(v.clone()),
            1 => e.id = v.clone(),
            2 => e.vals = vec![v.clone()],
            3 => e.pid = Some(v.clone()),
            4 => {
                push(&mut t, "msgid \"\"\nmsgstr \"X: ");
                t.extend_from_slice(v);
                push(&mut t, "\\n\"\n\n");
                props.push((b("X"), v.clone()));
            }
            5 => {
                push(&mut t, "msgid \"\"\nmsgstr \"");
                t.extend_from_slice(v);
                push(&mut t, ": X\\n\"\n\n");
                props.push((v.clone(), b("X")));
            }
            _ => {
                let mut c = b([" ", ", ", ": "][k - 6]);
                c.extend_from_slice(v);
                t.push(b'#');
                t.extend_from_slice(&c);
                t.push(b'\n');
                add = Some(c);
            }
        }
        e.write(&mut t, Lay::One);
        let mut u = e.unit();
        if let Some(c) = &add {
            crate::c08::add_comment(&mut u, c);
        }
        (t, u, props)
    };
    let (a, c) = (mk(&x), mk(&y));
    reach(1);
    let open = choice(2) == 1;
    let kept = if open { p.parse(&a.0[..]).ok() } else { None };
    for (i, (t, u, props)) in [&a, &c, &a].into_iter().enumerate() {
        let o = read(p, &t[..]);
        check(o.is_units(std::slice::from_ref(u)), 1 + 2 * i as u64);
        check(eq_props(&o.props, props), 2 + 2 * i as u64);
    }
    if let Some(mut q) = kept {
        let mut o = empty();
        head(&mut o, &q);
        drain(&mut o, &mut q);
        check(o.is_units(std::slice::from_ref(&a.1)) & eq_props(&o.props, &a.2), 9);
    }
}
/// A string of any characters between its quotes, well-formed or not, and what is read next: the
/// rest of the file, or another one.
#[no_mangle]
pub extern "C" fn h_c13_body() {
    let x = bytes(tier(2, 3));
    for c in &x {
        assume((*c < 0x80) & (*c != b'\n') & (*c != b'\r'));
    }
    let y = ascii(1);
    let p = warm();
    let lead = [b'n', b't', b'\\', b'"', b'u'][choice(5)];
    let y = vec![lead, y[0]];
    let mut t = vec![];
    match choice(3) {
        0 => push(&mut t, "msgid \""),
        1 => push(&mut t, "msgid \"i\"\nmsgstr \"\"\n\""),
        _ => push(&mut t, "msgid \"\"\nmsgstr \"X: "),
    }
    t.extend_from_slice(&x);
    push(&mut t, "\"\n");
    if choice(2) == 1 {
        push(&mut t, "msgstr \"n\"\n");
    }
    let _ = read(p, &t[..]);
    let mut e = Entry::simple(y.clone(), b("nt"));
    let mut g = vec![];
    let u = e.unit();
    e.id = esc(&y);
    e.write(&mut g, Lay::One);
    reach(1);
    check(read(p, &g[..]).is_units(&[u]), 1);
}
/// Two operators in a row, on the count and two numbers, every count.
#[no_mangle]
pub extern "C" fn h_c05_compound() {
    use crate::c05::{apply, value, ALL, OPS};
    let n = word();
    assume(n <= i64::MAX as u64);
    let p = warm();
    let s = n as i64;
    let (o, q) = (choice(13), choice(13));
    let (a, c) = [(4, 2), (2, 4), (3, 3), (10, 7), (1, 0), (0, 1), (1, 1), (100, 10)][choice(tier(4, 8))];
    let k = choice(5);
    let (o1, o2) = (OPS[o], OPS[q]);
    let by = |i: usize| i == 3 || i == 4;
    if !deep() && ((k == 3 && by(o) && (2..5).contains(&q)) || (k == 4 && by(q) && (2..5).contains(&o))) {
        // divided by the count
        return;
    }
    let (f, w) = match k {
        0 => (format!("(n{o1}{a}){o2}{c}"), apply(o, s, a).and_then(|v| apply(q, v, c))),
        1 => (format!("{a}{o1}(n{o2}{c})"), apply(q, s, c).and_then(|v| apply(o, a, v))),
        2 => (format!("n{o1}({a}{o2}{c})"), apply(q, a, c).and_then(|v| apply(o, s, v))),
        3 => (format!("({a}{o1}n){o2}{c}"), if (o == 3 || o == 4) && n == 0 { None } else { apply(o, a, s).and_then(|v| apply(q, v, c)) }),
        _ => (format!("(n{o1}{a}){o2}n"), if (q == 3 || q == 4) && n == 0 { None } else { apply(o, s, a).and_then(|v| apply(q, v, s)) }),
    };
    let w = match w {
        Some(w) => w,
        None => return,
    };
    match value(p, f.as_bytes(), ALL, n) {
        None => check(false, 1),
        Some(Some(v)) => {
            reach(1);
            check(v as i64 == w, 2);
        }
        Some(None) => check(w < 0, 3),
    }
}
/// Blank lines between any two lines, any number of them.
#[no_mangle]
pub extern "C" fn h_c09_gaps() {
    let v = word_chars(2);
    let p = warm();
    let mk = |k: &str, obsolete: bool| Entry {
        pctx: Some(b("pcc")),
        pid: Some(b("pii")),
        ppl: Some(b("ppp")),
        ctx: Some(b("ccc")),
        id: b(k),
        pl: Some(b("pls")),
        vals: vec![b("aaa"), v.clone()],
        obsolete,
    };
    let es = [mk("iii", false), mk("jjj", true)];
    let mut lines: Vec<B> = ["# note", "#, fuzzy", "msgid \"\"", "msgstr \"\"", "\"X: y\"", "\"z\\n\"", "\"Z: \"", "\"w\""].map(b).to_vec();
    for e in &es {
        lines.push(b("# note"));
        lines.push(b("#, fuzzy"));
        lines.extend(e.lines(Lay::Each));
    }
    let mut us: Vec<U> = es.iter().map(|e| e.unit()).collect();
    for u in &mut us {
        crate::c08::add_comment(u, b" note");
        crate::c08::add_comment(u, b", fuzzy");
    }
    let at = choice(lines.len());
    let n = [1, 2, 3, 4, 5, 6, 9, 17, 300][choice(tier(8, 9))];
    let kind = choice(tier(5, 6));
    // before every line from there on, or before that one only
    let all = choice(2) == 1;
    let mut t = vec![];
    for (i, l) in lines.iter().enumerate() {
        if i == at || (all && i > at) {
            for _ in 0..n {
                push(&mut t, ["\n", " \t\n", "\r\n", "\u{b}\n", "\u{a0}\n", " \u{3000}\u{2003}\t\n"][kind]);
            }
        }
        t.extend_from_slice(l);
        t.push(b'\n');
    }
    let o = read(p, &t[..]);
    reach(1);
    check(o.is_units(&us), 1);
    check(eq_props(&o.props, &[(b("X"), b("yz")), (b("Z"), b("w"))]), 2);
}
/// Comments of any kind before an entry, and of any kind before what follows: the first entry does
/// not see them.
#[no_mangle]
pub extern "C" fn h_c15_pair() {
    let (x, y) = (word_chars(3), word_chars(3));
    for c in x.iter().chain(&y) {
        assume(*c != b',');
    }
    let p = warm();
    let kinds = [" ", ". ", ": ", ", ", "= ", "~ ", "| ", ""];
    let k = choice(tier(7, 8));
    let l = if deep() { choice(8) } else { [k, (k + 3) % 7][choice(2)] };
    let back = choice(tier(3, 5));
    let obsolete = choice(2) == 1;
    // outside of what is read as a string line
    assume((x[0] != b'm') & (y[0] != b'm'));
    let mut t = vec![];
    let mut put = |t: &mut B, k: usize, v: &B| {
        t.push(b'#');
        push(t, kinds[k]);
        t.extend_from_slice(v);
        t.push(b'\n');
    };
    put(&mut t, k, &x);
    let mut e = Entry::simple(b("a"), b("t"));
    e.obsolete = obsolete;
    e.write(&mut t, Lay::One);
    push(&mut t, "\n");
    let close = |t: &mut B| push(t, "msgid \"b\"\nmsgstr \"u\"\n\n");
    let alone = {
        let mut t = t.clone();
        close(&mut t);
        read(p, &t[..])
    };
    put(&mut t, l, &y);
    match back {
        0 => close(&mut t),
        1 => {
            put(&mut t, k, &y);
            close(&mut t);
        }
        2 => {
            push(&mut t, "msgid \"b\"\nmsgstr \"u\"\n\n");
            put(&mut t, l, &x);
        }
        3 => push(&mut t, "msgid \"b\"\n"),
        _ => push(&mut t, "#~ msgid \"b\"\n#~ msgstr \"u\"\nmsgid\n"),
    }
    let o = read(p, &t[..]);
    if alone.units.len() == 2 && (back < 3 || back == 4) && o.err.is_none() {
        reach(1);
        check(o.units.len() == 2 && eq_prefix(&alone.units, &o.units, 1), 1);
    } else if let Some(u) = o.units.first() {
        check(alone.units.is_empty() || alone.units[0].eq(u), 2);
    }
}
