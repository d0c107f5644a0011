//! C04: the header entry is interpreted and kept apart from the messages.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use poreader::PoParser;

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn trim(s: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, s.len());
    while i < j && blank(s[i]) {
        i += 1;
    }
    while j > i && blank(s[j - 1]) {
        j -= 1;
    }
    &s[i..j]
}
/// Key/value pairs of a header text; repeated keys are joined with a blank, in order.
pub fn header_pairs(text: &[u8]) -> Vec<(B, B)> {
    let mut r: Vec<(B, B)> = vec![];
    for l in text.split(|c| *c == b'\n') {
        if let Some(i) = l.iter().position(|c| *c == b':') {
            let (k, v) = (trim(&l[..i]), trim(&l[i + 1..]));
            match r.iter_mut().find(|e| eqb(&e.0, k)) {
                Some(e) => {
                    e.1.push(b' ');
                    e.1.extend_from_slice(v);
                }
                None => r.push((k.to_vec(), v.to_vec())),
            }
        }
    }
    r
}
/// Reads, and looks at the header again between the units and at the end: it stays what it was.
fn read(p: &PoParser, t: &[u8]) -> Obs {
    let mut o = empty();
    match p.parse(t) {
        Err(e) => {
            o.open = true;
            o.err = Some(of_error(&e));
        }
        Ok(mut r) => {
            head(&mut o, &r);
            if let Some(Ok(u)) = r.next() {
                o.units.push(U::of(&u));
                let mut q = empty();
                head(&mut q, &r);
                check(q.eq_head(&o), 11);
            }
            drain(&mut o, &mut r);
            let mut q = empty();
            head(&mut q, &r);
            check(q.eq_head(&o), 12);
        }
    }
    observe(&o);
    o
}
fn check_header(p: &PoParser, text: &[u8], lay: usize) {
    let mut t = b("msgid \"\"\nmsgstr ");
    match lay {
        0 => {
            t.push(b'"');
            t.extend_from_slice(&esc(text));
            push(&mut t, "\"\n");
        }
        _ => {
            push(&mut t, "\"\"\n");
            let mut start = 0;
            for i in 0..text.len() {
                if text[i] == b'\n' || i + 1 == text.len() {
                    t.push(b'"');
                    t.extend_from_slice(&esc(&text[start..i + 1]));
                    push(&mut t, "\"\n");
                    start = i + 1;
                }
            }
        }
    }
    push(&mut t, "\nmsgid \"a\"\nmsgstr \"b\"\n");
    let o = read(p, &t[..]);
    reach(1);
    check(!o.open && o.err.is_none(), 1);
    check(eq_props(&o.props, &header_pairs(text)), 2);
    check(o.is_units(&[Entry::simple(b("a"), b("b")).unit()]), 3);
}
/// Every header text over letters, colons, blanks and line breaks.
#[no_mangle]
pub extern "C" fn h_c04_text() {
    let p = warm();
    let n = tier(5, 6);
    let s = bytes(n);
    for c in &s {
        assume((*c == b'a') | (*c == b'B') | (*c == b':') | (*c == b' ') | (*c == b'\t') | (*c == b'\n') | (*c == b'-'));
    }
    let mut text = b("K: v\n");
    text.extend_from_slice(&s);
    let lay = choice(2);
    check_header(p, &text, lay);
}
/// Header values of arbitrary printable text.
#[no_mangle]
pub extern "C" fn h_c04_values() {
    let p = warm();
    let n = tier(4, 5);
    let v = ascii(n);
    for c in &v {
        assume(((*c >= 0x20) & (*c <= 0x7e)) | (*c == b'\t'));
    }
    let mut text = b(["Project-Id-Version:", "X-Any: ", "Content-Type: text/plain; charset="][choice(3)]);
    text.extend_from_slice(&v);
    push(&mut text, "\nLast: z\n");
    check_header(p, &text, 1);
}
/// Keys of arbitrary printable text.
#[no_mangle]
pub extern "C" fn h_c04_keys() {
    let p = warm();
    let n = tier(3, 4);
    let v = ascii(n);
    for c in &v {
        assume(((*c >= 0x20) & (*c <= 0x7e)) | (*c == b'\t'));
    }
    let mut text = b("First: x\n");
    text.extend_from_slice(&v);
    push(&mut text, "E: value\nLast: z\n");
    check_header(p, &text, choice(2));
}
/// Comments of the header go to the header, comments of the first entry to the entry.
#[no_mangle]
pub extern "C" fn h_c04_comments() {
    let p = warm();
    let header = choice(2) == 1;
    let mut t = vec![];
    let mut u = U::new(M::none());
    let k = choice(4);
    for i in 0..3 {
        let v = word_chars(2);
        let (mark, kind) = [("# ", 0), ("#. ", 1), ("#= ", 2), ("#$", 3)][(k + i) % 4];
        push(&mut t, mark);
        t.extend_from_slice(&v);
        push(&mut t, "\n");
        match kind {
            0 => u.notes.push((false, v)),
            1 => u.notes.push((true, v)),
            2 => u.comments.push((b'=' as u32, v)),
            _ => u.comments.push((b'$' as u32, v)),
        }
    }
    push(&mut t, if header { "msgid \"\"\nmsgstr \"K: v\\n\"\n\n" } else { "msgid \"h\"\nmsgstr \"K: v\\n\"\n\n" });
    let c = word_chars(2);
    push(&mut t, "# ");
    t.extend_from_slice(&c);
    push(&mut t, "\nmsgid \"a\"\nmsgstr \"b\"\n");
    let mut a = Entry::simple(b("a"), b("b")).unit();
    a.notes.push((false, c));
    let o = read(p, &t[..]);
    reach(1 + header as u64);
    let hn: Vec<(u32, B)> = o.hnotes.iter().map(|(d, t)| (*d as u32, t.clone())).collect();
    if header {
        let wn: Vec<(u32, B)> = u.notes.iter().map(|(d, t)| (*d as u32, t.clone())).collect();
        check(eq_comments(&hn, &wn), 1);
        check(eq_comments(&o.hcomments, &u.comments), 2);
        check(eq_props(&o.props, &[(b("K"), b("v"))]), 3);
        check(o.is_units(&[a]), 4);
    } else {
        check(hn.is_empty() && o.hcomments.is_empty() && o.props.is_empty(), 5);
        u.msg = M::Simple { id: b("h"), text: b("K: v\n") };
        u.state = FINAL;
        check(o.is_units(&[u, a]), 6);
    }
}
/// The header decision: empty source text or not, in every shape of first entry.
#[no_mangle]
pub extern "C" fn h_c04_first() {
    let p = warm();
    let n = choice(3);
    let id = plain(n);
    let fuzzy = choice(2) == 1;
    let ctx = choice(2) == 1;
    let obsolete = choice(2) == 1;
    let mut e = Entry::simple(id, b("K: v"));
    e.obsolete = obsolete;
    if ctx {
        e.ctx = Some(b("c"));
    }
    if e.id.is_empty() && ctx {
        // an entry with a context and an empty source text: not settled by the property
        return;
    }
    let mut t = vec![];
    if fuzzy {
        push(&mut t, "#, fuzzy\n");
    }
    e.write(&mut t, if choice(2) == 0 { Lay::One } else { Lay::Next });
    push(&mut t, "\nmsgid \"a\"\nmsgstr \"b\"\n");
    let a = Entry::simple(b("a"), b("b")).unit();
    let o = read(p, &t[..]);
    if e.id.is_empty() {
        reach(1);
        check(eq_props(&o.props, &[(b("K"), b("v"))]), 1);
        check(o.is_units(&[a]), 2);
    } else {
        reach(2);
        check(o.props.is_empty(), 3);
        let mut u = e.unit();
        if fuzzy {
            u.flags.push(b("fuzzy"));
            u.state = NEEDS_WORK;
        }
        check(o.is_units(&[u, a]), 4);
    }
}
/// The Language field.
#[no_mangle]
pub extern "C" fn h_c04_language() {
    let p = warm();
    for l in ["de", "pt_BR", "pt-BR", "ast", "zz_", "?", "", "q", "zh_TW", "sr@latin", "zh-Hant", "zh-Hant-TW", "es_419"] {
        let t = format!("msgid \"\"\nmsgstr \"Language: {l}\"\n");
        let _ = p.parse(t.as_bytes());
    }
    let low = |n: usize| {
        let v = bytes(n);
        for c in &v {
            assume((*c >= b'a') & (*c <= b'z'));
        }
        v
    };
    let mut want = low(2);
    let mut val = want.clone();
    match choice(7) {
        0 => {}
        1 | 2 => {
            let r = bytes(2);
            for c in &r {
                assume((*c >= b'A') & (*c <= b'Z'));
            }
            val.push(if choice(2) == 0 { b'_' } else { b'-' });
            val.extend_from_slice(&r);
            want.push(b'-');
            want.extend_from_slice(&r);
        }
        3 => {
            let c = low(1);
            val.extend_from_slice(&c);
            want.extend_from_slice(&c);
        }
        4 => {
            // script, and region
            push(&mut val, "-Hant");
            push(&mut want, "-Hant");
            if choice(2) == 1 {
                let r = bytes(2);
                for c in &r {
                    assume((*c >= b'A') & (*c <= b'Z'));
                }
                for v in [&mut val, &mut want] {
                    v.push(b'-');
                    v.extend_from_slice(&r);
                }
            }
        }
        5 => {
            let (l, w) = [
                ("es-419", "es-419"), ("es_419", "es-419"), ("sr@latin", "sr-Latn"), ("sr_RS@latin", "sr-Latn-RS"), ("de_DE.UTF-8", "de-DE"), ("ca@valencia", "ca-valencia"),
                ("EN-us", "en-US"), ("pt_BR.ISO8859-1", "pt-BR"), ("zh-Hant-TW-x-abc", "zh-Hant-TW-x-abc"), ("sl-rozaj-biske", "sl-rozaj-biske"), ("x-klingon", "x-klingon"),
            ][choice(11)];
            val = b(l);
            want = b(w);
        }
        _ => {
            // not a language: the invariant language
            val = b(["?", "d!", "", "_", "12345678901"][choice(5)]);
            want = vec![];
        }
    }
    let pad = ["", " ", "\t "][choice(3)];
    let mut t = b("msgid \"\"\nmsgstr \"\"\n\"Language:");
    push(&mut t, pad);
    t.extend_from_slice(&val);
    push(&mut t, "\\n\"\n\"X: y\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
    let o = read(p, &t[..]);
    reach(1);
    note_bytes(&o.lang);
    check(!o.open && o.err.is_none(), 1);
    check(eqb(&o.lang, &want), 2);
    check(eq_props(&o.props, &[(b("Language"), val), (b("X"), b("y"))]), 3);
}
/// Any comment line before the header, next to others.
#[no_mangle]
pub extern "C" fn h_c04_remark() {
    let p = warm();
    let header = choice(2) == 1;
    let n = choice(tier(4, 5));
    let mut c: B = (0..n).map(|_| crate::c08::line_byte()).collect();
    assume(!crate::c08::marked_string(&c));
    if n == 0 {
        push(&mut c, ["", ", fuzzy", ", c-format,fuzzy", ": a.c:1", "~ x", "| y"][choice(6)]);
    }
    let at = choice(3);
    let mut t = vec![];
    let mut u = U::new(M::none());
    for i in 0..3 {
        let l = if i == at { &c[..] } else { [&b" note"[..], &b"= other"[..], &b". dev"[..]][i] };
        t.push(b'#');
        t.extend_from_slice(l);
        t.push(b'\n');
        crate::c08::add_comment(&mut u, l);
    }
    push(&mut t, if header { "msgid \"\"\nmsgstr \"K: v\\n\"\n\n" } else { "msgid \"h\"\nmsgstr \"K: v\\n\"\n\n" });
    push(&mut t, "# of a\nmsgid \"a\"\nmsgstr \"b\"\n");
    let mut a = Entry::simple(b("a"), b("b")).unit();
    a.notes.push((false, b("of a")));
    let o = read(p, &t[..]);
    reach(1 + header as u64);
    let hn: Vec<(u32, B)> = o.hnotes.iter().map(|(d, t)| (*d as u32, t.clone())).collect();
    if header {
        let wn: Vec<(u32, B)> = u.notes.iter().map(|(d, t)| (*d as u32, t.clone())).collect();
        check(eq_comments(&hn, &wn), 1);
        check(eq_comments(&o.hcomments, &u.comments), 2);
        check(eq_props(&o.props, &[(b("K"), b("v"))]), 3);
        check(o.is_units(&[a]), 4);
    } else {
        check(hn.is_empty() && o.hcomments.is_empty() && o.props.is_empty() && o.err.is_none(), 5);
        check(o.units.len() == 2 && o.units[0].eq_notes(&u) && o.units[0].eq_comments(&u) && o.units[1].eq(&a), 6);
    }
}
