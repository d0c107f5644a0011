//! C08: comments attach to their entry, by kind; flags decide the state.
use crate::api::*;
use crate::gen::*;
use crate::obs::*;
use crate::warm;

fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn trim_start(s: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < s.len() && ws(s[i]) {
        i += 1;
    }
    &s[i..]
}
fn trim(s: &[u8]) -> &[u8] {
    let s = trim_start(s);
    let mut j = s.len();
    while j > 0 && ws(s[j - 1]) {
        j -= 1;
    }
    &s[..j]
}
/// What a comment line (the text after `#`) adds to its unit.
pub fn add_comment(u: &mut U, c: &[u8]) {
    let (kind, text) = if c.is_empty() { (b' ', &c[..]) } else { (c[0], trim_start(&c[1..])) };
    match kind {
        b',' => {
            for f in text.split(|c| *c == b',') {
                let f = trim(f);
                if f == b"fuzzy" {
                    u.state = NEEDS_WORK;
                }
                u.flags.push(f.to_vec());
            }
        }
        b':' => {
            for f in text.split(|c| ws(*c)) {
                if !f.is_empty() {
                    u.locs.push(f.to_vec());
                }
            }
        }
        b'.' => u.notes.push((true, text.to_vec())),
        b' ' => u.notes.push((false, text.to_vec())),
        k => u.comments.push((k as u32, text.to_vec())),
    }
}
/// Is the text after `#` that of an obsolete or previous string line?
pub fn marked_string(c: &[u8]) -> bool {
    let i = if c.len() > 1 && c[0] == b'~' && c[1] == b'|' {
        2
    } else if !c.is_empty() && (c[0] == b'~' || c[0] == b'|') {
        1
    } else {
        return false;
    };
    let s = trim(&c[i..]);
    s.len() >= 2 && s[0] == b'"' && s[s.len() - 1] == b'"'
}
pub fn no_empty(u: &U) -> U {
    let mut u = u.clone();
    u.flags.retain(|f| !f.is_empty());
    u
}
pub fn check_units(o: &Obs, want: &[U]) {
    check(!o.open && o.err.is_none() && !o.after, 1);
    check(o.units.len() == want.len(), 2);
    if o.units.len() == want.len() {
        for (g, w) in o.units.iter().zip(want) {
            let (g, w) = (no_empty(g), no_empty(w));
            check(eqset(&g.flags, &w.flags), 3);
            check(g.eq_notes(&w), 4);
            check(eql(&g.locs, &w.locs), 5);
            check(g.eq_comments(&w), 6);
            check(g.state == w.state, 7);
            check(g.eq_fields(&w) & (g.obsolete == w.obsolete), 8);
        }
    }
}
pub fn line_byte() -> u8 {
    let c = byte();
    assume(((c >= 0x20) & (c <= 0x7e)) | (c == b'\t'));
    c
}
fn file(comments: &[B], e: &Entry) -> (B, Vec<U>) {
    let a = Entry::simple(b("a"), b("x"));
    let z = Entry::simple(b("z"), b("y"));
    let mut t = vec![];
    a.write(&mut t, Lay::One);
    t.push(b'\n');
    let mut u = e.unit();
    for c in comments {
        t.push(b'#');
        t.extend_from_slice(c);
        t.push(b'\n');
        add_comment(&mut u, c);
    }
    e.write(&mut t, Lay::One);
    t.push(b'\n');
    z.write(&mut t, Lay::One);
    (t, vec![a.unit(), u, z.unit()])
}
/// Every short comment line.
#[no_mangle]
pub extern "C" fn h_c08_line() {
    let p = warm();
    let n = choice(tier(5, 6));
    let c: B = (0..n).map(|_| line_byte()).collect();
    assume(!marked_string(&c));
    let (t, w) = file(&[c], &Entry::simple(b("m"), b("s")));
    reach(1);
    check_units(&read(p, &t[..]), &w);
}
/// Comment lines whose text looks like parts of an entry.
#[no_mangle]
pub extern "C" fn h_c08_disguise() {
    let p = warm();
    let mut c: B = vec![];
    let k = choice(3);
    for _ in 0..k {
        c.push(line_byte());
    }
    push(&mut c, ["msgid \"q\"", "msgstr \"q\"", "\"q\"", "msgctxt \"q\"", "msgstr[0] \"q\"", "# msgid \"q\"", "fuzzy", "~ msgid \"q\"", "msgid"][choice(9)]);
    c.push(line_byte());
    // a marked line with a keyword is a message line
    let m = !c.is_empty() && (c[0] == b'~' || c[0] == b'|');
    assume(!m);
    let (t, w) = file(&[c], &Entry::simple(b("m"), b("s")));
    reach(1);
    check_units(&read(p, &t[..]), &w);
}
/// Flag lines with arbitrary text around the word that decides the state.
#[no_mangle]
pub extern "C" fn h_c08_flags() {
    let p = warm();
    let mut c = b(",");
    let (k, l) = (choice(3), choice(tier(2, 3)));
    for _ in 0..k {
        c.push(line_byte());
    }
    push(&mut c, ["fuzzy", "c-format", "fuzz", "Fuzzy"][choice(4)]);
    for _ in 0..l {
        c.push(line_byte());
    }
    let e = Entry::simple(b("m"), if choice(2) == 1 { b("s") } else { vec![] });
    let other = [None, Some(", c-format"), Some(", fuzzy")][choice(3)];
    let mut cs = vec![c];
    if let Some(o) = other {
        cs.insert(choice(2), b(o));
    }
    let (t, w) = file(&cs, &e);
    reach(1);
    check_units(&read(p, &t[..]), &w);
}
/// Locations over arbitrary text.
#[no_mangle]
pub extern "C" fn h_c08_locations() {
    let p = warm();
    let mut c = b(": src");
    for _ in 0..tier(4, 5) {
        c.push(line_byte());
    }
    let (t, w) = file(&[c, b(":a.c:1  b.c:22")], &Entry::simple(b("m"), b("s")));
    reach(1);
    check_units(&read(p, &t[..]), &w);
}
/// Three comment lines of any kinds before every entry of the file; blank lines do not matter.
#[no_mangle]
pub extern "C" fn h_c08_mix() {
    let p = warm();
    let kinds = [" ", ".", ":", ",", "=", "", "~", "|", "~|"];
    let n = tier(7, 9);
    let mut cs: Vec<B> = vec![];
    for _ in 0..3 {
        let mut c = b(kinds[choice(n)]);
        if !c.is_empty() {
            c.push(b' ');
            c.extend_from_slice(&word_chars(2));
        }
        assume(c.len() < 2 || c[0] != b',' || c[2] != b',' && c[3] != b',');
        cs.push(c);
    }
    let at = choice(3);
    let blank = choice(2) == 1;
    let mut t = vec![];
    let mut want = vec![];
    for i in 0..3 {
        let e = Entry::simple(vec![b'a' + i as u8], b("x"));
        let mut u = e.unit();
        if i == at {
            for c in &cs {
                t.push(b'#');
                t.extend_from_slice(c);
                t.push(b'\n');
                if blank {
                    push(&mut t, " \n");
                }
                add_comment(&mut u, c);
            }
        }
        e.write(&mut t, Lay::One);
        want.push(u);
    }
    reach(1);
    check_units(&read(p, &t[..]), &want);
}
/// Comments after the last entry belong to nothing and are no error.
#[no_mangle]
pub extern "C" fn h_c08_end() {
    let p = warm();
    let n = choice(4);
    let c: B = (0..n).map(|_| line_byte()).collect();
    assume(!marked_string(&c));
    let e = Entry::simple(b("m"), b("s"));
    let mut t = vec![];
    let some = choice(2) == 1;
    if some {
        e.write(&mut t, Lay::One);
    }
    t.push(b'#');
    t.extend_from_slice(&c);
    push(&mut t, ["", "\n", "\n\n"][choice(3)]);
    reach(1);
    let w = if some { vec![e.unit()] } else { vec![] };
    check_units(&read(p, &t[..]), &w);
}
/// The state, over flags and translations.
#[no_mangle]
pub extern "C" fn h_c08_state() {
    let p = warm();
    let mut e = Entry::simple(b("m"), vec![]);
    e.obsolete = choice(2) == 1;
    let forms = choice(4);
    let mut text = || {
        let n = choice(2);
        plain(n)
    };
    if forms == 0 {
        e.vals = vec![text()];
    } else {
        e.pl = Some(b("p"));
        e.vals = (0..forms).map(|_| text()).collect();
    }
    if choice(2) == 1 {
        e.pid = Some(b("old"));
    }
    let flags = [None, Some(", fuzzy"), Some(",fuzzy"), Some(", c-format, fuzzy"), Some(", fuzzy, c-format"), Some(", c-format"), Some(", no-fuzzy"), Some(" fuzzy")][choice(8)];
    let mut t = b(HEADER3);
    let mut u = e.unit();
    if let Some(f) = flags {
        t.push(b'#');
        push(&mut t, f);
        t.push(b'\n');
        add_comment(&mut u, f.as_bytes());
    }
    e.write(&mut t, Lay::One);
    reach(1);
    check_units(&read(p, &t[..]), &[u]);
}

/// Flags that are in use, next to the one that decides the state.
const WORDS: [&str; 47] = [
    "c-format", "objc-format", "c++-format", "python-format", "python-brace-format", "java-format", "java-printf-format", "csharp-format",
    "javascript-format", "scheme-format", "lisp-format", "elisp-format", "librep-format", "rust-format", "go-format", "ruby-format", "sh-format",
    "sh-printf-format", "awk-format", "lua-format", "object-pascal-format", "modula2-format", "d-format", "ocaml-format", "smalltalk-format", "qt-format", "qt-plural-format",
    "kde-format", "boost-format", "tcl-format", "perl-format", "perl-brace-format", "php-format", "gcc-internal-format", "gfc-internal-format",
    "ycp-format", "possible-c-format", "wrap", "range: 0..5", "markdown-text", "ignore-inline-tags", "max-length:10", "read-only", "translated", "obsolete", "final", "untranslated",
];
/// A known flag, plain or denied, before or behind the fuzzy flag, in one line or two.
#[no_mangle]
pub extern "C" fn h_c08_words() {
    let p = warm();
    let mut w = b(if choice(2) == 1 { "no-" } else { "" });
    push(&mut w, WORDS[choice(47)]);
    let fuzzy = choice(4);
    let v = choice(3);
    let text = plain(v.min(1));
    let mut e = Entry::simple(b("m"), text.clone());
    if v == 2 {
        e.pl = Some(b("p"));
        e.vals = vec![text, vec![]];
    }
    let line = |parts: &[&[u8]]| {
        let mut c = b(",");
        for (i, q) in parts.iter().enumerate() {
            c.extend_from_slice(if i == 0 { b" " } else { b", " });
            c.extend_from_slice(q);
        }
        c
    };
    let cs = match fuzzy {
        0 => vec![line(&[&w])],
        1 => vec![line(&[b"fuzzy", &w])],
        2 => vec![line(&[&w, b"fuzzy"])],
        _ => vec![line(&[b"fuzzy"]), line(&[&w])],
    };
    let (t, want) = file(&cs, &e);
    reach(1);
    check_units(&read(p, &t[..]), &want);
}
