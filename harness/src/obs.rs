//! What a user of the library can observe when reading a catalogue, in a form that can be compared
//! without branching on symbolic bytes.
use poreader::{error::Error, unit::Unit, CatalogueReader, Message, Origin, PoParser, State};
use crate::api::{note, note_bytes};
use std::io::Read;

pub type B = Vec<u8>;

pub fn b(s: &str) -> B {
    s.as_bytes().to_vec()
}

/// Equality of byte strings without a branch per byte.
#[inline(never)]
pub fn eqb(x: &[u8], y: &[u8]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut acc = 0u8;
    let mut i = 0;
    while i < x.len() {
        acc |= x[i] ^ y[i];
        i += 1;
    }
    acc == 0
}
pub fn eqo(x: &Option<B>, y: &Option<B>) -> bool {
    match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => eqb(x, y),
        _ => false,
    }
}
pub fn eql(x: &[B], y: &[B]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut r = true;
    for i in 0..x.len() {
        r &= eqb(&x[i], &y[i]);
    }
    r
}
/// The same set of strings.
pub fn eqset(x: &[B], y: &[B]) -> bool {
    let mut r = true;
    for (p, q) in [(x, y), (y, x)] {
        for a in p {
            let mut f = false;
            for c in q {
                f |= eqb(a, c);
            }
            r &= f;
        }
    }
    r
}

#[derive(Clone)]
pub enum M {
    Simple { id: B, text: B },
    Plural { id: B, pl: B, vals: Vec<B> },
}
impl M {
    pub fn none() -> M {
        M::Simple { id: vec![], text: vec![] }
    }
    pub fn eq(&self, o: &M) -> bool {
        match (self, o) {
            (M::Simple { id: a, text: c }, M::Simple { id: p, text: q }) => eqb(a, p) & eqb(c, q),
            (M::Plural { id: a, pl: c, vals: v }, M::Plural { id: p, pl: q, vals: w }) => eqb(a, p) & eqb(c, q) & eql(v, w),
            _ => false,
        }
    }
    pub fn of(m: &Message) -> M {
        match m {
            Message::Simple { id, text } => M::Simple { id: b(id), text: text.as_ref().map(|t| b(t)).unwrap_or_default() },
            Message::Plural(p) => M::Plural { id: b(p.singular()), pl: b(p.plural()), vals: p.values().iter().map(|v| b(v)).collect() },
        }
    }
}

pub const EMPTY: u8 = 0;
pub const NEEDS_WORK: u8 = 1;
pub const FINAL: u8 = 2;

#[derive(Clone)]
pub struct U {
    pub ctx: Option<B>,
    pub msg: M,
    pub pctx: Option<B>,
    pub pmsg: M,
    pub flags: Vec<B>,
    pub notes: Vec<(bool, B)>,
    pub locs: Vec<B>,
    pub comments: Vec<(u32, B)>,
    pub state: u8,
    pub obsolete: bool,
}
impl U {
    pub fn new(msg: M) -> U {
        U {
            ctx: None,
            msg,
            pctx: None,
            pmsg: M::none(),
            flags: vec![],
            notes: vec![],
            locs: vec![],
            comments: vec![],
            state: EMPTY,
            obsolete: false,
        }
    }
    pub fn of(u: &Unit) -> U {
        U {
            ctx: u.context().map(b),
            msg: M::of(u.message()),
            pctx: u.prev_context().map(b),
            pmsg: M::of(u.prev_message()),
            flags: u.flags().iter().map(|f| b(f)).collect(),
            notes: u.notes().iter().map(|n| (*n.origin() == Origin::Developer, b(n.value()))).collect(),
            locs: u.locations().iter().map(|f| b(f)).collect(),
            comments: u.comments().iter().map(|c| (c.kind() as u32, b(c.comment()))).collect(),
            state: match u.state() {
                // the two answers have to agree
                s if u.is_translated() != (s == State::Final) => 9,
                State::Empty => EMPTY,
                State::NeedsWork => NEEDS_WORK,
                State::Final => FINAL,
            },
            obsolete: u.is_obsolete(),
        }
    }
    /// contexts, texts and obsolete mark agree
    pub fn eq_fields(&self, o: &U) -> bool {
        eqo(&self.ctx, &o.ctx) & self.msg.eq(&o.msg) & eqo(&self.pctx, &o.pctx) & self.pmsg.eq(&o.pmsg)
    }
    pub fn eq_notes(&self, o: &U) -> bool {
        if self.notes.len() != o.notes.len() {
            return false;
        }
        let mut r = true;
        for (x, y) in self.notes.iter().zip(&o.notes) {
            r &= (x.0 == y.0) & eqb(&x.1, &y.1);
        }
        r
    }
    pub fn eq_comments(&self, o: &U) -> bool {
        eq_comments(&self.comments, &o.comments)
    }
    /// everything that comes from comment lines
    pub fn eq_remarks(&self, o: &U) -> bool {
        eqset(&self.flags, &o.flags) & self.eq_notes(o) & eql(&self.locs, &o.locs) & self.eq_comments(o)
    }
    pub fn eq(&self, o: &U) -> bool {
        self.eq_fields(o) & self.eq_remarks(o) & (self.state == o.state) & (self.obsolete == o.obsolete)
    }
}
pub fn eq_comments(x: &[(u32, B)], y: &[(u32, B)]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut r = true;
    for (a, c) in x.iter().zip(y) {
        r &= (a.0 == c.0) & eqb(&a.1, &c.1);
    }
    r
}
pub fn eq_units(x: &[U], y: &[U]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut r = true;
    for (a, c) in x.iter().zip(y) {
        r &= a.eq(c);
    }
    r
}
/// the first `n` of both
pub fn eq_prefix(x: &[U], y: &[U], n: usize) -> bool {
    x.len() >= n && y.len() >= n && eq_units(&x[..n], &y[..n])
}

pub const IO: u8 = 1;
pub const PARSE: u8 = 2;
pub const UNEXPECTED: u8 = 3;
pub const PLURAL: u8 = 4;

#[derive(Clone)]
pub struct E {
    pub kind: u8,
    pub line: usize,
    pub got: B,
    pub exp: B,
    pub io: Option<std::io::ErrorKind>,
    /// address of the error inside (own error objects of the harness)
    pub mark: bool,
}
/// Error value the harness' failing readers return.
#[derive(Debug)]
pub struct Mark(pub u64);
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("mark")
    }
}
impl std::error::Error for Mark {}

pub fn of_error(e: &Error) -> E {
    let n = E { kind: 0, line: 0, got: vec![], exp: vec![], io: None, mark: false };
    match e {
        Error::Io(l, e) => E {
            kind: IO,
            line: *l,
            io: Some(e.kind()),
            mark: e.get_ref().map_or(false, |e| e.is::<Mark>()),
            ..n
        },
        Error::Parse(l, g, x) => E { kind: PARSE, line: *l, got: b(g), exp: b(x), ..n },
        Error::Unexpected(l, g) => E { kind: UNEXPECTED, line: *l, got: b(g), ..n },
        Error::PluralForms(g) => E { kind: PLURAL, got: b(g), ..n },
    }
}
impl E {
    pub fn eq(&self, o: &E) -> bool {
        (self.kind == o.kind) & (self.line == o.line) & eqb(&self.got, &o.got) & eqb(&self.exp, &o.exp) & (self.io == o.io) & (self.mark == o.mark)
    }
}

#[derive(Clone)]
pub struct Obs {
    /// opening failed
    pub open: bool,
    pub lang: B,
    pub hnotes: Vec<(bool, B)>,
    pub hcomments: Vec<(u32, B)>,
    pub props: Vec<(B, B)>,
    pub units: Vec<U>,
    pub err: Option<E>,
    /// something came after the end or after an error
    pub after: bool,
    /// more units than allowed (reading was stopped)
    pub over: bool,
}

pub const MAX_UNITS: usize = 2000;

pub fn read<R: Read>(p: &PoParser, r: R) -> Obs {
    let mut o = empty();
    match p.parse(r) {
        Err(e) => {
            o.open = true;
            o.err = Some(of_error(&e));
        }
        Ok(mut r) => {
            head(&mut o, &r);
            drain(&mut o, &mut r);
        }
    }
    observe(&o);
    o
}
/// What the symbolic and the native run are compared on.
pub fn observe(o: &Obs) {
    note(o.open as u64 + 2 * o.after as u64);
    note(o.units.len() as u64);
    for u in &o.units {
        let (id, n) = match &u.msg {
            M::Simple { id, text } => (id, text.len()),
            M::Plural { id, vals, .. } => (id, vals.len()),
        };
        note_bytes(id);
        note(n as u64);
        note(u.state as u64 + 4 * u.obsolete as u64);
        note((u.flags.len() + 16 * u.notes.len() + 256 * u.locs.len() + 4096 * u.comments.len()) as u64);
    }
    if let Some(e) = &o.err {
        note(e.kind as u64);
        note(e.line as u64);
        note(e.got.len() as u64);
    }
}
pub fn empty() -> Obs {
    Obs {
        open: false,
        lang: vec![],
        hnotes: vec![],
        hcomments: vec![],
        props: vec![],
        units: vec![],
        err: None,
        after: false,
        over: false,
    }
}
/// The header data.
pub fn head<R: Read>(o: &mut Obs, r: &poreader::PoReader<R>) {
    o.lang = b(r.target_language().as_ref());
    o.hnotes = r.header_notes().iter().map(|n| (*n.origin() == Origin::Developer, b(n.value()))).collect();
    o.hcomments = r.header_comments().iter().map(|c| (c.kind() as u32, b(c.comment()))).collect();
    o.props = r.header_properties().iter().map(|(k, v)| (b(k), b(v))).collect();
}
/// The rest of the units.
pub fn drain<R: Read>(o: &mut Obs, r: &mut poreader::PoReader<R>) {
    loop {
        if o.units.len() > MAX_UNITS {
            o.over = true;
            return;
        }
        match r.next() {
            None => break,
            Some(Ok(u)) => o.units.push(U::of(&u)),
            Some(Err(e)) => {
                o.err = Some(of_error(&e));
                break;
            }
        }
    }
    for _ in 0..3 {
        o.after |= r.next().is_some();
    }
}
/// the same key/value pairs, in any order
pub fn eq_props(x: &[(B, B)], y: &[(B, B)]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut r = true;
    for (p, q) in [(x, y), (y, x)] {
        for a in p {
            let mut f = false;
            for c in q {
                f |= eqb(&a.0, &c.0) & eqb(&a.1, &c.1);
            }
            r &= f;
        }
    }
    r
}
impl Obs {
    pub fn eq_head(&self, o: &Obs) -> bool {
        let n = |x: &Vec<(bool, B)>| -> Vec<(u32, B)> { x.iter().map(|(d, t)| (*d as u32, t.clone())).collect() };
        (self.open == o.open)
            & eqb(&self.lang, &o.lang)
            & eq_comments(&n(&self.hnotes), &n(&o.hnotes))
            & eq_comments(&self.hcomments, &o.hcomments)
            & eq_props(&self.props, &o.props)
    }
    pub fn eq_err(&self, o: &Obs) -> bool {
        match (&self.err, &o.err) {
            (None, None) => true,
            (Some(x), Some(y)) => x.eq(y),
            _ => false,
        }
    }
    pub fn eq(&self, o: &Obs) -> bool {
        self.eq_head(o) & eq_units(&self.units, &o.units) & self.eq_err(o) & (self.after == o.after) & (self.over == o.over)
    }
    /// read to the end without any error, exactly these units
    pub fn is_units(&self, u: &[U]) -> bool {
        !self.open && self.err.is_none() && !self.after && !self.over && eq_units(&self.units, u)
    }
}
