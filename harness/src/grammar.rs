//! The order in which the lines of a catalogue may come, as a machine that reads line by line.
use crate::obs::*;

#[derive(Clone)]
pub enum L {
    Blank,
    /// the text after `#`
    Comment(B),
    /// prefix (`~`, `|`, `~|` or none), keyword, text
    Str(&'static str, &'static str, B),
    Cont(&'static str, B),
    /// not a line of the format
    Bad(B),
}
impl L {
    pub fn write(&self, t: &mut B) {
        let s = |t: &mut B, p: &str, k: &str, v: &[u8]| {
            if !p.is_empty() {
                t.push(b'#');
                t.extend_from_slice(p.as_bytes());
                t.push(b' ');
            }
            t.extend_from_slice(k.as_bytes());
            if !k.is_empty() {
                t.push(b' ');
            }
            t.push(b'"');
            t.extend_from_slice(v);
            t.push(b'"');
        };
        match self {
            L::Blank => {}
            L::Comment(c) => {
                t.push(b'#');
                t.extend_from_slice(c);
            }
            L::Str(p, k, v) => s(t, p, k, v),
            L::Cont(p, v) => s(t, p, "", v),
            L::Bad(v) => t.extend_from_slice(v),
        }
        t.push(b'\n');
    }
}
pub struct Verdict {
    pub units: Vec<U>,
    pub header: bool,
    /// line of the first defect (from 1), and whether the line as such is none of the format
    pub defect: Option<(usize, bool)>,
    /// the last entry ended before it was complete (nothing of it is returned)
    pub cut: bool,
}
struct Reader<'a> {
    ls: &'a [L],
    i: usize,
}
impl<'a> Reader<'a> {
    fn peek(&mut self) -> Option<&'a L> {
        while self.i < self.ls.len() {
            match &self.ls[self.i] {
                L::Blank => self.i += 1,
                l => return Some(l),
            }
        }
        None
    }
    /// a string with this keyword, with its continuation lines
    fn string(&mut self, obsolete: bool, previous: bool, key: &str) -> Option<B> {
        let p = match (obsolete, previous) {
            (false, false) => "",
            (true, false) => "~",
            (false, true) => "|",
            (true, true) => "~|",
        };
        match self.peek() {
            Some(L::Str(q, k, v)) if *q == p && *k == key => {
                self.i += 1;
                let mut v = v.clone();
                loop {
                    match self.peek() {
                        Some(L::Cont(q, w)) if *q == p => {
                            v.extend_from_slice(w);
                            self.i += 1;
                        }
                        _ => return Some(v),
                    }
                }
            }
            _ => None,
        }
    }
}
/// `forms`: how many translations a plural message may have.
pub fn judge(ls: &[L], forms: usize) -> Verdict {
    let mut r = Reader { ls, i: 0 };
    let mut v = Verdict { units: vec![], header: false, defect: None, cut: false };
    let mut first = true;
    loop {
        let mut u = U::new(M::none());
        while let Some(L::Comment(c)) = r.peek() {
            crate::c08::add_comment(&mut u, c);
            r.i += 1;
        }
        let o = match r.peek() {
            None => return v,
            Some(L::Str(p, ..)) => p.starts_with('~'),
            _ => false,
        };
        let start = r.i + 1;
        // what is expected next is not there
        macro_rules! missing {
            () => {{
                match r.peek() {
                    None => v.cut = true,
                    Some(L::Bad(_)) => v.defect = Some((r.i + 1, true)),
                    Some(_) => v.defect = Some((r.i + 1, false)),
                }
                return v;
            }};
        }
        u.obsolete = o;
        u.pctx = r.string(o, true, "msgctxt");
        let pid = r.string(o, true, "msgid");
        if let Some(i) = pid {
            u.pmsg = match r.string(o, true, "msgid_plural") {
                None => M::Simple { id: i, text: vec![] },
                Some(p) => M::Plural { id: i, pl: p, vals: vec![] },
            };
        }
        u.ctx = r.string(o, false, "msgctxt");
        let id = match r.string(o, false, "msgid") {
            None => missing!(),
            Some(i) => i,
        };
        let mut some = false;
        let mut plural = false;
        if let Some(pl) = r.string(o, false, "msgid_plural") {
            plural = true;
            let mut vals = vec![];
            for i in 0..forms {
                match r.string(o, false, ["msgstr[0]", "msgstr[1]", "msgstr[2]"][i]) {
                    Some(t) => {
                        some |= !t.is_empty();
                        vals.push(t);
                    }
                    None if i == 0 => missing!(),
                    None => break,
                }
            }
            u.msg = M::Plural { id: id.clone(), pl, vals };
        } else {
            match r.string(o, false, "msgstr") {
                None => missing!(),
                Some(t) => {
                    some = !t.is_empty();
                    u.msg = M::Simple { id: id.clone(), text: t };
                }
            }
        }
        // a line that is none of the format is met when looking for continuation lines
        if let Some(L::Bad(_)) = r.peek() {
            v.defect = Some((r.i + 1, true));
            return v;
        }
        if id.is_empty() && !plural {
            if !first {
                v.defect = Some((start, false));
                return v;
            }
            v.header = true;
        } else {
            if some && u.state == EMPTY {
                u.state = FINAL;
            }
            v.units.push(u);
        }
        first = false;
    }
}
