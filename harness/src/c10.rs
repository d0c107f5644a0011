//! C10: an I/O error at any point surfaces once, after the units already complete.
use crate::api::*;
use crate::c03::shape;
use crate::gen::*;
use crate::obs::*;
use crate::warm;
use std::io::{Error, ErrorKind, Read};

/// Delivers `data[..fail]`, then fails, then goes on as `after` says.
pub struct Failing<'a> {
    data: &'a [u8],
    at: usize,
    fail: usize,
    max: usize,
    kind: usize,
    after: usize,
    failed: bool,
}
impl<'a> Failing<'a> {
    pub fn new(data: &'a [u8], fail: usize, max: usize, kind: usize, after: usize) -> Self {
        Failing { data, at: 0, fail, max, kind, after, failed: false }
    }
}
pub const KINDS: [ErrorKind; 19] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::NotFound, ErrorKind::TimedOut,
    ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::AlreadyExists, ErrorKind::AddrInUse, ErrorKind::Unsupported,
    ErrorKind::OutOfMemory, ErrorKind::IsADirectory,
];
impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut end = self.data.len();
        if self.at == self.fail && (!self.failed || self.after == 1) {
            self.failed = true;
            return Err(Error::new(KINDS[self.kind], Mark(7)));
        }
        if self.failed && self.after == 0 {
            return Ok(0);
        }
        if self.at <= self.fail && !self.failed {
            end = self.fail;
        }
        let end = end.min(self.at + self.max).min(self.at + buf.len());
        let n = end - self.at;
        buf[..n].copy_from_slice(&self.data[self.at..end]);
        self.at = end;
        Ok(n)
    }
}
/// Text, end of every entry's last line, end of the first non-blank line after every entry.
fn catalogue(which: usize) -> (B, Vec<(usize, usize)>, bool) {
    let mut t = vec![];
    let header = which != 1;
    match which {
        0 => push(&mut t, HEADER3),
        1 => {}
        _ => push(&mut t, "# h\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"X: y\\n\"\n\n"),
    }
    let es = match which {
        0 => [shape(2, b'a'), shape(0, b'b'), shape(3, b'c')],
        1 => [shape(0, b'a'), shape(1, b'b'), shape(2, b'c')],
        _ => [shape(3, b'a'), shape(2, b'b'), shape(0, b'c')],
    };
    let mut ends = vec![];
    let mut firsts = vec![];
    for (i, e) in es.iter().enumerate() {
        if i == 1 {
            firsts.push(t.len() + 4);
            push(&mut t, "# c\n");
        } else {
            firsts.push(t.len() + e.lines(Lay::One)[0].len() + 1);
        }
        e.write(&mut t, if i == 2 { Lay::Next } else { Lay::One });
        ends.push(t.len());
        push(&mut t, "\n");
    }
    let len = t.len();
    let r = (0..3).map(|i| (ends[i], if i < 2 { firsts[i + 1] } else { len + 1 })).collect();
    (t, r, header)
}
/// Failure after every number of bytes.
#[no_mangle]
pub extern "C" fn h_c10_fail() {
    let p = warm();
    let (t, ends, _) = catalogue(choice(3));
    let whole = read(p, &t[..]);
    check(whole.units.len() == 3 && whole.err.is_none(), 1);
    let fail = pick(t.len() + 1);
    let after = choice(3);
    let kind = choice(KINDS.len());
    let max = [1000, 5, 1, 4096][if deep() { choice(4) } else { (fail + kind) % 4 }];
    let o = read(p, Failing { data: &t, at: 0, fail, max, kind, after, failed: false });
    reach(1);
    if o.open {
        reach(2);
    }
    match &o.err {
        None => check(false, 2),
        Some(e) => {
            check((e.kind == IO) & e.mark & (e.io == Some(KINDS[kind])), 3);
        }
    }
    check(!o.after, 4);
    check(o.units.len() <= 3 && eq_prefix(&whole.units, &o.units, o.units.len()), 5);
    // never a unit whose lines have not all arrived, and every one that is closed by a further line
    for (i, (end, next)) in ends.iter().enumerate() {
        if o.units.len() > i {
            check(fail + 1 >= *end, 10);
        }
        if fail >= *next {
            check(o.units.len() > i, 11);
        }
    }
}
/// The line number of the failure: the line being read.
#[no_mangle]
pub extern "C" fn h_c10_line() {
    let p = warm();
    let (t, _, _) = catalogue(1);
    let fail = pick(t.len() + 1);
    let o = read(p, Failing { data: &t, at: 0, fail, max: 1000, kind: 0, after: choice(2), failed: false });
    reach(1);
    let line = 1 + t[..fail].iter().filter(|c| **c == b'\n').count();
    match &o.err {
        None => check(false, 1),
        Some(e) => check(e.line == line, 2),
    }
}
/// Every kind of failure but interruption, in each of the ways an I/O error is made: it is given as
/// it is.
#[no_mangle]
pub extern "C" fn h_c10_kinds() {
    const ALL: [ErrorKind; 38] = [
        ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable,
        ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
        ErrorKind::NetworkDown, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotADirectory,
        ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle,
        ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::NotSeekable,
        ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock,
        ErrorKind::CrossesDevices, ErrorKind::TooManyLinks, ErrorKind::InvalidFilename, ErrorKind::ArgumentListTooLong, ErrorKind::Unsupported,
        ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other,
    ];
    let code = word();
    // none that is an interruption
    assume((code >= 1) & (code < 200) & (code != 4));
    let p = warm();
    let how = choice(3);
    let kind = if how < 2 { ALL[choice(ALL.len())] } else { ErrorKind::Other };
    let make = || match how {
        0 => Error::from(kind),
        1 => Error::new(kind, "some text"),
        _ => Error::from_raw_os_error(code as i32),
    };
    let (t, n) = [
        ("", 0),
        ("msg", 0),
        ("msgid \"a\"\nmsgstr \"b\"\n", 0),
        ("msgid \"a\"\nmsgstr \"b\"\n\n# c", 0),
        ("msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgid", 1),
        ("msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", 1),
        ("msgid \"\"\nmsgstr \"A: b\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\n# c\n", 1),
    ][choice(7)];
    struct R<'a, F>(&'a [u8], F);
    impl<'a, F: Fn() -> Error> Read for R<'a, F> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.0.is_empty() {
                return Err((self.1)());
            }
            let n = self.0.len().min(buf.len());
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let mut units = 0;
    let e = match p.parse(R(t.as_bytes(), make)) {
        Err(e) => {
            reach(1);
            e
        }
        Ok(mut r) => loop {
            match r.next() {
                Some(Ok(_)) if units < 3 => units += 1,
                Some(Err(e)) => {
                    reach(2);
                    check(r.next().is_none() && r.next().is_none(), 1);
                    break e;
                }
                _ => return check(false, 2),
            }
        },
    };
    check(units >= n, 3);
    match e {
        poreader::error::Error::Io(line, e) => {
            check(line == 1 + t.matches('\n').count(), 4);
            match how {
                0 => check(e.kind() == kind && e.get_ref().is_none(), 5),
                1 => check(e.kind() == kind && e.to_string() == "some text", 6),
                _ => check(e.raw_os_error() == Some(code as i32), 7),
            }
        }
        _ => check(false, 8),
    }
}
