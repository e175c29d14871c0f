//! C23: errors say what happened.

use std::error::Error as StdError;
use std::io;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use claxon::{Error, FlacReader};

pub const PROP: Prop = Prop {
    id: "C23",
    case,
    rule: "A case is a pair of errors, made from generated reasons, from I/O errors of every kind (with a message, an operating system code, or a payload of its own), from invalid UTF-8, or by reading a damaged or failing stream; how they display, what they name as their cause and whether they are equal is compared with a model; \
           non-trivial: always; distinct by the errors.",
};

#[derive(Debug)]
struct Payload(u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "payload {:x}", self.0) }
}
impl StdError for Payload {}

#[derive(Clone, Debug, Hash)]
enum Model { Format(&'static str), Unsupported(&'static str), Io { text: String, kind: io::ErrorKind, payload: Option<u64>, os: Option<i32>, inner: Option<bool> } }

/// Reasons; a few, so that equal ones at different addresses occur.
fn reason(s: &mut Src) -> &'static str {
    const R: [&str; 7] = ["", "a", "frame CRC mismatch", "invalid residual", "unencoded binary is not yet implemented", "ein Fehler: äöü", "invalid residual "];
    if s.chance(1, 3) {
        // The same text at another address.
        static COPY: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        let v = COPY.get_or_init(|| R.iter().map(|r| &*Box::leak(r.to_string().into_boxed_str())).collect());
        return *s.pick(v);
    }
    *s.pick(&R)
}

fn io_error(s: &mut Src) -> (io::Error, Model) {
    let kind = *s.pick(&FAULT_KINDS);
    match s.draw(3) {
        0 => {
            let id = s.draw(1 << 40);
            let e = io::Error::new(kind, Payload(id));
            let m = Model::Io { text: format!("payload {:x}", id), kind, payload: Some(id), os: None, inner: Some(true) };
            (e, m)
        }
        1 => {
            // Not 4: whether an interrupted read is repeated is left open.
            let code = s.range(1, 129) as i32;
            let code = if code >= 4 { code + 1 } else { code };
            let e = io::Error::from_raw_os_error(code);
            let m = Model::Io { text: e.to_string(), kind: e.kind(), payload: None, os: Some(code), inner: Some(false) };
            (e, m)
        }
        2 => {
            let e = io::Error::from(kind);
            let m = Model::Io { text: e.to_string(), kind, payload: None, os: None, inner: Some(false) };
            (e, m)
        }
        _ => {
            let t = crate::meta::text(s, 20);
            (io::Error::new(kind, t.clone()), Model::Io { text: t, kind, payload: None, os: None, inner: Some(true) })
        }
    }
}

fn make(s: &mut Src, c: &mut Ctx) -> Result<(Error, Model), Fail> {
    Ok(match s.draw(6) {
        0 => { let r = reason(s); (Error::FormatError(r), Model::Format(r)) }
        1 => { let r = reason(s); (Error::Unsupported(r), Model::Unsupported(r)) }
        2 => { let (e, m) = io_error(s); (Error::IoError(e), m) }
        3 => { c.label("from-io"); let (e, m) = io_error(s); (e.into(), m) }
        4 => {
            c.label("from-utf8");
            let mut b = s.bytes(6);
            b.push(*s.pick(&[0xffu8, 0xc0, 0xf8]));
            let e: Error = match String::from_utf8(b) { Err(e) => e.into(), Ok(_) => return fail("harness", "valid UTF-8".into()) };
            match e { Error::FormatError(r) => (e, Model::Format(r)), o => return fail("utf8", format!("invalid UTF-8 became {:?}", o)) }
        }
        5 => {
            c.label("damaged-stream");
            let mut d = gen_stream(s, &StreamOpts { min_frames: 1, max_frames: 1, max_bs: 20, big_per_mille: 0, many_per_mille: 0, ..StreamOpts::default() }).bytes;
            let at = s.urange(0, d.len() - 1);
            if s.bool() { d[at] ^= 1 + s.draw(254) as u8; } else { d.truncate(at); }
            c.runs += 1;
            let e = match FlacReader::new(&d[..]) { Err(e) => e, Ok(mut r) => match r.blocks().read_next_or_eof(Vec::new()) { Err(e) => e, _ => Error::FormatError("none") } };
            let m = match e {
                Error::FormatError(r) => Model::Format(r),
                Error::Unsupported(r) => Model::Unsupported(r),
                Error::IoError(ref e) => Model::Io { text: e.to_string(), kind: e.kind(), payload: None, os: None, inner: None },
            };
            (e, m)
        }
        _ => {
            c.label("failing-stream");
            // Fails at its very first read.
            struct Bad(Option<io::Error>);
            impl io::Read for Bad { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { match self.0.take() { Some(e) => Err(e), None => Ok(0) } } }
            let (e, m) = io_error(s);
            c.runs += 1;
            match FlacReader::new(Bad(Some(e))) { Err(e) => (e, m), Ok(_) => return fail("accepted", "a stream was opened without a byte".into()) }
        }
    })
}

fn check(e: &Error, m: &Model) -> Result<(), Fail> {
    let text = format!("{}", e);
    let cause = e.source().map(|x| x.to_string());
    #[allow(deprecated)]
    let old = e.cause().map(|x| x.to_string());
    ensure!(cause == old || cause.is_none(), "cause", "{:?}: source {:?} but cause {:?}", m, cause, old);
    match (m, e) {
        (Model::Format(r), Error::FormatError(x)) | (Model::Unsupported(r), Error::Unsupported(x)) => {
            ensure!(x == r, "reason", "{:?} carries {:?}", m, x);
            ensure!(text.contains(r), "display", "{:?} displays as {:?}", m, text);
            ensure!(old.is_none(), "cause", "{:?} names {:?} as its cause", m, old);
        }
        (Model::Io { text: want, kind, payload, os, inner }, Error::IoError(x)) => {
            ensure!(x.to_string() == *want && x.kind() == *kind, "io", "{:?} carries {:?}", m, x);
            ensure!(text == *want, "display", "{:?} displays as {:?}", m, text);
            ensure!(old.as_ref() == Some(want), "cause", "{:?} names {:?} as its cause", m, old);
            ensure!(x.raw_os_error() == *os, "io", "{:?} has the code {:?}", m, x.raw_os_error());
            // Nothing is wrapped around the error, and nothing is taken off.
            if let Some(b) = inner { ensure!(x.get_ref().is_some() == *b, "io", "{:?} carries an error of its own: {:?}", m, x.get_ref()); }
            if let Some(id) = payload {
                let p = x.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0);
                ensure!(p == Some(*id), "io", "{:?} carries the payload {:?}", m, p);
            }
        }
        _ => return fail("variant", format!("{:?} became {:?}", m, e)),
    }
    let _ = format!("{:?}", e);
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let (a, ma) = make(s, c)?;
    let (b, mb) = make(s, c)?;
    c.print(&ma);
    c.print(&mb);
    c.nontrivial = true;
    c.runs += 1;
    c.describe(|| format!("{:?} and {:?}", ma, mb));
    check(&a, &ma)?;
    check(&b, &mb)?;
    let want = match (&ma, &mb) {
        (Model::Format(x), Model::Format(y)) => Some(x == y),
        (Model::Unsupported(x), Model::Unsupported(y)) => Some(x == y),
        // Whether two I/O errors are equal is left open.
        (Model::Io { .. }, Model::Io { .. }) => None,
        _ => Some(false),
    };
    if let Some(want) = want {
        ensure!((a == b) == want && (b == a) == want && (a != b) != want, "equal", "{:?} == {:?} is {}", ma, mb, a == b);
    }
    // The two kinds can be told apart by what is shown.
    if let (Model::Format(x), Model::Unsupported(y)) = (&ma, &mb) {
        if x == y { ensure!(a.to_string() != b.to_string(), "display", "a format error and an unsupported feature both display as {:?}", a.to_string()); }
    }
    Ok(())
}
