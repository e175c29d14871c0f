//! Scripted sources and uniform observation of results.

use std::cell::Cell;
use std::io;
use std::rc::Rc;

use claxon::frame::FrameReader;
use claxon::input::ReadBytes;
use claxon::{Block, Error};

use crate::src::Src;

/// Message of the panic that reports a source being read on and on after its
/// end.
pub const SPIN: &str = "VERIF: the source was read again and again after its end";

#[derive(Default)]
pub struct Log {
    pub reads: Cell<u64>,
    pub eof_reads: Cell<u64>,
    pub pos: Cell<usize>,
    pub faults: Cell<u64>,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: io::ErrorKind,
    pub id: u32,
    /// How many times in a row it occurs.
    pub times: u32,
}

pub fn fault_msg(id: u32) -> String {
    format!("injected fault {}", id)
}

pub struct ScriptReader {
    data: Rc<Vec<u8>>,
    pos: usize,
    chunks: Vec<usize>,
    ci: usize,
    faults: Vec<Fault>,
    pub log: Rc<Log>,
    eof_budget: u64,
}

impl ScriptReader {
    /// `chunks`: sizes returned, cyclically; 0 means everything that fits.
    pub fn new(data: Rc<Vec<u8>>, chunks: Vec<usize>) -> ScriptReader {
        ScriptReader { data, pos: 0, chunks, ci: 0, faults: Vec::new(), log: Rc::new(Log::default()), eof_budget: 1000 }
    }
    pub fn all(data: &[u8]) -> ScriptReader {
        ScriptReader::new(Rc::new(data.to_vec()), vec![0])
    }
    pub fn with_faults(mut self, mut f: Vec<Fault>) -> ScriptReader {
        f.sort_by_key(|f| f.at);
        self.faults = f;
        self
    }
    pub fn log(&self) -> Rc<Log> {
        self.log.clone()
    }
}

impl io::Read for ScriptReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.reads.set(self.log.reads.get() + 1);
        if buf.is_empty() {
            return Ok(0);
        }
        for f in self.faults.iter_mut() {
            if f.at == self.pos && f.times > 0 {
                f.times -= 1;
                self.log.faults.set(self.log.faults.get() + 1);
                return Err(io::Error::new(f.kind, fault_msg(f.id)));
            }
        }
        let mut n = (self.data.len() - self.pos).min(buf.len());
        if n == 0 {
            let e = self.log.eof_reads.get() + 1;
            self.log.eof_reads.set(e);
            if e > self.eof_budget {
                panic!("{}", SPIN);
            }
            return Ok(0);
        }
        let c = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        if c > 0 {
            n = n.min(c);
        }
        // Do not read across a pending fault.
        for f in &self.faults {
            if f.times > 0 && f.at > self.pos {
                n = n.min(f.at - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.log.pos.set(self.pos);
        Ok(n)
    }
}

/// A schedule of read sizes.
pub fn gen_chunks(s: &mut Src) -> Vec<usize> {
    match s.draw(5) {
        0 => vec![1],
        1 => vec![0],
        2 => { let n = s.urange(1, 12); (0..n).map(|_| s.urange(1, 5)).collect() }
        3 => { let n = s.urange(1, 6); (0..n).map(|_| s.urange(1, 300)).collect() }
        4 => vec![*s.pick(&[2047usize, 2048, 2, 3, 7, 31, 1024, 64])],
        _ => { let n = s.urange(1, 8); (0..n).map(|_| *s.pick(&[0usize, 1, 2047, 2048, 17, 3])).collect() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Io(io::ErrorKind, String),
    Format(String),
    Unsupported(String),
}

impl E {
    pub fn is_eof(&self) -> bool {
        matches!(*self, E::Io(io::ErrorKind::UnexpectedEof, _))
    }
    pub fn is_format(&self) -> bool {
        matches!(*self, E::Format(_))
    }
    pub fn class(&self) -> &'static str {
        match *self { E::Io(..) => "io", E::Format(_) => "format", E::Unsupported(_) => "unsupported" }
    }
    /// Equal up to the wording of an end-of-file message, which reader kinds
    /// phrase differently.
    pub fn same(&self, o: &E) -> bool {
        match (self, o) {
            (E::Io(a, _), E::Io(b, _)) if a == b && *a == io::ErrorKind::UnexpectedEof => true,
            _ => self == o,
        }
    }
}

pub fn err(e: &Error) -> E {
    match *e {
        Error::IoError(ref e) => E::Io(e.kind(), e.to_string()),
        Error::FormatError(m) => E::Format(m.to_string()),
        Error::Unsupported(m) => E::Unsupported(m.to_string()),
    }
}
pub fn ioerr(e: &io::Error) -> E {
    E::Io(e.kind(), e.to_string())
}

#[derive(Clone, Debug, PartialEq)]
pub struct BD {
    pub time: u64,
    pub channels: u32,
    pub duration: u32,
    pub len: u32,
    /// Channels stored consecutively.
    pub samples: Vec<i32>,
}

pub fn bd(b: &Block) -> BD {
    let mut samples = Vec::with_capacity(b.len() as usize);
    for c in 0..b.channels() {
        samples.extend_from_slice(b.channel(c));
    }
    BD { time: b.time(), channels: b.channels(), duration: b.duration(), len: b.len(), samples }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Clean,
    Err(E),
}

impl End {
    pub fn same(&self, o: &End) -> bool {
        match (self, o) {
            (End::Clean, End::Clean) => true,
            (End::Err(a), End::Err(b)) => a.same(b),
            _ => false,
        }
    }
}

pub fn read_block<R: ReadBytes>(fr: &mut FrameReader<R>, buf: Vec<i32>) -> Result<Option<BD>, E> {
    match fr.read_next_or_eof(buf) {
        Ok(Some(b)) => Ok(Some(bd(&b))),
        Ok(None) => Ok(None),
        Err(e) => Err(err(&e)),
    }
}

/// Reads blocks until the end or the first error.
pub fn read_blocks<R: ReadBytes>(fr: &mut FrameReader<R>) -> (Vec<BD>, End) {
    let mut out = Vec::new();
    let mut buf = Vec::new();
    loop {
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => {
                out.push(bd(&b));
                buf = b.into_buffer();
            }
            Ok(None) => return (out, End::Clean),
            Err(e) => return (out, End::Err(err(&e))),
        }
    }
}

/// Two lists of blocks and ends agree.
pub fn same_run(a: &(Vec<BD>, End), b: &(Vec<BD>, End)) -> Result<(), String> {
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        if x != y {
            return Err(format!("block {} differs: {}", i, diff_bd(x, y)));
        }
    }
    if a.0.len() != b.0.len() {
        return Err(format!("{} blocks then {:?}, versus {} blocks then {:?}", a.0.len(), a.1, b.0.len(), b.1));
    }
    if !a.1.same(&b.1) {
        return Err(format!("after {} blocks: {:?} versus {:?}", a.0.len(), a.1, b.1));
    }
    Ok(())
}

pub fn diff_bd(x: &BD, y: &BD) -> String {
    if x.time != y.time || x.channels != y.channels || x.duration != y.duration || x.len != y.len {
        return format!("time {} ch {} dur {} len {} versus time {} ch {} dur {} len {}",
                       x.time, x.channels, x.duration, x.len, y.time, y.channels, y.duration, y.len);
    }
    match x.samples.iter().zip(&y.samples).position(|(a, b)| a != b) {
        Some(i) => format!("sample {} (channel {}) is {} versus {}", i,
                           i / (x.duration.max(1) as usize), x.samples[i], y.samples[i]),
        None => format!("{} versus {} samples", x.samples.len(), y.samples.len()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MetaObs {
    pub info: claxon::metadata::StreamInfo,
    pub vendor: Option<String>,
    pub tags: Vec<(String, String)>,
}

pub fn meta_obs<R: io::Read>(r: &claxon::FlacReader<R>) -> MetaObs {
    MetaObs {
        info: r.streaminfo(),
        vendor: r.vendor().map(|v| v.to_string()),
        tags: r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    }
}

/// Everything a program sees when it reads a stream: the metadata, the blocks
/// and how it ended. `None` for the audio of a metadata-only reader.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub open: Result<MetaObs, E>,
    pub run: Option<(Vec<BD>, End)>,
}

pub fn observe<R: io::Read>(rd: R, o: claxon::FlacReaderOptions) -> Obs {
    match claxon::FlacReader::new_ext(rd, o) {
        Err(e) => Obs { open: Err(err(&e)), run: None },
        Ok(mut r) => {
            let m = meta_obs(&r);
            let run = if o.metadata_only { None } else { Some(read_blocks(&mut r.blocks())) };
            Obs { open: Ok(m), run }
        }
    }
}

pub fn same_obs(a: &Obs, b: &Obs) -> Result<(), String> {
    match (&a.open, &b.open) {
        (Ok(x), Ok(y)) if x == y => {}
        (Err(x), Err(y)) if x.same(y) => {}
        (x, y) => return Err(format!("opening gave {:?} versus {:?}", x, y)),
    }
    match (&a.run, &b.run) {
        (Some(x), Some(y)) => same_run(x, y),
        (None, None) => Ok(()),
        _ => Err("audio only on one side".into()),
    }
}

/// Items of a sample iterator up to the first error or the end.
pub fn read_samples<I: Iterator<Item = claxon::Result<i32>>>(it: &mut I) -> (Vec<i32>, End) {
    let mut v = Vec::new();
    loop {
        match it.next() {
            Some(Ok(x)) => v.push(x),
            Some(Err(e)) => return (v, End::Err(err(&e))),
            None => return (v, End::Clean),
        }
    }
}

/// The samples of a block interleaved.
pub fn interleave(b: &BD) -> Vec<i32> {
    let n = b.duration as usize;
    let mut v = Vec::with_capacity(b.samples.len());
    for i in 0..n {
        for c in 0..b.channels as usize {
            v.push(b.samples[c * n + i]);
        }
    }
    v
}

/// All kinds an error may have, except for interruption (which is retried).
pub const FAULT_KINDS: [io::ErrorKind; 38] = {
    use std::io::ErrorKind::*;
    [
        Other, WouldBlock, ConnectionReset, TimedOut, UnexpectedEof, InvalidData, BrokenPipe,
        NotFound, PermissionDenied, ConnectionRefused, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        AlreadyExists, InvalidInput, WriteZero, HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory,
        IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, StorageFull, NotSeekable,
        QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks,
        InvalidFilename, ArgumentListTooLong, Unsupported, OutOfMemory,
    ]
};

/// A file with these bytes; to be removed afterwards.
pub fn temp_file(b: &[u8]) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("claxon-verif-{}-{}.flac", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&p, b).expect("temporary file");
    p
}

/// Uses an iterator up through one of the consuming adaptors and compares with
/// what it must yield.
pub fn finish<I: Iterator, W>(s: &mut Src, mut it: I, want: &[W], eq: impl Fn(&I::Item, &W) -> bool) -> Result<(), String> {
    let all = |what: &str, got: Vec<I::Item>| -> Result<(), String> {
        if got.len() != want.len() { return Err(format!("{} gives {} items instead of {}", what, got.len(), want.len())); }
        match got.iter().zip(want).position(|(g, w)| !eq(g, w)) {
            Some(i) => Err(format!("{}: item {} of {} is wrong", what, i, want.len())),
            None => Ok(()),
        }
    };
    match s.draw(6) {
        0 => { let n = it.count(); if n == want.len() { Ok(()) } else { Err(format!("count() is {} instead of {}", n, want.len())) } }
        1 => match (it.last(), want.last()) {
            (None, None) => Ok(()),
            (Some(ref g), Some(w)) if eq(g, w) => Ok(()),
            (g, _) => Err(format!("last() of {} items is {}", want.len(), if g.is_some() { "wrong" } else { "missing" })),
        },
        2 => { let mut v = Vec::new(); it.for_each(|x| v.push(x)); all("for_each", v) }
        3 => all("fold", it.fold(Vec::new(), |mut v, x| { v.push(x); v })),
        4 => all("collect", it.collect()),
        5 => {
            // Far behind the end, where an index computation could wrap.
            let len = want.len();
            let step = s.urange(0, 2 * len + 2);
            let n = match s.draw(5) {
                0 => len + step,
                1 => (1usize << 32).wrapping_sub(step),
                2 => (1usize << 32) + step,
                3 => usize::MAX - step,
                4 => (1usize << *s.pick(&[16, 31, 24, 48, 63])).saturating_sub(step / 2),
                _ => (1usize << 31) + step,
            };
            if n < len { return match (it.nth(n), &want[n]) { (Some(ref g), w) if eq(g, w) => Ok(()), _ => Err(format!("nth({}) of {} items is wrong", n, len)) }; }
            let k = s.urange(0, len.min(40));
            for _ in 0..k { it.next(); }
            if n - k >= len - k && it.nth(n - k).is_some() { return Err(format!("nth({}) is an item though only {} of {} are left", n - k, len - k, len)); }
            if it.next().is_some() { return Err(format!("an item after nth({}) with only {} of {} left", n - k, len - k, len)); }
            Ok(())
        }
        _ => {
            let k = s.urange(1, 4);
            let got: Vec<I::Item> = it.step_by(k).collect();
            let n = (want.len() + k - 1) / k;
            if got.len() != n { return Err(format!("step_by({}) of {} items gives {}", k, want.len(), got.len())); }
            match got.iter().enumerate().position(|(i, g)| !eq(g, &want[i * k])) {
                Some(i) => Err(format!("step_by({}): item {} is wrong", k, i)),
                None => Ok(()),
            }
        }
    }
}

/// Moves an iterator about and then uses it up, by whatever adaptor.
pub fn wander<I: Iterator, W>(s: &mut Src, mut it: I, want: &[W], eq: impl Fn(&I::Item, &W) -> bool) -> Result<(), String> {
    let n = want.len();
    let mut at = 0;
    for _ in 0..s.urange(0, 6) {
        let left = n.saturating_sub(at);
        match s.draw(4) {
            0 | 1 => {
                let j = match s.draw(4) { 0 => 0, 1 => s.urange(0, 3), 2 => s.urange(0, left + 1), 3 => left.saturating_sub(1 + s.urange(0, 2)), _ => left + s.urange(0, 2) };
                match (it.nth(j), want.get(at.saturating_add(j))) {
                    (None, None) => {}
                    (Some(ref g), Some(w)) if eq(g, w) => {}
                    (g, w) => return Err(format!("nth({}) at item {} of {} is {}", j, at, n, if g.is_none() { "missing" } else if w.is_none() { "one too many" } else { "wrong" })),
                }
                at = (at + j + 1).min(n);
            }
            2 => {
                let j = s.urange(0, 8);
                let got: Vec<I::Item> = it.by_ref().take(j).collect();
                if got.len() != j.min(left) { return Err(format!("take({}) at item {} of {} gives {}", j, at, n, got.len())); }
                if let Some(i) = got.iter().zip(&want[at..]).position(|(g, w)| !eq(g, w)) { return Err(format!("take({}) at item {} of {}: item {} is wrong", j, at, n, i)); }
                at += got.len();
            }
            3 => {
                let j = s.urange(0, left);
                let mut k = 0;
                let found = it.by_ref().find(|_| { k += 1; k > j }).is_some();
                if found != (j < left) { return Err(format!("find at item {} of {}, after {}: {}", at, n, j, found)); }
                at = (at + j + 1).min(n);
            }
            _ => match (it.next(), want.get(at)) {
                (None, None) => {}
                (Some(ref g), Some(w)) if eq(g, w) => at += 1,
                (g, _) => return Err(format!("item {} of {} is {}", at, n, if g.is_none() { "missing" } else { "wrong" })),
            },
        }
        let left = n.saturating_sub(at);
        let h = it.size_hint();
        if h.0 > left || h.1.map_or(false, |u| u < left) { return Err(format!("size hint {:?} with {} items to come", h, left)); }
    }
    finish(s, it, &want[at..], eq).map_err(|m| format!("from item {} of {} on: {}", at, n, m))
}
