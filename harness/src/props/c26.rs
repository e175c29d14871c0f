//! C26: everything is released, once.

use std::cell::Cell;
use std::fmt;
use std::io::{self, Read};
use std::rc::Rc;

use crate::alloc;
use crate::damage::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::{Block, FrameReader};
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::{subframe, FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C26",
    case,
    rule: "A case is a session (a stream, metadata, frame or byte reader over intact or damaged bytes, with failures whose payload is counted, used through a random sequence of calls, blocks and metadata kept and dropped in any order, ended by dropping or by `into_inner` at any point, by the panic that is documented for a metadata-only reader, or by panics of the source, caught around each call or around everything) run three times; after the first run the heap in use must not change, the source and every payload must have been dropped exactly once, and neither dropping nor `into_inner` may read; or a long series of different small sessions, whose heap use must not grow; \
           non-trivial: at least one block, tag or metadata block was alive when it was dropped, or an error or panic ended a call; distinct by bytes and calls.",
};

#[derive(Default)]
struct Count { sources: Cell<i64>, panics: Cell<u64>, payloads_made: Cell<i64>, payloads_gone: Cell<i64>, reads: Cell<u64>, pos: Cell<usize>, lively: Cell<u64>, errors: Cell<u64> }

/// What a failure of the source carries.
struct Payload(Rc<Count>);
impl Drop for Payload { fn drop(&mut self) { self.0.payloads_gone.set(self.0.payloads_gone.get() + 1); } }
impl fmt::Debug for Payload { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("payload") } }
impl fmt::Display for Payload { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("payload") } }
impl std::error::Error for Payload {}
// The cases use it on one thread.
unsafe impl Send for Payload {}
unsafe impl Sync for Payload {}

struct Owned<'a> { d: &'a [u8], pos: usize, chunks: &'a [usize], ci: usize, fail_every: usize, panic_every: usize, n: usize, c: Rc<Count> }

impl<'a> Drop for Owned<'a> { fn drop(&mut self) { self.c.sources.set(self.c.sources.get() - 1); } }

impl<'a> Read for Owned<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.c.reads.set(self.c.reads.get() + 1);
        self.n += 1;
        if self.fail_every > 0 && self.n % self.fail_every == 0 {
            self.c.payloads_made.set(self.c.payloads_made.get() + 1);
            return Err(io::Error::new(if self.n % 2 == 0 { io::ErrorKind::Other } else { io::ErrorKind::WouldBlock }, Payload(self.c.clone())));
        }
        if self.panic_every > 0 && self.n % self.panic_every == 0 {
            self.c.payloads_made.set(self.c.payloads_made.get() + 1);
            self.c.panics.set(self.c.panics.get() + 1);
            std::panic::resume_unwind(Box::new(Payload(self.c.clone())));
        }
        let mut n = (self.d.len() - self.pos).min(b.len());
        let k = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        if k > 0 { n = n.min(k); }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        self.c.pos.set(self.pos);
        Ok(n)
    }
}

struct Plan { kind: u64, d: Vec<u8>, chunks: Vec<usize>, fail_every: usize, panic_every: usize, caught: bool, ops: Vec<(u64, usize)>, end: u64, o: FlacReaderOptions, width: u32 }

type Rd<'a> = BufferedReader<Owned<'a>>;

/// A call, during which the source may panic.
fn tried<T, F: FnOnce() -> T>(p: &Plan, c: &Count, f: F) -> Option<T> {
    if p.panic_every == 0 || !p.caught { return Some(f()); }
    let before = c.panics.get();
    match guard(f) {
        Ok(t) => Some(t),
        Err(e) => {
            if c.panics.get() == before { panic!("{} at {}", e.msg, e.loc); }
            note_err(c);
            None
        }
    }
}

fn note_err(c: &Count) { c.errors.set(c.errors.get() + 1); }
fn note_item(c: &Count) { c.lively.set(c.lively.get() + 1); }

/// Ends by dropping the source, and checks that it was not read for that.
fn returned(o: Owned, c: &Count, before: (u64, usize)) -> Result<(), Fail> {
    ensure!(c.sources.get() == 1, "source", "into_inner returns the source, which was dropped nevertheless");
    ensure!((c.reads.get(), c.pos.get()) == before, "reads", "into_inner read the source: {:?} (reads, position) before, {:?} after", before, (c.reads.get(), c.pos.get()));
    ensure!(o.pos == before.1, "source", "into_inner returns a source at {} instead of {}", o.pos, before.1);
    Ok(())
}

fn dropped<T>(t: T, c: &Count) -> Result<(), Fail> {
    let before = (c.reads.get(), c.pos.get());
    drop(t);
    ensure!((c.reads.get(), c.pos.get()) == before, "reads", "dropping a reader read the source: {:?} (reads, position) before, {:?} after", before, (c.reads.get(), c.pos.get()));
    ensure!(c.sources.get() == 0, "source", "the source was dropped {} times with its reader", 1 - c.sources.get());
    Ok(())
}

/// Ends something that borrows the reader.
fn ended<T>(t: T, c: &Count, what: &str) -> Result<(), Fail> {
    let before = (c.reads.get(), c.pos.get());
    drop(t);
    ensure!((c.reads.get(), c.pos.get()) == before, "reads", "dropping {} read the source: {:?} (reads, position) before, {:?} after", what, before, (c.reads.get(), c.pos.get()));
    Ok(())
}

fn pass<R: ReadBytes>(fr: &mut FrameReader<R>, held: &mut Vec<Block>, pool: &mut Vec<Vec<i32>>, op: u64, k: usize, c: &Count) {
    match op {
        0 | 1 | 2 => {
            let buf = if op == 0 { Vec::new() } else { pool.pop().unwrap_or_else(|| Vec::with_capacity(k % 5000)) };
            match fr.read_next_or_eof(buf) {
                Ok(Some(b)) => { note_item(c); held.push(b); }
                Ok(None) => {}
                Err(_) => note_err(c),
            }
        }
        3 => if !held.is_empty() { let b = held.swap_remove(k % held.len()); pool.push(b.into_buffer()); },
        4 => if !held.is_empty() { let b = held.remove(k % held.len()); drop(b); },
        _ => if let Some(b) = held.last() { if b.channels() == 2 { let _ = b.stereo_samples().nth(k % 7); } },
    }
    if held.len() > 3 { held.remove(0); }
    if pool.len() > 2 { pool.pop(); }
}

fn session(p: &Plan, c: &Rc<Count>) -> Result<(), Fail> {
    let rd = Owned { d: &p.d, pos: if p.kind == 4 { 4.min(p.d.len()) } else { 0 }, chunks: &p.chunks, ci: 0, fail_every: p.fail_every, panic_every: p.panic_every, n: 0, c: c.clone() };
    c.sources.set(1);
    c.pos.set(rd.pos);
    let now = || (c.reads.get(), c.pos.get());
    let mut held: Vec<Block> = Vec::new();
    let mut pool: Vec<Vec<i32>> = Vec::new();
    match p.kind {
        0 | 1 | 2 => {
            let mut r = match tried(p, c, || FlacReader::new_ext(rd, p.o)) {
                None | Some(Err(_)) => {
                    note_err(c);
                    ensure!(c.sources.get() == 0, "source", "the source was dropped {} times when opening failed", 1 - c.sources.get());
                    return Ok(());
                }
                Some(Ok(r)) => r,
            };
            if r.vendor().is_some() { note_item(c); }
            if p.o.metadata_only {
                if p.end == 3 {
                    let g = guard(|| { let _ = r.into_samples(); });
                    if g.is_err() { note_err(c); }
                    ensure!(c.sources.get() == 0, "source", "the source was dropped {} times by a failed into_samples", 1 - c.sources.get());
                    return Ok(());
                }
                for &(op, _) in p.ops.iter().take(3) {
                    let g = match op {
                        0 | 1 => guard(|| { let _ = r.samples(); }),
                        2 | 3 => guard(|| { let _ = r.blocks(); }),
                        _ => guard(|| { let _ = (r.tags().count(), r.streaminfo()); }),
                    };
                    if g.is_err() { note_err(c); }
                }
            } else if p.kind == 2 {
                let mut it = r.into_samples();
                for &(op, k) in &p.ops {
                    match tried(p, c, || it.nth(if op < 3 { k % 50 } else { k })).and_then(|x| x) { Some(Ok(_)) => note_item(c), Some(Err(_)) => note_err(c), None => {} }
                }
                return dropped(it, c);
            } else {
                for &(op, k) in &p.ops {
                    match op {
                        5 => { let n = r.get_tag("title").count() + r.tags().count(); if n > 0 { note_item(c); } }
                        6 => {
                            let mut it = r.samples();
                            match tried(p, c, || it.nth(k)).and_then(|x| x) { Some(Ok(_)) => note_item(c), Some(Err(_)) => note_err(c), None => {} }
                            ended(it, c, "the samples")?;
                        }
                        7 => { let _ = r.streaminfo(); }
                        _ => {
                            let mut bl = r.blocks();
                            tried(p, c, || pass(&mut bl, &mut held, &mut pool, op, k, c));
                            ended(bl, c, "the blocks")?;
                        }
                    }
                }
            }
            if p.end == 0 { let b = now(); return returned(r.into_inner(), c, b); }
            dropped(r, c)
        }
        3 => {
            let mut fr = FrameReader::new(BufferedReader::new(rd));
            for &(op, k) in &p.ops { tried(p, c, || pass(&mut fr, &mut held, &mut pool, op, k, c)); }
            let b = now();
            match p.end {
                0 => returned(fr.into_inner().into_inner(), c, b),
                1 => { let r: Rd = fr.into_inner(); dropped(r, c) }
                _ => dropped(fr, c),
            }
        }
        4 => {
            let mut br = BufferedReader::new(rd);
            let mut held: Vec<MetadataBlock> = Vec::new();
            {
                let mut it = MetadataBlockReader::new(&mut br);
                for &(op, k) in &p.ops {
                    match op {
                        0 | 1 | 2 | 3 => match tried(p, c, || it.next()).and_then(|x| x) { Some(Ok(b)) => { note_item(c); held.push(b); } Some(Err(_)) => note_err(c), None => {} },
                        4 => if !held.is_empty() { let _ = held.swap_remove(k % held.len()); },
                        _ => { let _ = it.size_hint(); }
                    }
                    if held.len() > 4 { held.remove(0); }
                }
                ended(it, c, "a metadata block reader")?;
            }
            let b = now();
            if p.end == 0 { return returned(br.into_inner(), c, b); }
            dropped(br, c)
        }
        _ => {
            let mut br = BufferedReader::new(rd);
            let mut out = [0i32; 200];
            for &(op, k) in &p.ops {
                tried(p, c, || -> Result<(), Fail> { match op {
                    0 => {
                        let mut bits = Bitstream::new(&mut br);
                        if subframe::decode(&mut bits, p.width, &mut out[..k % 200]).is_err() { note_err(c); } else { note_item(c); }
                        ended(bits, c, "a bit stream")?;
                    }
                    1 => {
                        let mut bits = Bitstream::new(&mut br);
                        if bits.read_leq_u32(p.width).is_err() { note_err(c); }
                        ended(bits, c, "a bit stream")?;
                    }
                    2 | 3 => if claxon::metadata::read_metadata_block(&mut br, (k % 7) as u8, (k % 500) as u32).is_err() { note_err(c) } else { note_item(c) },
                    4 => { let mut b = [0; 100]; if br.read_into(&mut b[..k % 100]).is_err() { note_err(c); } }
                    5 => if br.skip(k as u32 % 3000).is_err() { note_err(c) },
                    _ => if br.read_be_u32().is_err() { note_err(c) },
                } Ok(()) }).unwrap_or(Ok(()))?;
            }
            let b = now();
            if p.end == 0 { return returned(br.into_inner(), c, b); }
            dropped(br, c)
        }
    }
}

fn plan(s: &mut Src) -> Plan {
    let kind = s.draw(5);
    let mut d = match kind {
        3 => { let n = s.urange(1, 5); let mut v = Vec::new(); for _ in 0..n { v.extend(gen_frame(s, 300).bytes); } v }
        5 => { let n = s.urange(0, 3000); s.bytes(n) }
        _ => {
            let big_meta = s.chance(1, 20);
            let st = gen_stream(s, &StreamOpts { max_frames: 5, max_bs: 600, big_meta, ..StreamOpts::default() });
            if s.chance(1, 4) { streamish(s, 300).0 } else { st.bytes }
        }
    };
    if s.chance(1, 5) { for _ in 0..s.urange(1, 3) { mutate(s, &mut d); } }
    if s.chance(1, 8) && !d.is_empty() { let k = s.urange(0, d.len() - 1); d.truncate(k); }
    let fail_every = if s.chance(1, 4) { s.urange(1, 12) } else { 0 };
    let panic_every = if s.chance(1, 8) { s.urange(1, 12) } else { 0 };
    let caught = s.bool();
    let chunks = gen_chunks(s);
    let n = s.urange(0, 14);
    let ops = (0..n).map(|_| (s.draw(7), match s.draw(2) { 0 => s.urange(0, 8), _ => s.urange(0, 3000) })).collect();
    let o = FlacReaderOptions { metadata_only: s.chance(1, 6), read_vorbis_comment: !s.chance(1, 6) };
    Plan { kind, d, chunks, fail_every, panic_every, caught, ops, end: s.draw(3), o, width: s.urange(1, 32) as u32 }
}

fn run(p: &Plan) -> (Result<(), Fail>, Rc<Count>) {
    let c = Rc::new(Count::default());
    if p.panic_every == 0 || p.caught { let r = session(p, &c); return (r, c); }
    // A panic of the source unwinds through everything.
    let r = match guard(|| session(p, &c)) {
        Ok(r) => r,
        Err(e) if c.panics.get() == 0 => panic!("{} at {}", e.msg, e.loc),
        Err(_) => { note_err(&c); Ok(()) }
    };
    (r, c)
}

fn check(p: &Plan, r: (Result<(), Fail>, Rc<Count>)) -> Result<Rc<Count>, Fail> {
    r.0?;
    let c = r.1;
    ensure!(c.sources.get() == 0, "source", "the source was dropped {} times by the end", 1 - c.sources.get());
    ensure!(c.payloads_made.get() == c.payloads_gone.get(), "payload", "{} error payloads were made and {} dropped (session kind {})", c.payloads_made.get(), c.payloads_gone.get(), p.kind);
    ensure!(Rc::strong_count(&c) == 1, "payload", "something of the session is still alive");
    Ok(c)
}

/// Many different sessions, one after the other: nothing accumulates.
fn series(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = 1500u64;
    let seed = s.draw(u64::MAX);
    let mut largest = 0;
    let go = |i: u64, largest: &mut usize| -> Result<(), Fail> {
        let info = Info { min_bs: 16, max_bs: 16, min_fs: 0, max_fs: 0, rate: 44100, channels: 1, bps: 16, samples: 0, md5: [0; 16] };
        let tags: Vec<Vec<u8>> = (0..4).map(|k| format!("N{}X{}={:x}", i, k, crate::src::mix(seed, i * 4 + k)).into_bytes()).collect();
        let body = meta::tag_bytes(format!("vendor {}", i).as_bytes(), &tags);
        let app = crate::src::mix(seed, i).to_le_bytes().to_vec();
        let blocks = vec![meta::MBlock::info(&info),
            meta::MBlock { last: false, kind: 4, body, model: meta::Model::Opaque, claim: None },
            meta::MBlock { last: true, kind: 2, body: app, model: meta::Model::Opaque, claim: None }];
        let mut t = Src::random(crate::src::mix(seed, i));
        let f = encode_frame(&mut t, &FrameOpts::new(16 + (i % 5) as usize, 16, 1));
        let st = assemble(info, blocks, vec![f], None);
        *largest = (*largest).max(st.bytes.len());
        let p = Plan { kind: i % 2 * 4, d: st.bytes, chunks: vec![0], fail_every: 0, panic_every: 0, caught: false, ops: vec![(0, 0), (3, 0), (5, 0), (0, 0), (0, 1), (6, 0)], end: i % 3, o: FlacReaderOptions { metadata_only: false, read_vorbis_comment: true }, width: 1 };
        check(&p, run(&p)).map(|_| ())
    };
    for i in 0..50 { go(i, &mut largest)?; }
    let base = alloc::live();
    for i in 50..n { go(i, &mut largest)?; }
    let grown = alloc::live() - base;
    c.print(&seed);
    c.label("series");
    c.nontrivial = true;
    c.runs += n;
    c.describe(|| format!("{} different sessions of up to {} bytes: the heap grew by {} bytes", n, largest, grown));
    ensure!(grown < 16 * 1024, "grows", "{} different sessions of up to {} bytes each: the heap grew by {} bytes", n - 50, largest, grown);
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 4000) { return series(s, c); }
    let p = plan(s);
    c.print(&p.d);
    c.print(&(p.kind, &p.ops, p.end, p.fail_every, p.panic_every, p.caught));
    let kind = ["stream", "stream", "own samples", "frames", "metadata", "bytes"][p.kind as usize];
    c.describe(|| format!("{} over {} bytes, failing at every {}th and panicking at every {}th read, calls {:?}, end {}, options {:?}", kind, p.d.len(), p.fail_every, p.panic_every, p.ops, p.end, (p.o.metadata_only, p.o.read_vorbis_comment)));
    c.label(kind);
    c.runs += 3;
    // The first run may set up what is kept for good.
    check(&p, run(&p))?;
    let base = alloc::live();
    let r = run(&p);
    let k = check(&p, r)?;
    let (lively, errors) = (k.lively.get(), k.errors.get());
    drop(k);
    let two = alloc::live();
    if two != base {
        // What grows from run to run is lost.
        check(&p, run(&p))?;
        let three = alloc::live();
        ensure!(three == two, "leak", "the heap in use is {:+} bytes after a second run of the session ({}) and {:+} after a third", two - base, kind, three - two);
    }
    if lively > 0 { c.label("items"); }
    if errors > 0 { c.label("errors"); }
    if p.panic_every > 0 && errors > 0 { c.label("source panics"); }
    c.nontrivial = lively > 0 || errors > 0;
    Ok(())
}
