//! C24: readers in use at the same time do not influence one another.

use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::io::{self, Cursor, Read};
use std::sync::Barrier;

use crate::damage::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::{Block, FrameReader};
use claxon::input::{Bitstream, BufferedReader};
use claxon::metadata::MetadataBlockReader;
use claxon::{FlacIntoSamples, FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C24",
    case,
    rule: "A case is two to four readers (streams by block and by sample, frames, metadata, subframes and bit fields) over their own bytes, stepped alone and then together: interleaved step by step, used inside the source of another while that is read, handed from thread to thread, or on several threads at once, with a common pool of recycled buffers; \
           non-trivial: at least two of the readers took two steps or more, delivering something; distinct by the bytes and the schedule.",
};

/// A source that owns everything it needs, so that it can go to another thread.
#[derive(Clone)]
struct Piece { data: Vec<u8>, pos: usize, chunks: Vec<usize>, ci: usize }

impl Read for Piece {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        nested();
        let mut n = (self.data.len() - self.pos).min(buf.len());
        let c = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        if c > 0 { n = n.min(c); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// What a session works on.
#[derive(Clone, Debug, Hash)]
pub struct Job { pub kind: usize, pub data: Vec<u8>, pub chunks: Vec<usize>, pub sizes: Vec<usize>, pub tags: bool, pub width: u32, pub seek: usize }

enum State {
    Closed(Piece),
    Stream(FlacReader<Piece>),
    Samples(FlacIntoSamples<BufferedReader<Piece>>),
    Frames(FrameReader<BufferedReader<Piece>>),
    Cursor(FrameReader<Cursor<Vec<u8>>>),
    Meta(MetadataBlockReader<BufferedReader<Piece>>),
    Bits(Box<Cursor<Vec<u8>>>),
    Done,
}

pub struct Session { job: Job, st: State, step: usize, held: Option<(Block, u64)>, items: usize }

/// Readers that are used by the source of another one, while it is read.
struct Nest { ss: Vec<Option<Session>>, got: Vec<Vec<String>>, rng: u64, inner: u64 }

thread_local!(static NEST: RefCell<Option<Nest>> = RefCell::new(None));

fn nested() {
    // A failed borrow means that nothing is set up.
    let k = NEST.with(|n| n.borrow_mut().as_mut().map_or(0, |n| { n.rng = crate::src::mix(n.rng, 1); n.rng % 4 }));
    for _ in 0..k {
        // The session is taken out, so that the others can be used while its
        // own source is read.
        let x = NEST.with(|n| n.borrow_mut().as_mut().and_then(|n| {
            let len = n.ss.len();
            let from = (n.rng >> 8) as usize % len;
            n.rng = crate::src::mix(n.rng, 2);
            n.inner += 1;
            (0..len).map(|j| (from + j) % len).find(|&i| n.ss[i].is_some()).map(|i| (i, n.ss[i].take().unwrap()))
        }));
        let (i, mut x) = match x { None => return, Some(x) => x };
        let t = x.step(&mut Vec::new());
        NEST.with(|n| if let Some(n) = n.borrow_mut().as_mut() {
            if let Some(t) = t { n.got[i].push(t); n.ss[i] = Some(x); }
        });
    }
}

/// The readers are moved between threads one at a time, with a join between,
/// so this holds whatever they are made of.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> { fn get(self) -> T { self.0 } }

fn block_hash(b: &Block) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    (b.time(), b.duration(), b.channels(), b.len()).hash(&mut h);
    for c in 0..b.channels() { for &x in b.channel(c) { h.0 = (h.0 ^ x as u32 as u64).wrapping_mul(0x100000001b3); } }
    h.finish()
}

impl Session {
    pub fn new(job: &Job) -> Session {
        let p = Piece { data: job.data.clone(), pos: 0, chunks: job.chunks.clone(), ci: 0 };
        let st = match job.kind {
            0 | 1 | 2 => State::Closed(p),
            3 => State::Frames(FrameReader::new(BufferedReader::new(p))),
            4 => State::Cursor(FrameReader::new(Cursor::new(p.data))),
            5 => State::Meta(MetadataBlockReader::new(BufferedReader::new(p))),
            _ => State::Bits(Box::new(Cursor::new(p.data))),
        };
        Session { job: job.clone(), st, step: 0, held: None, items: 0 }
    }

    fn size(&self) -> usize { self.job.sizes[self.step % self.job.sizes.len()] }

    fn keep(&mut self, r: claxon::Result<Option<Block>>, pool: &mut Vec<Vec<i32>>) -> (bool, String) {
        if let Some((b, _)) = self.held.take() { pool.push(b.into_buffer()); }
        match r {
            Ok(Some(b)) => {
                let h = block_hash(&b);
                let t = format!("block at {} of {}x{} ({:x})", b.time(), b.channels(), b.duration(), h);
                self.held = Some((b, h));
                self.items += 1;
                (true, t)
            }
            Ok(None) => (false, "end".into()),
            Err(e) => (false, format!("{:?}", err(&e))),
        }
    }

    /// One step; `None` once there is nothing more to do.
    fn step(&mut self, pool: &mut Vec<Vec<i32>>) -> Option<String> {
        // A block stays as it is while others are decoded.
        if let Some((ref b, h)) = self.held {
            if block_hash(b) != h { return Some("a block changed after it was returned".into()); }
        }
        let k = self.size();
        let state = std::mem::replace(&mut self.st, State::Done);
        let (next, text) = match state {
            State::Done => return None,
            State::Closed(p) => {
                let o = FlacReaderOptions { metadata_only: false, read_vorbis_comment: self.job.tags };
                match FlacReader::new_ext(p, o) {
                    Err(e) => (State::Done, format!("open: {:?}", err(&e))),
                    Ok(r) => {
                        let t = format!("{:?}", meta_obs(&r));
                        self.items += 1;
                        (if self.job.kind == 1 { State::Samples(r.into_samples()) } else { State::Stream(r) }, t)
                    }
                }
            }
            State::Stream(mut r) => {
                if self.job.kind == 0 {
                    let b = r.blocks().read_next_or_eof(pool.pop().unwrap_or_default());
                    let (more, t) = self.keep(b, pool);
                    (if more { State::Stream(r) } else { State::Done }, t)
                } else {
                    // The rest of the block is lost each time.
                    let (v, e) = take(&mut r.samples(), k);
                    self.items += v.len();
                    let t = format!("{:?} {:?}", v, e);
                    (if e.is_none() { State::Stream(r) } else { State::Done }, t)
                }
            }
            State::Samples(mut it) => {
                let (v, e) = take(&mut it, k);
                self.items += v.len();
                let t = format!("{:?} {:?}", v, e);
                (if e.is_none() { State::Samples(it) } else { State::Done }, t)
            }
            State::Frames(mut fr) => {
                let b = fr.read_next_or_eof(pool.pop().unwrap_or_default());
                let (more, t) = self.keep(b, pool);
                (if more { State::Frames(fr) } else { State::Done }, t)
            }
            State::Cursor(mut fr) => {
                let b = fr.read_next_or_eof(pool.pop().unwrap_or_default());
                let (more, t) = self.keep(b, pool);
                (if more { State::Cursor(fr) } else { State::Done }, t)
            }
            State::Meta(mut it) => match it.next() {
                None => (State::Done, "end".into()),
                Some(Ok(b)) => { self.items += 1; (State::Meta(it), meta::block_str(&b)) }
                Some(Err(e)) => (State::Meta(it), format!("{:?}", err(&e))),
            },
            State::Bits(mut cur) => {
                // A subframe, after some bits.
                let mut out = pool.pop().unwrap_or_default();
                out.resize(k, 7);
                let (mut ok, t) = {
                    let mut bs = Bitstream::new(&mut *cur);
                    let lead = if self.step == 0 && self.job.seek > 0 { bs.read_leq_u8(self.job.seek as u32).ok() } else { None };
                    let r = if out.is_empty() { Ok(()) } else { claxon::subframe::decode(&mut bs, self.job.width, &mut out) };
                    (r.is_ok(), format!("{:?} {:?} {:?} {:?}", lead, r.as_ref().map_err(err), if r.is_ok() { &out[..] } else { &[] }, bs.read_leq_u16(16).map_err(|e| e.kind())))
                };
                if ok { self.items += 1; }
                pool.push(out);
                if self.step > 5 { ok = false; }
                (if ok { State::Bits(cur) } else { State::Done }, t)
            }
        };
        self.st = next;
        self.step += 1;
        if self.step > 40 { self.st = State::Done; }
        Some(text)
    }

    /// All steps.
    pub fn run(&mut self, pool: &mut Vec<Vec<i32>>) -> Vec<String> {
        let mut v = Vec::new();
        while let Some(t) = self.step(pool) { v.push(t); }
        v
    }
}

fn take<I: Iterator<Item = claxon::Result<i32>>>(it: &mut I, k: usize) -> (Vec<i32>, Option<E>) {
    let mut v = Vec::with_capacity(k);
    for _ in 0..k {
        match it.next() {
            Some(Ok(x)) => v.push(x),
            Some(Err(e)) => return (v, Some(err(&e))),
            None => return (v, Some(E::Format("end".into()))),
        }
    }
    (v, None)
}

pub fn gen_job(s: &mut Src) -> Job {
    let kind = s.weighted(&[4, 3, 2, 3, 2, 2, 2]);
    let chunks = gen_chunks(s);
    let n = s.urange(1, 4);
    let sizes: Vec<usize> = (0..n).map(|_| s.urange(1, 60)).collect();
    let mut width = 16;
    let data = match kind {
        0 | 1 | 2 => if s.chance(3, 4) {
            gen_stream(s, &StreamOpts { max_frames: 4, big_per_mille: 5, max_bs: 600, ..StreamOpts::default() }).bytes
        } else {
            streamish(s, 400).0
        },
        3 | 4 => {
            let n = s.urange(1, 4);
            let mut v = Vec::new();
            for _ in 0..n {
                let f = gen_frame(s, 300);
                if s.chance(1, 12) { v.extend(damaged_frame(s, &f)); } else { v.extend(f.bytes); }
            }
            v
        }
        5 => {
            let n = s.urange(1, 5);
            let mut v = Vec::new();
            for i in 0..n {
                let mut b = if s.bool() { meta::gen_block(s, false) } else { meta::gen_tags(s, 4) };
                b.last = i + 1 == n;
                v.extend(b.bytes());
            }
            if s.chance(1, 6) { mutate(s, &mut v); }
            v
        }
        _ => {
            width = s.urange(1, 32) as u32;
            let mut v = Vec::new();
            for _ in 0..s.urange(1, 4) {
                let x = signal(s, sizes[0], width, 0);
                let g = encode_sub(s, &x, width, SubOpts { unary_budget: 300, kind: None });
                let mut w = crate::bits::BitWriter::new();
                emit_sub(&mut w, &g.spec);
                w.align(0);
                v.extend(w.bytes);
                v.extend(s.bytes(2));
            }
            v
        }
    };
    Job { kind, data, chunks, sizes, tags: s.chance(3, 4), width, seek: if s.chance(1, 8) { s.urange(1, 8) } else { 0 } }
}

fn differ(what: &str, jobs: &[Job], i: usize, a: &[String], b: &[String]) -> Result<(), Fail> {
    if a == b { return Ok(()); }
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |v: &[String]| v.get(k).map_or("nothing".to_string(), |t| t.chars().take(160).collect());
    fail(what, format!("reader {} of {} (kinds {:?}), step {}: alone {}; {}: {}", i, jobs.len(), jobs.iter().map(|j| j.kind).collect::<Vec<_>>(), k, show(a), what, show(b)))
}

/// Whether a type can go to another thread, found out where it is named.
struct P<T>(std::marker::PhantomData<T>);
impl<T: Send> P<T> { fn sendable(&self) -> bool { true } }
trait No { fn sendable(&self) -> bool { false } }
impl<T> No for P<T> {}

macro_rules! sendable {
    ($($t:ty),*) => { [$((stringify!($t), P::<$t>(std::marker::PhantomData).sendable())),*] };
}

fn all_sendable() -> Result<(), Fail> {
    type C = Cursor<Vec<u8>>;
    let l = sendable![FlacReader<C>, FlacIntoSamples<BufferedReader<C>>, claxon::FlacSamples<&'static mut BufferedReader<C>>,
        FrameReader<C>, FrameReader<BufferedReader<C>>, FrameReader<&'static mut BufferedReader<C>>, MetadataBlockReader<C>, BufferedReader<C>,
        Bitstream<C>, Block, claxon::frame::StereoSamples<'static>, claxon::metadata::MetadataBlock, claxon::metadata::VorbisComment,
        claxon::metadata::StreamInfo, claxon::metadata::SeekTable, claxon::metadata::Tags<'static>, claxon::metadata::GetTag<'static>,
        claxon::Error, FlacReaderOptions];
    for (n, ok) in l { if !ok { return fail("not-send", format!("{} cannot be handed to another thread", n)); } }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    all_sendable()?;
    NEST.with(|x| x.borrow_mut().take());
    let n = s.urange(2, 4);
    let mut jobs: Vec<Job> = (0..n).map(|_| gen_job(s)).collect();
    // Sometimes two read the same.
    match s.draw(5) {
        0 => jobs[1] = jobs[0].clone(),
        1 => {
            // Or almost the same.
            let mut j = jobs[0].clone();
            for _ in 0..(1 + s.draw(1)) {
                if j.data.is_empty() { break; }
                let n = j.data.len() - 1;
                let at = if s.bool() { s.urange(0, n.min(300)) } else { s.urange(0, n) };
                j.data[at] ^= 1 << s.draw(5);
            }
            if j.kind == 3 || j.kind == 4 { repair_by_reference(&mut j.data); }
            jobs[1] = j;
        }
        _ => {}
    }
    c.print(&jobs);
    let alone: Vec<Vec<String>> = jobs.iter().map(|j| Session::new(j).run(&mut Vec::new())).collect();
    c.runs += n as u64;
    c.nontrivial = alone.iter().filter(|v| v.len() >= 2).count() >= 2;
    let mode = s.weighted(&[76, 1, 3, 20]);
    let label = ["interleaved", "moved", "parallel", "nested"][mode];
    c.label(label);
    for j in &jobs { c.label(["blocks", "into-samples", "samples", "frames", "frames-cursor", "metadata", "subframes"][j.kind]); }
    c.describe(|| format!("{}: {:?}", label, jobs.iter().map(|j| (j.kind, j.data.len())).collect::<Vec<_>>()));
    match mode {
        0 | 1 => {
            let mut ss: Vec<Session> = jobs.iter().map(Session::new).collect();
            let mut got: Vec<Vec<String>> = vec![Vec::new(); n];
            let mut open: Vec<usize> = (0..n).collect();
            let mut pool: Vec<Vec<i32>> = Vec::new();
            let mut switches = 0;
            while !open.is_empty() {
                let k = s.urange(0, open.len() - 1);
                let i = open[k];
                let t = if mode == 1 && switches < 6 && s.chance(1, 2) {
                    // The reader goes to another thread for this step and back.
                    switches += 1;
                    let m = Moved((&mut ss[i], &mut pool));
                    let r = std::thread::scope(|sc| sc.spawn(move || { let (x, p) = m.get(); guard(|| x.step(p)) }).join());
                    match r {
                        Ok(Ok(t)) => t,
                        Ok(Err(p)) => return fail("panic", format!("panic after moving to another thread: {} at {}", p.msg, p.loc)),
                        Err(_) => return fail("panic", "panic in another thread".into()),
                    }
                } else {
                    ss[i].step(&mut pool)
                };
                match t {
                    Some(t) => got[i].push(t),
                    None => { open.swap_remove(k); }
                }
            }
            c.runs += n as u64;
            for i in 0..n { differ(label, &jobs, i, &alone[i], &got[i])?; }
        }
        3 => {
            // The first that has a source of its own is the outer one.
            let o = match jobs.iter().position(|j| j.kind != 4 && j.kind != 6) { None => return Ok(()), Some(o) => o };
            let rest: Vec<usize> = (0..n).filter(|&i| i != o).collect();
            let nest = Nest { ss: rest.iter().map(|&i| Some(Session::new(&jobs[i]))).collect(), got: vec![Vec::new(); n - 1], rng: s.draw(u64::MAX), inner: 0 };
            let mut outer = Session::new(&jobs[o]);
            NEST.with(|x| *x.borrow_mut() = Some(nest));
            let got = outer.run(&mut Vec::new());
            let nest = NEST.with(|x| x.borrow_mut().take());
            drop(outer);
            c.runs += n as u64;
            differ(label, &jobs, o, &alone[o], &got)?;
            let mut nest = nest.unwrap();
            for (k, &i) in rest.iter().enumerate() {
                if let Some(mut x) = nest.ss[k].take() { nest.got[k].extend(x.run(&mut Vec::new())); }
                differ(label, &jobs, i, &alone[i], &nest.got[k])?;
            }
        }
        _ => {
            let rounds = 3;
            let bar = Barrier::new(n);
            let got: Vec<Result<Vec<Vec<String>>, Panicked>> = std::thread::scope(|sc| {
                let hs: Vec<_> = jobs.iter().map(|j| { let bar = &bar; sc.spawn(move || {
                    let mut out = Vec::new();
                    let mut bad = None;
                    for _ in 0..rounds {
                        bar.wait();
                        match guard(|| Session::new(j).run(&mut Vec::new())) {
                            Ok(v) => out.push(v),
                            Err(p) => bad = Some(p),
                        }
                    }
                    match bad { None => Ok(out), Some(p) => Err(p) }
                }) }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Panicked { msg: "thread".into(), loc: String::new() }))).collect()
            });
            c.runs += (n * rounds) as u64;
            for (i, g) in got.iter().enumerate() {
                match g {
                    Err(p) => return fail("panic", format!("panic in parallel use: {} at {}", p.msg, p.loc)),
                    Ok(rs) => for r in rs { differ(label, &jobs, i, &alone[i], r)?; },
                }
            }
        }
    }
    Ok(())
}
