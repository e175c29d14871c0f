//! C22: nothing waits for bytes it does not need.

use std::cell::Cell;
use std::io;
use std::rc::Rc;

use super::c07::{apply, OPS};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, Model};
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader};
use claxon::metadata::{self, MetadataBlockReader};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C22",
    case,
    rule: "A case is a stream, metadata sequence, frame sequence or byte string behind a gate that hands out bytes only up to a limit (and counts requests beyond it); the limit is raised to exactly the last byte an item needs and the item is asked for; \
           non-trivial: at least two items were delivered with the gate closed right behind them; distinct by bytes, read sizes and operations.",
};

#[derive(Default)]
struct Gate {
    /// How many bytes have arrived.
    limit: Cell<usize>,
    /// How often more was asked for.
    asked: Cell<u64>,
    /// Nothing more will come: the end is reported.
    ended: Cell<bool>,
}

/// A live source: what has not arrived cannot be read (a blocking source would
/// block here).
struct Live { data: Rc<Vec<u8>>, pos: usize, chunks: Vec<usize>, ci: usize, gate: Rc<Gate> }

impl Live {
    fn new(data: Rc<Vec<u8>>, chunks: Vec<usize>) -> (Live, Rc<Gate>) {
        let gate = Rc::new(Gate::default());
        (Live { data, pos: 0, chunks, ci: 0, gate: gate.clone() }, gate)
    }
}

impl io::Read for Live {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut n = (self.gate.limit.get() - self.pos).min(buf.len());
        if n == 0 {
            if self.gate.ended.get() && self.pos == self.data.len() { return Ok(0); }
            self.gate.asked.set(self.gate.asked.get() + 1);
            if self.gate.asked.get() > 1000 { panic!("{}", SPIN); }
            return Err(io::Error::new(io::ErrorKind::WouldBlock, "nothing there yet"));
        }
        let c = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        if c > 0 { n = n.min(c); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Sometimes more than one item arrives at once.
fn ahead(s: &mut Src) -> usize { if s.chance(1, 4) { s.urange(1, 3) } else { 0 } }

fn stream(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { max_frames: 5, big_per_mille: 10, max_bs: 8192, ..StreamOpts::default() });
    let chunks = gen_chunks(s);
    let n = st.frames.len();
    c.print(&st.bytes);
    c.print(&chunks);
    let o = FlacReaderOptions { metadata_only: s.chance(1, 6), read_vorbis_comment: s.chance(3, 4) };
    let tag_at = st.blocks.iter().position(|b| matches!(b.model, Model::Tags { .. }));
    let end_of = |i: usize| if i + 1 < st.blocks.len() { st.meta_at[i + 1] } else { st.audio_at };
    let needed = if !o.metadata_only { st.audio_at } else if !o.read_vorbis_comment { end_of(0) } else { tag_at.map_or(st.audio_at, end_of) };
    let (rd, g) = Live::new(Rc::new(st.bytes.clone()), chunks.clone());
    g.limit.set(needed);
    c.runs += 1;
    c.describe(|| format!("{:?}, pieces of {:?}: {}", o, chunks, st.describe()));
    let mut r = match FlacReader::new_ext(rd, o) {
        Ok(r) => r,
        Err(e) => return fail("open", format!("{:?}: all {} bytes of the metadata have arrived but opening gave {:?}", o, needed, err(&e))),
    };
    ensure!(g.asked.get() == 0, "open", "{:?}: opening asked for more than the {} bytes of the metadata", o, needed);
    if o.metadata_only { c.label("metadata-only"); c.nontrivial = st.blocks.len() > 1; return Ok(()); }
    c.nontrivial = n >= 2;
    let mut have = 0;
    let mut arrive = |s: &mut Src, i: usize| {
        if i >= have { have = (i + 1 + ahead(s)).min(n); g.limit.set(st.frame_at[have]); }
    };
    let quiet = |what: &str, i: usize| -> Result<(), Fail> {
        ensure!(g.asked.get() == 0, "asked", "{} of frame {} of {} asked for bytes behind the frame", what, i, n);
        Ok(())
    };
    let mut i = 0;
    if s.chance(1, 2) {
        c.label("blocks");
        let mut buf = Vec::new();
        while i < n {
            // Through one or several block readers.
            let mut b = r.blocks();
            for _ in 0..s.urange(1, 3) {
                if i >= n { break; }
                arrive(s, i);
                match b.read_next_or_eof(buf) {
                    Ok(Some(x)) => {
                        ensure!(x.duration() as usize == st.frames[i].bs, "block", "block {}: duration {}", i, x.duration());
                        buf = x.into_buffer();
                    }
                    x => return fail("withheld", format!("all bytes of frame {} of {} have arrived but reading gave {:?}", i, n, x.map(|_| "the end of the stream").map_err(|e| err(&e)))),
                }
                quiet("the block", i)?;
                i += 1;
            }
        }
        g.ended.set(true);
        ensure!(matches!(r.blocks().read_next_or_eof(buf), Ok(None)), "end", "no end after the {} frames", n);
    } else {
        c.label("samples");
        fn run<I: Iterator<Item = claxon::Result<i32>>>(s: &mut Src, it: &mut I, st: &GenStream, mut arrive: impl FnMut(&mut Src, usize), quiet: impl Fn(&str, usize) -> Result<(), Fail>) -> Result<(), Fail> {
            for (i, f) in st.frames.iter().enumerate() {
                arrive(s, i);
                for (k, &w) in f.interleaved().iter().enumerate() {
                    match it.next() {
                        Some(Ok(x)) => ensure!(x == w, "item", "frame {} item {} is {} instead of {}", i, k, x, w),
                        x => return fail("withheld", format!("all bytes of frame {} have arrived but item {} of it is {:?}", i, k, x.map(|x| x.map_err(|e| err(&e))))),
                    }
                }
                quiet("a sample", i)?;
                if s.chance(1, 4) { it.size_hint(); quiet("a size hint", i)?; }
            }
            Ok(())
        }
        if s.bool() {
            run(s, &mut r.samples(), &st, &mut arrive, &quiet)?;
        } else {
            let mut it = r.into_samples();
            quiet("creating an iterator", 0)?;
            run(s, &mut it, &st, &mut arrive, &quiet)?;
            g.ended.set(true);
            ensure!(it.next().is_none(), "end", "no end after the {} frames", n);
        }
    }
    Ok(())
}

fn frames(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 4);
    let fs: Vec<GenFrame> = (0..n).map(|_| gen_frame(s, 600)).collect();
    let mut at = vec![0];
    let mut b = Vec::new();
    for f in &fs { b.extend_from_slice(&f.bytes); at.push(b.len()); }
    let chunks = gen_chunks(s);
    c.print(&b);
    c.print(&chunks);
    c.label("frames");
    c.nontrivial = n >= 2;
    c.describe(|| format!("{} frames of {} bytes, pieces of {:?}", n, b.len(), chunks));
    let (rd, g) = Live::new(Rc::new(b), chunks);
    let mut fr = FrameReader::new(BufferedReader::new(rd));
    c.runs += 1;
    for i in 0..n {
        g.limit.set(at[i + 1]);
        match read_block(&mut fr, Vec::new()) {
            Ok(Some(x)) => ensure!(x.samples == fs[i].planar(), "block", "block {} is not what was encoded", i),
            x => return fail("withheld", format!("all bytes of frame {} of {} have arrived but reading gave {:?}", i, n, x.map(|_| "the end of the stream"))),
        }
        ensure!(g.asked.get() == 0, "asked", "frame {} of {}: bytes behind it were asked for", i, n);
    }
    Ok(())
}

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let big = s.chance(1, 6);
    let mut bl = meta::gen_extra_blocks(s, big);
    if bl.is_empty() { bl.push(meta::gen_block(s, big)); }
    let n = bl.len();
    let mut b = Vec::new();
    let mut ends = Vec::new();
    for (i, m) in bl.iter_mut().enumerate() { m.last = i + 1 == n; m.emit(&mut b); ends.push(b.len()); }
    let chunks = gen_chunks(s);
    c.print(&b);
    c.print(&chunks);
    c.label("metadata");
    c.nontrivial = n >= 2;
    c.describe(|| format!("{} metadata blocks ending at {:?}, pieces of {:?}", n, ends, chunks));
    let (rd, g) = Live::new(Rc::new(b), chunks);
    let mut rd = BufferedReader::new(rd);
    c.runs += 1;
    if s.bool() {
        let mut it = MetadataBlockReader::new(&mut rd);
        for i in 0..n {
            g.limit.set(ends[i]);
            it.size_hint();
            match it.next() {
                Some(Ok(ref x)) => meta::matches(x, &bl[i].model, bl[i].body.len()).or_else(|m| fail("block", m))?,
                x => return fail("withheld", format!("all bytes of block {} have arrived but the iterator gave {:?}", i, x.map(|x| x.err().map(|e| err(&e))))),
            }
            ensure!(g.asked.get() == 0, "asked", "block {} of {}: bytes behind it were asked for", i, n);
        }
        ensure!(it.next().is_none() && g.asked.get() == 0, "asked", "the iterator read on behind the last block");
    } else {
        for i in 0..n {
            g.limit.set(ends[i]);
            match metadata::read_metadata_block_with_header(&mut rd) {
                Ok(ref x) => meta::matches(x, &bl[i].model, bl[i].body.len()).or_else(|m| fail("block", m))?,
                Err(e) => return fail("withheld", format!("all bytes of block {} have arrived but reading gave {:?}", i, err(&e))),
            }
            ensure!(g.asked.get() == 0, "asked", "block {} of {}: bytes behind it were asked for", i, n);
        }
    }
    Ok(())
}

fn bytes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = match s.draw(2) { 0 => s.urange(1, 60), 1 => s.urange(1, 5000), _ => *s.pick(&[2048usize, 4096, 4100, 2047]) };
    let d = s.bytes(n);
    let chunks = gen_chunks(s);
    c.print(&d);
    c.print(&chunks);
    c.label("bytes");
    let (rd, g) = Live::new(Rc::new(d.clone()), chunks);
    let mut rd = BufferedReader::new(rd);
    let mut p = 0;
    let mut log = Vec::new();
    for _ in 0..s.urange(1, 30) {
        let op = s.draw(8);
        let k = match s.draw(3) { 0 => s.urange(0, 9), 1 => s.urange(0, n), 2 => *s.pick(&[2048usize, 0, 2047, 1, 4096]), _ => n - p };
        let need = match op { 0 | 1 => 1, 2 | 3 => 2, 4 => 3, 5 | 6 => 4, _ => k };
        if p + need > n { continue; }
        g.limit.set(p + need);
        log.push((op, k));
        c.runs += 1;
        let got = apply(&mut rd, op, k);
        let want = if op == 8 { &[][..] } else { &d[p..p + need] };
        ensure!(matches!(got, Ok(Some(ref v)) if v == want), "withheld", "{}({}) at {}: the {} bytes it needs have arrived, it gave {:.100}", OPS[op as usize], k, p, need, format!("{:?}", got));
        ensure!(g.asked.get() == 0, "asked", "{}({}) at {}: more than {} bytes were asked for", OPS[op as usize], k, p, need);
        p += need;
        c.nontrivial = log.len() >= 2;
    }
    c.print(&log);
    c.describe(|| format!("{} bytes, {:?}", n, log));
    Ok(())
}

fn bits(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 60);
    let d = s.bytes(n);
    let chunks = gen_chunks(s);
    c.print(&d);
    c.print(&chunks);
    c.label("bits");
    let (rd, g) = Live::new(Rc::new(d.clone()), chunks);
    let mut b = Bitstream::new(BufferedReader::new(rd));
    let mut p = 0;
    let mut log = Vec::new();
    for _ in 0..s.urange(1, 60) {
        let op = s.draw(5);
        let w = match op {
            0 => 1,
            1 => match (p..8 * n).find(|&i| d[i / 8] >> (7 - i % 8) & 1 == 1) { Some(i) => i - p + 1, None => continue },
            2 => s.urange(0, 8), 3 => s.urange(9, 16), 4 => s.urange(0, 16), _ => s.urange(0, 32),
        };
        if p + w > 8 * n { continue; }
        g.limit.set((p + w + 7) / 8);
        log.push((op, w));
        c.runs += 1;
        let got = match op {
            0 => b.read_bit().map(|_| ()),
            1 => b.read_unary().map(|_| ()),
            2 => b.read_leq_u8(w as u32).map(|_| ()),
            3 => b.read_gt_u8_leq_u16(w as u32).map(|_| ()),
            4 => b.read_leq_u16(w as u32).map(|_| ()),
            _ => b.read_leq_u32(w as u32).map(|_| ()),
        };
        ensure!(got.is_ok() && g.asked.get() == 0, "withheld", "bit read {:?} at bit {}: the bytes up to {} have arrived, it gave {:?} and asked {} times for more", (op, w), p, (p + w + 7) / 8, got, g.asked.get());
        p += w;
        c.nontrivial = log.len() >= 2;
    }
    c.print(&log);
    c.describe(|| format!("{} bytes, (operation, bits) {:?}", n, log));
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.weighted(&[5, 3, 3, 2, 2]) {
        0 => stream(s, c),
        1 => frames(s, c),
        2 => blocks(s, c),
        3 => bytes(s, c),
        _ => bits(s, c),
    }
}
