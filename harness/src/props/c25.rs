//! C25: reading is buffered.

use std::cell::Cell;
use std::io::{self, Read};
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlockReader};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C25",
    case,
    rule: "A case is a stream, a metadata sequence or a byte string behind a source that fills whatever buffer it is given and counts how often it is asked (at times after a start in which it gives little or fails, which is not counted), used through a random sequence of operations (opening, blocks, samples, metadata blocks, byte and bit reads, fills and skips of all sizes); the requests that were answered with data must not exceed one per 256 bytes delivered, plus four; \
           non-trivial: at least 4096 bytes were delivered; distinct by bytes and operations.",
};

/// Fills the buffers it is given, from a point in time on: before, it may give
/// little, or fail.
struct Full { d: Rc<Vec<u8>>, pos: usize, seen: Rc<Seen>, slow: Vec<Option<usize>> }

#[derive(Default)]
struct Seen { reads: Cell<u64>, bytes: Cell<u64>, smallest: Cell<u64> }

impl Read for Full {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(x) = self.slow.pop() {
            let n = match x {
                Some(k) => k.min(b.len()).min(self.d.len() - self.pos),
                None => return Err(io::Error::new(io::ErrorKind::WouldBlock, "not yet")),
            };
            b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        let n = (self.d.len() - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        if n > 0 {
            let s = &self.seen;
            s.reads.set(s.reads.get() + 1);
            s.bytes.set(s.bytes.get() + n as u64);
            if s.smallest.get() == 0 || (b.len() as u64) < s.smallest.get() { s.smallest.set(b.len() as u64); }
        }
        Ok(n)
    }
}

fn data(s: &mut Src) -> (Vec<u8>, &'static str, bool) {
    match s.draw(5) {
        0 | 1 => {
            let st = gen_stream(s, &StreamOpts { max_frames: 6, big_per_mille: 300, many_per_mille: 30, ..StreamOpts::default() });
            (st.bytes, "stream", true)
        }
        2 => {
            // Much metadata.
            let st = gen_stream(s, &StreamOpts { max_frames: 2, ..StreamOpts::default() });
            let mut b = st.bytes[..st.audio_at].to_vec();
            let last = st.meta_at[st.blocks.len() - 1];
            b[last] &= 0x7f;
            let n = s.urange(1, 12);
            for i in 0..n {
                let mut m = match s.draw(3) {
                    0 => { let k = s.urange(0, 200); meta::gen_tags(s, k) }
                    1 => meta::gen_block(s, true),
                    _ => {
                        let kind = *s.pick(&[1u8, 2, 3, 5, 6, 90]);
                        let len = s.urange(4, 20_000);
                        meta::MBlock { last: false, kind, body: vec![s.byte(); len], model: meta::Model::Opaque, claim: None }
                    }
                };
                m.last = i + 1 == n;
                m.emit(&mut b);
            }
            b.extend_from_slice(&st.bytes[st.audio_at..]);
            (b, "metadata", true)
        }
        3 => {
            let g = gen_frame(s, 4096);
            let n = 1 + 40_000 / g.bytes.len().max(400);
            let n = s.urange(1, n);
            let mut b = Vec::new();
            for _ in 0..n { b.extend_from_slice(&g.bytes); }
            (b, "frames", false)
        }
        _ => { let n = s.urange(0, 60_000); (s.bytes(n), "bytes", false) }
    }
}

fn byte_ops<R: ReadBytes>(s: &mut Src, r: &mut R, many: bool) {
    let n = if many { s.urange(0, 400) } else { s.urange(0, 40) };
    let big = s.bool();
    if many && s.chance(1, 4) {
        // The same again and again.
        let op = s.draw(super::c07::OPS.len() as u64 - 1);
        let k = s.urange(0, 100);
        for _ in 0..s.urange(100, 20_000) { if super::c07::apply(r, op, k).is_err() { return; } }
        return;
    }
    for _ in 0..n {
        let op = s.draw(super::c07::OPS.len() as u64 - 1);
        let k = if big { s.urange(0, 6000) } else { s.urange(0, 60) };
        let rep = if op < 7 || !big { s.urange(1, 60) } else { 1 };
        for _ in 0..rep { if super::c07::apply(r, op, k).is_err() { return; } }
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let (d, l, stream) = data(s);
    c.print(&d);
    let len = d.len();
    let seen = Rc::new(Seen::default());
    // A source that is slow to start with. (Failures only for uses that go on.)
    let mut slow = Vec::new();
    let mut fails = false;
    if s.chance(1, 3) {
        let most = *s.pick(&[1usize, 7, 200, 2047]);
        fails = !stream && l != "frames" && s.bool();
        for _ in 0..s.urange(1, 40) {
            slow.push(if fails && s.chance(1, 4) { None } else { Some(s.urange(1, most)) });
        }
        c.label("slow start");
    }
    let mut rd = Full { d: Rc::new(d), pos: 0, seen: seen.clone(), slow };
    let how;
    c.runs += 1;
    if stream {
        let o = FlacReaderOptions { metadata_only: s.chance(1, 5), read_vorbis_comment: !s.chance(1, 5) };
        if s.chance(1, 4) {
            how = "metadata iterator";
            rd.pos = 4;
            for _ in MetadataBlockReader::new(BufferedReader::new(rd)).take(1000) {}
        } else {
            match FlacReader::new_ext(rd, o) {
                Err(_) => how = "open",
                Ok(_) if o.metadata_only => how = "open",
                Ok(mut r) => match s.draw(3) {
                    0 => { how = "blocks"; read_blocks(&mut r.blocks()); }
                    1 => { how = "samples"; read_samples(&mut r.samples()); }
                    2 => { how = "own samples"; read_samples(&mut r.into_samples()); }
                    _ => {
                        how = "one block at a time";
                        while let Ok(Some(b)) = r.blocks().read_next_or_eof(Vec::new()) { drop(b); }
                    }
                },
            }
        }
    } else if l == "frames" {
        how = "frames";
        let mut b = BufferedReader::new(rd);
        if s.bool() { read_blocks(&mut FrameReader::new(b)); } else { read_blocks(&mut FrameReader::new(&mut b)); }
    } else {
        let mut b = BufferedReader::new(rd);
        if fails { for _ in 0..s.urange(1, 200) { let _ = super::c07::apply(&mut b, s.draw(3), 1); } }
        match s.draw(4) {
            0 => { how = "bytes"; byte_ops(s, &mut b, true); }
            1 => { how = "borrowed bytes"; byte_ops(s, &mut &mut b, true); }
            2 => {
                how = "bits";
                let mut bits = Bitstream::new(&mut b);
                let n = s.urange(1, 5000);
                let w = s.urange(1, 32) as u32;
                for _ in 0..n { if bits.read_leq_u32(w).is_err() || bits.read_unary().is_err() { break; } }
            }
            3 => {
                how = "skips";
                let n = s.urange(1, 100);
                for _ in 0..n {
                    let k = s.urange(0, 3000);
                    if b.skip(k as u32).is_err() { break; }
                    byte_ops(s, &mut b, false);
                }
            }
            _ => {
                how = "a block";
                let ty = s.draw(6) as u8;
                let _ = metadata::read_metadata_block(&mut b, ty, len as u32);
            }
        }
    }
    let (reads, bytes) = (seen.reads.get(), seen.bytes.get());
    c.label(how);
    c.print(how);
    c.nontrivial = bytes >= 4096;
    c.describe(|| format!("{} of {} bytes by {}: {} bytes in {} reads", l, len, how, bytes, reads));
    ensure!(reads <= bytes / 256 + 4, "unbuffered", "{} bytes of a source that fills every buffer took {} reads by {} (the smallest buffer was of {} bytes)", bytes, reads, how, seen.smallest.get());
    Ok(())
}
