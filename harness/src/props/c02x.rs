//! Part of C02: unary numbers of about 2^32 zeros inside frames.

use std::io::{self, Read};

use crate::bits::*;
use crate::engine::*;
use crate::ensure;
use crate::io::*;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader};
use claxon::subframe;

pub const PROP: Prop = Prop {
    id: "C02x",
    case,
    rule: "A case is a frame or subframe whose wasted-bits or residual unary number has about 2^32 zeros, produced on the fly.",
};

/// A head, zero bytes, a tail.
struct Zeros { head: Vec<u8>, zeros: u64, tail: Vec<u8>, at: u64, eof: u32 }

impl Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let (h, z, t) = (self.head.len() as u64, self.zeros, self.tail.len() as u64);
        let n = if self.at < h {
            let n = ((h - self.at) as usize).min(b.len());
            b[..n].copy_from_slice(&self.head[self.at as usize..self.at as usize + n]);
            n
        } else if self.at < h + z {
            let n = (h + z - self.at).min(b.len() as u64) as usize;
            for x in &mut b[..n] { *x = 0; }
            n
        } else {
            let o = (self.at - h - z) as usize;
            let n = ((t as usize).saturating_sub(o)).min(b.len());
            if n > 0 { b[..n].copy_from_slice(&self.tail[o..o + n]); } else { self.eof += 1; if self.eof > 1000 { panic!("{}", SPIN); } }
            n
        };
        self.at += n as u64;
        Ok(n)
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut w = BitWriter::new();
    let sub = s.bool();
    let bs = 16u32;
    let bps = 16u32;
    if !sub {
        // A mono frame of 16 samples, 16 bits.
        w.bytes = vec![0xff, 0xf9, 0x69, 0x08, 0x00, bs as u8 - 1];
        let x = crc8(&w.bytes);
        w.bytes.push(x);
    }
    let kind = s.draw(2);
    match kind {
        // Wasted bits.
        0 => { w.put(0, 1); w.put(0, 6); w.put(1, 1); }
        // Residual, either coding.
        _ => {
            w.put(0, 1); w.put(8, 6); w.put(0, 1);
            w.put(kind - 1, 2);
            w.put(0, 4);
            let p = if kind == 1 { s.draw(14) } else { s.draw(30) };
            w.put(p, if kind == 1 { 4 } else { 5 });
        }
    }
    let used = w.bit_len() as u64;
    // Counted from here; the last byte may already hold some zeros.
    let zeros = (1u64 << 32) + s.draw(12) - 9;
    let in_head = (8 - used % 8) % 8;
    let bytes = (zeros - in_head) / 8;
    let r = (zeros - in_head) % 8;
    let mut tail = vec![0x80u8 >> r];
    tail.extend(vec![0xffu8; 64]);
    let mut src = Zeros { head: w.bytes, zeros: bytes, tail, at: 0, eof: 0 };
    c.print(&(sub, kind, zeros));
    c.nontrivial = true;
    c.runs += 1;
    c.label(match kind { 0 => "wasted-bits", 1 => "rice", _ => "rice2" });
    c.describe(|| format!("{} with {} zeros, kind {}", if sub { "subframe" } else { "frame" }, zeros, kind));
    let mut r = BufferedReader::new(&mut src);
    let res = if sub {
        let mut buf = vec![0i32; bs as usize];
        subframe::decode(&mut Bitstream::new(&mut r), bps, &mut buf).map_err(|e| err(&e)).map(|_| ())
    } else {
        FrameReader::new(&mut r).read_next_or_eof(Vec::new()).map(|_| ()).map_err(|e| err(&e))
    };
    if kind == 0 || !sub {
        ensure!(res.is_err(), "accepted", "{} zeros (kind {}) were accepted", zeros, kind);
    }
    Ok(())
}
