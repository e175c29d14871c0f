//! C16: bit-level reading equals reading a string of bits.

use std::io::{self, Cursor};
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::io::*;
use crate::src::Src;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};

pub const PROP: Prop = Prop {
    id: "C16",
    case,
    rule: "A case is a byte string and a sequence of bit reads (single bit, unary, fields of any legal width through every field function) until past the end, on the buffered reader, a borrowed reader or a cursor, compared with a model that indexes the bits; \
           non-trivial: at least three reads that together cross a byte boundary; distinct by bytes and reads.",
};

pub const LONG: Prop = Prop {
    id: "C16x",
    case: long,
    rule: "A case is a unary number of about 2^32 zeros from a source that produces them on the fly, at some bit offset.",
};

#[derive(Clone, Copy, Debug, Hash)]
enum Op { Bit, Unary, Leq8(u32), Gt8(u32), Leq16(u32), Leq32(u32) }

struct Model<'a> { d: &'a [u8], at: usize }

impl<'a> Model<'a> {
    fn left(&self) -> usize { self.d.len() * 8 - self.at }
    fn bit(&self, i: usize) -> u32 { (self.d[i / 8] >> (7 - i % 8) & 1) as u32 }
    /// The value and the number of bits, or `None` past the end.
    fn apply(&self, op: Op) -> Option<(u32, usize)> {
        let n = match op {
            Op::Bit => 1,
            Op::Unary => {
                let end = self.d.len() * 8;
                let i = (self.at..end).find(|&i| self.bit(i) == 1)?;
                return Some(((i - self.at) as u32, i - self.at + 1));
            }
            Op::Leq8(n) | Op::Gt8(n) | Op::Leq16(n) | Op::Leq32(n) => n as usize,
        };
        if n > self.left() { return None; }
        let mut v = 0u64;
        for i in self.at..self.at + n { v = v << 1 | self.bit(i) as u64; }
        Some((v as u32, n))
    }
    /// Where a read that gave `v` may have ended at the earliest.
    fn find(&self, op: Op, v: u32) -> Option<usize> {
        let last = self.d.len() * 8;
        let mut m = Model { d: self.d, at: self.at };
        while m.at <= last {
            match m.apply(op) {
                // Some of the zeros may be gone.
                Some((x, n)) if x == v || matches!(op, Op::Unary) && x > v => return Some(m.at + n),
                Some((x, n)) if matches!(op, Op::Unary) && x < v => m.at += n,
                Some(_) => m.at += 1,
                None => return None,
            }
        }
        None
    }
}

fn run<R: ReadBytes>(b: &mut Bitstream<R>, op: Op) -> Result<u32, E> {
    match op {
        Op::Bit => b.read_bit().map(|x| x as u32),
        Op::Unary => b.read_unary(),
        Op::Leq8(n) => b.read_leq_u8(n).map(|x| x as u32),
        Op::Gt8(n) => b.read_gt_u8_leq_u16(n),
        Op::Leq16(n) => b.read_leq_u16(n).map(|x| x as u32),
        Op::Leq32(n) => b.read_leq_u32(n),
    }.map_err(|e| ioerr(&e))
}

fn data(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[6, 2, 1]) { 0 => s.urange(0, 24), 1 => s.urange(0, 200), _ => s.urange(2040, 2060) };
    match s.draw(3) {
        0 => s.bytes(n),
        // Sparse: long unary numbers.
        1 => { let mut v = vec![0u8; n]; for _ in 0..n / 6 { let i = s.urange(0, n - 1); v[i] = 1 << s.draw(7); } v }
        2 => { let mut v = vec![0xffu8; n]; for _ in 0..n / 6 { let i = s.urange(0, n - 1); v[i] = !(1 << s.draw(7)); } v }
        _ => (0..n).map(|_| *s.pick(&[0u8, 0xff, 1, 0x80, 0x7f, 0x55])).collect(),
    }
}

fn gen_op(s: &mut Src) -> Op {
    match s.draw(5) {
        0 => Op::Bit,
        1 => Op::Unary,
        2 => Op::Leq8(s.draw(8) as u32),
        3 => Op::Gt8(s.range(9, 16) as u32),
        4 => Op::Leq16(s.draw(16) as u32),
        _ => Op::Leq32(s.draw(32) as u32),
    }
}

fn drive<R: ReadBytes>(s: &mut Src, c: &mut Ctx, d: &[u8], rd: R, what: &str) -> Result<Option<usize>, Fail> {
    let mut b = Bitstream::new(rd);
    let mut m = Model { d, at: 0 };
    let ops = match s.draw(2) { 0 => s.urange(0, 40), 1 => s.urange(0, 400), _ => 3 + d.len() };
    let fixed = if s.chance(1, 4) { Some(gen_op(s)) } else { None };
    let mut log: Vec<Op> = Vec::new();
    let mut clean = true;
    for _ in 0..ops {
        let op = match fixed { Some(o) if !s.chance(1, 6) => o, _ => gen_op(s) };
        log.push(op);
        let got = run(&mut b, op);
        c.runs += 1;
        if !clean {
            // After a failed read some bits may be gone, but what comes still
            // comes out of the rest, in order: the earliest place is taken.
            if let Ok(v) = got {
                match m.find(op, v) {
                    Some(end) => m.at = end,
                    None => return fail("past-end", format!("{}: read {} {:?} after a failed read gave {}, which is nowhere in the {} bits left", what, log.len(), op, v, m.left())),
                }
                c.label("value-after-failure");
            }
            if log.len() > 2 && s.chance(1, 3) { break; }
            continue;
        }
        match m.apply(op) {
            Some((v, n)) => {
                ensure!(got == Ok(v), "value", "{}: read {} ({:?} at bit {} of {}) gave {:?} instead of {}; reads {:?}", what, log.len(), op, m.at, d.len() * 8, got, v, &log[log.len().saturating_sub(4)..]);
                m.at += n;
            }
            None => {
                match got {
                    Err(ref e) if e.is_eof() => {}
                    ref o => return fail("past-end", format!("{}: read {} ({:?} at bit {} of {}) gave {:?} instead of an end-of-file error", what, log.len(), op, m.at, d.len() * 8, o)),
                }
                clean = false;
                c.label("past-end");
            }
        }
    }
    c.print(&log);
    c.nontrivial = log.len() >= 3 && m.at > 8;
    c.describe(|| format!("{}: {} bytes, {} reads {:?}...", what, d.len(), log.len(), &log[..log.len().min(8)]));
    Ok(if clean { Some((m.at + 7) / 8) } else { None })
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let d = data(s);
    c.print(&d);
    match s.draw(2) {
        0 => {
            let mut cur = Cursor::new(&d[..]);
            c.label("cursor");
            if let Some(n) = drive(s, c, &d, &mut cur, "cursor")? {
                ensure!(cur.position() == n as u64, "consumed", "cursor: bits up to byte {} were read but the cursor is at {}", n, cur.position());
            }
        }
        1 => {
            let chunks = gen_chunks(s);
            let mut b = BufferedReader::new(ScriptReader::new(Rc::new(d.clone()), chunks));
            c.label("borrowed-buffered");
            if let Some(n) = drive(s, c, &d, &mut b, "borrowed buffered")? {
                // The byte reader goes on right behind.
                let next = b.read_u8_or_eof().map_err(|e| ioerr(&e));
                ensure!(next == Ok(d.get(n).cloned()), "consumed", "buffered: bits up to byte {} were read but the next byte is {:?} instead of {:?}", n, next, d.get(n));
            }
        }
        _ => {
            let chunks = gen_chunks(s);
            c.label("buffered");
            drive(s, c, &d, BufferedReader::new(ScriptReader::new(Rc::new(d.clone()), chunks)), "buffered")?;
        }
    }
    Ok(())
}

/// `zeros` zero bits behind `head`, then ones.
struct Zeros { head: Vec<u8>, at: usize, bytes: u64, tail: Vec<u8> }

impl ReadBytes for Zeros {
    fn read_u8(&mut self) -> io::Result<u8> {
        if self.at < self.head.len() { self.at += 1; return Ok(self.head[self.at - 1]); }
        if self.bytes > 0 { self.bytes -= 1; return Ok(0); }
        if self.tail.is_empty() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end")); }
        Ok(self.tail.remove(0))
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { self.read_u8().map(Some) }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { for x in b { *x = self.read_u8()?; } Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { for _ in 0..n { self.read_u8()?; } Ok(()) }
}

fn long(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    // Read some bits first, so that the run starts anywhere in a byte.
    let before = s.draw(8) as u32;
    let zeros: u64 = (1u64 << 32) + s.draw(24) - 9;
    let zeros = if s.chance(1, 8) { zeros + (1 << 32) } else { zeros };
    // Ones, `zeros` zeros, a one, then a marker.
    let mut head = Vec::new();
    let mut left = zeros;
    if before > 0 && before < 8 {
        head.push(!(0xffu32 >> before) as u8);
        left -= 8 - before as u64;
    } else if before == 8 { head.push(0xff); }
    let bytes = left / 8;
    let r = (left % 8) as u32;
    let mut tail = vec![0x80u8 >> r | (0x2du32 >> (r + 1)) as u8 & (0x7f >> r)];
    tail.push(0x5a);
    let mut b = Bitstream::new(Zeros { head, at: 0, bytes, tail });
    c.print(&(before, zeros));
    c.nontrivial = true;
    c.describe(|| format!("{} zeros after {} bits", zeros, before));
    if before > 0 {
        let x = b.read_leq_u8(before).map_err(|e| ioerr(&e));
        ensure!(x == Ok((0xffu32 >> (8 - before)) as u8), "value", "head {:?}", x);
    }
    c.runs += 1;
    let got = b.read_unary().map_err(|e| ioerr(&e));
    c.label(if zeros > u32::MAX as u64 { "beyond-32-bits" } else { "below" });
    if zeros <= u32::MAX as u64 {
        if let Ok(n) = got { ensure!(n as u64 == zeros, "long-unary", "{} zeros counted as {}", zeros, n); }
    } else {
        ensure!(got.is_err(), "long-unary", "{} zeros were counted as {:?}", zeros, got);
    }
    Ok(())
}
