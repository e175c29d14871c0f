//! C21: subframes of every sample width up to 32 bits.

use std::io::Cursor;
use std::rc::Rc;

use crate::bits::BitWriter;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::refdec;
use crate::src::Src;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::subframe;

pub const PROP: Prop = Prop {
    id: "C21",
    case,
    rule: "A case is a subframe of one of all widths 1-32, encoded by the harness (decoded value must equal the encoded one), damaged, or noise (must agree with the reference decoder), at any bit offset and followed by marker bits which must be what is read next; or a batch of sign extensions against 64-bit arithmetic; \
           non-trivial: a subframe that decodes; distinct by bits.",
};

/// Decodes at bit `off` and then reads `after` bits.
fn run<R: ReadBytes>(rd: R, off: usize, width: u32, buf: &mut [i32], after: u32) -> (Result<(), E>, Option<u32>) {
    let mut b = Bitstream::new(rd);
    let mut left = off;
    while left > 0 { let n = left.min(32); b.read_leq_u32(n as u32).expect("offset bits"); left -= n; }
    let x = subframe::decode(&mut b, width, buf).map_err(|e| err(&e));
    let y = if x.is_ok() { b.read_leq_u32(after).ok() } else { None };
    (x, y)
}

fn any_reader(s: &mut Src, d: &[u8], off: usize, width: u32, buf: &mut [i32], after: u32) -> (Result<(), E>, Option<u32>) {
    match s.draw(2) {
        0 => run(Cursor::new(d), off, width, buf, after),
        1 => { let ch = gen_chunks(s); run(BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch)), off, width, buf, after) }
        _ => { let mut cur = Cursor::new(d.to_vec()); run(&mut cur, off, width, buf, after) }
    }
}

fn size(s: &mut Src) -> usize {
    if s.chance(1, 600) { return *s.pick(&[16384usize, 32768, 8192, 49152, 65535, 4096]); }
    match s.weighted(&[4, 4, 3, 1]) {
        0 => s.urange(1, 40),
        1 => s.urange(1, 200),
        2 => *s.pick(&[16usize, 32, 33, 64, 192, 256, 128, 48, 576]),
        _ => s.urange(1, 5000),
    }
}

fn extend(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    c.label("extend-sign");
    for bits in 1..=32u32 {
        for j in 0..6 {
            let m = ((1u64 << bits) - 1) as u32;
            let v = match j {
                0 => 0,
                1 => m,
                2 => m >> 1,
                3 => (m >> 1).wrapping_add(1) & m,
                _ => s.ubits(bits) as u32 & m,
            };
            c.runs += 1;
            let want = if v >> (bits - 1) & 1 == 1 { v as i64 - (1i64 << bits) } else { v as i64 };
            let got = subframe::extend_sign_u32(v, bits) as i64;
            c.print(&(bits, v));
            ensure!(got == want, "extend-sign", "{:#x} in {} bits is {} instead of {}", v, bits, got, want);
        }
    }
    Ok(())
}

fn sub_spec(s: &mut Src, width: u32, n: usize) -> (SubGen, Vec<i64>) {
    let shift = if s.chance(1, 4) { s.draw(width as u64 - 1) as u32 } else { 0 };
    let x = signal(s, n, width, shift);
    let kind = match s.weighted(&[3, 2, 4]) {
        0 => None,
        1 => Some(Kind::Fixed(s.draw(4.min(n as u64)) as u32)),
        _ => { let m = 32.min(n as u64); Some(Kind::Lpc(1 + s.draw(m - 1) as u32)) }
    };
    let g = encode_sub(s, &x, width, SubOpts { unary_budget: 200_000, kind });
    (g, x)
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 60) { return extend(s, c); }
    let width = match s.weighted(&[3, 2, 2]) { 0 => 1 + s.draw(31) as u32, 1 => *s.pick(&[32u32, 31, 1, 2, 30, 25, 17]), _ => *s.pick(&[4u32, 8, 9, 12, 16, 20, 24]) };
    let n = size(s);
    let off = match s.draw(2) { 0 => 0, 1 => s.urange(0, 7), _ => s.urange(0, 50) };
    let mut w = BitWriter::new();
    for _ in 0..off { w.put(s.draw(1), 1); }
    let mode = s.weighted(&[8, 3, 1]);
    let mut buf: Vec<i32> = (0..n).map(|i| (i as i32).wrapping_mul(0x5bd1e995)).collect();
    if mode == 0 {
        let (g, x) = sub_spec(s, width, n);
        emit_sub(&mut w, &g.spec);
        let end = w.bit_len();
        let mark = s.ubits(32) as u32;
        w.put(mark as u64, 32);
        let tail = s.urange(0, 3);
        w.align(0);
        let mut d = w.bytes.clone();
        d.extend(s.bytes(tail));
        c.print(&d);
        c.print(&(width, n, off));
        c.nontrivial = true;
        c.describe(|| format!("{} samples of {} bits at bit {}: {:?}, {} wasted bits, Rice{} partition order {}", n, width, off, g.kind, g.spec.wasted, if g.rice2 { 2 } else { 1 }, g.porder));
        c.label(match g.kind { Kind::Constant => "constant", Kind::Verbatim => "verbatim", Kind::Fixed(_) => "fixed", Kind::Lpc(o) if o <= 12 => "lpc<=12", Kind::Lpc(_) => "lpc>12" });
        c.label(if width > 25 { "width:26-32" } else if width < 8 { "width:1-7" } else { "width:8-25" });
        if g.spec.wasted > 0 { c.label("wasted"); }
        if width == 32 { c.label("width:32"); }
        c.runs += 1;
        let (r, next) = any_reader(s, &d, off, width, &mut buf, 32);
        if let Err(e) = r { return fail("rejected", format!("{:?} subframe of {} samples of {} bits: {:?}", g.kind, n, width, e)); }
        if let Some(i) = (0..n).find(|&i| buf[i] as i64 != x[i]) {
            return fail("sample", format!("{:?}, width {}, wasted {}: sample {} of {} is {} instead of {}", g.kind, width, g.spec.wasted, i, n, buf[i], x[i]));
        }
        ensure!(next == Some(mark), "position", "{:?}: the 32 bits behind the subframe (bit {}) read as {:?} instead of {:#x}", g.kind, end, next, mark);
        return Ok(());
    }
    let mut d = if mode == 1 {
        let (g, _) = sub_spec(s, width, n);
        emit_sub(&mut w, &g.spec);
        w.align(0);
        let mut d = w.bytes.clone();
        let k = s.urange(1, 3);
        for _ in 0..k {
            let near = s.chance(1, 2);
            let hi = if near { (d.len() - 1).min(off / 8 + 8) } else { d.len() - 1 };
            let i = s.urange((off / 8).min(hi), hi);
            match s.draw(2) { 0 => d[i] ^= 1 << s.draw(7), 1 => d[i] = s.byte(), _ => d[i] = *s.pick(&[0u8, 0xff]) }
        }
        c.label("damaged");
        d
    } else {
        let k = s.urange(1, 200);
        let rnd = s.bytes(k);
        for b in rnd { w.put(b as u64, 8); }
        w.align(0);
        let mut d = w.bytes.clone();
        // A legal first byte, mostly.
        if s.chance(3, 4) && off % 8 == 0 { let ty = *s.pick(&[0u8, 1, 8, 9, 10, 11, 12, 32, 40, 63]); d[off / 8] = ty << 1 | s.draw(1) as u8; }
        c.label("noise");
        d
    };
    let tail = s.urange(0, 40);
    d.extend(s.bytes(tail));
    c.print(&d);
    c.print(&(width, n, off));
    c.describe(|| format!("{} bytes as {} samples of {} bits at bit {}", d.len(), n, width, off));
    let want = refdec::decode_subframe(&d, off, width, n);
    let left = match want { Ok((_, e)) => (d.len() * 8 - e).min(32) as u32, _ => 32 };
    c.runs += 1;
    let (r, next) = any_reader(s, &d, off, width, &mut buf, left);
    match (want, r) {
        (Ok((o, e)), Ok(())) => {
            c.nontrivial = true;
            c.label(if o.garbage { "overflowing" } else { "decodes" });
            if !o.garbage {
                if let Some(i) = (0..n).find(|&i| buf[i] as i64 != o.samples[i]) {
                    return fail("sample", format!("sample {} is {} instead of {}", i, buf[i], o.samples[i]));
                }
            }
            let mut m = 0u64;
            for i in e..e + left as usize { m = m << 1 | (d[i / 8] >> (7 - i % 8) & 1) as u64; }
            ensure!(next == Some(m as u32), "position", "{} bits behind the subframe (bit {}) read as {:?} instead of {:#x}", left, e, next, m);
        }
        (Ok((o, _)), Err(e)) => {
            // Values that do not fit the sample width may be refused as well.
            ensure!(o.garbage, "rejected", "a subframe the reference decodes: {:?}", e);
        }
        (Err((_, why)), Ok(())) => return fail("accepted", format!("decoded although: {}", why)),
        (Err(_), Err(_)) => c.label("refused"),
    }
    Ok(())
}
