//! C03: a block is delivered only if both checksums of its frame are right.

use std::io::Cursor;
use std::rc::Rc;

use crate::bits::{crc16, crc8};
use crate::damage::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::refdec::{self, Ref};
use crate::route::*;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;

pub const PROP: Prop = Prop {
    id: "C03",
    case,
    rule: "A case is a frame with one of: a burst of at most 16 flipped bits, wrong checksum fields (zero, ones, swapped, other algorithm, computed over other extents), damage with only one of the two checksums made right again, arbitrary damage with both made right, or no damage at all (also with special checksum values), alone and after other frames by seven routes, or several frames read on after errors; \
           claxon's verdict is compared with the checksums of the consumed bytes computed bit by bit and with the reference decoder; non-trivial: every field before the checksum is acceptable so that a checksum decides; distinct by the frame bytes.",
};

/// Header length including the CRC-8, from the bytes alone.
fn header_len(d: &[u8]) -> Option<usize> {
    let ones = d.get(4)?.leading_ones() as usize;
    let n = if ones == 0 { 1 } else { ones };
    let bs = match d[2] >> 4 { 6 => 1, 7 => 2, _ => 0 };
    let sr = match d[2] & 15 { 12 => 1, 13 | 14 => 2, _ => 0 };
    Some(4 + n + bs + sr + 1)
}

/// Decodes the frame at the front of `d` and holds claxon to the checksums of
/// what it consumed. Returns whether it was delivered.
pub fn judge(d: &[u8], buffered: bool, c: &mut Ctx) -> Result<bool, Fail> {
    c.runs += 1;
    let mut cur = Cursor::new(d);
    let got = read_block(&mut FrameReader::new(&mut cur), Vec::new());
    let used = cur.position() as usize;
    if buffered {
        let rd = BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), vec![0]));
        let again = read_block(&mut FrameReader::new(rd), Vec::new());
        c.runs += 1;
        let same = match (&got, &again) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.same(b), _ => false };
        ensure!(same, "reader-kinds", "cursor and buffered reader disagree on frame {}", super::c02::hex(d, 40));
    }
    let reference = refdec::decode_frame(d);
    match got {
        Ok(Some(b)) => {
            let f = &d[..used];
            let hl = header_len(f).unwrap_or(0);
            ensure!(hl >= 6 && hl < used, "consumed", "delivered a block from {} bytes, header {}", used, hl);
            ensure!(crc8(&f[..hl - 1]) == f[hl - 1], "crc8", "delivered a block whose header checksum is {:#04x}, stored {:#04x}", crc8(&f[..hl - 1]), f[hl - 1]);
            let stored = (f[used - 2] as u16) << 8 | f[used - 1] as u16;
            ensure!(crc16(&f[..used - 2]) == stored, "crc16", "delivered a block whose frame checksum is {:#06x}, stored {:#06x}", crc16(&f[..used - 2]), stored);
            match reference {
                Ref::Frame(ref r) => {
                    ensure!(r.len == used, "extent", "the frame is {} bytes, {} were consumed", r.len, used);
                    if !r.garbage {
                        ensure!(b.channels as usize == r.channels && b.duration as usize == r.bs, "shape", "{} x {} versus {} x {}", b.channels, b.duration, r.channels, r.bs);
                        let flat: Vec<i64> = r.samples.iter().flat_map(|x| x.iter().cloned()).collect();
                        ensure!(flat.len() == b.samples.len(), "shape", "sample count");
                        if let Some(i) = (0..flat.len()).find(|&i| flat[i] != b.samples[i] as i64) {
                            return fail("sample", format!("sample {} of {} is {} but was decoded as {}", i, flat.len(), flat[i], b.samples[i]));
                        }
                    }
                }
                Ref::Err(ref e) => return fail("accepted", format!("delivered a block from a frame that must be rejected: {}", e.what)),
                Ref::End => return fail("accepted", "delivered a block from nothing".into()),
            }
            Ok(true)
        }
        Ok(None) => {
            ensure!(d.is_empty(), "end", "reported the end with {} bytes there", d.len());
            Ok(false)
        }
        Err(e) => {
            if let Ref::Frame(ref r) = reference {
                if !r.garbage && !r.tolerated {
                    return fail("rejected", format!("intact frame of {} bytes rejected: {:?}", r.len, e));
                }
            }
            Ok(false)
        }
    }
}

fn crc16_with(d: &[u8], poly: u16, init: u16, reflected: bool) -> u16 {
    let mut c = init;
    for &b in d {
        let b = if reflected { b.reverse_bits() } else { b };
        c ^= (b as u16) << 8;
        for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ poly } else { c << 1 }; }
    }
    if reflected { c.reverse_bits() } else { c }
}
fn crc8_with(d: &[u8], poly: u8, init: u8) -> u8 {
    let mut c = init;
    for &b in d {
        c ^= b;
        for _ in 0..8 { c = if c & 0x80 != 0 { (c << 1) ^ poly } else { c << 1 }; }
    }
    c
}

fn set16(b: &mut [u8], at: usize, v: u16) { b[at] = (v >> 8) as u8; b[at + 1] = v as u8; }

/// A small frame whose header checksum or frame checksum is `want`.
fn special_frame(s: &mut Src) -> Option<GenFrame> {
    let mut f = gen_frame(s, 32);
    let which = s.bool();
    if which {
        let want = *s.pick(&[0u8, 0xff, 1, 0x80, 0x7f]);
        let len = f.spec.hdr.number.len();
        let bits = match len { 1 => 7, n => 5 * n + 1 } as u32;
        for _ in 0..3000 {
            let v = s.draw((1 << bits.min(31)) - 1);
            f.spec.hdr.number = crate::bits::var_int(v, len);
            if crate::bits::var_int_len(v) != len { continue; }
            let (b, l) = emit_frame(&f.spec);
            if b[l.header_len - 1] == want {
                f.number = v; f.bytes = b; f.layout = l;
                return Some(f);
            }
        }
        None
    } else {
        // Vary the frame number until the CRC-16 fits: it is linear, so a few
        // of the 65536 values must be tried on a short frame.
        let want = *s.pick(&[0u16, 0xffff, 0x00ff, 0xff00, 1, 0x8005]);
        if f.bytes.len() > 60 { return None; }
        f.spec.hdr.variable = true;
        for v in 0..66_000u64 {
            let v = v + 0x1_0000;
            f.spec.hdr.number = crate::bits::var_int(v, 4);
            let (b, l) = emit_frame(&f.spec);
            let n = b.len();
            if b[n - 2] == (want >> 8) as u8 && b[n - 1] == want as u8 {
                f.number = v; f.variable = true; f.bytes = b; f.layout = l;
                return Some(f);
            }
        }
        None
    }
}

/// A damaged frame of the kinds above, in short.
fn spoil(s: &mut Src, f: &GenFrame) -> Vec<u8> {
    let mut b = f.bytes.clone();
    let hl = f.layout.header_len;
    let n = b.len();
    match s.draw(5) {
        0 => { let at = s.urange(0, n - 1); b[at] ^= 1 << s.draw(7); }
        1 => { b[hl - 1] ^= 1 + s.draw(254) as u8; let v = crc16(&b[..n - 2]); set16(&mut b, n - 2, v); }
        2 => { let v = *s.pick(&[0u16, 0xffff]); set16(&mut b, n - 2, v); }
        3 => { b[n - 1] ^= 1 + s.draw(254) as u8; }
        4 => { let at = s.urange(hl, n - 1); b[at] ^= 1 << s.draw(7); b.truncate(n); }
        _ => return damaged_frame(s, f),
    }
    b
}

/// Several frames, some damaged, read by one reader that goes on after errors:
/// whatever it delivers must have right checksums over what it consumed.
fn history(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut data = Vec::new();
    let first = gen_frame(s, 200);
    let n = s.urange(1, 6);
    let mut spoiled = 0;
    for _ in 0..n {
        let other;
        let f = if s.bool() { &first } else { other = gen_frame(s, 64); &other };
        match s.draw(5) {
            0 | 1 => data.extend_from_slice(&f.bytes),
            2 => { let k = s.urange(0, 12); let x = s.bytes(k); data.extend_from_slice(&x) }
            _ => { data.extend(spoil(s, f)); spoiled += 1; }
        }
    }
    c.print(&data);
    c.describe(|| format!("{} frames, {} of them damaged, {} bytes, read on after errors", n, spoiled, data.len()));
    c.label("history");
    c.runs += 1;
    let d = Rc::new(data);
    let pos = Rc::new(std::cell::Cell::new(0));
    let mut fr = FrameReader::new(Tracked { d: d.clone(), pos: pos.clone() });
    let mut buf = Vec::new();
    for _ in 0..30 {
        let at = pos.get();
        let reference = refdec::decode_frame(&d[at..]);
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => {
                let got = bd(&b);
                buf = if s.bool() { b.into_buffer() } else { Vec::new() };
                let f = &d[at..pos.get()];
                let hl = header_len(f).unwrap_or(0);
                ensure!(hl >= 6 && hl < f.len(), "consumed", "delivered a block from {} bytes, header {}", f.len(), hl);
                ensure!(crc8(&f[..hl - 1]) == f[hl - 1], "crc8", "delivered a block with a wrong header checksum, {} bytes into the data", at);
                let stored = (f[f.len() - 2] as u16) << 8 | f[f.len() - 1] as u16;
                ensure!(crc16(&f[..f.len() - 2]) == stored, "crc16", "delivered a block with a wrong frame checksum, {} bytes into the data", at);
                match reference {
                    Ref::Frame(ref r) => {
                        ensure!(r.len == f.len(), "extent", "the frame is {} bytes, {} were consumed", r.len, f.len());
                        let same = r.garbage || got.samples.iter().map(|&x| x as i64).eq(r.samples.iter().flat_map(|x| x.iter().cloned()));
                        ensure!(same, "sample", "a sample of the frame {} bytes into the data was decoded to another value", at);
                    }
                    _ => return fail("accepted", format!("delivered a block from what is no frame, {} bytes into the data", at)),
                }
            }
            Ok(None) => {
                ensure!(at == d.len(), "end", "reported the end with {} bytes left", d.len() - at);
                break;
            }
            Err(e) => {
                if let Ref::Frame(ref r) = reference {
                    ensure!(r.garbage || r.tolerated, "rejected", "intact frame {} bytes into the data rejected: {:?}", at, err(&e));
                }
                buf = Vec::new();
                c.nontrivial = true;
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 6) { return history(s, c); }
    let special = s.chance(1, 400);
    let f = if special {
        match special_frame(s) { Some(f) => { c.label("special-checksum"); f } None => return Ok(()) }
    } else {
        gen_frame(s, 6000)
    };
    let hl = f.layout.header_len;
    let n = f.bytes.len();
    let mut b = f.bytes.clone();
    let kind = s.weighted(&[6, 5, 5, 4, 1]);
    let mut must_reject = false;
    let mut tail = {
        let k = s.urange(0, 30);
        if s.bool() { s.bytes(k) } else { let mut t = f.bytes.clone(); t.truncate(k); t }
    };
    match kind {
        // A burst of at most 16 bits.
        0 => {
            let len = match s.draw(2) { 0 => 1, 1 => 16, _ => s.urange(1, 16) };
            let end = n * 8;
            let at = match s.draw(4) {
                0 => s.urange(0, hl * 8 - 1),
                1 => end - 1 - s.urange(0, 31.min(end - 1)),
                2 => f.layout.sub_end.saturating_sub(1) + s.urange(0, end - f.layout.sub_end),
                _ => s.urange(0, end - 1),
            }.min(end - 1);
            let len = len.min(end - at);
            // The first and last bit of a burst are wrong.
            for i in 0..len {
                if i == 0 || i == len - 1 || s.bool() {
                    b[(at + i) / 8] ^= 0x80 >> ((at + i) % 8);
                }
            }
            c.label(if at < hl * 8 { "burst:header" } else if at >= (n - 2) * 8 { "burst:footer" } else { "burst:body" });
            c.describe(|| format!("burst of {} bits at bit {} of a {} byte frame", len, at, n));
            // The end is where it was unless the reference says otherwise.
            if let Ref::Frame(r) = refdec::decode_frame(&[&b[..], &tail[..]].concat()) {
                ensure!(r.len != n, "reference", "the reference decoder accepts a burst error"); 
                c.label("burst:moved-end-accepted");
            } else {
                must_reject = true;
            }
        }
        // Wrong checksum fields on an undamaged frame.
        1 => {
            let which = s.draw(2);
            if which != 1 {
                let good = b[hl - 1];
                let bad = match s.draw(6) {
                    0 => 0, 1 => 0xff, 2 => !good, 3 => good.reverse_bits(),
                    4 => crc8_with(&b[..hl - 1], 0x07, 0xff),
                    5 => crc8_with(&b[..hl - 1], 0x31, 0),
                    _ => match s.draw(2) { 0 => crc8(&b[..hl]), 1 => crc8(&b[2..hl - 1]), _ => s.byte() },
                };
                if bad != good { must_reject = true; }
                b[hl - 1] = bad;
                // The frame checksum covers the header checksum: make it right.
                if s.chance(3, 4) {
                    let v = crc16(&b[..n - 2]);
                    set16(&mut b, n - 2, v);
                }
            }
            if which != 0 {
                let good = (b[n - 2] as u16) << 8 | b[n - 1] as u16;
                let bad = match s.draw(8) {
                    0 => 0, 1 => 0xffff, 2 => !good, 3 => good.swap_bytes(),
                    4 => crc16_with(&b[..n - 2], 0x1021, 0, false),
                    5 => crc16_with(&b[..n - 2], 0x8005, 0xffff, false),
                    6 => crc16_with(&b[..n - 2], 0x8005, 0, true),
                    7 => match s.draw(3) { 0 => crc16(&b[hl..n - 2]), 1 => crc16(&b[..hl]), 2 => crc16(&b[..n - 3]), _ => crc16(&b[..hl - 1]) },
                    _ => match s.draw(2) { 0 => good & 0xff, 1 => good & 0xff00, _ => s.draw(0xffff) as u16 },
                };
                if bad != good { must_reject = true; }
                set16(&mut b, n - 2, bad);
            }
            c.label("wrong-fields");
            c.describe(|| format!("{} byte frame, header checksum {:#x}, frame checksum {:02x}{:02x}", n, b[hl - 1], b[n - 2], b[n - 1]));
        }
        // Damage with one checksum repaired.
        2 => {
            let in_header = s.bool();
            if in_header {
                // Fields that do not influence how the rest is decoded: the
                // sample rate among table values, the number's low bits.
                let (at, bit) = match s.draw(2) {
                    0 => (4 + f.spec.hdr.number.len() - 1, s.draw(5)),
                    1 if !f.spec.hdr.sr_extra.is_empty() => (hl - 2, s.draw(7)),
                    1 => (2, 0),
                    _ => (s.urange(0, hl - 1), s.draw(7)),
                };
                b[at] ^= 1 << bit;
                let v = crc16(&b[..n - 2]);
                set16(&mut b, n - 2, v);
                c.label("header-damaged,crc16-right");
            } else {
                let at = s.urange(0, n - 3);
                b[at] ^= 1 << s.draw(7);
                if at < hl - 1 { b[hl - 1] = crc8(&b[..hl - 1]); }
                c.label("damaged,crc8-right");
            }
            must_reject = !matches!(refdec::decode_frame(&[&b[..], &tail[..]].concat()), Ref::Frame(_));
            c.describe(|| format!("{} byte frame damaged, one checksum right", n));
        }
        // Arbitrary damage, both repaired.
        3 => {
            b = damaged_frame(s, &f);
            tail.clear();
            c.label("repaired");
            c.describe(|| format!("{} byte frame damaged, checksums right: {}", n, super::c02::hex(&b, 30)));
        }
        _ => {
            c.label("intact");
            c.describe(|| format!("intact {} byte frame", n));
        }
    }
    b.extend_from_slice(&tail);
    c.print(&b);
    let buffered = s.chance(1, 4);
    let delivered = judge(&b, buffered, c)?;
    ensure!(!(must_reject && delivered), "delivered", "a damaged frame was delivered");
    if kind == 4 { ensure!(delivered, "rejected", "an intact frame was not delivered"); }
    // The same frame after others and by other routes.
    if !special && s.chance(1, 3) {
        let before = gen_before(s, &f);
        let there = match present(s, c, &before, &b)? { Out::Block(_) | Out::Samples => true, Out::End | Out::Err(_) => false };
        ensure!(!(there && !delivered), "delivered-after-others", "a damaged frame was delivered when it came after {} others", before.len());
        ensure!(!(delivered && !there), "rejected-after-others", "an intact frame was not delivered when it came after {} others", before.len());
    }
    c.nontrivial = match refdec::decode_frame(&b) {
        Ref::Frame(_) => true,
        Ref::Err(ref e) => e.what == "header checksum" || e.what == "frame checksum",
        Ref::End => false,
    };
    Ok(())
}
