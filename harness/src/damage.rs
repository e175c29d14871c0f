//! Damage: generic byte mutations, and mutations of a frame after which the
//! checksums are recomputed so that the decoder looks further than them.

use crate::gen::*;
use crate::refdec;
use crate::src::Src;

pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let times = match s.weighted(&[5, 2, 1]) { 0 => 1, 1 => s.urange(1, 4), _ => s.urange(1, 20) };
    for _ in 0..times {
        if b.is_empty() {
            b.push(s.byte());
            continue;
        }
        let n = b.len();
        // Headers are at the front: prefer the front half of the time.
        let at = if s.bool() { s.urange(0, n.min(64) - 1) } else { s.urange(0, n - 1) };
        match s.weighted(&[5, 4, 2, 2, 1, 2, 1, 1]) {
            0 => b[at] ^= 1 << s.draw(7),
            1 => b[at] = *s.pick(&[0u8, 0xff, 0x7f, 0x80, 1, 0xfe, 4, 0x84]),
            2 => b[at] = s.byte(),
            3 => {
                // a big-endian or little-endian length-like field
                let v = s.ubits(32) as u32;
                let le = s.bool();
                let k = s.urange(2, 4);
                for i in 0..k {
                    if at + i < n {
                        b[at + i] = if le { (v >> (8 * i)) as u8 } else { (v >> (8 * (k - 1 - i))) as u8 };
                    }
                }
            }
            4 => {
                let e = (at + s.urange(1, 40)).min(n);
                b.drain(at..e);
            }
            5 => {
                let k = s.urange(1, 40);
                let ins = s.bytes(k);
                for (i, x) in ins.into_iter().enumerate() { b.insert(at + i, x); }
            }
            6 => b.truncate(at),
            _ => {
                let e = (at + s.urange(1, 200)).min(n);
                let c = b[at..e].to_vec();
                let to = s.urange(0, n);
                for (i, x) in c.into_iter().enumerate() { b.insert(to + i, x); }
            }
        }
    }
}

/// Makes both checksums of the frame at `d[0..]` right if it is otherwise
/// accepted; returns its length if it then is a whole frame.
pub fn repair_by_reference(d: &mut [u8]) -> Option<usize> {
    for _ in 0..3 {
        match refdec::decode_frame(d) {
            refdec::Ref::Frame(f) => return Some(f.len),
            refdec::Ref::End => return None,
            refdec::Ref::Err(e) => {
                if e.what == "header checksum" {
                    let at = e.crc8_at.unwrap();
                    d[at] = crate::bits::crc8(&d[..at]);
                } else if e.what == "frame checksum" {
                    let at = e.crc16_at.unwrap();
                    let c = crate::bits::crc16(&d[..at]);
                    d[at] = (c >> 8) as u8;
                    d[at + 1] = c as u8;
                } else {
                    return None;
                }
            }
        }
    }
    None
}

/// A damaged frame whose checksums have been repaired where possible, plus
/// trailing bytes so that a frame whose end moved can still be parsed.
pub fn damaged_frame(s: &mut Src, f: &GenFrame) -> Vec<u8> {
    let mut b = f.bytes.clone();
    let hl = f.layout.header_len;
    let n = b.len();
    for _ in 0..(1 + s.draw(3)) {
        match s.weighted(&[3, 2, 2, 2]) {
            0 => {
                let at = s.urange(0, n - 1);
                b[at] ^= 1 << s.draw(7);
            }
            // in the header
            1 => {
                let at = s.urange(2, hl - 1);
                b[at] ^= 1 << s.draw(7);
            }
            // at the start of a subframe
            2 => {
                let i = s.urange(0, f.layout.sub_start.len() - 1);
                let bit = f.layout.sub_start[i] + s.urange(0, 60);
                if bit / 8 < n { b[bit / 8] ^= 0x80 >> (bit % 8); }
            }
            _ => {
                let at = s.urange(0, n - 1);
                b[at] = *s.pick(&[0u8, 0xff, 0x55, 0x80, 0x7f]);
            }
        }
    }
    let k = s.urange(0, 200);
    let tail = s.bytes(k);
    b.extend_from_slice(&tail);
    repair_by_reference(&mut b);
    b
}

/// Any byte string that looks more or less like a stream.
pub fn streamish(s: &mut Src, max_bs: usize) -> (Vec<u8>, &'static str) {
    match s.weighted(&[3, 4, 5, 1, 1]) {
        0 => {
            let st = gen_stream(s, &StreamOpts { max_frames: 3, max_bs, big_per_mille: 2, ..StreamOpts::default() });
            (st.bytes, "valid")
        }
        1 => {
            let st = gen_stream(s, &StreamOpts { max_frames: 3, max_bs, big_per_mille: 1, ..StreamOpts::default() });
            let mut b = st.bytes;
            mutate(s, &mut b);
            (b, "mutated")
        }
        2 => {
            // Damaged frames with repaired checksums.
            let mut st = gen_stream(s, &StreamOpts { min_frames: 1, max_frames: 3, max_bs, big_per_mille: 1, ..StreamOpts::default() });
            st.bytes.truncate(st.audio_at);
            let mut b = st.bytes;
            for f in &st.frames {
                if s.bool() {
                    b.extend(damaged_frame(s, f));
                } else {
                    b.extend_from_slice(&f.bytes);
                }
            }
            (b, "repaired")
        }
        3 => {
            // A valid front, then noise.
            let st = gen_stream(s, &StreamOpts { max_frames: 1, max_bs, big_per_mille: 0, ..StreamOpts::default() });
            let mut b = st.bytes;
            b.truncate(st.audio_at + s.urange(0, 6));
            let k = s.urange(0, 300);
            b.extend(s.bytes(k));
            (b, "noise-tail")
        }
        _ => {
            let k = s.urange(0, 400);
            (s.bytes(k), "noise")
        }
    }
}
