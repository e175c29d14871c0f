//! An independent reference decoder for single frames, written from the
//! format specification, one bit at a time, with wide arithmetic. It never
//! shares code or structure with the decoder under test.

use crate::bits::{crc16, crc8};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Eof,
    Format,
    Unsupported,
}

#[derive(Clone, Debug)]
pub struct RefFrame {
    pub channels: usize,
    pub bs: usize,
    pub bps: u32,
    pub variable: bool,
    pub number: u64,
    /// Per channel.
    pub samples: Vec<Vec<i64>>,
    pub len: usize,
    pub header_len: usize,
    /// A residual, prediction or sample left the range that any valid encoder
    /// produces: the values are not specified.
    pub garbage: bool,
    /// Some padding bit was nonzero, or a number was coded with more bytes
    /// than needed: tolerated, not specified.
    pub tolerated: bool,
}

#[derive(Clone, Debug)]
pub struct RefErr {
    pub class: Class,
    pub what: &'static str,
    /// Byte position of the header checksum, once known.
    pub crc8_at: Option<usize>,
    /// Byte position of the frame checksum, once known.
    pub crc16_at: Option<usize>,
}

pub enum Ref {
    /// No byte left.
    End,
    Frame(RefFrame),
    Err(RefErr),
}

struct Bits<'a> {
    d: &'a [u8],
    /// Position in bits.
    p: usize,
}

type R<T> = Result<T, (Class, &'static str)>;

impl<'a> Bits<'a> {
    fn bit(&mut self) -> R<u64> {
        let i = self.p / 8;
        if i >= self.d.len() {
            return Err((Class::Eof, "end of data"));
        }
        let b = (self.d[i] >> (7 - self.p % 8)) & 1;
        self.p += 1;
        Ok(b as u64)
    }
    fn get(&mut self, n: u32) -> R<u64> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bit()?;
        }
        Ok(v)
    }
    fn signed(&mut self, n: u32) -> R<i64> {
        let v = self.get(n)?;
        if n == 0 {
            return Ok(0);
        }
        Ok(if v >> (n - 1) & 1 == 1 { v as i64 - (1i64 << n) } else { v as i64 })
    }
    fn unary(&mut self) -> R<u64> {
        let mut n = 0;
        while self.bit()? == 0 {
            n += 1;
        }
        Ok(n)
    }
}

pub struct SubOut {
    pub samples: Vec<i64>,
    pub garbage: bool,
}

fn fits(v: i128, bits: u32) -> bool {
    v >= -(1i128 << (bits - 1)) && v < (1i128 << (bits - 1))
}

fn subframe(b: &mut Bits, bps: u32, bs: usize) -> R<SubOut> {
    let mut garbage = false;
    if b.bit()? != 0 {
        return Err((Class::Format, "subframe padding bit"));
    }
    let ty = b.get(6)?;
    let kind = match ty {
        0 => 0,
        1 => 1,
        8..=12 => 2,
        32..=63 => 3,
        _ => return Err((Class::Format, "reserved subframe type")),
    };
    let mut wasted = 0u64;
    if b.bit()? == 1 {
        wasted = 1 + b.unary()?;
    }
    if wasted >= bps as u64 {
        return Err((Class::Format, "wasted bits"));
    }
    let w = bps - wasted as u32;
    let mut out: Vec<i128> = Vec::with_capacity(bs);
    match kind {
        0 => {
            let v = b.signed(w)?;
            out = vec![v as i128; bs];
        }
        1 => {
            for _ in 0..bs {
                out.push(b.signed(w)? as i128);
            }
        }
        _ => {
            let order = if kind == 2 { ty - 8 } else { ty - 31 } as usize;
            if order > bs {
                return Err((Class::Format, "order exceeds block size"));
            }
            for _ in 0..order {
                out.push(b.signed(w)? as i128);
            }
            let (coefs, shift): (Vec<i128>, u32) = if kind == 2 {
                (match order {
                    0 => vec![],
                    1 => vec![1],
                    2 => vec![2, -1],
                    3 => vec![3, -3, 1],
                    _ => vec![4, -6, 4, -1],
                }, 0)
            } else {
                let prec = b.get(4)? as u32 + 1;
                if prec == 16 {
                    return Err((Class::Format, "coefficient precision"));
                }
                let sh = b.signed(5)?;
                if sh < 0 {
                    return Err((Class::Unsupported, "negative shift"));
                }
                let mut c = Vec::new();
                for _ in 0..order {
                    c.push(b.signed(prec)? as i128);
                }
                (c, sh as u32)
            };
            let method = b.get(2)?;
            if method > 1 {
                return Err((Class::Format, "residual coding method"));
            }
            let pbits = 4 + method as u32;
            let po = b.get(4)? as u32;
            let nparts = 1usize << po;
            if bs % nparts != 0 {
                return Err((Class::Format, "partition order"));
            }
            let plen = bs / nparts;
            if plen < order {
                return Err((Class::Format, "partition smaller than order"));
            }
            let mut res: Vec<i128> = Vec::with_capacity(bs - order);
            for i in 0..nparts {
                let param = b.get(pbits)? as u32;
                if param == (1 << pbits) - 1 {
                    return Err((Class::Unsupported, "escaped partition"));
                }
                let n = if i == 0 { plen - order } else { plen };
                for _ in 0..n {
                    let q = b.unary()? as u128;
                    let r = b.get(param)? as u128;
                    let z = q << param | r;
                    if z > u32::MAX as u128 {
                        garbage = true;
                    }
                    let z = z & ((1 << 100) - 1);
                    res.push(if z & 1 == 1 { -(((z >> 1) + 1) as i128) } else { (z >> 1) as i128 });
                }
            }
            for r in res {
                let mut acc: i128 = 0;
                for (k, c) in coefs.iter().enumerate() {
                    let s = out[out.len() - 1 - k];
                    acc = acc.wrapping_add(c.wrapping_mul(s));
                }
                let mut v = (acc >> shift).wrapping_add(r);
                if !fits(v, w) {
                    garbage = true;
                    // Keep the numbers from exploding; nothing is compared.
                    v = (v as i32) as i128;
                }
                out.push(v);
            }
        }
    }
    Ok(SubOut { samples: out.into_iter().map(|v| (v << wasted) as i64).collect(), garbage })
}

/// Decodes one subframe starting `bit` bits into `d`. Returns the end bit.
pub fn decode_subframe(d: &[u8], bit: usize, bps: u32, bs: usize) -> Result<(SubOut, usize), (Class, &'static str)> {
    let mut b = Bits { d, p: bit };
    let s = subframe(&mut b, bps, bs)?;
    Ok((s, b.p))
}

pub fn decode_frame(d: &[u8]) -> Ref {
    if d.is_empty() {
        return Ref::End;
    }
    let mut b = Bits { d, p: 0 };
    let mut crc8_at = None;
    let mut crc16_at = None;
    match frame(&mut b, &mut crc8_at, &mut crc16_at) {
        Ok(f) => Ref::Frame(f),
        Err((class, what)) => Ref::Err(RefErr { class, what, crc8_at, crc16_at }),
    }
}

fn frame(b: &mut Bits, crc8_at: &mut Option<usize>, crc16_at: &mut Option<usize>) -> R<RefFrame> {
    let bad = |s| Err((Class::Format, s));
    let sync = b.get(14)?;
    let res1 = b.get(1)?;
    let variable = b.get(1)? == 1;
    if sync != 0x3ffe {
        return bad("sync");
    }
    if res1 != 0 {
        return bad("reserved bit 1");
    }
    let bs_code = b.get(4)?;
    let sr_code = b.get(4)?;
    if bs_code == 0 {
        return bad("block size code 0");
    }
    if sr_code == 15 {
        return bad("sample rate code 15");
    }
    let ch_code = b.get(4)?;
    let bps_code = b.get(3)?;
    let res2 = b.get(1)?;
    if ch_code > 10 {
        return bad("channel assignment");
    }
    if bps_code == 3 || bps_code == 7 {
        return bad("sample size code");
    }
    if res2 != 0 {
        return bad("reserved bit 2");
    }
    let first = b.get(8)?;
    let ones = (first as u8).leading_ones();
    let mut number;
    let mut tolerated = false;
    match ones {
        0 => number = first,
        1 | 8 => return bad("number lead byte"),
        n => {
            number = first & (0x7f >> n);
            for _ in 1..n {
                let c = b.get(8)?;
                if c >> 6 != 2 {
                    return bad("number continuation byte");
                }
                number = number << 6 | c & 0x3f;
            }
            if crate::bits::var_int_len(number) != n as usize {
                tolerated = true;
            }
        }
    }
    if !variable && number >= 1 << 31 {
        return bad("frame number too large");
    }
    let bs = match bs_code {
        1 => 192,
        2..=5 => 576 << (bs_code - 2),
        6 => b.get(8)? as usize + 1,
        7 => {
            let v = b.get(16)? as usize;
            if v == 0xffff {
                return bad("block size 65536");
            }
            v + 1
        }
        _ => 256 << (bs_code - 8),
    };
    match sr_code {
        12 => {
            b.get(8)?;
        }
        13 | 14 => {
            b.get(16)?;
        }
        _ => {}
    }
    let hl = b.p / 8;
    *crc8_at = Some(hl);
    let c = b.get(8)? as u8;
    if c != crc8(&b.d[..hl]) {
        return bad("header checksum");
    }
    let bps = match bps_code {
        1 => 8,
        2 => 12,
        4 => 16,
        5 => 20,
        6 => 24,
        _ => return Err((Class::Unsupported, "sample size from streaminfo")),
    };
    let n = if ch_code < 8 { ch_code as usize + 1 } else { 2 };
    let mut samples = Vec::new();
    let mut garbage = false;
    for i in 0..n {
        let side = match ch_code {
            8 | 10 => i == 1,
            9 => i == 0,
            _ => false,
        };
        let s = subframe(b, bps + side as u32, bs)?;
        garbage |= s.garbage;
        samples.push(s.samples);
    }
    while b.p % 8 != 0 {
        if b.bit()? != 0 {
            tolerated = true;
        }
    }
    let at = b.p / 8;
    *crc16_at = Some(at);
    let c = b.get(16)? as u16;
    if c != crc16(&b.d[..at]) {
        return bad("frame checksum");
    }
    for k in 0..(if ch_code >= 8 { bs } else { 0 }) {
        let (a, c) = (samples[0][k], samples[1][k]);
        let (l, r) = match ch_code {
            8 => (a, a - c),
            9 => (a + c, c),
            _ => {
                let m = 2 * a + (c & 1);
                // Both sums are even.
                ((m + c) >> 1, (m - c) >> 1)
            }
        };
        samples[0][k] = l;
        samples[1][k] = r;
    }
    for c in &samples {
        for &v in c {
            if !fits(v as i128, bps) {
                garbage = true;
            }
        }
    }
    Ok(RefFrame {
        channels: n, bs, bps, variable, number, samples,
        len: b.p / 8, header_len: hl + 1, garbage, tolerated,
    })
}
