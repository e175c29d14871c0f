//! FLAC frame and stream generator: an encoder that makes random legal coding
//! choices, written from the format specification. The `Spec` types describe
//! every field of a frame, legal or not, so that a defect can be injected and
//! the frame re-encoded with correct checksums.

use crate::bits::{crc16, crc8, var_int, var_int_len, BitWriter};
use crate::src::{Rng, Src};

// ---------------------------------------------------------------- specs

#[derive(Clone, Debug)]
pub struct HeaderSpec {
    pub sync: u16,
    pub reserved1: u8,
    pub variable: bool,
    pub bs_code: u8,
    pub sr_code: u8,
    pub ch_code: u8,
    pub bps_code: u8,
    pub reserved2: u8,
    pub number: Vec<u8>,
    pub bs_extra: Vec<u8>,
    pub sr_extra: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct PartSpec {
    pub param: u32,
    /// Escape: raw residuals of this many bits.
    pub escape: Option<u32>,
    pub vals: Vec<i64>,
}

#[derive(Clone, Debug)]
pub struct ResSpec {
    pub method: u8,
    pub porder: u8,
    pub parts: Vec<PartSpec>,
}

#[derive(Clone, Debug)]
pub struct LpcSpec {
    pub prec: u32,
    /// Overrides the 4-bit code if set.
    pub prec_code: Option<u8>,
    pub shift: i32,
    pub coefs: Vec<i32>,
}

#[derive(Clone, Debug)]
pub enum Body {
    Constant(i64),
    Verbatim(Vec<i64>),
    Pred { warm: Vec<i64>, lpc: Option<LpcSpec>, res: ResSpec },
}

#[derive(Clone, Debug)]
pub struct SubSpec {
    pub pad: u8,
    pub ty: u8,
    /// Number of wasted bits as coded (0: flag clear).
    pub wasted: u64,
    /// Width of the stored samples.
    pub width: u32,
    pub body: Body,
}

#[derive(Clone, Debug)]
pub struct FrameSpec {
    pub hdr: HeaderSpec,
    pub subs: Vec<SubSpec>,
    pub pad_fill: u8,
    /// Xor masks on the checksums (0: correct).
    pub crc8_xor: u8,
    pub crc16_xor: u16,
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// Header bytes including the CRC-8.
    pub header_len: usize,
    /// First bit of each subframe.
    pub sub_start: Vec<usize>,
    /// First bit behind the last subframe.
    pub sub_end: usize,
}

fn zigzag(v: i64) -> u64 {
    if v < 0 { (-(v + 1) as u64) * 2 + 1 } else { v as u64 * 2 }
}

pub fn emit_sub(w: &mut BitWriter, s: &SubSpec) {
    w.put(s.pad as u64, 1);
    w.put(s.ty as u64, 6);
    if s.wasted == 0 {
        w.put(0, 1);
    } else {
        w.put(1, 1);
        w.unary(s.wasted - 1);
    }
    match s.body {
        Body::Constant(v) => w.put_signed(v, s.width),
        Body::Verbatim(ref vs) => {
            for &v in vs {
                w.put_signed(v, s.width);
            }
        }
        Body::Pred { ref warm, ref lpc, ref res } => {
            for &v in warm {
                w.put_signed(v, s.width);
            }
            if let Some(ref l) = *lpc {
                w.put(l.prec_code.map(|c| c as u64).unwrap_or(l.prec as u64 - 1), 4);
                w.put_signed(l.shift as i64, 5);
                for &c in &l.coefs {
                    w.put_signed(c as i64, l.prec);
                }
            }
            w.put(res.method as u64, 2);
            w.put(res.porder as u64, 4);
            let pbits = if res.method == 0 { 4 } else { 5 };
            for p in &res.parts {
                if let Some(raw) = p.escape {
                    w.put((1 << pbits) - 1, pbits);
                    w.put(raw as u64, 5);
                    for &v in &p.vals {
                        w.put_signed(v, raw);
                    }
                } else {
                    w.put(p.param as u64, pbits);
                    for &v in &p.vals {
                        let z = zigzag(v);
                        w.unary(z >> p.param);
                        w.put(z & ((1u64 << p.param) - 1), p.param);
                    }
                }
            }
        }
    }
}

pub fn emit_frame(f: &FrameSpec) -> (Vec<u8>, Layout) {
    let h = &f.hdr;
    let mut w = BitWriter::new();
    w.put(h.sync as u64, 14);
    w.put(h.reserved1 as u64, 1);
    w.put(h.variable as u64, 1);
    w.put(h.bs_code as u64, 4);
    w.put(h.sr_code as u64, 4);
    w.put(h.ch_code as u64, 4);
    w.put(h.bps_code as u64, 3);
    w.put(h.reserved2 as u64, 1);
    for &b in h.number.iter().chain(&h.bs_extra).chain(&h.sr_extra) {
        w.put(b as u64, 8);
    }
    let c = crc8(&w.bytes) ^ f.crc8_xor;
    w.put(c as u64, 8);
    let mut l = Layout { header_len: w.bytes.len(), ..Layout::default() };
    for s in &f.subs {
        l.sub_start.push(w.bit_len());
        emit_sub(&mut w, s);
    }
    l.sub_end = w.bit_len();
    w.align(f.pad_fill);
    let c = crc16(&w.bytes) ^ f.crc16_xor;
    w.put(c as u64, 16);
    (w.bytes, l)
}

/// Recomputes both checksums of a frame whose header (with CRC-8) is
/// `header_len` bytes.
pub fn repair(frame: &mut [u8], header_len: usize) {
    let n = frame.len();
    if header_len >= 1 && header_len <= n {
        frame[header_len - 1] = crc8(&frame[..header_len - 1]);
    }
    if n >= 2 {
        let c = crc16(&frame[..n - 2]);
        frame[n - 2] = (c >> 8) as u8;
        frame[n - 1] = c as u8;
    }
}

// ---------------------------------------------------------------- signals

fn clampw(v: i64, width: u32) -> i64 {
    let m = 1i64 << (width - 1);
    v.max(-m).min(m - 1)
}

/// A signal of `n` samples in `width` bits, all multiples of `1 << shift`.
pub fn signal(s: &mut Src, n: usize, width: u32, shift: u32) -> Vec<i64> {
    let w = width - shift.min(width - 1);
    let shift = width - w;
    let max = (1i64 << (w - 1)) - 1;
    let min = -(1i64 << (w - 1));
    let kind = s.weighted(&[2, 2, 3, 3, 3, 2, 2, 3, 2, 2, 2]);
    let amp_bits = s.urange(0, w as usize) as u32;
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    let mut noise = move |bits: u32| -> i64 {
        if bits == 0 { 0 } else {
            let x = r.next();
            ((x & ((1u64 << bits) - 1)) as i64) - (1i64 << (bits - 1))
        }
    };
    let mut out: Vec<i64> = Vec::with_capacity(n);
    match kind {
        0 => out.resize(n, 0),
        1 => {
            let c = match s.draw(4) {
                0 => max, 1 => min, 2 => if s.bool() { -1 } else { s.range(min, max) }, 3 => 1.min(max),
                _ => clampw(noise(amp_bits), w),
            };
            out.resize(n, c);
        }
        // small noise
        2 => for _ in 0..n { out.push(clampw(noise(amp_bits.min(4)), w)) },
        // noise of any amplitude
        3 => for _ in 0..n { out.push(clampw(noise(amp_bits), w)) },
        // smooth: second-order integrator, reflecting
        4 => {
            let mut v = 0i64;
            let mut d = noise(amp_bits / 2 + 1);
            for _ in 0..n {
                out.push(clampw(v, w));
                d += noise(2);
                v += d;
                if v > max || v < min {
                    d = -d / 2;
                    v = clampw(v, w);
                }
            }
        }
        // ramp (wrapping around)
        5 => {
            let step = noise(amp_bits) | 1;
            let mut v = 0i64;
            let m = (1i128 << w) as i128;
            for _ in 0..n {
                out.push(v);
                v = ((v as i128 + step as i128 - min as i128).rem_euclid(m) + min as i128) as i64;
            }
        }
        // full-scale square
        6 => {
            let half = s.urange(1, 9);
            for i in 0..n { out.push(if (i / half) % 2 == 0 { max } else { min }) }
        }
        // extremes only
        7 => {
            let special = if s.bool() { clampw(1, w) } else { s.range(min, max) };
            for _ in 0..n {
                let x = noise(3);
                out.push(match x { -4 | -3 => min, -2 => max, -1 => -1, 0 => 0, 1 => max, 2 => min, _ => special })
            }
        },
        // impulses in silence
        8 => for _ in 0..n { let x = noise(5); out.push(if x == 0 { clampw(noise(w), w) } else { 0 }) },
        // sine-like: integer resonator
        9 => {
            let amp = (1i64 << amp_bits.min(w - 1)) - 1;
            let period = s.urange(4, 200) as i64;
            for i in 0..n {
                // triangle-parabola approximation of a sine
                let ph = (i as i64 % period) * 4096 / period;
                let x = if ph < 2048 { ph } else { 4095 - ph };
                let y = (x * (2048 - x.min(2048))) / 256 - 2048;
                out.push(clampw(amp * y / 4096 + noise(amp_bits.min(3)), w));
            }
        }
        // polynomial of low degree
        _ => {
            let (a, b, c) = (noise(amp_bits), noise(amp_bits.min(6)), noise(2));
            for i in 0..n {
                let i = i as i64;
                let v = (a as i128 + b as i128 * i as i128 + c as i128 * (i * i) as i128)
                    .max(min as i128).min(max as i128);
                out.push(v as i64);
            }
        }
    }
    for v in out.iter_mut() {
        *v <<= shift;
    }
    out
}

// ---------------------------------------------------------------- subframes

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Constant, Verbatim, Fixed(u32), Lpc(u32) }

fn fixed_coefs(order: usize) -> &'static [i64] {
    match order {
        0 => &[],
        1 => &[1],
        2 => &[2, -1],
        3 => &[3, -3, 1],
        _ => &[4, -6, 4, -1],
    }
}

/// Residuals of `x` under a predictor; `None` if one does not fit.
fn residuals(x: &[i64], coefs: &[i64], shift: u32, limit_bits: u32) -> Option<Vec<i64>> {
    let o = coefs.len();
    let mut out = Vec::with_capacity(x.len() - o);
    for i in o..x.len() {
        let mut acc: i128 = 0;
        for (k, &c) in coefs.iter().enumerate() {
            acc += c as i128 * x[i - 1 - k] as i128;
        }
        let r = x[i] as i128 - (acc >> shift);
        if r < -(1i128 << (limit_bits - 1)) + 1 || r >= 1i128 << (limit_bits - 1) {
            return None;
        }
        out.push(r as i64);
    }
    Some(out)
}

fn lpc_coefs(s: &mut Src, order: usize, prec: u32, shift: u32) -> Vec<i32> {
    let hi = (1i64 << (prec - 1)) - 1;
    let lo = -(1i64 << (prec - 1));
    let mode = s.weighted(&[2, 4, 3, 2, 1]);
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    let mut c = vec![0i64; order];
    match mode {
        // all zero except perhaps one
        0 => {
            let k = r.below_incl(order as u64 - 1) as usize;
            c[k] = lo + r.below_incl((hi - lo) as u64) as i64;
        }
        // a polynomial predictor in fixed point plus dither: small residuals
        1 => {
            let f = fixed_coefs((1 + r.below_incl(3) as usize).min(order).min(4));
            for (k, &v) in f.iter().enumerate() {
                c[k] = (v << shift).max(lo).min(hi);
            }
            for v in c.iter_mut() {
                if r.below_incl(3) == 0 {
                    *v = (*v + r.below_incl(2) as i64 - 1).max(lo).min(hi);
                }
            }
        }
        // uniform
        2 => for v in c.iter_mut() { *v = lo + r.below_incl((hi - lo) as u64) as i64 },
        // extremes
        3 => for v in c.iter_mut() { *v = if r.below_incl(1) == 0 { lo } else { hi } },
        _ => for v in c.iter_mut() { *v = lo },
    }
    c.into_iter().map(|v| v as i32).collect()
}

pub struct SubGen {
    pub spec: SubSpec,
    pub kind: Kind,
    pub rice2: bool,
    pub porder: u32,
    pub max_q: u64,
    pub full_warm: bool,
}

/// Options for one subframe.
#[derive(Clone, Copy)]
pub struct SubOpts {
    /// Largest total number of unary zeros in the subframe.
    pub unary_budget: u64,
    /// Force this kind (falls back to verbatim when it cannot code `x`).
    pub kind: Option<Kind>,
}

/// Codes the partitions of `res`.
fn partition(s: &mut Src, res: &[i64], order: usize, n: usize, budget: u64) -> (ResSpec, u64) {
    // Legal partition orders.
    let mut legal = vec![0u32];
    for o in 1..16u32 {
        if n % (1usize << o) == 0 && n >> o >= order && n >> o >= 1 {
            legal.push(o);
        }
    }
    let po = match s.weighted(&[3, 3, 1]) {
        0 => 0,
        1 => *s.pick(&legal),
        _ => legal[legal.len() - 1],
    };
    let plen = n >> po;
    let nparts = 1usize << po;
    let want_rice2 = s.chance(1, 4);
    let mode = s.weighted(&[4, 2, 2, 1]);
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    let mut parts = Vec::with_capacity(nparts);
    let mut at = 0;
    let mut max_q = 0;
    let mut need2 = want_rice2;
    let share = budget / nparts as u64;
    for i in 0..nparts {
        let len = if i == 0 { plen - order } else { plen };
        let vals = res[at..at + len].to_vec();
        at += len;
        // Smallest parameter within the budget.
        let mut lo = 0u32;
        loop {
            let cost: u64 = vals.iter().map(|&v| zigzag(v) >> lo).fold(0u64, |a, b| a.saturating_add(b));
            if cost <= share.max(3 * len as u64) || lo == 30 { break; }
            lo += 1;
        }
        let sum: u64 = vals.iter().map(|&v| zigzag(v)).fold(0u64, |a, b| a.saturating_add(b));
        let mut best = 0u32;
        while best < 30 && (len as u64) << best < sum { best += 1; }
        let p = match mode {
            0 => best.max(lo),
            1 => lo,
            2 => lo + r.below_incl((30 - lo) as u64) as u32,
            _ => (best.max(lo) + r.below_incl(2) as u32).min(30),
        };
        let p = if !want_rice2 && p > 14 && lo <= 14 { lo.max(14) } else { p };
        if p > 14 { need2 = true; }
        for &v in &vals { max_q = max_q.max(zigzag(v) >> p); }
        parts.push(PartSpec { param: p, escape: None, vals });
    }
    (ResSpec { method: need2 as u8, porder: po as u8, parts }, max_q)
}

/// Codes `x` (values of `width` bits) as one subframe.
pub fn encode_sub(s: &mut Src, x: &[i64], width: u32, o: SubOpts) -> SubGen {
    let n = x.len();
    // Wasted bits: at most the common trailing zeros, and one bit must remain.
    let ored = x.iter().fold(0i64, |a, &b| a | b);
    let tz = if ored == 0 { 63 } else { ored.trailing_zeros() };
    let max_w = tz.min(width - 1);
    let wasted = if max_w == 0 { 0 } else {
        match s.draw(3) {
            0 => 0,
            1 => s.draw(max_w as u64) as u32,
            _ => max_w,
        }
    };
    let w = width - wasted;
    let y: Vec<i64> = x.iter().map(|&v| v >> wasted).collect();
    let all_same = y.iter().all(|&v| v == y[0]);

    let kind = match o.kind {
        Some(k) => k,
        None => match s.weighted(&[if all_same { 5 } else { 0 }, 2, 5, 7]) {
            0 => Kind::Constant,
            1 => Kind::Verbatim,
            2 => Kind::Fixed(s.draw(4.min(n as u64)) as u32),
            _ => {
                let m = 32.min(n as u64);
                let ord = match s.weighted(&[4, 3, 3]) {
                    0 => 1 + s.draw(12.min(m) - 1),
                    1 => *s.pick(&[1, 2, 11, 12, 13, 14, 31, 32, 8, 16]),
                    _ => 1 + s.draw(m - 1),
                };
                Kind::Lpc(ord.min(m) as u32)
            }
        },
    };
    let mut g = SubGen {
        spec: SubSpec { pad: 0, ty: 1, wasted: wasted as u64, width: w, body: Body::Verbatim(vec![]) },
        kind: Kind::Verbatim, rice2: false, porder: 0, max_q: 0, full_warm: false,
    };
    match kind {
        Kind::Constant if all_same => {
            g.spec.ty = 0;
            g.spec.body = Body::Constant(y[0]);
            g.kind = Kind::Constant;
            return g;
        }
        Kind::Fixed(order) if order as usize <= n => {
            let order = order as usize;
            if let Some(res) = residuals(&y, fixed_coefs(order), 0, 32) {
                let (r, q) = partition(s, &res, order, n, o.unary_budget);
                g.spec.ty = 8 + order as u8;
                g.rice2 = r.method == 1;
                g.porder = r.porder as u32;
                g.max_q = q;
                g.full_warm = order == n;
                g.spec.body = Body::Pred { warm: y[..order].to_vec(), lpc: None, res: r };
                g.kind = Kind::Fixed(order as u32);
                return g;
            }
        }
        Kind::Lpc(order) if order as usize <= n && order > 0 => {
            let order = order as usize;
            for attempt in 0..4 {
                let prec = *s.pick(&[15u32, 14, 12, 8, 5, 1, 2, 3, 4, 6, 7, 9, 10, 11, 13]);
                let shift = match s.draw(3) {
                    0 => 0,
                    1 => prec.saturating_sub(2).min(15),
                    2 => 15,
                    _ => s.draw(15) as u32,
                };
                let shift = if attempt == 3 { 15 } else { shift };
                let coefs = if attempt == 3 { vec![0; order] } else { lpc_coefs(s, order, prec, shift) };
                let c64: Vec<i64> = coefs.iter().map(|&c| c as i64).collect();
                if let Some(res) = residuals(&y, &c64, shift, 32) {
                    let (r, q) = partition(s, &res, order, n, o.unary_budget);
                    g.spec.ty = 31 + order as u8;
                    g.rice2 = r.method == 1;
                    g.porder = r.porder as u32;
                    g.max_q = q;
                    g.full_warm = order == n;
                    g.spec.body = Body::Pred {
                        warm: y[..order].to_vec(),
                        lpc: Some(LpcSpec { prec, prec_code: None, shift: shift as i32, coefs }),
                        res: r,
                    };
                    g.kind = Kind::Lpc(order as u32);
                    return g;
                }
            }
        }
        _ => {}
    }
    g.spec.body = Body::Verbatim(y);
    g
}

// ---------------------------------------------------------------- frames

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stereo { Independent, LeftSide, RightSide, MidSide }

#[derive(Clone, Debug)]
pub struct GenFrame {
    pub bytes: Vec<u8>,
    pub spec: FrameSpec,
    pub layout: Layout,
    pub bs: usize,
    pub bps: u32,
    /// Per channel.
    pub samples: Vec<Vec<i32>>,
    pub number: u64,
    pub variable: bool,
    pub labels: Vec<&'static str>,
}

impl GenFrame {
    pub fn channels(&self) -> usize { self.samples.len() }
    /// Channels stored consecutively.
    pub fn planar(&self) -> Vec<i32> {
        let mut v = Vec::with_capacity(self.bs * self.channels());
        for c in &self.samples { v.extend_from_slice(c); }
        v
    }
    pub fn interleaved(&self) -> Vec<i32> {
        let mut v = Vec::with_capacity(self.bs * self.channels());
        for i in 0..self.bs { for c in &self.samples { v.push(c[i]); } }
        v
    }
}

#[derive(Clone)]
pub struct FrameOpts {
    pub bs: usize,
    pub bps: u32,
    pub channels: usize,
    pub variable: bool,
    pub number: u64,
    pub sample_rate: u32,
    pub unary_budget: u64,
    /// Force all subframes to this kind where it can code the samples.
    pub kind: Option<Kind>,
}

impl FrameOpts {
    pub fn new(bs: usize, bps: u32, channels: usize) -> FrameOpts {
        FrameOpts { bs, bps, channels, variable: true, number: 0, sample_rate: 44100, unary_budget: 2000, kind: None }
    }
}

/// A frame with random parameters.
pub fn gen_frame(s: &mut Src, max_bs: usize) -> GenFrame {
    let bs = block_size(s, &StreamOpts { big_per_mille: 2, max_bs, ..StreamOpts::default() });
    let bps = *s.pick(&BPS);
    let channels = match s.weighted(&[2, 4, 1]) { 0 => 1, 1 => 2, _ => s.urange(1, 8) };
    let variable = s.bool();
    let number = number(s, if variable { 36 } else { 31 });
    let sample_rate = sample_rate(s);
    encode_frame(s, &FrameOpts { bs, bps, channels, variable, number, sample_rate, unary_budget: 2000, kind: None })
}

pub const BPS: [u32; 5] = [16, 8, 12, 20, 24];

pub fn bps_code(bps: u32) -> u8 {
    match bps { 8 => 1, 12 => 2, 16 => 4, 20 => 5, _ => 6 }
}

pub fn bs_table(code: u8) -> usize {
    match code { 1 => 192, 2..=5 => 576 << (code - 2), 8..=15 => 256 << (code - 8), _ => 0 }
}

const SR_TABLE: [u32; 12] = [0, 88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000];

pub fn encode_frame(s: &mut Src, o: &FrameOpts) -> GenFrame {
    let mut labels: Vec<&'static str> = Vec::new();
    // Header codes.
    let mut codes: Vec<u8> = (1..=15).filter(|&c| bs_table(c) == o.bs).collect();
    if o.bs <= 256 { codes.push(6); }
    codes.push(7);
    let bs_code = *s.pick(&codes);
    let bs_extra = match bs_code {
        6 => vec![(o.bs - 1) as u8],
        7 => vec![((o.bs - 1) >> 8) as u8, (o.bs - 1) as u8],
        _ => vec![],
    };
    labels.push(match bs_code { 6 => "bs:8bit", 7 => "bs:16bit", _ => "bs:table" });
    let sr = o.sample_rate;
    let mut sc: Vec<u8> = vec![0];
    for c in 1..12 { if SR_TABLE[c as usize] == sr { sc.push(c); } }
    if sr % 1000 == 0 && sr / 1000 <= 255 { sc.push(12); }
    if sr <= 65535 { sc.push(13); }
    if sr % 10 == 0 && sr / 10 <= 65535 { sc.push(14); }
    let sr_code = *s.pick(&sc);
    let sr_extra = match sr_code {
        12 => vec![(sr / 1000) as u8],
        13 => vec![(sr >> 8) as u8, sr as u8],
        14 => vec![((sr / 10) >> 8) as u8, (sr / 10) as u8],
        _ => vec![],
    };

    let stereo = if o.channels == 2 {
        *s.pick(&[Stereo::Independent, Stereo::LeftSide, Stereo::RightSide, Stereo::MidSide])
    } else {
        Stereo::Independent
    };
    // Audio.
    let shift = if s.chance(1, 5) { s.urange(1, o.bps as usize - 1) as u32 } else { 0 };
    let mut audio: Vec<Vec<i64>> = Vec::new();
    for c in 0..o.channels {
        if c > 0 && s.chance(1, 3) {
            // Correlated with the previous channel.
            let prev = audio[c - 1].clone();
            let m = s.draw(3);
            let d = signal(s, o.bs, 4, 0);
            let lim = o.bps;
            audio.push(match m {
                0 => prev,
                1 => prev.iter().map(|&v| clampw(-v, lim)).collect(),
                // Bitwise opposite: the extremes of the side channel.
                2 => prev.iter().map(|&v| !v).collect(),
                _ => prev.iter().zip(&d).map(|(&v, &e)| clampw(v + (e << shift), lim)).collect(),
            });
        } else {
            let x = signal(s, o.bs, o.bps, shift);
            audio.push(x);
        }
    }
    // Coded channels.
    let (ch_code, coded): (u8, Vec<(Vec<i64>, u32)>) = match stereo {
        Stereo::Independent => (o.channels as u8 - 1, audio.iter().map(|c| (c.clone(), o.bps)).collect()),
        _ => {
            let l = &audio[0];
            let r = &audio[1];
            let side: Vec<i64> = l.iter().zip(r).map(|(a, b)| a - b).collect();
            match stereo {
                Stereo::LeftSide => (8, vec![(l.clone(), o.bps), (side, o.bps + 1)]),
                Stereo::RightSide => (9, vec![(side, o.bps + 1), (r.clone(), o.bps)]),
                _ => {
                    let mid: Vec<i64> = l.iter().zip(r).map(|(a, b)| (a + b) >> 1).collect();
                    (10, vec![(mid, o.bps), (side, o.bps + 1)])
                }
            }
        }
    };
    labels.push(match stereo {
        Stereo::Independent => match o.channels { 1 => "ch:mono", 2 => "ch:stereo", _ => "ch:multi" },
        Stereo::LeftSide => "ch:left-side",
        Stereo::RightSide => "ch:right-side",
        Stereo::MidSide => "ch:mid-side",
    });
    let mut subs = Vec::new();
    for (x, width) in &coded {
        let g = encode_sub(s, x, *width, SubOpts { unary_budget: o.unary_budget, kind: o.kind });
        labels.push(match g.kind {
            Kind::Constant => "sub:constant",
            Kind::Verbatim => "sub:verbatim",
            Kind::Fixed(_) => "sub:fixed",
            Kind::Lpc(n) if n <= 12 => "sub:lpc<=12",
            Kind::Lpc(_) => "sub:lpc>12",
        });
        if g.rice2 { labels.push("rice2"); }
        if g.porder > 0 { labels.push("partitioned"); }
        if g.porder >= 9 { labels.push("partition-order>=9"); }
        if g.max_q >= 256 { labels.push("long-unary"); }
        if g.spec.wasted > 0 { labels.push("wasted"); }
        if g.full_warm { labels.push("no-residual"); }
        subs.push(g.spec);
    }
    let number = var_int(o.number, var_int_len(o.number));
    let spec = FrameSpec {
        hdr: HeaderSpec {
            sync: 0x3ffe, reserved1: 0, variable: o.variable, bs_code, sr_code, ch_code,
            bps_code: bps_code(o.bps), reserved2: 0, number, bs_extra, sr_extra,
        },
        subs,
        pad_fill: 0,
        crc8_xor: 0,
        crc16_xor: 0,
    };
    let (bytes, layout) = emit_frame(&spec);
    labels.push(match o.bps { 8 => "bps:8", 12 => "bps:12", 16 => "bps:16", 20 => "bps:20", _ => "bps:24" });
    GenFrame {
        bytes, spec, layout, bs: o.bs, bps: o.bps,
        samples: audio.into_iter().map(|c| c.into_iter().map(|v| v as i32).collect()).collect(),
        number: o.number, variable: o.variable, labels,
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info {
    pub min_bs: u16,
    pub max_bs: u16,
    pub min_fs: u32,
    pub max_fs: u32,
    pub rate: u32,
    pub channels: u32,
    pub bps: u32,
    pub samples: u64,
    pub md5: [u8; 16],
}

impl Info {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = BitWriter::new();
        w.put(self.min_bs as u64, 16);
        w.put(self.max_bs as u64, 16);
        w.put(self.min_fs as u64, 24);
        w.put(self.max_fs as u64, 24);
        w.put(self.rate as u64, 20);
        w.put(self.channels as u64 - 1, 3);
        w.put(self.bps as u64 - 1, 5);
        w.put(self.samples, 36);
        for &b in &self.md5 { w.put(b as u64, 8); }
        w.bytes
    }
}

#[derive(Clone, Debug)]
pub struct GenStream {
    pub bytes: Vec<u8>,
    pub info: Info,
    pub blocks: Vec<crate::meta::MBlock>,
    /// Byte offset of each metadata block (header), and then of the audio.
    pub meta_at: Vec<usize>,
    pub audio_at: usize,
    pub frames: Vec<GenFrame>,
    /// Byte offset of each frame and, last, of the end.
    pub frame_at: Vec<usize>,
    pub fixed_bs: Option<usize>,
}

#[derive(Clone)]
pub struct StreamOpts {
    pub max_frames: usize,
    pub min_frames: usize,
    /// Chance in 1000 of a large block.
    pub big_per_mille: u64,
    pub max_bs: usize,
    pub extra_meta: bool,
    pub vary_channels: bool,
    /// Number frames from zero (blocks abut).
    pub from_zero: bool,
    /// Fixed block size streams only with legal sizes (>= 16).
    pub unary_budget: u64,
    pub big_meta: bool,
    /// How often (in a thousand) a stream has many small frames.
    pub many_per_mille: u64,
}

impl Default for StreamOpts {
    fn default() -> StreamOpts {
        StreamOpts {
            max_frames: 4, min_frames: 0, big_per_mille: 10, max_bs: 65535, extra_meta: true,
            vary_channels: false, from_zero: false, unary_budget: 2000, big_meta: false, many_per_mille: 2,
        }
    }
}

pub fn block_size(s: &mut Src, o: &StreamOpts) -> usize {
    let n = if o.big_per_mille > 0 && s.chance(o.big_per_mille, 1000) {
        match s.draw(3) {
            0 => *s.pick(&[4608usize, 4096, 8192, 16384, 32768, 2304, 1152, 512, 1024, 2048]),
            1 => *s.pick(&[65535usize, 65534, 32767, 32769, 4097, 49152]),
            2 => s.urange(1, 65535),
            _ => 32768,
        }
    } else {
        match s.weighted(&[4, 6, 3, 1, 1]) {
            0 => s.urange(1, 16),
            1 => s.urange(1, 64),
            2 => 1usize << s.draw(8),
            3 => *s.pick(&[192usize, 256, 576, 255, 257, 12, 13, 32, 33]),
            _ => s.urange(1, 600),
        }
    };
    n.min(o.max_bs)
}

pub fn sample_rate(s: &mut Src) -> u32 {
    match s.draw(3) {
        0 => *s.pick(&[44100u32, 48000, 96000, 8000, 16000, 22050, 24000, 32000, 88200, 176400, 192000]),
        1 => s.urange(1, 255) as u32 * 1000,
        2 => s.urange(1, 65534) as u32 * 10,
        _ => s.urange(1, 65534) as u32,
    }
}

/// A stored number with a bias to coding-length boundaries.
pub fn number(s: &mut Src, max_bits: u32) -> u64 {
    let v = match s.draw(3) {
        0 => s.num(200),
        1 => {
            let b = *s.pick(&[7u32, 11, 16, 21, 26, 31, 36]);
            let p = 1u64 << b.min(max_bits);
            p.wrapping_add(s.draw(2)).wrapping_sub(2)
        }
        2 => s.ubits(max_bits),
        _ => s.num((1u64 << max_bits) - 1),
    };
    v & ((1u64 << max_bits) - 1)
}

pub fn gen_stream(s: &mut Src, o: &StreamOpts) -> GenStream {
    let bps = *s.pick(&BPS);
    let channels = match s.weighted(&[2, 6, 2]) { 0 => 1, 1 => 2, _ => s.urange(3, 8) };
    let rate = sample_rate(s);
    let variable = s.bool();
    let many = o.max_frames > 1 && s.chance(o.many_per_mille, 1000);
    let small = StreamOpts { max_bs: o.max_bs.min(33), big_per_mille: 0, ..o.clone() };
    let o = if many { &small } else { o };
    let nframes = if many { s.urange(10, 300) } else { s.urange(o.min_frames, o.max_frames) };
    let base_bs = block_size(s, o);
    let fixed_ok = base_bs >= 16;
    // A stream with fixed block size whose blocks are at least 16 long, or one
    // frame of any size.
    let variable = if !fixed_ok && nframes > 1 { true } else { variable };
    let start = if o.from_zero || s.chance(1, 3) { 0 } else if variable { number(s, 36) } else { number(s, 31) };

    let mut frames: Vec<GenFrame> = Vec::new();
    let mut at = start;
    for i in 0..nframes {
        let last = i + 1 == nframes;
        let bs = if variable {
            if i == 0 { base_bs } else { block_size(s, o) }
        } else if last && nframes > 1 && s.bool() {
            // A shorter last block.
            s.urange(1, base_bs)
        } else {
            base_bs
        };
        let num = if variable {
            if at + (bs as u64) < 1 << 36 { at } else { at & 0xf_ffff_ffff }
        } else {
            at & 0x7fff_ffff
        };
        let ch = if o.vary_channels && s.chance(1, 3) { s.urange(1, 8) } else { channels };
        let bps = if o.vary_channels && s.chance(1, 4) { *s.pick(&BPS) } else { bps };
        frames.push(encode_frame(s, &FrameOpts {
            bs, bps, channels: ch, variable, number: num, sample_rate: rate, unary_budget: o.unary_budget, kind: None,
        }));
        at = num + if variable { bs as u64 } else { 1 };
    }
    let fixed_bs = if !variable && fixed_ok { Some(base_bs) } else { None };
    let (min_bs, max_bs) = match fixed_bs {
        Some(n) => (n as u16, n as u16),
        None => {
            let mx = frames.iter().map(|f| f.bs).max().unwrap_or(16).max(17);
            let mn = frames.iter().take(frames.len().saturating_sub(1)).map(|f| f.bs).min().unwrap_or(16).max(16);
            if s.bool() { (16, 65535) } else if mn < mx { (mn as u16, mx as u16) } else { (16, mx as u16) }
        }
    };
    let total: u64 = frames.iter().map(|f| f.bs as u64).sum();
    let fs: Vec<u32> = frames.iter().map(|f| f.bytes.len() as u32).collect();
    let known_fs = s.bool() && !fs.is_empty();
    let info = Info {
        min_bs, max_bs,
        min_fs: if known_fs { *fs.iter().min().unwrap() } else { 0 },
        max_fs: if known_fs { *fs.iter().max().unwrap() } else { 0 },
        rate, channels: channels as u32, bps,
        samples: if s.bool() { total } else { 0 },
        md5: { let b = s.draw(255) as u8; [b; 16] },
    };
    let mut blocks = vec![crate::meta::MBlock::info(&info)];
    if o.extra_meta {
        blocks.extend(crate::meta::gen_extra_blocks(s, o.big_meta));
    }
    assemble(info, blocks, frames, fixed_bs)
}

pub fn assemble(info: Info, mut blocks: Vec<crate::meta::MBlock>, frames: Vec<GenFrame>, fixed_bs: Option<usize>) -> GenStream {
    let nb = blocks.len();
    for (i, b) in blocks.iter_mut().enumerate() { b.last = i + 1 == nb; }
    let mut bytes = b"fLaC".to_vec();
    let mut meta_at = Vec::new();
    for b in &blocks {
        meta_at.push(bytes.len());
        b.emit(&mut bytes);
    }
    let audio_at = bytes.len();
    let mut frame_at = Vec::new();
    for f in &frames {
        frame_at.push(bytes.len());
        bytes.extend_from_slice(&f.bytes);
    }
    frame_at.push(bytes.len());
    GenStream { bytes, info, blocks, meta_at, audio_at, frames, frame_at, fixed_bs }
}

impl GenStream {
    /// The time the specification gives to frame `i`.
    pub fn time(&self, i: usize) -> u64 {
        let f = &self.frames[i];
        if f.variable { f.number } else {
            f.number * self.fixed_bs.unwrap_or(f.bs) as u64
        }
    }
    pub fn describe(&self) -> String {
        let fs: Vec<String> = self.frames.iter().map(|f| {
            let subs: Vec<String> = f.spec.subs.iter().map(|x| {
                let k = match x.body {
                    Body::Constant(_) => "const".to_string(),
                    Body::Verbatim(_) => "verb".to_string(),
                    Body::Pred { ref lpc, ref res, ref warm } => format!("{}{}/m{}p{}",
                        if lpc.is_some() { "lpc" } else { "fix" }, warm.len(), res.method, res.porder),
                };
                if x.wasted > 0 { format!("{}w{}", k, x.wasted) } else { k }
            }).collect();
            format!("bs{} bps{} ch{}({}) {}{} [{}]", f.bs, f.bps, f.channels(), f.spec.hdr.ch_code,
                    if f.variable { "s" } else { "f" }, f.number, subs.join(","))
        }).collect();
        format!("{} bytes, {} meta, frames: {}", self.bytes.len(), self.blocks.len(), fs.join(" | "))
    }
}
