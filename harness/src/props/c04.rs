//! C04: ill-formed frames are format errors, unimplemented features are
//! unsupported-feature errors.

use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::route::*;
use crate::src::Src;

pub const PROP: Prop = Prop {
    id: "C04",
    case,
    rule: "A case is a valid frame with exactly one defect (31 kinds, every field), re-encoded with right checksums and followed by more data, so that the error class is known by construction; every case is non-trivial; distinct by the frame bytes.",
};

fn forced(s: &mut Src, kind: Kind, bs: usize) -> GenFrame {
    let bps = *s.pick(&BPS);
    let channels = match s.weighted(&[2, 4, 1]) { 0 => 1, 1 => 2, _ => s.urange(1, 8) };
    let variable = s.bool();
    let number = number(s, if variable { 36 } else { 31 });
    let sample_rate = sample_rate(s);
    encode_frame(s, &FrameOpts { bs, bps, channels, variable, number, sample_rate, unary_budget: 1000, kind: Some(kind) })
}

fn pred(s: &mut Src) -> Kind {
    if s.bool() { Kind::Fixed(s.draw(4) as u32) } else { Kind::Lpc(1 + s.draw(31) as u32) }
}

fn pick_sub(s: &mut Src, f: &GenFrame, ok: fn(&SubSpec) -> bool) -> Option<usize> {
    let v: Vec<usize> = (0..f.spec.subs.len()).filter(|&i| ok(&f.spec.subs[i])).collect();
    if v.is_empty() { None } else { Some(*s.pick(&v)) }
}

fn is_pred(x: &SubSpec) -> bool { matches!(x.body, Body::Pred { .. }) }
fn is_lpc(x: &SubSpec) -> bool { matches!(x.body, Body::Pred { lpc: Some(_), .. }) }

/// The coded width of subframe `i` before wasted bits.
fn width(f: &GenFrame, i: usize) -> u32 {
    f.spec.subs[i].width + f.spec.subs[i].wasted as u32
}

pub struct Defect { pub frame: GenFrame, pub spec: FrameSpec, pub unsupported: bool, pub what: &'static str }

/// `None` when the drawn frame cannot carry the drawn defect.
pub fn inject(s: &mut Src) -> Option<Defect> {
    let k = s.draw(30);
    let bs = match s.weighted(&[6, 3, 1]) { 0 => s.urange(1, 64), 1 => *s.pick(&[64usize, 128, 192, 256, 576]), _ => block_size(s, &StreamOpts { big_per_mille: 20, ..StreamOpts::default() }) };
    let f = match k {
        16..=19 | 24..=25 => { let kd = pred(s); forced(s, kd, bs.max(33)) }
        20..=23 => { let o = 1 + s.draw(31) as u32; forced(s, Kind::Lpc(o), bs.max(33)) }
        _ => gen_frame(s, 5000),
    };
    let mut sp = f.spec.clone();
    let mut unsupported = false;
    let what: &'static str = match k {
        0 => { sp.hdr.sync ^= 1 << s.draw(13); "sync-bit" }
        1 => { let v = s.draw(0x3fff) as u16; if v == 0x3ffe { return None; } sp.hdr.sync = v; "sync" }
        2 => { sp.hdr.reserved1 = 1; "reserved1" }
        3 => { sp.hdr.bs_code = 0; sp.hdr.bs_extra.clear(); "bs-code-0" }
        4 => { sp.hdr.sr_code = 15; sp.hdr.sr_extra.clear(); "sr-code-15" }
        5 => { sp.hdr.ch_code = 11 + s.draw(4) as u8; "channel-code" }
        6 => { sp.hdr.bps_code = if s.bool() { 3 } else { 7 }; "bps-code-reserved" }
        7 => { sp.hdr.bps_code = 0; unsupported = true; "bps-code-0" }
        8 => { sp.hdr.reserved2 = 1; "reserved2" }
        9 => { sp.hdr.number[0] = 0x80 | s.draw(0x3f) as u8; "number-lead-10" }
        10 => {
            sp.hdr.variable = s.bool();
            let n = s.urange(6, 7);
            sp.hdr.number = vec![0xff];
            let small = s.bool();
            for i in 0..n { sp.hdr.number.push(if small && i < n - 1 { 0x80 } else { 0x80 | s.draw(0x3f) as u8 }); }
            "number-lead-ff"
        }
        11 => {
            let len = s.urange(2, 7);
            sp.hdr.variable = true;
            sp.hdr.number = crate::bits::var_int(number(s, 36) & ((1u64 << match len { 2 => 11, 7 => 36, n => 5 * n as u64 + 1 }) - 1), len);
            let at = s.urange(1, len - 1);
            sp.hdr.number[at] = sp.hdr.number[at] & 0x3f | *s.pick(&[0u8, 0x40, 0xc0]);
            "number-continuation"
        }
        12 => {
            sp.hdr.variable = false;
            let v = match s.draw(3) { 0 => 1 << 31, 1 => 0xf_ffff_ffff, 2 => (1u64 << 32) + s.draw(100), _ => (1 << 31) + s.draw((1 << 35) - 1) };
            sp.hdr.number = crate::bits::var_int(v, 7);
            "frame-number-2^31"
        }
        13 => { sp.hdr.bs_code = 7; sp.hdr.bs_extra = vec![0xff, 0xff]; "bs-65536" }
        14 => { sp.crc8_xor = 1 + s.draw(254) as u8; "crc8" }
        15 => { sp.crc16_xor = match s.draw(2) { 0 => 1 << s.draw(15), _ => 1 + s.draw(65534) as u16 }; "crc16" }
        16 => {
            let i = pick_sub(s, &f, is_pred)?;
            if let Body::Pred { ref mut res, .. } = sp.subs[i].body { res.method = 2 + s.draw(1) as u8; }
            "residual-method"
        }
        17 => {
            // Blocks of an order that does not divide.
            let i = pick_sub(s, &f, is_pred)?;
            let bad: Vec<u8> = (1..16).filter(|&o| f.bs % (1usize << o) != 0).collect();
            if bad.is_empty() { return None; }
            let o = *s.pick(&bad);
            if let Body::Pred { ref mut res, .. } = sp.subs[i].body {
                repartition(res, o, f.bs);
            }
            "partition-order-indivisible"
        }
        18 | 19 => {
            let i = pick_sub(s, &f, is_pred)?;
            if let Body::Pred { ref mut res, .. } = sp.subs[i].body {
                let j = s.urange(0, res.parts.len() - 1);
                let bits = match s.draw(2) { 0 => 0, 1 => 31, _ => s.draw(31) as u32 };
                if k == 19 { res.method = 1 - res.method; for p in res.parts.iter_mut() { p.param = p.param.min(14); if p.vals.iter().any(|v| v.abs() > 1 << 20) { return None; } } }
                // The partition's samples as they would be stored raw.
                let m = if bits == 0 { 0 } else { (1i64 << (bits - 1)) - 1 };
                for v in res.parts[j].vals.iter_mut() { *v = (*v).max(-m).min(m); }
                res.parts[j].escape = Some(bits);
            }
            unsupported = true;
            "escape"
        }
        20 | 21 => {
            let i = pick_sub(s, &f, is_lpc)?;
            if let Body::Pred { lpc: Some(ref mut l), .. } = sp.subs[i].body {
                l.prec_code = Some(15);
                if s.bool() { l.prec = 16; }
            }
            "lpc-precision-16"
        }
        22 | 23 => {
            let i = pick_sub(s, &f, is_lpc)?;
            if let Body::Pred { lpc: Some(ref mut l), .. } = sp.subs[i].body { l.shift = -1 - s.draw(15) as i32; }
            unsupported = true;
            "negative-shift"
        }
        24 => {
            // First partition smaller than the predictor order.
            let order = 2 + s.draw(30) as usize;
            let po = 1 + s.draw(5) as u32;
            let plen = s.urange(1, order - 1);
            let bs = plen << po;
            if bs < order { return None; }
            let g = forced(s, Kind::Lpc(order as u32), bs);
            let mut sp = g.spec.clone();
            let i = pick_sub(s, &g, is_lpc)?;
            if let Body::Pred { ref mut res, .. } = sp.subs[i].body { repartition(res, po as u8, bs); }
            return Some(Defect { frame: g, spec: sp, unsupported: false, what: "partition-smaller-than-order" });
        }
        25 => {
            let i = pick_sub(s, &f, is_pred)?;
            sp.subs[i].pad = 1;
            "subframe-padding-bit"
        }
        26 => {
            let i = s.urange(0, sp.subs.len() - 1);
            sp.subs[i].pad = 1;
            "subframe-padding-bit"
        }
        27 => {
            let i = s.urange(0, sp.subs.len() - 1);
            sp.subs[i].ty = match s.draw(2) { 0 => 2 + s.draw(5) as u8, 1 => 13 + s.draw(2) as u8, _ => 16 + s.draw(15) as u8 };
            "subframe-type"
        }
        28 | 29 => {
            let i = s.urange(0, sp.subs.len() - 1);
            let w = width(&f, i) as u64;
            sp.subs[i].wasted = match s.draw(4) {
                0 => w, 1 => w + s.draw(32), 2 => *s.pick(&[31u64, 32, 33, 63, 64, 65, 255, 256, 257, 512]),
                3 => w + s.draw(3000), _ => 1 << s.draw(16),
            }.max(w);
            "wasted-bits"
        }
        _ => {
            // Predictor order larger than the block.
            let lpc = s.bool();
            let order = if lpc { 2 + s.draw(30) } else { 1 + s.draw(3) } as usize;
            let bs = s.urange(1, (order - 1).max(1));
            if bs >= order { return None; }
            let g = forced(s, Kind::Verbatim, bs);
            let mut sp = g.spec.clone();
            let i = s.urange(0, sp.subs.len() - 1);
            sp.subs[i].ty = if lpc { 31 + order as u8 } else { 8 + order as u8 };
            let warm = vec![0; order];
            sp.subs[i].body = Body::Pred {
                warm,
                lpc: if lpc { Some(LpcSpec { prec: 5, prec_code: None, shift: 0, coefs: vec![0; order] }) } else { None },
                res: ResSpec { method: 0, porder: 0, parts: vec![PartSpec { param: 0, escape: None, vals: vec![0; bs] }] },
            };
            return Some(Defect { frame: g, spec: sp, unsupported: false, what: "order-exceeds-block" });
        }
    };
    Some(Defect { frame: f, spec: sp, unsupported, what })
}

/// Cuts the residual into `2^o` partitions anyhow (as a lenient decoder might
/// expect them).
fn repartition(res: &mut ResSpec, o: u8, bs: usize) {
    let all: Vec<i64> = res.parts.iter().flat_map(|p| p.vals.iter().cloned()).collect();
    let param = res.parts.iter().map(|p| p.param).max().unwrap_or(0);
    let n = 1usize << o;
    let warm = bs - all.len();
    let plen = bs >> o;
    let mut parts = Vec::new();
    let mut at = 0;
    for i in 0..n {
        let len = if i == 0 { plen.saturating_sub(warm) } else { plen };
        let e = (at + len).min(all.len());
        let e = if i == n - 1 { all.len() } else { e };
        parts.push(PartSpec { param, escape: None, vals: all[at..e].to_vec() });
        at = e;
    }
    res.porder = o;
    res.parts = parts;
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let d = match inject(s) { Some(d) => d, None => { c.label("inapplicable"); return Ok(()); } };
    let (mut b, _) = emit_frame(&d.spec);
    let flen = b.len();
    // More data follows: another frame, zeros, ones or noise.
    match s.draw(3) {
        0 => { for _ in 0..3 { b.extend_from_slice(&d.frame.bytes); } b.extend(vec![0; 64]); }
        1 => b.extend(vec![0xffu8; 4096]),
        2 => b.extend(vec![0xaau8; 600]),
        _ => { let x = s.draw(u64::MAX); let mut r = crate::src::Rng::new(x); for _ in 0..600 { b.push(r.next() as u8); } }
    }
    c.print(&b[..flen]);
    c.label(d.what);
    c.nontrivial = true;
    c.describe(|| format!("{} in bs{} bps{} ch{} frame: {}", d.what, d.frame.bs, d.frame.bps, d.spec.hdr.ch_code, super::c02::hex(&b, 40)));
    let before = if s.chance(1, 3) { vec![] } else { gen_before(s, &d.frame) };
    match present(s, c, &before, &b)? {
        Out::Block(bd) => fail(&format!("accepted:{}", d.what), format!("a frame with defect '{}' was decoded into a block of {} x {}", d.what, bd.channels, bd.duration)),
        Out::Samples => fail(&format!("accepted:{}", d.what), format!("a frame with defect '{}' was decoded", d.what)),
        Out::End => fail("end", format!("a frame with defect '{}' was taken for the end of the stream", d.what)),
        Out::Err(E::Format(_)) if !d.unsupported => Ok(()),
        Out::Err(E::Unsupported(_)) if d.unsupported => Ok(()),
        Out::Err(e) => fail(&format!("class:{}", d.what), format!("defect '{}' gave {:?}", d.what, e)),
    }
}
