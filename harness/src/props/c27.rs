//! C27: effort is proportional to the data.

use std::io::{self, Cursor, Read};
use std::process::Command;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::MetadataBlockReader;
use claxon::{subframe, FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C27",
    case,
    rule: "A case is a child process under valgrind (callgrind), which counts instructions, and in it a few workloads: a kind of input and of use, once small and once sixteen times as large (more frames, larger blocks, more or longer tags, more or longer metadata blocks, more calls, longer runs of bits), or once modest and once with large claims and buffers around the same data; instructions per unit of work (bytes, samples, calls) must stay within three times those of the small one, plus a small constant, and below a thousand; \
           non-trivial: a workload was counted at both sizes, the larger with at least 4096 units; distinct by workload and parameters.",
};

/// Counted: callgrind is told this name.
#[no_mangle]
#[inline(never)]
pub extern "Rust" fn verif_cost_probe(f: &mut dyn FnMut()) {
    f();
    std::hint::black_box(());
}

struct Fill<'a> { d: &'a [u8], pos: usize, most: usize }
impl<'a> Read for Fill<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.d.len() - self.pos).min(b.len()).min(self.most);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub const WORK: [&str; 27] = [
    "frames by block", "frames by block, fresh buffers", "frames by sample", "frames by own sample", "frames, a reader each",
    "a larger block", "passed-over metadata", "many tags", "a long tag", "a long vendor", "many metadata blocks", "an application block",
    "byte reads", "byte reads on a cursor", "skips", "bit reads", "long unary runs", "larger claims", "a larger buffer", "accessors",
    "calls after the end", "jumps among samples", "more partitions", "metadata blocks of many sizes",
    "after a large block", "many empty tags", "more lookups",
];

/// What one workload at one size did.
pub struct Done { pub units: u64, pub good: bool }

fn info(channels: u32, bps: u32) -> Info {
    Info { min_bs: 16, max_bs: 65535, min_fs: 0, max_fs: 0, rate: 44100, channels, bps, samples: 0, md5: [0; 16] }
}

fn with_head(i: Info, audio: &[u8]) -> Vec<u8> {
    let mut d = assemble(i.clone(), vec![MBlock::info(&i)], vec![], None).bytes;
    d.extend_from_slice(audio);
    d
}

fn blk(kind: u8, body: Vec<u8>) -> MBlock { MBlock { last: false, kind, body, model: Model::Opaque, claim: None } }

fn with_blocks(mut bl: Vec<MBlock>) -> Vec<u8> {
    let i = info(2, 16);
    let mut all = vec![MBlock::info(&i)];
    all.append(&mut bl);
    assemble(i, all, vec![], None).bytes
}

fn probe<F: FnMut()>(mut f: F) { verif_cost_probe(&mut f) }

fn frames(s: &mut Src) -> (Vec<GenFrame>, usize) {
    let bps = *s.pick(&BPS);
    let ch = s.urange(1, 3);
    let n = s.urange(1, 3);
    let f: Vec<GenFrame> = (0..n).map(|_| {
        let kind = *s.pick(&[Kind::Constant, Kind::Verbatim, Kind::Fixed(2), Kind::Lpc(8), Kind::Lpc(20)]);
        let o = FrameOpts { kind: Some(kind), ..FrameOpts::new(s.urange(16, 80), bps, ch) };
        let o = FrameOpts { bs: o.bs.max(20), ..o };
        encode_frame(s, &o)
    }).collect();
    (f, ch)
}

/// Prepares workload `k` at size `m` (1 or 16), counts it.
pub fn work(k: usize, s: &mut Src, m: usize) -> Done {
    let mut good = true;
    let mut units = 0u64;
    match k {
        0 | 1 | 2 | 3 | 4 | 21 => {
            let (f, _) = frames(s);
            let n = s.urange(12, 30) * m;
            let mut audio = Vec::new();
            for i in 0..n { audio.extend_from_slice(&f[i % f.len()].bytes); }
            let samples: u64 = (0..n).map(|i| (f[i % f.len()].bs * f[0].channels()) as u64).sum();
            units = audio.len() as u64 + samples;
            let d = with_head(info(f[0].channels() as u32, f[0].bps), &audio);
            let most = *s.pick(&[usize::MAX, 1, 100]);
            let fresh = s.bool();
            match k {
                0 | 1 => {
                    let mut r = FlacReader::new(Fill { d: &d, pos: 0, most }).ok();
                    probe(|| {
                        let mut buf = Vec::new();
                        let mut bl = r.as_mut().unwrap().blocks();
                        let mut count = 0;
                        loop {
                            match bl.read_next_or_eof(buf) {
                                Ok(Some(b)) => { count += b.len() as u64; buf = if k == 1 { Vec::new() } else { b.into_buffer() }; }
                                Ok(None) => break,
                                Err(_) => { good = false; break; }
                            }
                        }
                        good &= count == samples;
                    });
                }
                4 => {
                    let mut br = BufferedReader::new(Fill { d: &audio, pos: 0, most });
                    probe(|| {
                        let mut count = 0;
                        let mut buf = Vec::new();
                        for _ in 0..n {
                            match FrameReader::new(&mut br).read_next_or_eof(buf) {
                                Ok(Some(b)) => { count += b.len() as u64; buf = if fresh { Vec::new() } else { b.into_buffer() }; }
                                _ => { good = false; break; }
                            }
                        }
                        good &= count == samples;
                    });
                }
                2 => {
                    let mut r = FlacReader::new(Fill { d: &d, pos: 0, most }).ok();
                    probe(|| { let c = r.as_mut().unwrap().samples().filter(|x| x.is_ok()).count(); good &= c as u64 == samples; });
                }
                3 => {
                    let mut r = FlacReader::new(Fill { d: &d, pos: 0, most }).ok();
                    probe(|| { let c = r.take().unwrap().into_samples().filter(|x| x.is_ok()).count(); good &= c as u64 == samples; });
                }
                _ => {
                    let mut r = FlacReader::new(Fill { d: &d, pos: 0, most }).ok();
                    let step = s.urange(0, 30);
                    probe(|| {
                        let mut it = r.take().unwrap().into_samples();
                        if fresh { good &= it.count() as u64 == samples; } else { while let Some(x) = it.nth(step) { good &= x.is_ok(); } }
                    });
                }
            }
        }
        5 => {
            let bs = s.urange(64, 250) * m * 4 / 4;
            let ch = s.urange(1, 2);
            let bps = *s.pick(&BPS);
            let kind = *s.pick(&[Kind::Constant, Kind::Verbatim, Kind::Fixed(0), Kind::Fixed(3), Kind::Lpc(4), Kind::Lpc(12), Kind::Lpc(32)]);
            let o = FrameOpts { kind: Some(kind), unary_budget: bs as u64 * 2, ..FrameOpts::new(bs.max(64), bps, ch) };
            let f = encode_frame(s, &o);
            units = f.bytes.len() as u64 + (f.bs * f.channels()) as u64;
            let mut fr = FrameReader::new(Cursor::new(&f.bytes[..]));
            probe(|| { good &= matches!(fr.read_next_or_eof(Vec::new()), Ok(Some(_))); });
        }
        6 | 11 => {
            let kind = if k == 11 { 2 } else { *s.pick(&[1u8, 3, 5, 6, 100]) };
            let len = s.urange(1000, 9000) * m;
            let mut body = vec![s.byte(); len];
            if kind == 3 { body.truncate(len / 18 * 18); }
            let d = with_blocks(vec![blk(kind, body)]);
            units = d.len() as u64;
            let most = *s.pick(&[usize::MAX, 1, 100]);
            let cursor = s.bool();
            probe(|| {
                if cursor { for b in MetadataBlockReader::new(Cursor::new(&d[4..])) { good &= b.is_ok(); } }
                else { good &= FlacReader::new(Fill { d: &d, pos: 0, most }).is_ok(); }
            });
        }
        7 | 8 | 9 => {
            let n = s.urange(20, 200);
            let long = s.urange(500, 4000);
            let same = s.bool();
            let name = meta::tag_name(s);
            let (v, e): (Vec<u8>, Vec<Vec<u8>>) = match k {
                7 => (vec![b'v'; 10], (0..n * m).map(|i| format!("{}{}={}", name, if same { 0 } else { i }, i).into_bytes()).collect()),
                8 => {
                    let mut t = name.clone().into_bytes();
                    if same { t.extend(vec![b'N'; long * m]); }
                    t.push(b'=');
                    t.extend(vec![b'x'; if same { 10 } else { long * m }]);
                    (vec![b'v'; 10], vec![t])
                }
                _ => (vec![b'v'; long * m], vec![b"A=b".to_vec()]),
            };
            let d = with_blocks(vec![blk(4, meta::tag_bytes(&v, &e))]);
            let asks = 4;
            // Opening, and looking through the tags a few times.
            units = d.len() as u64 * (2 + asks);
            let needle = format!("{}{}", name, if k == 7 { "0" } else { "" });
            let use_up = s.draw(3);
            let most = *s.pick(&[usize::MAX, 1, 100]);
            let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: !s.chance(1, 6) };
            probe(|| {
                match FlacReader::new_ext(Fill { d: &d, pos: 0, most }, o) {
                    Err(_) => good = false,
                    Ok(r) => {
                        let mut c = 0;
                        for _ in 0..asks {
                            c += match use_up {
                                0 => r.get_tag(&needle).count(),
                                1 => r.get_tag("absent").count(),
                                2 => { let mut t = r.tags(); let mut n = 0; while t.nth(2).is_some() { n += 1; } n },
                                _ => r.tags().count() + r.vendor().map_or(0, |v| v.len()),
                            };
                        }
                        std::hint::black_box(c);
                    }
                }
            });
        }
        10 => {
            let n = s.urange(10, 40) * m;
            let kinds: Vec<u8> = (0..n).map(|i| [1u8, 2, 3, 6, 77][(i * 7 + n) % 5]).collect();
            let len = s.urange(0, 40);
            let d = with_blocks(kinds.iter().map(|&kk| blk(kk, vec![7; match kk { 3 => len / 18 * 18, 2 => len + 4, _ => len }])).collect());
            units = d.len() as u64;
            let it = s.bool();
            probe(|| {
                if it { for b in MetadataBlockReader::new(BufferedReader::new(Fill { d: &d[4..], pos: 0, most: usize::MAX })) { good &= b.is_ok(); } }
                else { good &= FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }).is_ok(); }
            });
        }
        22 => {
            // From 32 partitions to 8192.
            let p = if m > 1 { 13 } else { 5 };
            let part = s.urange(1, 7);
            let order = s.urange(0, part.min(4));
            let method = s.draw(1) as u8;
            let lpc = order > 0 && s.bool();
            let w = *s.pick(&BPS);
            let pattern: Vec<i64> = (0..64).map(|_| s.draw(14) as i64 - 7).collect();
            let params: Vec<u32> = (0..16).map(|_| s.draw(6) as u32).collect();
            let parts = (0..1usize << p).map(|i| PartSpec { param: params[i % 16], escape: None,
                vals: (0..part - if i == 0 { order } else { 0 }).map(|j| if lpc || order < 2 { pattern[(i * part + j) % 64] } else { 0 }).collect() }).collect();
            let bs = part << p;
            let spec = SubSpec { pad: 0, ty: if lpc { 31 + order as u8 } else { 8 + order as u8 }, wasted: 0, width: w,
                body: Body::Pred { warm: vec![0; order], lpc: if lpc { Some(LpcSpec { prec: 5, prec_code: None, shift: 4, coefs: vec![1; order] }) } else { None },
                                   res: ResSpec { method, porder: p as u8, parts } } };
            let mut bw = crate::bits::BitWriter::new();
            emit_sub(&mut bw, &spec);
            
            let d = bw.bytes;
            units = (d.len() + bs) as u64;
            let mut out = vec![0i32; bs];
            probe(|| { let q = subframe::decode(&mut Bitstream::new(Cursor::new(&d[..])), w, &mut out); good &= q.is_ok(); });
        }
        23 => {
            let n = s.urange(60, 160) * m;
            let top = s.urange(40, 160);
            // All different, if type and length are taken together.
            let d = with_blocks((0..n).map(|i| blk(match (i / top) as u8 { 0 => 1, 1 => 6, k => 10 + k }, vec![3; i % top])).collect());
            // Passing over a block costs next to nothing for each byte.
            units = d.len() as u64 / 64 + n as u64;
            let it = s.bool();
            probe(|| {
                if it { for b in MetadataBlockReader::new(BufferedReader::new(Fill { d: &d[4..], pos: 0, most: usize::MAX })) { good &= b.is_ok(); } }
                else { good &= FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }).is_ok(); }
            });
        }
        24 => {
            // The same frames, behind a small block or a large one.
            let (f, ch) = frames(s);
            let before = encode_frame(s, &FrameOpts { kind: Some(Kind::Constant), ..FrameOpts::new(if m > 1 { 65535 } else { 80 }, f[0].bps, ch) });
            let n = s.urange(60, 100);
            let mut audio = before.bytes.clone();
            for i in 0..n { audio.extend_from_slice(&f[i % f.len()].bytes); }
            let samples: u64 = (0..n).map(|i| (f[i % f.len()].bs * ch) as u64).sum();
            units = audio.len() as u64 + samples;
            let d = with_head(info(ch as u32, f[0].bps), &audio);
            let mut r = match FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }) { Ok(r) => r, Err(_) => return Done { units: 0, good: false } };
            let skip = before.bs * ch;
            match s.draw(2) {
                0 => {
                    let mut it = r.samples();
                    good &= matches!(it.nth(skip - 1), Some(Ok(_)));
                    probe(|| good &= it.by_ref().filter(|x| x.is_ok()).count() as u64 == samples);
                }
                1 => {
                    let mut it = r.into_samples();
                    good &= matches!(it.nth(skip - 1), Some(Ok(_)));
                    probe(|| good &= it.by_ref().filter(|x| x.is_ok()).count() as u64 == samples);
                }
                _ => {
                    let mut bl = r.blocks();
                    let mut buf = match bl.read_next_or_eof(Vec::new()) { Ok(Some(b)) => b.into_buffer(), _ => return Done { units: 0, good: false } };
                    probe(|| {
                        let mut c = 0u64;
                        loop {
                            match bl.read_next_or_eof(std::mem::take(&mut buf)) {
                                Ok(Some(b)) => { c += b.len() as u64; buf = b.into_buffer(); }
                                Ok(None) => break,
                                Err(_) => { good = false; break; }
                            }
                        }
                        good &= c == samples;
                    });
                }
            }
        }
        25 => {
            let n = s.urange(50, 300) * m;
            let full = s.urange(0, 3);
            let e: Vec<Vec<u8>> = (0..n).map(|i| if full > 0 && i % (full * 20) == 0 { format!("N{}=", i).into_bytes() } else { Vec::new() }).collect();
            let d = with_blocks(vec![blk(4, meta::tag_bytes(b"v", &e))]);
            units = d.len() as u64 * 2;
            let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: !s.chance(1, 6) };
            probe(|| match FlacReader::new_ext(Fill { d: &d, pos: 0, most: usize::MAX }, o) {
                Err(_) => good = false,
                Ok(r) => { std::hint::black_box(r.tags().count() + r.get_tag("N0").count()); }
            });
        }
        26 => {
            // The same tags, asked for more often; and other small questions.
            let k = s.urange(1, 30);
            let e: Vec<Vec<u8>> = (0..k).map(|i| format!("N{}=x", i).into_bytes()).collect();
            let d = with_blocks(vec![blk(4, meta::tag_bytes(b"v", &e))]);
            let r = match FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }) { Ok(r) => r, Err(_) => return Done { units: 0, good: false } };
            let n = s.urange(20, 60) * m;
            units = (n * (k + 4)) as u64;
            let how = s.draw(2);
            probe(|| {
                let mut c = 0;
                for _ in 0..n {
                    c += match how { 0 => r.get_tag("n7").count(), 1 => r.tags().count(), _ => r.streaminfo().channels as usize + r.vendor().map_or(0, |v| v.len()) + r.get_tag("nothing").count() };
                }
                std::hint::black_box(c);
            });
        }
        12 | 13 | 14 => {
            let per = match k { 14 => s.urange(0, 5000), _ => s.urange(0, 40) };
            let n = s.urange(200, 600) * m;
            let op = if k == 14 { 8 } else { s.draw(8) };
            let n = if k == 14 { n / 8 } else { n };
            let take = match op { 0 | 1 => 1, 2 | 3 => 2, 4 => 3, 5 | 6 => 4, _ => per };
            let d = vec![0x5au8; n * take];
            units = (n * take + n * 8) as u64;
            let most = if k == 14 { usize::MAX } else { *s.pick(&[usize::MAX, 1, 100]) };
            let mut go = |r: &mut dyn FnMut(usize) -> bool| for _ in 0..n { good &= r(per); };
            if k == 13 || (k == 14 && s.bool()) {
                let mut cur = Cursor::new(&d[..]);
                probe(|| go(&mut |p| super::c07::apply(&mut cur, op, p).is_ok()));
            } else {
                let mut br = BufferedReader::new(Fill { d: &d, pos: 0, most });
                probe(|| go(&mut |p| super::c07::apply(&mut br, op, p).is_ok()));
            }
        }
        15 => {
            let n = s.urange(300, 900) * m;
            let w = s.urange(1, 32) as u32;
            let d = vec![0xa5u8; n * w as usize / 8 + 8];
            units = (d.len() + n) as u64;
            let mut bits = Bitstream::new(Cursor::new(&d[..]));
            probe(|| for _ in 0..n { good &= bits.read_leq_u32(w).is_ok(); });
        }
        16 => {
            let n = s.urange(500, 2000) * m;
            let mut d = vec![0u8; n];
            d.push(1 << s.draw(7));
            units = n as u64;
            let off = s.draw(7) as u32;
            let mut bits = Bitstream::new(Cursor::new(&d[..]));
            probe(|| { good &= bits.read_leq_u32(off).is_ok(); good &= bits.read_unary().is_ok(); });
        }
        17 => {
            // The same data; larger numbers in the header of the stream.
            let (f, ch) = frames(s);
            let n = s.urange(60, 100);
            let mut audio = Vec::new();
            for i in 0..n { audio.extend_from_slice(&f[i % f.len()].bytes); }
            let samples: u64 = (0..n).map(|i| (f[i % f.len()].bs * ch) as u64).sum();
            units = audio.len() as u64 + samples;
            let big = m > 1;
            let i = Info { max_bs: if big { 65535 } else { 80 }, max_fs: if big { 0xff_ffff } else { 0 }, samples: if big { (1 << 36) - 1 } else { 0 },
                           ..info(ch as u32, f[0].bps) };
            let d = with_head(i, &audio);
            let how = s.draw(2);
            probe(|| {
                match FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }) {
                    Err(_) => good = false,
                    Ok(mut r) => {
                        let c = match how {
                            0 => r.samples().filter(|x| x.is_ok()).count(),
                            1 => r.into_samples().filter(|x| x.is_ok()).count(),
                            _ => { let mut c = 0; while let Ok(Some(b)) = r.blocks().read_next_or_eof(Vec::new()) { c += b.len() as usize; } c }
                        };
                        good &= c as u64 == samples;
                    }
                }
            });
        }
        18 => {
            // The same frames; the buffer that is handed in is larger.
            let (f, ch) = frames(s);
            let n = s.urange(60, 100);
            let mut audio = Vec::new();
            for i in 0..n { audio.extend_from_slice(&f[i % f.len()].bytes); }
            let samples: u64 = (0..n).map(|i| (f[i % f.len()].bs * ch) as u64).sum();
            units = audio.len() as u64 + samples;
            let full = s.bool();
            let cap = if m > 1 { 300_000 } else { 80 * ch };
            let mut first = Some(if full { vec![1i32; cap] } else { Vec::with_capacity(cap) });
            let mut fr = FrameReader::new(Cursor::new(&audio[..]));
            probe(|| {
                let mut buf = first.take().unwrap_or_default();
                let mut c = 0;
                loop {
                    match fr.read_next_or_eof(buf) {
                        Ok(Some(b)) => { c += b.len() as u64; buf = b.into_buffer(); }
                        Ok(None) => break,
                        Err(_) => { good = false; break; }
                    }
                }
                good &= c == samples;
            });
        }
        19 => {
            let bs = s.urange(64, 200) * m;
            let f = encode_frame(s, &FrameOpts { kind: Some(Kind::Constant), ..FrameOpts::new(bs, 16, 2) });
            let b = match FrameReader::new(Cursor::new(&f.bytes[..])).read_next_or_eof(Vec::new()) { Ok(Some(b)) => b, _ => return Done { units: 0, good: false } };
            units = 2 * bs as u64;
            let how = s.draw(4);
            probe(|| {
                let mut x = 0i64;
                match how {
                    0 => for i in 0..bs as u32 { x += b.sample(0, i) as i64 + b.sample(1, i) as i64; },
                    1 => for i in 0..bs { x += b.channel((i & 1) as u32).len() as i64; },
                    2 => for (l, r) in b.stereo_samples() { x += l as i64 ^ r as i64; },
                    3 => { let mut it = b.stereo_samples(); while let Some((l, _)) = it.nth(1) { x += l as i64; } },
                    _ => x = b.stereo_samples().count() as i64,
                }
                std::hint::black_box(x);
            });
        }
        _ => {
            let (f, ch) = frames(s);
            let calls = s.urange(300, 1000) * m;
            units = calls as u64;
            // Intact, or ending in an error.
            let mut audio = f[0].bytes.clone();
            if s.bool() { audio.truncate(audio.len() - 1); }
            let d = with_head(info(ch as u32, f[0].bps), &audio);
            let how = s.draw(2);
            let mut r = FlacReader::new(Fill { d: &d, pos: 0, most: usize::MAX }).ok();
            match how {
                0 => {
                    let mut it = r.take().unwrap().into_samples();
                    while let Some(Ok(_)) = it.next() {}
                    probe(|| for _ in 0..calls { good &= it.next().is_none(); });
                }
                1 => {
                    let mut it = r.as_mut().unwrap().samples();
                    while let Some(Ok(_)) = it.next() {}
                    probe(|| for _ in 0..calls { good &= it.next().is_none(); });
                }
                _ => {
                    let mut it = MetadataBlockReader::new(Cursor::new(&d[4..]));
                    while let Some(Ok(_)) = it.next() {}
                    probe(|| for _ in 0..calls { good &= it.next().is_none(); });
                }
            }
        }
    }
    Done { units, good }
}

/// In the child: each workload is run small (for what is set up once), small
/// and large; a line for each.
pub fn child(seed: u64, list: &[usize]) {
    for (i, &k) in list.iter().enumerate() {
        let sd = crate::src::mix(seed, i as u64);
        for m in [1usize, 1, 16] {
            match guard(|| work(k, &mut Src::random(sd), m)) {
                Ok(d) => println!("{} {} {}", k, d.units, d.good as u8),
                Err(p) => { println!("panic {} {}", p.loc, p.msg.replace('\n', " ")); return; }
            }
        }
    }
}

struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn broken(m: String) -> ! {
    eprintln!("ERROR: {}", m);
    std::process::exit(2)
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let n = s.urange(1, 10);
    let list: Vec<usize> = (0..n).map(|_| s.draw(WORK.len() as u64 - 1) as usize).collect();
    let seed = s.draw(u64::MAX);
    let dir = Dir(std::env::temp_dir().join(format!("claxon-verif-cost-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))));
    if let Err(e) = std::fs::create_dir_all(&dir.0) { broken(format!("{}", e)); }
    let out = dir.0.join("o");
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => broken(format!("{}", e)) };
    let r = Command::new("valgrind")
        .args(["--tool=callgrind", "--toggle-collect=verif_cost_probe", "--dump-after=verif_cost_probe", "-q"])
        .arg(format!("--callgrind-out-file={}", out.display()))
        .arg(&exe).arg("cost").arg(seed.to_string())
        .arg(list.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","))
        .output();
    let r = match r { Ok(r) => r, Err(e) => broken(format!("valgrind: {}", e)) };
    let text = String::from_utf8_lossy(&r.stdout).to_string();
    c.describe(|| format!("workloads {:?} with seed {}", list, seed));
    c.print(&(&list, seed));
    if let Some(l) = text.lines().find(|l| l.starts_with("panic ")) { return fail("panic", format!("in a workload: {}", l)); }
    if !r.status.success() || text.lines().count() != 3 * n {
        broken(format!("the counted process ended with {:?} after {} of {} runs: {:.300}", r.status, text.lines().count(), 3 * n, String::from_utf8_lossy(&r.stderr)));
    }
    let mut rows: Vec<(u64, u64)> = Vec::new();
    for (i, l) in text.lines().enumerate() {
        let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
        if v.len() != 3 { broken(format!("line {:?}", l)); }
        let k = list[i / 3];
        ensure!(v[2] == 1, "result", "{}: valid data was not read as it is", WORK[k]);
        let dump = std::fs::read_to_string(dir.0.join(format!("o.{}", i + 1))).unwrap_or_default();
        let cost = match dump.lines().find_map(|l| l.strip_prefix("totals: ")).and_then(|x| x.trim().parse::<u64>().ok()) {
            Some(t) if t > 0 => t,
            _ => broken(format!("no count for run {}", i)),
        };
        rows.push((cost, v[1]));
    }
    for (j, &k) in list.iter().enumerate() {
        let (small, large) = (rows[3 * j + 1], rows[3 * j + 2]);
        c.runs += 3;
        c.label(WORK[k]);
        if large.1 >= 4096 { c.nontrivial = true; }
        c.describe(|| format!("{}: {:.1} per unit of {}, {:.1} of {}", WORK[k], small.0 as f64 / small.1 as f64, small.1, large.0 as f64 / large.1 as f64, large.1));
        // A larger block is coded differently; filling and copying comes in
        // strides.
        let extra = match k { 5 => 150, 11 | 19 => 8, _ => 2 };
        ensure!(large.0 as u128 * small.1 as u128 <= (3 * small.0 + extra * small.1) as u128 * large.1 as u128, format!("effort:{}", WORK[k].replace(' ', "-")),
                "{}: {} instructions for {} units of work, but {} for {}", WORK[k], small.0, small.1, large.0, large.1);
        ensure!(large.0 <= 1000 * large.1, format!("effort:{}", WORK[k].replace(' ', "-")), "{}: {} instructions for {} units of work", WORK[k], large.0, large.1);
    }
    Ok(())
}
