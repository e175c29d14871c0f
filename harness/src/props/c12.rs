//! C12: memory use is bounded whatever the stream claims.

use std::io::{self, Cursor, Read};
use std::rc::Rc;

use crate::alloc::{measure, Usage};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::metadata;
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C12",
    case,
    rule: "A case is a stream or metadata block whose lengths and counts are hostile or merely large, or a sequence of frames decoded with buffers of given capacity; heap use is measured by a counting allocator and compared with the bound; \
           non-trivial: a length or count was at least 4096, or a buffer was handed in for reuse; distinct by bytes.",
};

const MIB10: u32 = 10 * 1024 * 1024;
/// For everything that does not depend on the input.
const SLACK: u64 = 16 * 1024;

/// A prefix, then a repeated byte up to a total length, without storing it.
struct Padded { head: Vec<u8>, fill: u8, total: u64, pos: u64 }

impl Read for Padded {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.total - self.pos;
        let n = (buf.len() as u64).min(left) as usize;
        for (i, x) in buf[..n].iter_mut().enumerate() {
            let p = self.pos + i as u64;
            *x = if p < self.head.len() as u64 { self.head[p as usize] } else { self.fill };
        }
        self.pos += n as u64;
        Ok(n)
    }
}

fn info() -> Info {
    Info { min_bs: 16, max_bs: 65535, min_fs: 0, max_fs: 0, rate: 44100, channels: 2, bps: 16, samples: 0, md5: [0; 16] }
}

fn claim(s: &mut Src) -> u32 {
    match s.draw(5) {
        0 => MIB10 + 1 + s.draw(3) as u32,
        1 => 0xff_ffff - s.draw(3) as u32,
        2 => MIB10 - s.draw(3) as u32,
        3 => s.ubits(24) as u32,
        4 => 1 << s.urange(8, 23),
        _ => s.urange(0, 100_000) as u32,
    }
}

fn check_peak(u: Usage, limit: u64, what: &str) -> Result<(), Fail> {
    ensure!(u.peak <= limit, "memory", "{}: {} bytes of heap at the peak, at most {} expected", what, u.peak, limit);
    Ok(())
}

/// One block with a claimed length, little data behind it.
fn hostile(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let kind = *s.pick(&[4u8, 2, 1, 3, 5, 6, 0, 7, 100, 126, 4, 2, 4]);
    let len = claim(s);
    let body: Vec<u8> = if kind == 4 {
        // Vendor and count that use the room the length seems to give.
        let vl = match s.draw(3) { 0 => 0, 1 => len.saturating_sub(8), 2 => len.saturating_sub(7), _ => s.ubits(32) as u32 };
        let mut b = vl.to_le_bytes().to_vec();
        if vl < 300 { b.extend(vec![b'v'; vl as usize]); }
        let count = match s.draw(4) { 0 => len / 4, 1 => (len / 4).saturating_sub(1), 2 => u32::MAX, 3 => s.ubits(32) as u32, _ => 1 };
        b.extend_from_slice(&count.to_le_bytes());
        let el = match s.draw(3) { 0 => u32::MAX, 1 => len, 2 => s.ubits(32) as u32, _ => len.saturating_sub(12).saturating_sub(vl) };
        b.extend_from_slice(&el.to_le_bytes());
        b.extend_from_slice(b"A=b");
        b
    } else {
        let n = s.urange(0, 64);
        s.bytes(n)
    };
    let b = MBlock { last: true, kind, body, model: Model::Opaque, claim: Some(len) };
    let mut d = Vec::new();
    let stream = s.bool();
    if stream {
        d.extend_from_slice(b"fLaC");
        MBlock::info(&info()).emit(&mut d);
    }
    b.emit(&mut d);
    c.print(&d);
    c.nontrivial = len >= 4096;
    c.label(&format!("hostile:{}", match kind { 0..=6 => kind.to_string(), _ => "reserved".into() }));
    c.describe(|| format!("kind {} claiming {} bytes with {} there", kind, len, b.body.len()));
    // Full length of zeros behind for blocks that are passed over.
    let passed = !matches!(kind, 0 | 2 | 4);
    let full = passed && s.chance(1, 6);
    let total = if full { d.len() as u64 - b.body.len() as u64 + len as u64 } else { d.len() as u64 };
    if full { d.truncate(d.len() - b.body.len().saturating_sub(len as usize)); c.label("full-length"); }
    let mut src = Padded { head: d, fill: 0, total, pos: 0 };
    let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: true };
    c.runs += 1;
    let (res, u) = if stream {
        measure(|| FlacReader::new_ext(&mut src, o).map(|_| ()).map_err(|e| err(&e)))
    } else {
        measure(|| {
            let mut rd = BufferedReader::new(&mut src);
            metadata::read_metadata_block_with_header(&mut rd).map(|_| ()).map_err(|e| err(&e))
        })
    };
    let what = format!("kind {} claiming {} bytes ({:?})", kind, len, res);
    if matches!(kind, 2 | 4) {
        if len > MIB10 {
            ensure!(matches!(res, Err(E::Unsupported(_))), "limit", "{}: not refused as unsupported", what);
            check_peak(u, SLACK, &what)
        } else {
            ensure!(!matches!(res, Err(E::Unsupported(_))), "limit", "{}: refused", what);
            check_peak(u, SLACK + 16 * len as u64, &what)
        }
    } else {
        if full && kind != 0 { ensure!(res.is_ok(), "skip", "{}: all there but not passed over", what); }
        check_peak(u, SLACK, &what)
    }
}

/// Real blocks of some size.
fn honest(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut d = b"fLaC".to_vec();
    let mut i = MBlock::info(&info());
    i.last = false;
    i.emit(&mut d);
    let n = s.urange(1, 60);
    let len = match s.weighted(&[5, 1]) { 0 => s.urange(0, 3000), _ => s.urange(0, 60_000) };
    let mut largest = 34u64;
    let with_tags = s.bool();
    for k in 0..n {
        let mut b = if with_tags && k == n / 2 {
            let t = s.urange(0, 40);
            meta::gen_tags(s, t)
        } else {
            let kind = *s.pick(&[2u8, 1, 6, 3, 2, 50]);
            MBlock { last: false, kind, body: vec![s.byte(); len.max(4)], model: Model::Opaque, claim: None }
        };
        if matches!(b.kind, 2 | 4) { largest = largest.max(b.body.len() as u64); }
        b.last = k + 1 == n;
        b.emit(&mut d);
    }
    c.print(&(n, len, with_tags, d.len()));
    c.nontrivial = d.len() >= 4096;
    c.label("honest");
    c.describe(|| format!("{} blocks of {} bytes, tags {}", n, len, with_tags));
    let data = Rc::new(d);
    let chunks = gen_chunks(s);
    let rd = ScriptReader::new(data, chunks);
    c.runs += 1;
    let (r, u) = measure(|| FlacReader::new(rd).map_err(|e| err(&e)));
    if let Err(e) = r { return fail("rejected", format!("{:?}", e)); }
    check_peak(u, SLACK + 16 * largest, &format!("{} blocks, the largest kept one {} bytes", n, largest))
}

/// Exactly at the limit, with all the data.
fn at_limit(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let app = s.bool();
    let len = MIB10 - s.pick(&[0u32, 0, 1, 4]);
    let mut d = b"fLaC".to_vec();
    MBlock::info(&info()).emit(&mut d);
    let mut head = Vec::new();
    if app {
        head.extend_from_slice(b"test");
    } else {
        // One tag that fills the block.
        head.extend_from_slice(&[0, 0, 0, 0, 1, 0, 0, 0]);
        head.extend_from_slice(&(len - 12).to_le_bytes());
        head.extend_from_slice(b"A=");
    }
    let b = MBlock { last: true, kind: if app { 2 } else { 4 }, body: head, model: Model::Opaque, claim: Some(len) };
    let start = d.len() as u64;
    b.emit(&mut d);
    let mut src = Padded { head: d, fill: b'x', total: start + 4 + len as u64, pos: 0 };
    c.print(&(app, len));
    c.nontrivial = true;
    c.label("at-limit");
    c.describe(|| format!("{} block of {} bytes", if app { "application" } else { "tag" }, len));
    c.runs += 1;
    let (r, u) = measure(|| match FlacReader::new(&mut src) {
        Ok(r) => Ok(r.get_tag("a").map(|t| t.len()).sum::<usize>()),
        Err(e) => Err(err(&e)),
    });
    match r {
        Err(e) => return fail("limit", format!("a block of {} bytes was refused: {:?}", len, e)),
        Ok(n) => if !app { ensure!(n == len as usize - 14, "tag", "tag of {} bytes reported with {}", len - 14, n) },
    }
    check_peak(u, SLACK + 16 * len as u64, "a block at the limit")
}

/// Decoding with given buffers.
fn decode(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 3);
    c.label("decode");
    for _ in 0..n {
        let f = gen_frame(s, 65535);
        let need = f.bs * f.channels();
        let mut damaged = f.bytes.clone();
        let cut = s.chance(1, 5);
        if cut { let k = s.urange(0, damaged.len() - 1); damaged.truncate(k); }
        let cap = match s.weighted(&[4, 3, 3, 3, 1]) { 0 => need, 1 => need + s.urange(0, 1000), 2 => s.urange(0, need), 3 => 0, _ => need + (s.urange(1, 1000) << s.draw(9)) };
        let mut buf: Vec<i32> = Vec::with_capacity(cap);
        let len = match s.draw(2) { 0 => 0, 1 => buf.capacity(), _ => s.urange(0, buf.capacity()) };
        buf.resize(len, 7);
        let (ptr, cap) = (buf.as_ptr() as usize, buf.capacity());
        c.print(&damaged);
        c.print(&(len, cap));
        c.nontrivial |= cap > 0;
        c.describe(|| format!("{} samples into length {} capacity {}", need, len, cap));
        let cur = Cursor::new(&damaged[..]);
        let mut fr = FrameReader::new(cur);
        c.runs += 1;
        let (r, u) = measure(|| fr.read_next_or_eof(buf));
        let bytes = 4 * need as u64;
        // A vector that grows by doubling is three blocks while it does.
        check_peak(u, 3 * bytes.max(4 * cap as u64) + SLACK, &format!("decoding {} samples with a buffer of capacity {}", need, cap))?;
        if cap >= need && cap > 0 {
            ensure!(u.total < SLACK.min(bytes.max(1024)), "reuse", "decoding {} samples into a buffer of capacity {} (length {}) allocated {} bytes", need, cap, len, u.total);
        }
        match r {
            Ok(Some(b)) => {
                let out = b.into_buffer();
                if cap >= need {
                    ensure!(out.as_ptr() as usize == ptr, "reuse", "a buffer of capacity {} (length {}) was not reused for {} samples", cap, len, need);
                    ensure!(out.capacity() >= cap, "reuse", "the buffer came back with capacity {} instead of {}", out.capacity(), cap);
                }
                ensure!(out.capacity() <= 2 * need.max(cap) + 1024, "memory", "the buffer came back with capacity {} for {} samples", out.capacity(), need);
            }
            Ok(None) => ensure!(damaged.is_empty(), "end", "end of stream"),
            Err(_) => ensure!(cut, "rejected", "intact frame rejected"),
        }
    }
    Ok(())
}

/// Long streams through every view: memory stays that of one block.
fn long(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let bs = *s.pick(&[64usize, 16, 576, 1024, 4096]);
    let ch = s.urange(1, 8);
    let mut o = FrameOpts::new(bs, 16, ch);
    o.kind = Some(Kind::Constant);
    let f = encode_frame(s, &o);
    // Rarely so many that a few bytes kept for each would show.
    let n = if bs <= 64 && ch <= 2 && s.chance(1, 60) { s.urange(10_000, 30_000) } else { s.urange(10, 120) };
    let mut d = b"fLaC".to_vec();
    let mut i = MBlock::info(&info());
    i.last = true;
    i.emit(&mut d);
    for _ in 0..n { d.extend_from_slice(&f.bytes); }
    let vary = s.bool();
    let mut max = bs * ch;
    if vary {
        let g = encode_frame(s, &FrameOpts { bs: bs / 2 + 1, kind: Some(Kind::Constant), ..FrameOpts::new(bs, 16, s_ch(ch)) });
        max = max.max(g.bs * g.channels());
        for _ in 0..n { d.extend_from_slice(&g.bytes); d.extend_from_slice(&f.bytes); }
    }
    c.print(&(bs, ch, n, vary));
    c.nontrivial = true;
    c.label("long");
    c.describe(|| format!("{} frames of {} x {}, varying {}", n, ch, bs, vary));
    let rd = ScriptReader::new(Rc::new(d), vec![0]);
    let how = s.draw(2);
    // A large buffer to begin with serves for all.
    let large = if s.chance(1, 4) { max + (s.urange(0, 1000) << s.draw(9)) } else { 0 };
    let mut first: Vec<i32> = Vec::with_capacity(if how == 0 { large } else { 0 });
    c.runs += 1;
    let mut r = match FlacReader::new(rd) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
    let (res, u) = measure(|| -> Result<u64, E> {
        let mut count = 0u64;
        match how {
            0 => {
                let mut bl = r.blocks();
                let mut buf = std::mem::take(&mut first);
                while let Some(b) = bl.read_next_or_eof(buf).map_err(|e| err(&e))? { count += b.len() as u64; buf = b.into_buffer(); }
            }
            1 => for x in r.samples() { x.map_err(|e| err(&e))?; count += 1; },
            _ => for x in r.into_samples() { x.map_err(|e| err(&e))?; count += 1; },
        }
        Ok(count)
    });
    if let Err(e) = res { return fail("rejected", format!("{:?}", e)); }
    // A block and, while it is replaced, the next one.
    check_peak(u, 12 * max as u64 + SLACK, &format!("{} frames of at most {} samples, view {}", n, max, how))?;
    // Small things may come and go with every frame; blocks may not.
    let slips = (max * n * if vary { 3 } else { 1 }) as u64;
    if how == 0 && large > 0 {
        ensure!(u.total <= SLACK.min(4 * max as u64) + slips, "reuse", "{} frames of at most {} samples into a buffer of capacity {}: {} bytes allocated in all", n, max, large, u.total);
    } else {
        ensure!(u.total <= 8 * max as u64 + SLACK + slips, "reuse", "{} frames of {} samples: {} bytes allocated in all (view {}), one block is {}", n, max, u.total, how, 4 * max);
    }
    Ok(())
}

fn s_ch(ch: usize) -> usize { if ch == 8 { 1 } else { ch + 1 } }

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 3000) {
        return at_limit(s, c);
    }
    match s.weighted(&[5, 2, 4, 2]) {
        0 => hostile(s, c),
        1 => honest(s, c),
        2 => decode(s, c),
        _ => long(s, c),
    }
}
