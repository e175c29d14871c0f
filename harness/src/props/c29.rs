//! C29: nothing wears out, however long a stream is and however long a reader
//! has been in use.

use std::io::{self, Read};

use crate::bits::*;
use crate::engine::*;
use crate::ensure;
use crate::io::SPIN;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::{Block, Error, FlacReader};

pub const PROP: Prop = Prop {
    id: "C29",
    case,
    rule: "A case is one long use: a stream of short frames produced on the fly (read by blocks, by fresh block readers, by samples, out of a container), a stream of very many metadata blocks or tags, a long run of byte-level or bit-level operations on numbered data, very many calls at the end, very many failures of the source that pass, or very many readers one after another; what each step must give is computed from its number alone; \
           non-trivial: a count passed 65536; distinct by kind, shape and length.",
};

/// The same for counts that pass 2^32.
pub const FAR: Prop = Prop {
    id: "C29x",
    case: far,
    rule: "A case is a use in which the samples, the bytes of the metadata, of the frames or of the data, or the bits pass 2^32, produced on the fly.",
};

/// A source made of pieces that are produced when they are needed.
struct Pieces<F: FnMut(u64, &mut Vec<u8>) -> bool> {
    make: F,
    i: u64,
    cur: Vec<u8>,
    at: usize,
    /// Never more than one piece at a time.
    apart: bool,
    step: usize,
    /// Failures in front of each piece.
    fails: u64,
    failed: u64,
    eof: u64,
}

fn pieces<F: FnMut(u64, &mut Vec<u8>) -> bool>(make: F) -> Pieces<F> {
    Pieces { make, i: 0, cur: Vec::new(), at: 0, apart: false, step: 1 << 30, fails: 0, failed: 0, eof: 0 }
}

impl<F: FnMut(u64, &mut Vec<u8>) -> bool> Read for Pieces<F> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let want = b.len().min(self.step);
        let mut n = 0;
        while n < want {
            if self.at == self.cur.len() {
                if n > 0 && self.apart { break; }
                if self.failed < self.fails {
                    if n > 0 { break; }
                    self.failed += 1;
                    return Err(io::Error::new(io::ErrorKind::TimedOut, "later"));
                }
                self.cur.clear();
                self.at = 0;
                if !(self.make)(self.i, &mut self.cur) {
                    if n == 0 {
                        self.eof += 1;
                        if self.eof > 4_000_000 { panic!("{}", SPIN); }
                    }
                    break;
                }
                self.i += 1;
                self.failed = 0;
                continue;
            }
            let k = (self.cur.len() - self.at).min(want - n);
            b[n..n + k].copy_from_slice(&self.cur[self.at..self.at + k]);
            self.at += k;
            n += k;
        }
        Ok(n)
    }
}

fn hash(x: u64) -> u64 {
    let x = (x ^ 0x51_7c_c1_b7_27_22_0a_95).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let x = (x ^ x >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ x >> 32
}

/// The shape all frames of a stream share.
#[derive(Clone, Copy, Hash, Debug)]
struct Shape { variable: bool, bs: u32, chan: u8, bps: u32, verbatim: bool, from: u64, salt: u64 }

impl Shape {
    fn gen(s: &mut Src, wide: bool) -> Shape {
        let chan = if s.chance(1, 3) { 0 } else { s.draw(10) as u8 };
        let bs = if wide { 1 } else { *s.pick(&[1u32, 16, 2, 5, 17, 64]) };
        Shape {
            variable: s.bool(), bs, chan,
            bps: *s.pick(&[8u32, 16, 12, 20, 24]), verbatim: s.bool(),
            from: 0, salt: s.draw(1000),
        }
    }
    fn channels(&self) -> u32 { if self.chan < 8 { self.chan as u32 + 1 } else { 2 } }
    fn sample(&self, i: u64, ch: u32, t: u32) -> i32 {
        let t = if self.verbatim { t } else { 0 };
        let h = hash(self.salt << 50 ^ i << 20 ^ (t as u64) << 3 ^ ch as u64);
        // In the range of the width.
        ((h as i32) << (32 - self.bps)) >> (32 - self.bps)
    }
    fn time(&self, i: u64) -> u64 { (self.from + i) * self.bs as u64 }
    /// The header with both of its numbers.
    fn head(&self, i: u64, o: &mut Vec<u8>) {
        let code = match self.bps { 8 => 1u8, 12 => 2, 16 => 4, 20 => 5, _ => 6 };
        let at = o.len();
        let wide = self.bs > 256;
        o.extend_from_slice(&[0xff, 0xf8 | self.variable as u8, if wide { 0x79 } else { 0x69 }, self.chan << 4 | code << 1]);
        let n = if self.variable { self.time(i) } else { self.from + i };
        o.extend_from_slice(&var_int(n, var_int_len(n)));
        if wide { o.push(((self.bs - 1) >> 8) as u8); }
        o.push((self.bs - 1) as u8);
        let c = crc8(&o[at..]);
        o.push(c);
    }
    fn body(&self, i: u64, w: &mut BitWriter) {
        for ch in 0..self.channels() {
            let side = (self.chan == 8 || self.chan == 10) && ch == 1 || self.chan == 9 && ch == 0;
            w.put(if self.verbatim { 2 } else { 0 }, 8);
            for t in 0..if self.verbatim { self.bs } else { 1 } {
                let v = if self.chan < 8 { self.sample(i, ch, t) as i64 } else {
                    let (l, r) = (self.sample(i, 0, t) as i64, self.sample(i, 1, t) as i64);
                    if side { l - r } else if self.chan == 10 { (l + r) >> 1 } else if self.chan == 8 { l } else { r }
                };
                w.put_signed(v, self.bps + side as u32);
            }
        }
    }
    fn frame(&self, i: u64, o: &mut Vec<u8>) {
        let at = o.len();
        self.head(i, o);
        let mut w = BitWriter::new();
        self.body(i, &mut w);
        o.extend_from_slice(&w.bytes);
        let c = crc16(&o[at..]);
        o.extend_from_slice(&[(c >> 8) as u8, c as u8]);
    }
    fn info(&self, frames: u64, total: bool) -> Vec<u8> {
        let bs = self.bs.max(16) as u64;
        let mut w = BitWriter::new();
        // The smallest block size is announced as 16 at least; then the sizes
        // of the stream differ and the frames count by themselves.
        let (min, max) = if self.bs < 16 { (16, 4096) } else { (bs, bs) };
        w.put(min, 16); w.put(max, 16); w.put(0, 24); w.put(0, 24);
        w.put(44_100, 20); w.put(self.channels() as u64 - 1, 3); w.put(self.bps as u64 - 1, 5);
        let n = frames * self.bs as u64;
        w.put(if total && n >> 36 == 0 { n } else { 0 }, 36);
        w.bytes.extend_from_slice(&[0; 16]);
        w.bytes
    }
    fn check(&self, i: u64, b: &Block, all: bool) -> Result<(), Fail> {
        ensure!(b.time() == self.time(i) && b.duration() == self.bs && b.channels() == self.channels(), "shape",
                "frame {}: time {} duration {} channels {} instead of {} {} {}", i, b.time(), b.duration(), b.channels(), self.time(i), self.bs, self.channels());
        for ch in 0..self.channels() {
            let x = b.channel(ch);
            if all {
                for t in 0..self.bs {
                    ensure!(x[t as usize] == self.sample(i, ch, t), "sample", "frame {} channel {} sample {} is {} instead of {}", i, ch, t, x[t as usize], self.sample(i, ch, t));
                }
            } else {
                for &t in &[0, self.bs / 2, self.bs - 1] {
                    ensure!(x[t as usize] == self.sample(i, ch, t), "sample", "frame {} channel {} sample {} is {} instead of {}", i, ch, t, x[t as usize], self.sample(i, ch, t));
                }
            }
        }
        Ok(())
    }
    /// A stream of `n` of them.
    fn stream(self, n: u64, total: bool) -> impl FnMut(u64, &mut Vec<u8>) -> bool {
        self.stream_then(n, total, 0)
    }
    /// What comes after the `n`-th: nothing, something else, a damaged frame,
    /// a part of a frame.
    fn tail(&self, n: u64, tail: u64, o: &mut Vec<u8>) -> bool {
        let at = o.len();
        match tail {
            0 => return false,
            1 => o.resize(at + 30, 0),
            2 => { self.frame(n, o); let k = o.len() - 1; o[k] ^= 0x10; }
            3 => { self.frame(n, o); o[at + 4] ^= 1; }
            _ => { self.frame(n, o); let k = o.len() - at; o.truncate(at + 1 + (self.salt as usize) % (k - 1)); }
        }
        true
    }
    fn stream_then(self, n: u64, total: bool, tail: u64) -> impl FnMut(u64, &mut Vec<u8>) -> bool {
        move |i, o| {
            if i == n + 1 && self.tail(n, tail, o) { return true; }
            if i == 0 {
                o.extend_from_slice(b"fLaC\x80\x00\x00\x22");
                o.extend_from_slice(&self.info(n, total));
                return true;
            }
            if i > n { return false; }
            self.frame(i - 1, o);
            true
        }
    }
}

/// A length beyond 65536.
fn length(s: &mut Src, cost: u64) -> u64 {
    let n = match s.draw(5) {
        0 | 1 => 65_530 + s.draw(20),
        2 => 65_536 + s.draw(40_000),
        3 => 131_066 + s.draw(20),
        4 => s.draw(300),
        _ => 140_000 + s.draw(60_000),
    };
    // Seldom very long.
    if s.chance(1, 40) { (1 << 20) / cost.max(1) + s.draw(50) } else { n }
}

macro_rules! some {
    ($i:expr, $e:expr) => {
        match $e {
            Ok(Some(x)) => x,
            Ok(None) => return fail("end", format!("the end was reported in place of item {}", $i)),
            Err(e) => return fail("error", format!("item {} gave the error {:?}", $i, e)),
        }
    };
}
macro_rules! good {
    ($i:expr, $e:expr) => {
        match $e {
            Ok(x) => x,
            Err(e) => return fail("error", format!("item {} gave the error {:?}", $i, e)),
        }
    };
}

/// The end after `n` frames, or what follows them.
fn end(n: u64, r: Result<Option<Block>, Error>) -> Result<(), Fail> { ended(n, 0, r) }
fn ended(n: u64, tail: u64, r: Result<Option<Block>, Error>) -> Result<(), Fail> {
    match r {
        Err(Error::FormatError(_)) if tail >= 1 && tail <= 3 => Ok(()),
        Err(Error::IoError(ref e)) if tail == 4 && e.kind() == io::ErrorKind::UnexpectedEof => Ok(()),
        Ok(None) if tail > 0 => fail("tail", format!("the end was reported for what follows {} frames (kind {})", n, tail)),
        Err(ref e) if tail > 0 => fail("tail", format!("{:?} was reported for what follows {} frames (kind {})", e, n, tail)),
        Ok(None) => Ok(()),
        Ok(Some(_)) => fail("no-end", format!("a frame after all {}", n)),
        Err(e) => fail("no-end", format!("{:?} after all {} frames", e, n)),
    }
}

fn frames(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut sh = Shape::gen(s, false);
    let cost = 1 + (sh.bs * sh.channels()) as u64 / 16;
    let mut n = length(s, cost);
    if sh.bs as u64 * sh.channels() as u64 > 200 { n = n.min(66_000); }
    if s.chance(1, 3) { sh.from = s.draw(if sh.variable { (1 << 29) - 1 } else { (1 << 30) - 1 }); }
    let total = s.bool();
    let how = s.draw(6);
    let tail = if s.bool() { 0 } else { 1 + s.draw(3) };
    let mut src = pieces(sh.stream_then(n, total, tail));
    if s.chance(1, 3) { src.step = s.urange(1, 3000); }
    let name = ["blocks", "fresh block readers", "samples", "own samples", "pairs", "packets", "one buffer full of frames"][how as usize];
    c.print(&(sh, n, how, total, tail));
    c.label(name);
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} frames of {:?} read by {}, then {}", n, sh, name, ["nothing", "something else", "a damaged frame", "a damaged header", "a part of a frame"][tail as usize]));
    match how {
        0 | 4 => {
            let mut r = good!("open", FlacReader::new(src));
            let mut f = r.blocks();
            let mut buf = Vec::new();
            for i in 0..n {
                let b = some!(i, f.read_next_or_eof(buf));
                sh.check(i, &b, true)?;
                if how == 4 && b.channels() == 2 {
                    let mut k = 0;
                    for p in b.stereo_samples() {
                        ensure!(p == (b.sample(0, k), b.sample(1, k)), "pair", "pair {} of frame {}", k, i);
                        k += 1;
                    }
                    ensure!(k == b.duration(), "pair", "{} pairs in frame {}", k, i);
                }
                buf = b.into_buffer();
            }
            ended(n, tail, f.read_next_or_eof(buf))?;
        }
        1 => {
            let mut r = good!("open", FlacReader::new(src));
            for i in 0..n {
                let b = some!(i, r.blocks().read_next_or_eof(Vec::new()));
                sh.check(i, &b, true)?;
            }
            ended(n, tail, r.blocks().read_next_or_eof(Vec::new()))?;
        }
        2 | 3 => {
            fn all<I: Iterator<Item = claxon::Result<i32>>>(sh: &Shape, n: u64, tail: u64, mut it: I) -> Result<(), Fail> {
                for i in 0..n {
                    for t in 0..sh.bs {
                        for ch in 0..sh.channels() {
                            let v = good!(i, match it.next() { Some(x) => x, None => return fail("end", format!("the samples ended in frame {}", i)) });
                            ensure!(v == sh.sample(i, ch, t), "sample", "frame {} channel {} sample {} is {} instead of {}", i, ch, t, v, sh.sample(i, ch, t));
                        }
                    }
                }
                match it.next() {
                    None => ended(n, tail, Ok(None)),
                    Some(Ok(_)) => fail("no-end", format!("a sample after all of {} frames", n)),
                    Some(Err(e)) => ended(n, tail, Err(e)),
                }
            }
            let mut r = good!("open", FlacReader::new(src));
            if how == 2 { all(&sh, n, tail, r.samples())?; } else { all(&sh, n, tail, r.into_samples())?; }
        }
        5 => {
            let mut p = Vec::new();
            for i in 0..n {
                p.clear();
                sh.frame(i, &mut p);
                let b = some!(i, FrameReader::new(&mut io::Cursor::new(&p[..])).read_next_or_eof(Vec::new()));
                sh.check(i, &b, true)?;
            }
        }
        _ => {
            let mut d = Vec::new();
            for i in 0..n { sh.frame(i, &mut d); }
            sh.tail(n, tail, &mut d);
            let mut f = FrameReader::new(io::Cursor::new(d));
            for i in 0..n {
                let b = some!(i, f.read_next_or_eof(Vec::new()));
                sh.check(i, &b, true)?;
            }
            ended(n, tail, f.read_next_or_eof(Vec::new()))?;
        }
    }
    Ok(())
}

fn metadata(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1);
    let sh = Shape::gen(s, false);
    let salt = s.draw(1 << 20);
    let open = s.bool();
    let tags_at = if s.bool() { Some(s.draw(n)) } else { None };
    // Kind and length of the n-th.
    let nth = move |i: u64| -> (u8, u32) {
        let h = hash(i ^ salt << 20);
        let kind = [1u8, 1, 3, 5, 6, 2, 7, 100][h as usize % 8];
        (kind, if kind == 2 { 4 + (h >> 8) as u32 % 3 } else { (h >> 8) as u32 % 5 })
    };
    let put = move |i: u64, o: &mut Vec<u8>| {
        if tags_at == Some(i) {
            o.extend_from_slice(b"\x04\x00\x00\x0f\x02\x00\x00\x00vv\x01\x00\x00\x00\x01\x00\x00\x00=");
        }
        let (kind, len) = nth(i);
        o.extend_from_slice(&[kind | ((i == n) as u8) << 7, 0, 0, len as u8]);
        for k in 0..len { o.push((i as u8).wrapping_add(k as u8)); }
    };
    let src = pieces(move |i, o: &mut Vec<u8>| {
        if i == 0 {
            o.extend_from_slice(if open { &b"fLaC\x00\x00\x00\x22"[..] } else { &b"\x00\x00\x00\x22"[..] });
            o.extend_from_slice(&sh.info(1, true));
        } else if i <= n + 1 {
            put(i - 1, o);
        } else if i == n + 2 {
            sh.frame(0, o);
        } else {
            return false;
        }
        true
    });
    c.print(&(n, salt, open, tags_at));
    c.label(if open { "metadata of a stream" } else { "metadata iterator" });
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} metadata blocks {}, tags {:?}", n, open, tags_at));
    if open {
        let mut r = good!("open", FlacReader::new(src));
        ensure!(r.tags().count() == tags_at.is_some() as usize && r.vendor() == tags_at.map(|_| "vv"), "tags", "tags lost among {} blocks", n);
        let b = some!("frame", r.blocks().read_next_or_eof(Vec::new()));
        sh.check(0, &b, true)?;
    } else {
        let mut b = BufferedReader::new(src);
        {
            let mut it = MetadataBlockReader::new(&mut b);
            match it.next() { Some(Ok(MetadataBlock::StreamInfo(_))) => {} _ => return fail("block", "no streaminfo".into()) }
            for i in 0..n + 1 {
                if tags_at == Some(i) {
                    match it.next() { Some(Ok(MetadataBlock::VorbisComment(_))) => {} _ => return fail("block", format!("no tags at {}", i)) }
                }
                let (kind, len) = nth(i);
                let x = match it.next() { Some(x) => good!(i, x), None => return fail("end", format!("the metadata ended before block {}", i)) };
                let ok = match x {
                    MetadataBlock::Padding { length } => [1, 3, 5, 6].contains(&kind) && length == len,
                    MetadataBlock::Application { id, ref data } => kind == 2 && id >> 24 == i as u32 & 255 && data.len() as u32 == len - 4,
                    MetadataBlock::Reserved => kind >= 7,
                    _ => false,
                };
                ensure!(ok, "block", "block {} of kind {} and length {} came out as something else", i, kind, len);
            }
            ensure!(it.next().is_none(), "no-end", "a block after all {}", n);
        }
        let b = some!("frame", FrameReader::new(b).read_next_or_eof(Vec::new()));
        sh.check(0, &b, true)?;
    }
    Ok(())
}

fn tags(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = if s.chance(1, 12) { 900_000 + s.draw(100_000) } else { length(s, 2).min(400_000) };
    let sh = Shape::gen(s, false);
    let named = s.bool();
    let text = |i: u64| if named { format!("N{}={}", i, i & 15) } else { format!("A={}", i) };
    let mut body = vec![1, 0, 0, 0, b'v'];
    // As many as fit into the ten megabytes.
    let mut list = Vec::new();
    let mut k = 0;
    while k < n {
        let t = text(k);
        if 9 + list.len() + 4 + t.len() > 10 << 20 { break; }
        list.extend_from_slice(&(t.len() as u32).to_le_bytes());
        list.extend_from_slice(t.as_bytes());
        k += 1;
    }
    let n = k;
    body.extend_from_slice(&(n as u32).to_le_bytes());
    body.extend_from_slice(&list);
    c.print(&(n, named));
    c.label("tags");
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} tags, each its own name: {}", n, named));
    let mut d = b"fLaC\x00\x00\x00\x22".to_vec();
    d.extend_from_slice(&sh.info(1, true));
    meta::MBlock { last: true, kind: 4, body, model: meta::Model::Opaque, claim: None }.emit(&mut d);
    sh.frame(0, &mut d);
    let mut r = good!("open", FlacReader::new(&d[..]));
    {
        let mut it = r.tags();
        ensure!(it.len() as u64 == n, "count", "{} tags announced instead of {}", it.len(), n);
        for i in 0..n {
            let t = text(i);
            let p = t.find('=').unwrap();
            ensure!(it.next() == Some((&t[..p], &t[p + 1..])), "tag", "tag {} is not {}", i, t);
        }
        ensure!(it.next().is_none(), "no-end", "a tag after all {}", n);
        if named {
            for &i in &[0, n / 2, n.saturating_sub(1), 65_535, 65_536, 65_537] {
                let name = format!("n{}", i);
                let got: Vec<&str> = r.get_tag(&name).collect();
                let v = format!("{}", i & 15);
                let want: Vec<&str> = if i < n { vec![&v[..]] } else { vec![] };
                ensure!(got == want, "lookup", "tag n{} of {} gave {:?}", i, n, got);
            }
        } else {
            let mut it = r.get_tag("a");
            for i in 0..n {
                let t = format!("{}", i);
                ensure!(it.next() == Some(&t[..]), "lookup", "value {} is missing", i);
            }
            ensure!(it.next().is_none(), "no-end", "a value after all {}", n);
        }
    }
    let b = some!("frame", r.blocks().read_next_or_eof(Vec::new()));
    sh.check(0, &b, true)?;
    Ok(())
}

/// Numbered data: every eight bytes hold a function of their number.
fn word(i: u64) -> u64 { i.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i << 7 }
fn byte(p: u64) -> u8 { (word(p >> 3) >> (8 * (p & 7))) as u8 }
struct Numbered { at: u64, len: u64, eof: u64 }
impl Read for Numbered {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.len - self.at) as usize;
        let mut k = 0;
        while k < n && (self.at + k as u64) & 7 != 0 { b[k] = byte(self.at + k as u64); k += 1; }
        while k + 8 <= n {
            b[k..k + 8].copy_from_slice(&word((self.at + k as u64) >> 3).to_le_bytes());
            k += 8;
        }
        while k < n { b[k] = byte(self.at + k as u64); k += 1; }
        self.at += n as u64;
        if n == 0 && !b.is_empty() { self.eof += 1; if self.eof > 4_000_000 { panic!("{}", SPIN); } }
        Ok(n)
    }
}

fn ops<R: ReadBytes>(r: &mut R, h0: u64, pos: &mut u64, n: u64, until: u64) -> Result<(), Fail> {
    let mut i = 0;
    let mut buf = [0u8; 64];
    while i < n && *pos + 64 <= until {
        let h = hash(h0 ^ i);
        let p = *pos;
        let at = |k: u64| byte(p + k) as u32;
        let be = |k: u64| (0..k).fold(0u32, |a, j| a << 8 | at(j));
        let (got, want, len) = match h & 7 {
            0 => (good!(i, r.read_u8()) as u32, at(0), 1),
            1 => (some!(i, r.read_u8_or_eof()) as u32, at(0), 1),
            2 => (good!(i, r.read_be_u16()) as u32, be(2), 2),
            3 => (some!(i, r.read_be_u16_or_eof()) as u32, be(2), 2),
            4 => (good!(i, r.read_be_u24()), be(3), 3),
            5 => if h >> 8 & 1 == 0 { (good!(i, r.read_be_u32()), be(4), 4) } else { (good!(i, r.read_le_u32()), be(4).swap_bytes(), 4) },
            6 => {
                let k = (h >> 8) % 65;
                good!(i, r.read_into(&mut buf[..k as usize]));
                ((0..k).all(|j| buf[j as usize] as u32 == at(j)) as u32, 1, k)
            }
            _ => { let k = (h >> 8) % 65; good!(i, r.skip(k as u32)); (0, 0, k) }
        };
        ensure!(got == want, "value", "operation {} ({}) at byte {} gave {:#x} instead of {:#x}", i, h & 7, p, got, want);
        *pos += len;
        i += 1;
    }
    Ok(())
}

fn data(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1) * 3;
    let h = s.draw(u64::MAX);
    let how = s.draw(2);
    let len = n * 65;
    let jump = if s.bool() { s.draw(1 << 26) } else { 0 };
    c.print(&(n, h, how, jump));
    c.label(["bytes", "borrowed bytes", "bytes of a cursor"][how as usize]);
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} operations on numbered bytes ({}), first passing over {}", n, how, jump));
    let mut pos = 0;
    if how == 2 {
        let d: Vec<u8> = (0..len.min(1 << 23)).map(byte).collect();
        let len = d.len() as u64;
        let mut r = io::Cursor::new(d);
        ops(&mut r, h, &mut pos, n, len)?;
        ensure!(r.position() == pos, "position", "the cursor is at {} instead of {}", r.position(), pos);
    } else {
        let mut r = BufferedReader::new(Numbered { at: 0, len: len + jump, eof: 0 });
        good!("jump", r.skip(jump as u32));
        pos = jump;
        if how == 0 { ops(&mut r, h, &mut pos, n, len + jump)?; } else { ops(&mut &mut r, h, &mut pos, n, len + jump)?; }
    }
    Ok(())
}

/// Reads fields of the numbered data, most significant bit first.
fn bits<R: ReadBytes>(b: &mut Bitstream<R>, h0: u64, at: &mut u64, n: u64, width: Option<u32>) -> Result<(), Fail> {
    for i in 0..n {
        let h = hash(h0 ^ i);
        let w = width.unwrap_or((h >> 8) as u32 % 33);
        // The eight bytes from here, as a number.
        let p = *at >> 3;
        let win = |p: u64| -> u128 {
            let (q, o) = (p >> 3, (p & 7) as u32);
            let a = word(q).swap_bytes() as u128;
            let b = word(q + 1).swap_bytes() as u128;
            (a << 64 | b) << (8 * o)
        };
        let x = win(p) << (*at & 7);
        let field = |w: u32| if w == 0 { 0 } else { (x >> (128 - w)) as u32 };
        let (got, want, len) = match if width.is_some() { 3 } else { h & 3 } {
            0 => (good!(i, b.read_bit()) as u32, field(1), 1),
            1 => {
                let z = x.leading_zeros();
                // Enough of them are known to count them.
                if z > 40 { (0, 0, 0) } else { (good!(i, b.read_unary()), z, z + 1) }
            }
            2 => if w <= 8 { (good!(i, b.read_leq_u8(w)) as u32, field(w), w) }
                 else if w <= 16 { (good!(i, b.read_gt_u8_leq_u16(w)), field(w), w) }
                 else { (good!(i, b.read_leq_u16(w - 16)) as u32, field(w - 16), w - 16) },
            _ => (good!(i, b.read_leq_u32(w)), field(w), w),
        };
        ensure!(got == want, "field", "field {} ({} bits wide) at bit {} is {:#x} instead of {:#x}", i, len, at, got, want);
        *at += len as u64;
    }
    Ok(())
}

fn bit_run(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1) * 4;
    let h = s.draw(u64::MAX);
    c.print(&(n, h));
    c.label("bits");
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} bit fields", n));
    let mut at = 0;
    bits(&mut Bitstream::new(BufferedReader::new(Numbered { at: 0, len: u64::MAX, eof: 0 })), h, &mut at, n, None)
}

/// Very many calls when there is nothing left, and after an error.
fn after(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1);
    let sh = Shape::gen(s, false);
    let k = s.draw(5);
    let how = s.draw(4);
    c.print(&(n, sh, k, how));
    c.label("calls at the end");
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} calls at the end of a stream of {} frames ({})", n, k, how));
    let src = pieces(sh.stream(k, true));
    match how {
        0 => {
            let mut r = good!("open", FlacReader::new(src));
            let mut f = r.blocks();
            for i in 0..k { let b = some!(i, f.read_next_or_eof(Vec::new())); sh.check(i, &b, true)?; }
            for _ in 0..n { end(k, f.read_next_or_eof(Vec::new()))?; }
        }
        1 => {
            let mut r = good!("open", FlacReader::new(src));
            let m = k * (sh.bs * sh.channels()) as u64;
            let mut it = r.samples();
            for i in 0..m { ensure!(it.next().map(|x| x.is_ok()).unwrap_or(false), "sample", "no sample {}", i); }
            for i in 0..n { ensure!(it.next().is_none(), "no-end", "something at call {} after the end", i); }
        }
        2 => {
            let mut b = BufferedReader::new(Numbered { at: 0, len: k, eof: 0 });
            for i in 0..k { ensure!(good!(i, b.read_u8()) == byte(i), "value", "byte {}", i); }
            for i in 0..n {
                ensure!(good!(i, b.read_u8_or_eof()).is_none(), "no-end", "a byte at call {} after the end", i);
                ensure!(b.read_u8().map_err(|e| e.kind()) == Err(io::ErrorKind::UnexpectedEof), "no-end", "a byte at call {} after the end", i);
            }
        }
        3 => {
            let d = b"\x81\x00\x00\x00".to_vec();
            let mut it = MetadataBlockReader::new(BufferedReader::new(&d[..]));
            ensure!(it.next().is_some(), "end", "no block");
            for i in 0..n { ensure!(it.next().is_none() && it.size_hint() == (0, Some(0)), "no-end", "a block at call {} after the end", i); }
        }
        _ => {
            // A failed iterator.
            let mut d = Vec::new();
            let mut mk = sh.stream(1, true);
            mk(0, &mut d);
            mk(1, &mut d);
            let l = d.len();
            d[l - 1] ^= 1;
            sh.frame(1, &mut d);
            let mut r = good!("open", FlacReader::new(&d[..]));
            let mut it = r.samples();
            match it.next() { Some(Err(_)) => {} _ => return fail("crc", "a damaged frame was delivered".into()) }
            for i in 0..n { ensure!(it.next().is_none(), "no-end", "something at call {} after the error", i); }
        }
    }
    Ok(())
}

/// Failures that pass.
fn failures(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1);
    let sh = Shape::gen(s, false);
    // All before one frame, or spread.
    let k = match s.draw(2) { 0 => 1, 1 => 1 + s.draw(100), _ => n.max(1) };
    let each = (n / k).max(1);
    c.print(&(n, sh, k));
    c.label("failures that pass");
    c.nontrivial = each * k > 65_536;
    c.describe(|| format!("{} failures before each of {} frames", each, k));
    let mut src = pieces(move |i, o: &mut Vec<u8>| { if i >= k { return false; } sh.frame(i, o); true });
    src.apart = true;
    src.fails = each;
    let mut f = FrameReader::new(BufferedReader::new(src));
    for i in 0..k {
        for j in 0..each {
            match f.read_next_or_eof(Vec::new()) {
                Err(Error::IoError(ref e)) if e.kind() == io::ErrorKind::TimedOut && e.to_string() == "later" => {}
                Err(e) => return fail("failure", format!("failure {} before frame {} was reported as {:?}", j, i, e)),
                Ok(x) => return fail("failure", format!("failure {} before frame {} was not reported ({})", j, i, x.is_some())),
            }
        }
        let b = some!(i, f.read_next_or_eof(Vec::new()));
        sh.check(i, &b, true)?;
    }
    Ok(())
}

/// One reader after another.
fn readers(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = length(s, 1).min(200_000);
    let sh = Shape::gen(s, false);
    let keep = s.bool();
    c.print(&(n, sh, keep));
    c.label("one reader after another");
    c.nontrivial = n > 65_536;
    c.describe(|| format!("{} readers one after another, the blocks kept: {}", n, keep));
    let mut kept: Vec<Block> = Vec::new();
    let mut d = Vec::new();
    for i in 0..n {
        d.clear();
        d.extend_from_slice(b"fLaC\x00\x00\x00\x22");
        d.extend_from_slice(&sh.info(1, true));
        d.extend_from_slice(b"\x84\x00\x00\x0f\x02\x00\x00\x00vv\x01\x00\x00\x00\x01\x00\x00\x00=");
        sh.frame(i, &mut d);
        let mut r = good!(i, FlacReader::new(&d[..]));
        ensure!(r.vendor() == Some("vv") && r.tags().next() == Some(("", "")), "tags", "the tags of reader {}", i);
        let b = some!(i, FrameReader::with_fixed_block_size(BufferedReader::new(&d[8 + 34 + 4 + 15..]), sh.bs as u16).read_next_or_eof(Vec::new()));
        sh.check(i, &b, true)?;
        let b = some!(i, r.blocks().read_next_or_eof(Vec::new()));
        if keep && i % 8 == 0 { kept.push(b); } else { sh.check(i, &b, sh.bs <= 16)?; }
    }
    for (j, b) in kept.iter().enumerate() { sh.check(j as u64 * 8, b, true)?; }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    c.runs += 1;
    match s.weighted(&[10, 4, 2, 4, 3, 2, 3, 2]) {
        0 => frames(s, c),
        1 => metadata(s, c),
        2 => tags(s, c),
        3 => data(s, c),
        4 => bit_run(s, c),
        5 => after(s, c),
        6 => failures(s, c),
        _ => readers(s, c),
    }
}

/// The CRC-16 state after `n` zero bytes, as a linear map of the state before.
fn shift(n: usize) -> [u16; 16] {
    let zeros = vec![0u8; n];
    let mut m = [0u16; 16];
    for k in 0..16 {
        let mut d = vec![(1u16 << k >> 8) as u8, (1u16 << k) as u8];
        // After these two bytes the state is a function of them; continue.
        d.extend_from_slice(&zeros[..n.saturating_sub(2)]);
        m[k] = crc16(&d);
    }
    m
}

fn far(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    c.runs += 1;
    c.nontrivial = true;
    // The last kinds take longer.
    let kind = s.weighted(&[6, 4, 4, 4, 1, 1]);
    let past = 1u64 << 32;
    let mut sh = Shape::gen(s, true);
    sh.bs = 65_535 - s.draw(3) as u32;
    sh.verbatim = false;
    match kind {
        0 => {
            // Samples, or samples of each channel.
            c.label("samples");
            let per = if s.bool() { sh.channels() } else { sh.chan = s.draw(1) as u8; 1 };
            let n = past / (sh.bs * per) as u64 + 3;
            c.print(&(kind, sh, n));
            c.describe(|| format!("{} frames of {:?}, by blocks", n, sh));
            let mut r = good!("open", FlacReader::new(pieces(sh.stream(n, true))));
            let mut f = r.blocks();
            let mut buf = Vec::new();
            for i in 0..n {
                let b = some!(i, f.read_next_or_eof(buf));
                sh.check(i, &b, false)?;
                buf = b.into_buffer();
            }
            end(n, f.read_next_or_eof(buf))
        }
        1 => {
            c.label("bytes of metadata");
            let n = 257 + s.draw(4);
            let kind = *s.pick(&[1u8, 3, 5, 6, 99]);
            let it = s.bool();
            c.print(&(1, n, kind, it));
            c.describe(|| format!("{} metadata blocks of kind {}, of 16777215 bytes each", n, kind));
            sh.bs = 16;
            let mut blk = 0;
            let mut part = 0u64;
            let src = pieces(move |i, o: &mut Vec<u8>| {
                if i == 0 {
                    o.extend_from_slice(b"fLaC\x00\x00\x00\x22");
                    o.extend_from_slice(&sh.info(1, true));
                    return true;
                }
                if blk == n {
                    if part == 0 { part = 1; sh.frame(0, o); return true; }
                    return false;
                }
                // A block in pieces.
                if part == 0 {
                    o.extend_from_slice(&[kind | ((blk + 1 == n) as u8) << 7, 0xff, 0xff, 0xff]);
                }
                let k = (0xff_ffff - part).min(1 << 18);
                o.resize(o.len() + k as usize, 0xa5);
                part += k;
                if part == 0xff_ffff { part = 0; blk += 1; }
                true
            });
            let mut r = if it {
                let mut b = BufferedReader::new(src);
                good!("skip", b.skip(4));
                {
                    let mut m = MetadataBlockReader::new(&mut b);
                    for i in 0..n + 1 {
                        match m.next() { Some(Ok(_)) => {} _ => return fail("end", format!("no block {}", i)) }
                    }
                    ensure!(m.next().is_none(), "no-end", "more than {} blocks", n + 1);
                }
                let x = some!("frame", FrameReader::new(b).read_next_or_eof(Vec::new()));
                return sh.check(0, &x, true);
            } else { good!("open", FlacReader::new(src)) };
            let b = some!("frame", r.blocks().read_next_or_eof(Vec::new()));
            sh.check(0, &b, true)
        }
        2 => {
            c.label("bytes");
            let h = s.draw(u64::MAX);
            let start = past - 2000 - s.draw(4000);
            let big = s.bool();
            c.print(&(2, h, start, big));
            c.describe(|| format!("operations on both sides of byte 2^32, after passing over {}", start));
            let mut r = BufferedReader::new(Numbered { at: 0, len: past * 2, eof: 0 });
            let mut pos = 0;
            ops(&mut r, h, &mut pos, 1000, past)?;
            if big {
                good!("skip", r.skip((start - pos) as u32));
            } else {
                // In pieces.
                let mut b = vec![0u8; 1 << 20];
                let mut k = pos;
                while k < start {
                    let m = (start - k).min(1 << 20);
                    good!(k, r.read_into(&mut b[..m as usize]));
                    ensure!(b[0] == byte(k) && b[m as usize - 1] == byte(k + m - 1), "value", "bytes filled in at {}", k);
                    k += m;
                }
            }
            pos = start;
            ops(&mut r, h ^ 1, &mut pos, 2000, past * 2)
        }
        3 => {
            c.label("bits");
            let h = s.draw(u64::MAX);
            let w = 29 + s.draw(3) as u32;
            c.print(&(3, h, w));
            c.describe(|| format!("fields of {} bits, beyond 2^32 bits", w));
            let mut b = Bitstream::new(BufferedReader::new(Numbered { at: 0, len: u64::MAX, eof: 0 }));
            let mut at = 0;
            bits(&mut b, h, &mut at, 1000, None)?;
            bits(&mut b, h, &mut at, past / w as u64 - 100, Some(w))?;
            bits(&mut b, h, &mut at, 3000, None)
        }
        4 => {
            c.label("samples one by one");
            sh.chan = s.draw(7) as u8;
            let own = s.bool();
            let n = past / (sh.bs * sh.channels()) as u64 + 2;
            c.print(&(4, sh, n, own));
            c.describe(|| format!("{} frames of {:?}, by samples", n, sh));
            fn all<I: Iterator<Item = claxon::Result<i32>>>(sh: &Shape, n: u64, mut it: I) -> Result<(), Fail> {
                for i in 0..n {
                    let want: Vec<i32> = (0..sh.channels()).map(|ch| sh.sample(i, ch, 0)).collect();
                    for _ in 0..sh.bs {
                        for &w in &want {
                            match it.next() {
                                Some(Ok(v)) if v == w => {}
                                x => return fail("sample", format!("{:?} instead of {} in frame {}", x, w, i)),
                            }
                        }
                    }
                }
                ensure!(it.next().is_none(), "no-end", "a sample or an error after all of {} frames", n);
                Ok(())
            }
            let mut r = good!("open", FlacReader::new(pieces(sh.stream(n, true))));
            if own { all(&sh, n, r.into_samples()) } else { all(&sh, n, r.samples()) }
        }
        _ => {
            c.label("bytes of frames");
            sh.chan = 7;
            sh.bps = 24;
            sh.variable = s.bool();
            let seed = s.draw(u64::MAX);
            c.print(&(5, sh, seed));
            // The same audio in each frame; only the number differs.
            let mut body = Vec::new();
            let len = 1 + 3 * sh.bs as usize;
            for ch in 0..8u64 {
                body.push(2);
                for k in 0..3 * sh.bs as u64 { body.push(byte(seed.wrapping_add(ch << 20 ^ k) >> 1)); }
            }
            let n = past / body.len() as u64 + 2;
            c.describe(|| format!("{} verbatim frames of {:?} with {} bytes each", n, sh, body.len()));
            let own = crc16(&body);
            let map = shift(body.len());
            let b2 = body.clone();
            let mut r = good!("open", FlacReader::new(pieces(move |i, o: &mut Vec<u8>| {
                if i == 0 {
                    o.extend_from_slice(b"fLaC\x80\x00\x00\x22");
                    o.extend_from_slice(&sh.info(n, true));
                    return true;
                }
                if i > n { return false; }
                sh.head(i - 1, o);
                let st = crc16(o);
                let mut c = own;
                for k in 0..16 { if st >> k & 1 == 1 { c ^= map[k]; } }
                o.extend_from_slice(&b2);
                o.extend_from_slice(&[(c >> 8) as u8, c as u8]);
                true
            })));
            let mut f = r.blocks();
            let mut buf = Vec::new();
            for i in 0..n {
                let b = some!(i, f.read_next_or_eof(buf));
                ensure!(b.time() == sh.time(i) && b.duration() == sh.bs && b.channels() == 8, "shape", "frame {}", i);
                for ch in 0..8 {
                    let x = &body[ch * len + 1..(ch + 1) * len];
                    for &t in &[0, sh.bs as usize / 3, sh.bs as usize - 1] {
                        let want = ((x[3 * t] as i32) << 24 | (x[3 * t + 1] as i32) << 16 | (x[3 * t + 2] as i32) << 8) >> 8;
                        ensure!(b.sample(ch as u32, t as u32) == want, "sample", "frame {} channel {} sample {}", i, ch, t);
                    }
                }
                buf = b.into_buffer();
            }
            end(n, f.read_next_or_eof(buf))
        }
    }
}
