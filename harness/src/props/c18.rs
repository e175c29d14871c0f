//! C18: memory safety does not depend on a well-behaved source.

use std::cell::Cell;
use std::io::{self, Cursor, Read};
use std::rc::Rc;

use crate::alloc;
use crate::damage::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlockReader};
use claxon::{subframe, FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C18",
    case,
    rule: "A case is a stream, metadata or byte string read from a misbehaving source: a `Read` that returns wrong counts, a `ReadBytes` that claims success without filling the buffer, changes what it returns, looks into the buffers it is given or panics, an `AsRef<[u8]>` whose length changes, or a list of tags with separators that are not there; run twice with fresh memory filled with different bytes (also under AddressSanitizer), everything observable must be the same; \
           non-trivial: the source misbehaved at least once, or a separator is not one; distinct by bytes and misbehaviour.",
};

/// What happened, rendered.
type Obsv = String;

fn fold(h: &mut u64, b: &[u8]) {
    for &x in b { *h = (*h ^ x as u64).wrapping_mul(0x100000001b3); }
}

#[derive(Clone, Debug)]
struct Lies {
    /// Read number, and the count that is returned for it.
    at: Vec<(u64, usize)>,
    chunks: Vec<usize>,
    panic_at: Option<u64>,
}

/// A `Read` that returns the counts it likes.
struct Liar { d: Rc<Vec<u8>>, pos: usize, n: u64, lies: Lies, told: Rc<Cell<u64>>, seen: Rc<Cell<u64>>, budget: u64 }

impl Read for Liar {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut h = self.seen.get();
        fold(&mut h, b);
        self.seen.set(h);
        let i = self.n;
        self.n += 1;
        if i < 40 { alloc::dirty_stack_again(); }
        if self.n > self.budget { return Err(io::Error::new(io::ErrorKind::Other, "enough")); }
        if self.lies.panic_at == Some(i) { self.told.set(self.told.get() + 1); panic!("source panics"); }
        let c = self.lies.chunks[i as usize % self.lies.chunks.len()];
        let mut n = (self.d.len() - self.pos).min(b.len());
        if c > 0 { n = n.min(c); }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        if let Some(&(_, v)) = self.lies.at.iter().find(|x| x.0 == i) {
            self.told.set(self.told.get() + 1);
            return Ok(v);
        }
        Ok(n)
    }
}

fn gen_lies(s: &mut Src) -> Lies {
    let n = s.urange(1, 3);
    let at = (0..n).map(|_| {
        let i = match s.draw(2) { 0 => 0, 1 => s.draw(3), _ => s.draw(30) };
        let v = match s.draw(7) {
            0 => 2049,
            1 => usize::MAX,
            2 => (1usize << 32) + s.num(4096) as usize,
            3 => s.urange(4096, 70_000),
            4 => 1 << 31,
            5 => u32::MAX as usize - s.draw(2) as usize,
            6 => s.num(2048) as usize,
            _ => s.ubits(64) as usize,
        };
        (i, v)
    }).collect();
    let panic_at = if s.chance(1, 10) { Some(s.draw(5)) } else { None };
    Lies { at, chunks: gen_chunks(s), panic_at }
}

/// A `ReadBytes` of our own.
#[derive(Clone, Debug)]
struct Bad {
    d: Rc<Vec<u8>>,
    pos: usize,
    n: u64,
    /// 0: fills nothing, 1: fills a part, 2: fills too late (the next call),
    /// 3: honest.
    fill: u8,
    /// Every how many calls something else happens; 0: never.
    odd: u64,
    odd_kind: u8,
    seen: Rc<Cell<u64>>,
    misdeeds: Rc<Cell<u64>>,
    budget: u64,
}

impl Bad {
    fn next(&mut self) -> io::Result<Option<u8>> {
        self.n += 1;
        if self.n < 40 { alloc::dirty_stack_again(); }
        if self.n > self.budget { return Err(io::Error::new(io::ErrorKind::Other, "enough")); }
        if self.odd > 0 && self.n % self.odd == 0 {
            self.misdeeds.set(self.misdeeds.get() + 1);
            match self.odd_kind {
                0 => return Ok(Some(0xff)),
                1 => return Ok(None),
                2 => return Err(io::Error::new(io::ErrorKind::Other, "odd")),
                _ => panic!("source panics"),
            }
        }
        if self.pos < self.d.len() { self.pos += 1; Ok(Some(self.d[self.pos - 1])) } else { Ok(None) }
    }
}

impl ReadBytes for Bad {
    fn read_u8(&mut self) -> io::Result<u8> {
        match self.next()? { Some(x) => Ok(x), None => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end")) }
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { self.next() }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> {
        // Looks at what it is given.
        let mut h = self.seen.get();
        if b.len() <= 1 << 22 { fold(&mut h, b); }
        self.seen.set(h);
        let k = b.len().min(self.d.len() - self.pos);
        let fill = match self.fill { 0 => 0, 1 => k / 2, _ => k };
        if fill < b.len() { self.misdeeds.set(self.misdeeds.get() + 1); }
        b[..fill].copy_from_slice(&self.d[self.pos..self.pos + fill]);
        self.pos += k;
        if self.fill == 3 && k < b.len() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end")); }
        Ok(())
    }
    fn skip(&mut self, n: u32) -> io::Result<()> {
        self.pos = (self.pos + n as usize).min(self.d.len());
        Ok(())
    }
}

/// A slice whose length changes from call to call.
struct Shifty { d: Vec<u8>, n: Cell<usize>, cuts: Vec<usize>, uses: Rc<Cell<u64>> }
impl AsRef<[u8]> for Shifty {
    fn as_ref(&self) -> &[u8] {
        let i = self.n.get();
        self.n.set(i + 1);
        let k = self.cuts[i % self.cuts.len()];
        if k < self.d.len() { self.uses.set(self.uses.get() + 1); }
        &self.d[..k.min(self.d.len())]
    }
}

fn obs_meta<R: ReadBytes>(rd: R) -> Obsv {
    let mut v: Vec<String> = Vec::new();
    for b in MetadataBlockReader::new(rd).take(40) {
        match b { Ok(b) => v.push(block_text(&b)), Err(e) => { v.push(format!("{:?}", err(&e))); break; } }
    }
    v.join("; ")
}

fn block_text(b: &metadata::MetadataBlock) -> String {
    let mut h = 0xcbf29ce484222325u64;
    match *b {
        metadata::MetadataBlock::VorbisComment(ref v) => {
            fold(&mut h, v.vendor.as_bytes());
            for &(ref t, i) in &v.comments { fold(&mut h, t.as_bytes()); h ^= i as u64; }
        }
        metadata::MetadataBlock::Application { id, ref data } => { fold(&mut h, data); h ^= id as u64; }
        _ => {}
    }
    let t = meta::block_str(b);
    format!("{:.60} {:x}", t, h)
}

fn obs_run(r: &(Vec<BD>, End)) -> Obsv {
    let mut h = 0xcbf29ce484222325u64;
    for b in &r.0 {
        for x in &b.samples { fold(&mut h, &x.to_le_bytes()); }
        h = h.wrapping_mul(31) ^ b.time ^ (b.channels as u64) << 40 ^ (b.duration as u64) << 48;
    }
    format!("{} blocks {:x} {:?}", r.0.len(), h, r.1)
}

/// Accessors of a block, used beyond its bounds.
fn probe(b: &claxon::Block) -> u64 {
    let (ch, n) = (b.channels(), b.duration());
    let mut h = 0x9e3779b97f4a7c15u64;
    let mut note = |r: Result<i64, Panicked>| fold(&mut h, &match r { Ok(v) => v.to_le_bytes(), Err(_) => [0xee; 8] });
    note(guard(|| b.channel(ch).iter().map(|&x| x as i64).sum()));
    note(guard(|| b.channel(u32::MAX).len() as i64));
    note(guard(|| b.sample(ch, 0) as i64));
    note(guard(|| b.sample(ch - 1, n) as i64));
    note(guard(|| b.sample(ch - 1, u32::MAX) as i64));
    note(guard(|| b.sample(u32::MAX, u32::MAX) as i64));
    note(guard(|| b.sample(1 << 16, 1 << 16) as i64));
    let two = |o: Option<(i32, i32)>| match o { None => -1, Some((l, r)) => l as i64 ^ (r as i64) << 20 };
    note(guard(|| two(b.stereo_samples().nth(n as usize))));
    note(guard(|| two(b.stereo_samples().nth(n as usize + 5))));
    note(guard(|| two(b.stereo_samples().nth(usize::MAX))));
    note(guard(|| two(b.stereo_samples().skip(n as usize + 1).next())));
    note(guard(|| { let mut it = b.stereo_samples(); it.nth(n as usize - 1); two(it.next()) ^ two(it.next()) }));
    note(guard(|| two(b.stereo_samples().last())));
    h
}

fn obs_frames<R: ReadBytes>(rd: R, limit: usize) -> Obsv {
    let mut fr = FrameReader::new(rd);
    let mut v = (Vec::new(), End::Clean);
    let mut buf = Vec::new();
    while v.0.len() < limit {
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => {
                let mut x = bd(&b);
                if x.channels == 2 { for (l, r) in b.stereo_samples() { x.samples.push(l ^ r); } }
                if v.0.len() < 2 { x.time ^= probe(&b); }
                v.0.push(x);
                buf = b.into_buffer();
            }
            Ok(None) => break,
            Err(e) => { v.1 = End::Err(err(&e)); break; }
        }
    }
    obs_run(&v)
}

fn obs_sub<R: ReadBytes>(rd: R, bps: u32, n: usize) -> Obsv {
    let mut b = vec![0x5a5a5a5ai32; n];
    let mut bs = Bitstream::new(rd);
    let r = subframe::decode(&mut bs, bps, &mut b).map_err(|e| err(&e));
    // Only what a success returns counts; the buffer is ours.
    let mut h = 0u64;
    if r.is_ok() { for x in &b { fold(&mut h, &x.to_le_bytes()); } }
    format!("{:?} {:x}", r, h)
}

fn bytes_run<R: ReadBytes>(rd: &mut R, ops: &[(u64, usize)]) -> Obsv {
    let mut v = Vec::new();
    for &(o, k) in ops {
        let g = guard(|| super::c07::apply(rd, o, k));
        let g = match g { Ok(g) => format!("{:?}", g), Err(p) => format!("panic {}", p.msg) };
        v.push(format!("{:.80}", g));
    }
    v.join(",")
}

/// Runs `f` with fresh memory of either kind.
fn twice<F: Fn() -> Obsv>(c: &mut Ctx, what: &str, f: F) -> Result<(), Fail> {
    let run = |p: u8| alloc::with_poison(p, || match guard(&f) { Ok(o) => o, Err(p) => format!("panic: {}", p.msg) });
    c.runs += 2;
    let a = run(0x00);
    let b = run(0xaa);
    ensure!(a == b, "uninitialised", "{}: what fresh memory contains shows: {:.200} versus {:.200}", what, a, b);
    let k = if a.starts_with("panic") { "panic" } else { "other" };
    c.label(k);
    Ok(())
}

fn input(s: &mut Src) -> (Vec<u8>, &'static str) {
    match s.draw(4) {
        0 => { let (b, l) = streamish(s, 1000); (b, l) }
        1 => {
            let big_meta = s.chance(1, 4);
            let st = gen_stream(s, &StreamOpts { max_frames: 2, max_bs: 600, big_meta, ..StreamOpts::default() });
            (st.bytes, "stream")
        }
        2 => {
            // Metadata with large bodies of which nothing need be there.
            let st = gen_stream(s, &StreamOpts { max_frames: 0, ..StreamOpts::default() });
            let mut b = st.bytes;
            let len = match s.draw(2) { 0 => s.urange(8, 300), 1 => s.urange(8, 5000), _ => 20_000 };
            b[st.meta_at[st.blocks.len() - 1]] &= 0x7f;
            if s.bool() {
                b.push(0x80 | 2);
                b.extend_from_slice(&(len as u32).to_be_bytes()[1..]);
                b.extend_from_slice(b"abcd");
                let k = s.urange(0, len - 4);
                b.extend(s.bytes(k));
            } else {
                b.push(0x80 | 4);
                b.extend_from_slice(&(len as u32).to_be_bytes()[1..]);
                let v = s.urange(0, len - 8);
                b.extend_from_slice(&(v as u32).to_le_bytes());
                if s.bool() { let t = vec![b'v'; v]; b.extend(t); }
                b.extend_from_slice(&1u32.to_le_bytes());
                b.extend_from_slice(&((len - 8 - v) as u32).saturating_sub(4).to_le_bytes());
                let k = s.urange(0, 20);
                b.extend(b"A=".iter());
                b.extend(s.bytes(k));
            }
            (b, "claimed-metadata")
        }
        3 => { let f = gen_frame(s, 600); (f.bytes, "frame") }
        _ => { let n = if s.chance(1, 3) { s.urange(0, 60_000) } else { s.urange(0, 3000) }; (s.bytes(n), "noise") }
    }
}

/// Is `t` part of one of these strings?
fn within(t: &str, list: &[(String, usize)]) -> bool {
    let (p, n) = (t.as_ptr() as usize, t.len());
    n == 0 || list.iter().any(|x| { let q = x.0.as_ptr() as usize; p >= q && n <= x.0.len() && p - q <= x.0.len() - n })
}

/// Tag iterators over a list of the caller's making, with separators that are
/// not there.
fn tag_lists(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(0, 5);
    let mut list: Vec<(String, usize)> = Vec::new();
    for _ in 0..n {
        let t = if s.bool() { format!("{}={}", meta::tag_name(s), meta::text(s, 30)) } else { meta::text(s, 30) };
        let l = t.len();
        let i = match s.draw(6) {
            0 => t.find('=').unwrap_or(0),
            1 => s.urange(0, l),
            2 => l,
            3 => l + s.urange(0, 3),
            4 => l.saturating_sub(s.urange(0, 4)),
            5 => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 31, isize::MAX as usize]),
            _ => s.ubits(64) as usize,
        };
        list.push((t, i));
    }
    let needle = match s.draw(3) {
        0 => meta::tag_name(s),
        1 => String::new(),
        _ => list.get(0).map_or("A".into(), |x| { let k = x.1.min(x.0.len()); x.0.get(..k).unwrap_or("TITLE").to_ascii_lowercase() }),
    };
    c.print(&(&list, &needle));
    c.label("tag-list");
    c.describe(|| format!("tags {:?}, looking for {:?}", list, needle));
    c.nontrivial = list.iter().any(|x| x.0.as_bytes().get(x.1) != Some(&b'='));
    c.runs += 2;
    // A panic is allowed, and ends this iterator.
    let mut a = metadata::Tags::new(&list);
    use_up("Tags", &list, &mut || a.next().map(|(x, y)| vec![x, y]))?;
    let mut b = metadata::GetTag::new(&list, &needle);
    use_up("GetTag", &list, &mut || b.next().map(|x| vec![x]))
}

fn use_up<'a>(what: &str, list: &[(String, usize)], f: &mut dyn FnMut() -> Option<Vec<&'a str>>) -> Result<(), Fail> {
    for _ in 0..list.len() + 3 {
        match guard(|| f()) {
            Ok(Some(v)) => for t in v {
                ensure!(within(t, list), "outside", "{}: a text of {} bytes outside of the tags", what, t.len());
                ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "outside", "{}: not UTF-8: {:?}", what, t.as_bytes());
            },
            Ok(None) => break,
            Err(_) => {}
        }
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 40) { return tag_lists(s, c); }
    let (d, l) = input(s);
    c.label(&format!("input:{}", l));
    c.print(&d);
    let is_stream = d.starts_with(b"fLaC");
    let d = Rc::new(d);
    let o = FlacReaderOptions { metadata_only: s.chance(1, 5), read_vorbis_comment: !s.chance(1, 5) };
    let bps = s.range(1, 32) as u32;
    let n = s.urange(0, 300);
    let which = s.draw(3);
    let nops = s.urange(1, 20);
    let ops: Vec<(u64, usize)> = (0..nops).map(|_| (s.draw(8), match s.draw(3) { 0 => s.urange(0, 20), 1 => s.urange(0, 4000), 2 => 2048, _ => s.urange(0, 100_000) })).collect();
    match s.draw(3) {
        0 => {
            let lies = gen_lies(s);
            c.print(&format!("{:?}", lies));
            c.label("liar");
            c.describe(|| format!("{} {} bytes, {:?}, use {}", l, d.len(), lies, which));
            let told = Rc::new(Cell::new(0));
            let t2 = told.clone();
            twice(c, "wrong counts", move || {
                let seen = Rc::new(Cell::new(0));
                let rd = Liar { d: d.clone(), pos: 0, n: 0, lies: lies.clone(), told: t2.clone(), seen: seen.clone(), budget: 20_000 };
                let r = match (which, is_stream) {
                    (0, true) | (1, true) => match FlacReader::new_ext(rd, o) {
                        Ok(mut r) => {
                            let m = format!("{:?}", meta_obs(&r));
                            if o.metadata_only { m } else { m + &obs_frames_of(&mut r) }
                        }
                        Err(e) => format!("{:?}", err(&e)),
                    },
                    (2, _) => bytes_run(&mut BufferedReader::new(rd), &ops),
                    (3, _) => obs_sub(BufferedReader::new(rd), bps, n),
                    _ => obs_frames(BufferedReader::new(rd), 20),
                };
                format!("{} seen {:x}", r, seen.get())
            })?;
            c.nontrivial = told.get() > 0;
        }
        1 | 2 => {
            let fill = s.draw(3) as u8;
            let odd = if fill == 3 || s.bool() { s.draw(40) } else { 0 };
            let odd_kind = s.draw(3) as u8;
            c.print(&(fill, odd, odd_kind));
            c.label("bad-byte-reader");
            let skip = if is_stream { 4 } else { 0 };
            c.describe(|| format!("{} {} bytes, fill {} odd {} kind {}", l, d.len(), fill, odd, odd_kind));
            let mis = Rc::new(Cell::new(0));
            let m2 = mis.clone();
            twice(c, "a byte reader that does not fill", move || {
                let seen = Rc::new(Cell::new(0));
                let rd = Bad { d: d.clone(), pos: skip, n: 0, fill, odd, odd_kind, seen: seen.clone(), misdeeds: m2.clone(), budget: 200_000 };
                let r = if is_stream { match which { 0 | 1 | 2 => obs_meta(rd), _ => obs_frames(rd, 5) } }
                        else { match which { 0 => obs_meta(rd), 1 => obs_sub(rd, bps, n), _ => obs_frames(rd, 20) } };
                format!("{} seen {:x}", r, seen.get())
            })?;
            c.nontrivial = mis.get() > 0;
        }
        _ => {
            let k = s.urange(1, 6);
            let cuts: Vec<usize> = (0..k).map(|_| if s.bool() { d.len() } else { s.urange(0, d.len()) }).collect();
            c.print(&cuts);
            c.label("shifty-slice");
            c.describe(|| format!("{} {} bytes, lengths {:?}", l, d.len(), cuts));
            let uses = Rc::new(Cell::new(0));
            let u2 = uses.clone();
            twice(c, "a slice that changes its length", move || {
                let cur = Cursor::new(Shifty { d: d.to_vec(), n: Cell::new(0), cuts: cuts.clone(), uses: u2.clone() });
                match which { 0 => obs_meta(cur), 1 => obs_sub(cur, bps, n), 2 => bytes_run(&mut { cur }, &ops), _ => obs_frames(cur, 20) }
            })?;
            c.nontrivial = uses.get() > 0;
        }
    }
    Ok(())
}

fn obs_frames_of<R: Read>(r: &mut FlacReader<R>) -> Obsv {
    obs_run(&read_blocks_limited(r))
}

fn read_blocks_limited<R: Read>(r: &mut FlacReader<R>) -> (Vec<BD>, End) {
    let mut v = Vec::new();
    let mut b = r.blocks();
    for _ in 0..20 {
        match b.read_next_or_eof(Vec::new()) {
            Ok(Some(x)) => {
                let mut y = bd(&x);
                if v.len() < 2 { y.time ^= probe(&x); }
                v.push(y);
            }
            Ok(None) => return (v, End::Clean),
            Err(e) => return (v, End::Err(err(&e))),
        }
    }
    (v, End::Clean)
}
