//! C28: the result does not depend on how the crate was built.

use std::fmt::Write as _;
use std::hash::Hash;
use std::io::Cursor;

use super::c24::{gen_job, Job, Session};
use crate::damage::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::other;
use crate::src::Src;
use claxon::input::{Bitstream, BufferedReader};
use claxon::metadata;
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C28",
    case,
    rule: "A case is a use of the library (a stream, frames, subframes, metadata, tags, bytes or bits, intact, damaged, or damaged and given correct checksums again) in a build with debug assertions and overflow checks, and the same in a plain debug build and in a release build, in processes of their own; all that is returned must be the same; \
           non-trivial: something other than an error was returned; distinct by the bytes and the use.",
};

const BUILDS: [&str; 2] = ["debug", "release"];

fn pack(j: &Job, out: &mut Vec<u8>) {
    let mut n = |x: usize| out.extend_from_slice(&(x as u64).to_le_bytes());
    for x in [j.kind, j.tags as usize, j.width as usize, j.seek, j.chunks.len(), j.sizes.len(), j.data.len()] { n(x); }
    for &x in &j.chunks { n(x); }
    for &x in &j.sizes { n(x); }
    out.extend_from_slice(&j.data);
}

fn unpack(b: &[u8]) -> Job {
    let n = |i: usize| { let mut x = [0; 8]; x.copy_from_slice(&b[i * 8..i * 8 + 8]); u64::from_le_bytes(x) as usize };
    let (c, z, d) = (n(4), n(5), n(6));
    let at = (7 + c + z) * 8;
    Job { kind: n(0), tags: n(1) != 0, width: n(2) as u32, seek: n(3), chunks: (0..c).map(|i| n(7 + i)).collect(), sizes: (0..z).map(|i| n(7 + c + i)).collect(), data: b[at..at + d].to_vec() }
}

fn bytes<R: claxon::input::ReadBytes>(j: &Job, r: &mut R, out: &mut String) {
    for i in 0..40 {
        let x = j.sizes[i % j.sizes.len()].wrapping_mul(i + 1);
        let _ = write!(out, "{:?} ", super::c07::apply(r, (x % 9) as u64, x / 9 % 70));
    }
}

/// All there is to a block.
fn views(b: &claxon::frame::Block, out: &mut String) {
    let mut h = Fnv(0xcbf29ce484222325);
    for c in 0..b.channels() {
        b.channel(c).hash(&mut h);
        for i in [0, 1, b.duration() / 2, b.duration() - 1] { if i < b.duration() { b.sample(c, i).hash(&mut h); } }
    }
    if b.channels() == 2 {
        let mut it = b.stereo_samples();
        let n = it.by_ref().map(|x| x.hash(&mut h)).count();
        let _ = write!(out, "{} pairs {:?} {:?} {:?}", n, it.next(), it.next(), it.size_hint());
    }
    let _ = write!(out, "{} {} {} {} {:x}", b.time(), b.duration(), b.channels(), b.len(), h.0);
}

/// Everything that using the library in this way returns.
fn observe(j: &Job) -> String {
    let mut out = String::new();
    match j.kind {
        0..=6 => { for t in Session::new(j).run(&mut Vec::new()) { out += &t; out.push('\n'); } }
        7 => bytes(j, &mut BufferedReader::new(ScriptReader::new(std::rc::Rc::new(j.data.clone()), j.chunks.clone())), &mut out),
        8 => bytes(j, &mut Cursor::new(&j.data), &mut out),
        9 => {
            let mut cur = Cursor::new(&j.data);
            let mut b = Bitstream::new(&mut cur);
            for i in 0..60 {
                let x = j.sizes[i % j.sizes.len()].wrapping_mul(i + 1);
                let w = (x / 5 % 33) as u32;
                let _ = match x % 5 {
                    0 => write!(out, "{:?} ", b.read_unary().map_err(|e| e.kind())),
                    1 => write!(out, "{:?} ", b.read_bit().map_err(|e| e.kind())),
                    2 => write!(out, "{:?} ", b.read_leq_u8(w % 9).map_err(|e| e.kind())),
                    3 => write!(out, "{:?} ", b.read_leq_u16(w % 17).map_err(|e| e.kind())),
                    _ => write!(out, "{:?} ", b.read_leq_u32(w).map_err(|e| e.kind())),
                };
            }
        }
        10 => {
            // A metadata block of this kind and length, and what is behind it.
            let mut cur = Cursor::new(&j.data);
            let r = metadata::read_metadata_block(&mut cur, j.width as u8, j.seek as u32);
            let _ = write!(out, "{} at {}", match r { Ok(ref b) => meta::block_str(b), Err(ref e) => format!("{:?} {}", err(e), e) }, cur.position());
        }
        _ => {
            let o = FlacReaderOptions { metadata_only: j.seek % 2 == 1, read_vorbis_comment: j.tags };
            match FlacReader::new_ext(Cursor::new(&j.data), o) {
                Err(e) => { let _ = write!(out, "{:?} {}", err(&e), e); }
                Ok(mut r) => {
                    let _ = write!(out, "{:?}", meta_obs(&r));
                    let names: Vec<String> = r.tags().map(|(n, _)| n.to_ascii_uppercase()).collect();
                    for n in names { let _ = write!(out, "{:?}", r.get_tag(&n).collect::<Vec<_>>()); }
                    let mut it = r.tags();
                    let _ = write!(out, "{:?} {:?} {:?} {:?}", it.len(), it.by_ref().last(), it.next(), it.size_hint());
                    let mut it = r.get_tag("TITLE");
                    let _ = write!(out, "{:?} {:?} {:?}", it.by_ref().count(), it.next(), it.size_hint());
                    if !o.metadata_only && j.sizes[0] % 2 == 0 {
                        let mut bl = r.blocks();
                        while let Ok(Some(b)) = bl.read_next_or_eof(Vec::with_capacity(j.sizes[0])) { views(&b, &mut out); }
                    }
                    if !o.metadata_only {
                        let mut it = r.samples();
                        let (v, e) = read_samples(&mut it);
                        let mut h = Fnv(0xcbf29ce484222325);
                        v.hash(&mut h);
                        let _ = write!(out, "{} samples ({:x}) {:?} {:?}", v.len(), h.0, e, it.next().is_none());
                    }
                }
            }
        }
    }
    out
}

/// The answer to a job: what was observed, or the panic.
pub fn answer(b: &[u8]) -> Vec<u8> {
    let j = unpack(b);
    match guard(|| observe(&j)) {
        Ok(t) => t.into_bytes(),
        Err(p) => format!("panic: {}", p.msg).into_bytes(),
    }
}

fn job(s: &mut Src) -> Job {
    let mut j = gen_job(s);
    match s.weighted(&[12, 2, 2, 3, 3, 3]) {
        0 => {
            if j.kind <= 4 && s.chance(1, 2) && !j.data.is_empty() {
                // Damaged, with the checksums put right.
                for _ in 0..s.urange(1, 3) {
                    if j.data.is_empty() { break; }
                    if s.bool() { mutate(s, &mut j.data); } else { let n = j.data.len() - 1; let at = s.urange(0, n); j.data[at] ^= 1 << s.draw(7); }
                }
                if j.kind >= 3 { repair_by_reference(&mut j.data); }
            }
            if j.kind == 6 && s.chance(1, 3) {
                if s.bool() { let n = s.urange(1, 200); j.data = s.bytes(n); } else if !j.data.is_empty() { let n = j.data.len() - 1; let at = s.urange(0, n); j.data[at] ^= 1 << s.draw(7); }
            }
        }
        k @ 1..=3 => {
            j.kind = 6 + k;
            j.sizes = (0..s.urange(1, 12)).map(|_| s.urange(0, 1 << 20)).collect();
            let n = s.urange(0, 200);
            j.data = if s.chance(1, 3) { vec![0; n] } else { s.bytes(n) };
        }
        4 => {
            j.kind = 10;
            let b = match s.draw(2) { 0 => meta::gen_tags(s, 6), 1 => meta::gen_block(s, false), _ => { let i = gen_stream(s, &StreamOpts { max_frames: 1, ..StreamOpts::default() }).info; meta::MBlock::info(&i) } };
            j.data = b.bytes()[4..].to_vec();
            j.width = if s.chance(1, 10) { s.draw(255) as u32 } else { b.kind as u32 };
            j.seek = j.data.len();
            if s.chance(1, 3) { mutate(s, &mut j.data); }
            if s.chance(1, 6) { j.seek = s.urange(0, j.data.len() + 20); }
            if s.chance(1, 40) { j.seek = s.urange(0, 1 << 24); }
        }
        _ => {
            j.kind = 11;
            j.seek = s.urange(0, 3) / 3;
            let extra = s.urange(0, 5);
            let mut st = gen_stream(s, &StreamOpts { max_frames: 3, max_bs: 400, ..StreamOpts::default() });
            if s.chance(1, 3) { mutate(s, &mut st.bytes); }
            j.data = st.bytes;
            j.data.extend(s.bytes(extra));
        }
    }
    if j.sizes.is_empty() { j.sizes.push(1); }
    j
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let j = job(s);
    c.print(&j);
    let mut b = Vec::new();
    pack(&j, &mut b);
    let label = ["blocks", "into-samples", "samples", "frames", "frames-cursor", "metadata", "subframes", "bytes", "bytes-cursor", "bits", "metadata-block", "everything"][j.kind];
    c.label(label);
    let here = answer(&b);
    c.runs += 3;
    let text = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
    c.nontrivial = here.len() > 60;
    c.describe(|| format!("{} over {} bytes: {:.120}", label, j.data.len(), text(&here)));
    for d in BUILDS {
        let what = if d == "debug" { "plain debug build" } else { "release build" };
        match other::ask(d, &b) {
            Err(m) => return fail("died", format!("the {} {} where this one returns ({}): {:.300}", what, m, label, text(&here))),
            Ok(o) => if o != here {
                let k = o.iter().zip(&here).take_while(|(a, b)| a == b).count().saturating_sub(30);
                return fail("differs", format!("{}: with debug assertions and overflow checks …{:.300}, in a {} …{:.300}", label, text(&here[k..]), what, text(&o[k..])));
            },
        }
    }
    Ok(())
}
