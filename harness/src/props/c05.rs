//! C05: the output is a function of the stream alone.

use std::io::Cursor;
use std::rc::Rc;

use crate::alloc::with_poison;
use crate::damage::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::{Rng, Src};
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, Bitstream};
use claxon::metadata;

pub const PROP: Prop = Prop {
    id: "C05",
    case,
    rule: "A case decodes the same bytes several times in different circumstances (buffers of other contents, length and capacity, fresh memory filled with other patterns, alone or after other frames, through other readers of the same bytes) and compares everything returned; \
           non-trivial: a block or metadata block was returned at least once with a non-fresh buffer or poisoned memory; distinct by the bytes decoded.",
};

fn fill(s: &mut Src, n: usize) -> Vec<i32> {
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    match s.draw(2) {
        0 => vec![r.next() as i32; n],
        _ => (0..n).map(|_| r.next() as i32).collect(),
    }
}

/// A buffer with length and capacity around `need`.
fn used_buffer(s: &mut Src, need: usize) -> (Vec<i32>, String) {
    let around = |s: &mut Src| -> usize {
        match s.weighted(&[2, 2, 2, 2, 1]) {
            0 => 0,
            1 => need,
            2 => need + s.urange(1, 64),
            3 => s.urange(0, need),
            _ => need * 2 + 1,
        }
    };
    let len = around(s);
    let cap = around(s).max(len);
    let mut v = Vec::with_capacity(cap);
    // What lies between length and capacity was in use before.
    let c = v.capacity();
    v.extend(fill(s, c));
    v.truncate(len);
    let d = format!("len {} cap {} for {}", v.len(), v.capacity(), need);
    (v, d)
}

type One = Result<Option<BD>, E>;

fn same(a: &One, b: &One) -> Result<(), String> {
    match (a, b) {
        (Ok(Some(x)), Ok(Some(y))) => if x == y { Ok(()) } else { Err(diff_bd(x, y)) },
        (Ok(None), Ok(None)) => Ok(()),
        (Err(x), Err(y)) if x.same(y) => Ok(()),
        _ => Err(format!("{:.200} versus {:.200}", format!("{:?}", a), format!("{:?}", b))),
    }
}

fn frames(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    // Frames; all but the last are accepted, so that their ends are known.
    let n = s.urange(1, 4);
    let mut parts: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let last = i + 1 == n;
        match s.weighted(&[5, 4, if last { 3 } else { 0 }]) {
            0 => parts.push(gen_frame(s, 4608).bytes),
            1 => {
                let f = gen_frame(s, 600);
                let mut d = damaged_frame(s, &f);
                if let Some(l) = repair_by_reference(&mut d) {
                    d.truncate(l);
                    c.label("damaged-accepted");
                    parts.push(d);
                } else if last {
                    c.label("damaged-rejected");
                    parts.push(d);
                }
            }
            _ => match super::c04::inject(s) {
                Some(d) => { c.label("defect"); parts.push(emit_frame(&d.spec).0) }
                None => {}
            },
        }
    }
    if parts.is_empty() { return Ok(()); }
    c.print(&parts);
    c.describe(|| format!("{} frames of {:?} bytes", parts.len(), parts.iter().map(|p| p.len()).collect::<Vec<_>>()));
    // Each alone, in fresh zeroed memory.
    let alone: Vec<One> = parts.iter().map(|p| with_poison(0, || read_block(&mut FrameReader::new(Cursor::new(&p[..])), Vec::new()))).collect();
    c.runs += alone.len() as u64;
    for (p, a) in parts.iter().zip(&alone) {
        let need = match *a { Ok(Some(ref b)) => { c.nontrivial = true; b.len as usize } _ => 100 };
        for pat in [0xaau8, 0x01] {
            let (buf, d) = used_buffer(s, need);
            c.runs += 1;
            if p.len() < 2000 && s.chance(1, 3) {
                // A similar frame just before, by another reader.
                let mut t = twin(s, p);
                repair_by_reference(&mut t);
                let _ = read_block(&mut FrameReader::new(Cursor::new(&t[..])), Vec::new());
            }
            let got = with_poison(pat, || read_block(&mut FrameReader::new(Cursor::new(&p[..])), buf));
            if let Err(m) = same(a, &got) {
                return fail("buffer", format!("the buffer handed in ({}; fresh memory {:#x}) changes the result: {}", d, pat, m));
            }
        }
    }
    // All in sequence, reusing the buffer, from one reader.
    let all: Vec<u8> = parts.concat();
    let chunks = gen_chunks(s);
    let mut fr = FrameReader::new(BufferedReader::new(ScriptReader::new(Rc::new(all), chunks)));
    let start = s.urange(0, 300);
    let mut buf = fill(s, start);
    let fresh = s.chance(1, 4);
    for (i, a) in alone.iter().enumerate() {
        c.runs += 1;
        let r = with_poison(0x55, || fr.read_next_or_eof(buf));
        let got = match r {
            Ok(Some(b)) => { let x = bd(&b); buf = if fresh { Vec::new() } else { b.into_buffer() }; Ok(Some(x)) }
            Ok(None) => { buf = Vec::new(); Ok(None) }
            Err(e) => { buf = Vec::new(); Err(err(&e)) }
        };
        if let Err(m) = same(a, &got) {
            return fail("sequence", format!("frame {} of {} decodes differently after the others than alone: {}", i, parts.len(), m));
        }
        if got.is_err() { break; }
    }
    Ok(())
}

fn meta_case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut m = match s.draw(2) { 0 => meta::gen_block(s, false), _ => meta::gen_tags(s, 8) };
    m.last = s.bool();
    let mut b = m.bytes();
    if s.bool() { mutate(s, &mut b); }
    c.print(&b);
    c.describe(|| format!("metadata block kind {} of {} bytes", m.kind, b.len()));
    let chunks = gen_chunks(s);
    let run = |pat: u8| -> Result<String, E> {
        let mut rd = BufferedReader::new(ScriptReader::new(Rc::new(b.clone()), chunks.clone()));
        with_poison(pat, || metadata::read_metadata_block_with_header(&mut rd)).map(|x| meta::block_str(&x)).map_err(|e| err(&e))
    };
    let a = run(0);
    c.nontrivial = a.is_ok();
    c.label(if a.is_ok() { "metadata" } else { "metadata-rejected" });
    for pat in [0xaau8, 0x3d] {
        c.runs += 1;
        if s.bool() {
            let t = twin(s, &b);
            let _ = metadata::read_metadata_block_with_header(&mut Cursor::new(&t[..]));
        }
        let x = run(pat);
        ensure!(a == x, "metadata", "fresh memory {:#x} changes a metadata block: {:.300?} versus {:.300?}", pat, a, x);
    }
    Ok(())
}

fn subframe(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let width = s.urange(1, 32) as u32;
    let n = match s.weighted(&[5, 1]) { 0 => s.urange(1, 100), _ => s.urange(1, 3000) };
    let x = signal(s, n, width, 0);
    let g = encode_sub(s, &x, width, SubOpts { unary_budget: 1000, kind: None });
    let mut w = crate::bits::BitWriter::new();
    emit_sub(&mut w, &g.spec);
    w.align(0);
    let mut b = w.bytes;
    if s.bool() {
        mutate(s, &mut b);
        let k = s.urange(0, 400);
        b.extend(s.bytes(k));
    }
    c.print(&b);
    c.print(&(width, n));
    c.describe(|| format!("subframe of {} samples of {} bits in {} bytes", n, width, b.len()));
    let run = |init: Vec<i32>| -> Result<Vec<i32>, E> {
        let mut buf = init;
        let mut bs = Bitstream::new(Cursor::new(&b[..]));
        claxon::subframe::decode(&mut bs, width, &mut buf).map(|_| buf).map_err(|e| err(&e))
    };
    let a = run(vec![0; n]);
    c.nontrivial = a.is_ok();
    c.label(if a.is_ok() { "subframe" } else { "subframe-rejected" });
    for _ in 0..2 {
        c.runs += 1;
        let r = run(fill(s, n));
        match (&a, &r) {
            (Ok(x), Ok(y)) => if let Some(i) = (0..n).find(|&i| x[i] != y[i]) {
                return fail("subframe", format!("sample {} of a subframe depends on the buffer: {} versus {}", i, x[i], y[i]));
            },
            (Err(x), Err(y)) if x == y => {}
            _ => return fail("subframe", format!("{:.200} versus {:.200}", format!("{:?}", a), format!("{:?}", r))),
        }
    }
    Ok(())
}

/// The same bytes with one or two of them changed: checksums of frames are not
/// made right again, but metadata goes through.
fn twin(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut t = b.to_vec();
    for _ in 0..(1 + s.draw(1)) {
        if t.is_empty() { break; }
        let n = t.len() - 1;
        let at = if s.bool() { s.urange(0, n.min(300)) } else { s.urange(0, n) };
        t[at] ^= 1 << s.draw(5);
    }
    t
}

fn stream(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let (b, l) = streamish(s, 2048);
    c.label(&format!("stream:{}", l));
    c.print(&b);
    c.describe(|| format!("{} stream of {} bytes", l, b.len()));
    let o = claxon::FlacReaderOptions { metadata_only: false, read_vorbis_comment: s.bool() };
    let a = with_poison(0, || observe(Cursor::new(&b[..]), o));
    c.runs += 1;
    c.nontrivial = a.run.as_ref().map(|r| !r.0.is_empty()).unwrap_or(false);
    // Something else decoded in between must not matter, least of all
    // something similar.
    match s.draw(2) {
        0 => {}
        1 => {
            let f = gen_frame(s, 1000);
            let _ = read_block(&mut FrameReader::new(Cursor::new(&f.bytes[..])), Vec::new());
        }
        _ => {
            let t = twin(s, &b);
            let o = claxon::FlacReaderOptions { metadata_only: false, read_vorbis_comment: s.bool() };
            let _ = observe(Cursor::new(&t[..]), o);
            c.label("twin");
        }
    }
    let x = with_poison(0xc3, || observe(Cursor::new(&b[..]), o));
    c.runs += 1;
    if let Err(m) = same_obs(&a, &x) { return fail("stream", format!("decoding again gave something else: {}", m)); }
    // Sample iterators.
    if let (Ok(_), Some(run)) = (&a.open, &a.run) {
        let want: Vec<i32> = run.0.iter().flat_map(interleave).collect();
        let owned = s.bool();
        let got = with_poison(0xaa, || {
            let mut r = claxon::FlacReader::new_ext(Cursor::new(&b[..]), o).ok()?;
            Some(if owned { read_samples(&mut r.into_samples()) } else { let x = read_samples(&mut r.samples()); x })
        });
        c.runs += 1;
        match got {
            None => return fail("stream", "opening again failed".into()),
            Some((v, end)) => {
                ensure!(v == want && end.same(&run.1), "iterator", "{} samples then {:?} by iterator, {} then {:?} by block", v.len(), end, want.len(), run.1);
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.weighted(&[6, 2, 2, 3]) {
        0 => frames(s, c),
        1 => meta_case(s, c),
        2 => subframe(s, c),
        _ => stream(s, c),
    }
}
