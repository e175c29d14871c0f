//! C10: metadata blocks are framed and interpreted correctly.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::input::BufferedReader;
use claxon::metadata::{self, MetadataBlockReader};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C10",
    case,
    rule: "A case is a list of metadata blocks of all kinds and lengths (empty, a few bytes, around multiples of the buffer size, 70 kB), read as a list or as part of a stream whose audio must follow, or such a stream with exactly one defect; compared with the generated list and its byte positions; \
           non-trivial: at least two blocks, or a defect; distinct by bytes.",
};

fn list(s: &mut Src) -> Vec<MBlock> {
    let big = s.chance(1, 5);
    let mut v = meta::gen_extra_blocks(s, big);
    if s.chance(1, 3) {
        let at = s.urange(0, v.len());
        v.insert(at, MBlock::info(&some_info(s)));
    }
    if s.chance(1, 6) {
        let at = s.urange(0, v.len());
        let t = meta::gen_tags(s, 4);
        v.insert(at, t);
    }
    if v.is_empty() { v.push(meta::gen_block(s, big)); }
    let n = v.len();
    for (i, b) in v.iter_mut().enumerate() { b.last = i + 1 == n; }
    v
}

fn some_info(s: &mut Src) -> Info {
    Info { min_bs: 16, max_bs: 4096, min_fs: 0, max_fs: s.urange(0, 9) as u32, rate: 44100, channels: 2, bps: 16, samples: s.ubits(36), md5: [7; 16] }
}

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let v = list(s);
    let mut b = Vec::new();
    let mut at = vec![0usize];
    for m in &v { m.emit(&mut b); at.push(b.len()); }
    let total = b.len();
    let k = s.urange(0, 50);
    b.extend(s.bytes(k));
    c.print(&b);
    c.nontrivial = v.len() >= 2;
    for m in &v { c.label(&format!("kind:{}", match m.kind { 7..=126 => "reserved".to_string(), k => k.to_string() })); }
    c.describe(|| format!("blocks (kind, length) {:?}", v.iter().map(|m| (m.kind, m.body.len())).collect::<Vec<_>>()));
    c.runs += 1;
    let check = |m: &metadata::MetadataBlock, i: usize| -> Result<(), Fail> {
        meta::matches(m, &v[i].model, v[i].body.len()).or_else(|t| fail("content", format!("block {}: {}", i, t)))
    };
    match s.draw(2) {
        // The iterator over a cursor: positions are visible.
        0 => {
            let mut cur = Cursor::new(&b[..]);
            let mut it = MetadataBlockReader::new(&mut cur);
            for i in 0..v.len() {
                let (lo, hi) = it.size_hint();
                let left = v.len() - i;
                ensure!(lo <= left && hi.map(|h| h >= left).unwrap_or(true), "size-hint", "{} blocks left, hint {:?}", left, (lo, hi));
                match it.next() {
                    Some(Ok(ref m)) => check(m, i)?,
                    Some(Err(e)) => return fail("rejected", format!("block {} of kind {} length {} rejected: {:?}", i, v[i].kind, v[i].body.len(), err(&e))),
                    None => return fail("early-end", format!("ended after {} of {} blocks", i, v.len())),
                }
            }
            let (lo, hi) = it.size_hint();
            ensure!(lo == 0 && hi.map(|_| true).unwrap_or(true), "size-hint", "no block left, hint {:?}", (lo, hi));
            for _ in 0..3 {
                if let Some(r) = it.next() {
                    return fail("past-last", format!("a block after the last: {:?}", r.map(|m| meta::block_str(&m)).map_err(|e| err(&e))));
                }
            }
            drop(it);
            ensure!(cur.position() as usize == total, "consumed", "the blocks are {} bytes, {} were consumed", total, cur.position());
        }
        // One by one, also without headers.
        1 => {
            let mut cur = Cursor::new(&b[..]);
            for i in 0..v.len() {
                let with = s.bool();
                let r = if with {
                    metadata::read_metadata_block_with_header(&mut cur)
                } else {
                    cur.set_position(at[i] as u64 + 4);
                    metadata::read_metadata_block(&mut cur, v[i].kind, v[i].body.len() as u32)
                };
                match r {
                    Ok(ref m) => check(m, i)?,
                    Err(e) => return fail("rejected", format!("block {} of kind {} length {} rejected: {:?}", i, v[i].kind, v[i].body.len(), err(&e))),
                }
                ensure!(cur.position() as usize == at[i + 1], "consumed", "block {} ends at {}, consumed up to {}", i, at[i + 1], cur.position());
            }
        }
        // Over a buffered reader: the next byte is visible.
        _ => {
            use claxon::input::ReadBytes;
            let chunks = gen_chunks(s);
            let mut rd = BufferedReader::new(ScriptReader::new(Rc::new(b.clone()), chunks));
            let mut i = 0;
            for r in MetadataBlockReader::new(&mut rd) {
                ensure!(i < v.len(), "past-last", "more than {} blocks", v.len());
                match r {
                    Ok(ref m) => check(m, i)?,
                    Err(e) => return fail("rejected", format!("block {} of kind {} length {} rejected: {:?}", i, v[i].kind, v[i].body.len(), err(&e))),
                }
                i += 1;
            }
            ensure!(i == v.len(), "early-end", "{} of {} blocks", i, v.len());
            let mut rest = Vec::new();
            while let Ok(Some(x)) = rd.read_u8_or_eof() { rest.push(x); if rest.len() > k { break; } }
            ensure!(rest == &b[total..], "consumed", "{} bytes follow the blocks, but {} were left", k, rest.len());
        }
    }
    Ok(())
}

fn stream(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let big_meta = s.chance(1, 5);
    let st = gen_stream(s, &StreamOpts { min_frames: 1, max_frames: 2, max_bs: 200, big_meta, ..StreamOpts::default() });
    let chunks = gen_chunks(s);
    c.print(&st.bytes);
    c.nontrivial = st.blocks.len() >= 2;
    c.label("stream");
    c.describe(|| format!("stream with blocks (kind, length) {:?}", st.blocks.iter().map(|m| (m.kind, m.body.len())).collect::<Vec<_>>()));
    let o = FlacReaderOptions { metadata_only: false, read_vorbis_comment: s.chance(3, 4) };
    c.runs += 1;
    let mut r = match FlacReader::new_ext(ScriptReader::new(Rc::new(st.bytes.clone()), chunks), o) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("valid stream not opened: {:?}", err(&e))),
    };
    meta::info_matches(&r.streaminfo(), &st.info).or_else(|m| fail("content", m))?;
    let tags = st.blocks.iter().find_map(|b| match b.model { Model::Tags { ref vendor, ref comments } => Some((vendor, comments)), _ => None });
    match tags {
        Some((v, cs)) if o.read_vorbis_comment => {
            ensure!(r.vendor() == Some(&v[..]), "tags", "vendor {:?}, reported {:?}", v, r.vendor());
            let got: Vec<String> = r.tags().map(|(a, b)| format!("{}={}", a, b)).collect();
            ensure!(&got == cs, "tags", "tags {:?}, reported {:?}", cs, got);
        }
        _ => ensure!(r.vendor().is_none() && r.tags().len() == 0, "tags", "tags reported that are not there or not wanted"),
    }
    let (bl, end) = read_blocks(&mut r.blocks());
    ensure!(bl.len() == st.frames.len() && end == End::Clean, "audio", "audio does not start behind the metadata: {} of {} frames, then {:?}", bl.len(), st.frames.len(), end);
    for (f, b) in st.frames.iter().zip(&bl) { super::c01::check_frame(f, b, "after the metadata")?; }
    Ok(())
}

fn defect(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { min_frames: 1, max_frames: 1, max_bs: 64, ..StreamOpts::default() });
    let mut sig = b"fLaC".to_vec();
    let mut bl = st.blocks.clone();
    let kind = s.draw(9);
    let what = match kind {
        0 => {
            match s.draw(3) {
                0 => { let i = s.urange(0, 31); sig[i / 8] ^= 0x80 >> (i % 8); }
                1 => sig = s.pick(&[b"FLAC", b"flac", b"OggS", b"RIFF", b"CaLf", b"ID3\x02", b"ID3\x00", b"ID3\xff", b"\0\0\0\0", b"fLaD"]).to_vec(),
                2 => { sig = s.bytes(4); if sig == b"fLaC" { return Ok(()); } }
                _ => { sig = b"ID3".to_vec(); sig.push(s.byte()); }
            }
            "signature"
        }
        1 | 2 => {
            // Something else first.
            let b = match s.draw(2) { 0 => meta::gen_tags(s, 3), 1 => { let mut b = meta::gen_block(s, false); b.kind = *s.pick(&[1u8, 3, 5, 6, 7, 126, 100]); b } _ => meta::gen_block(s, false) };
            if s.bool() { bl[0] = b; } else { bl.insert(0, b); }
            "first-block"
        }
        3 => {
            let at = s.urange(1, bl.len());
            let b = if s.bool() { bl[0].clone() } else { MBlock::info(&some_info(s)) };
            bl.insert(at, b);
            "second-streaminfo"
        }
        4 => {
            let t = bl.iter().position(|b| b.kind == 4);
            let t1 = meta::gen_tags(s, 3);
            let at = s.urange(1, bl.len());
            bl.insert(at, t1);
            if t.is_none() {
                let t2 = meta::gen_tags(s, 3);
                let at = s.urange(1, bl.len());
                bl.insert(at, t2);
            }
            "second-tags"
        }
        5 => {
            let mut b = meta::gen_block(s, false);
            b.kind = 127;
            if s.bool() { b.claim = Some(s.ubits(24) as u32); }
            let at = s.urange(0, bl.len());
            bl.insert(at, b);
            "kind-127"
        }
        6 => {
            let i = 0;
            let l = match s.draw(2) { 0 => *s.pick(&[0u32, 33, 35, 17]), 1 => s.urange(0, 70) as u32, _ => s.ubits(24) as u32 };
            if l == 34 { return Ok(()); }
            bl[i].claim = Some(l);
            "streaminfo-length"
        }
        7 => {
            let n = s.urange(0, 3);
            let at = s.urange(1, bl.len());
            let body = s.bytes(n);
            bl.insert(at, MBlock { last: false, kind: 2, body, model: Model::Opaque, claim: None });
            "application-length"
        }
        8 => {
            let n = s.urange(0, 7);
            let body = if s.bool() { vec![0; n] } else { s.bytes(n) };
            bl.retain(|b| b.kind != 4);
            let at = s.urange(1, bl.len());
            bl.insert(at, MBlock { last: false, kind: 4, body, model: Model::Opaque, claim: None });
            "tags-length"
        }
        _ => {
            // The kind-127 byte with the last flag, as the very end.
            let mut b = meta::gen_block(s, false);
            b.kind = 127;
            bl.push(b);
            "kind-127"
        }
    };
    let n = bl.len();
    let mut d = sig;
    for (i, b) in bl.iter_mut().enumerate() {
        b.last = i + 1 == n;
        b.emit(&mut d);
    }
    for f in &st.frames { d.extend_from_slice(&f.bytes); }
    d.extend(vec![0u8; 200]);
    c.print(&d);
    c.nontrivial = true;
    c.label(what);
    c.describe(|| format!("{}: blocks (kind, length) {:?}", what, bl.iter().map(|m| (m.kind, m.claim.unwrap_or(m.body.len() as u32))).collect::<Vec<_>>()));
    let o = FlacReaderOptions { metadata_only: false, read_vorbis_comment: s.chance(3, 4) };
    let chunks = gen_chunks(s);
    c.runs += 1;
    match FlacReader::new_ext(ScriptReader::new(Rc::new(d), chunks), o) {
        Ok(_) => fail(&format!("accepted:{}", what), format!("a stream with defect '{}' was opened", what)),
        Err(e) => {
            let e = err(&e);
            ensure!(e.is_format(), &format!("class:{}", what), "defect '{}' gave {:?}", what, e);
            Ok(())
        }
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.weighted(&[4, 3, 4]) {
        0 => blocks(s, c),
        1 => stream(s, c),
        _ => defect(s, c),
    }
}
