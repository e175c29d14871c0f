//! C19: frames and metadata blocks out of a container.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock};
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;

pub const PROP: Prop = Prop {
    id: "C19",
    case,
    rule: "A case takes a valid stream apart into packets of one metadata block or one or more frames, with or without trailing data, and decodes each with a fresh reader of one of four kinds, comparing with reading the whole stream (a damaged block: alone, without its header and through the iterator) and checking the position afterwards; \
           non-trivial: at least one packet is followed by further data or holds several frames or blocks; distinct by bytes and packets.",
};

/// What is left in a reader: all bytes up to the end.
fn rest<R: ReadBytes>(r: &mut R) -> Vec<u8> {
    let mut v = Vec::new();
    while let Ok(Some(b)) = r.read_u8_or_eof() { v.push(b); }
    v
}

fn trailing(s: &mut Src, more: &[u8]) -> Vec<u8> {
    match s.draw(4) {
        0 => Vec::new(),
        1 => vec![*s.pick(&[0u8, 0xff])],
        2 => { let n = s.urange(1, 40); s.bytes(n) }
        3 => more.to_vec(),
        _ => { let n = s.urange(2000, 2100); vec![0xff; n] }
    }
}

/// Decodes one block with a fresh reader; also what was left.
fn one_block(s: &mut Src, d: &[u8], raw: Option<(u8, u32)>) -> (Result<MetadataBlock, E>, Vec<u8>, &'static str) {
    fn go<R: ReadBytes>(r: &mut R, raw: Option<(u8, u32)>) -> Result<MetadataBlock, E> {
        match raw {
            None => metadata::read_metadata_block_with_header(r),
            Some((ty, len)) => metadata::read_metadata_block(r, ty, len),
        }.map_err(|e| err(&e))
    }
    match s.draw(3) {
        0 => {
            let mut cur = Cursor::new(d);
            let x = go(&mut cur, raw);
            (x, d[(cur.position() as usize).min(d.len())..].to_vec(), "cursor over a slice")
        }
        1 => {
            let mut cur = Cursor::new(d.to_vec());
            let x = { let mut b = &mut cur; go(&mut b, raw) };
            (x, d[(cur.position() as usize).min(d.len())..].to_vec(), "borrowed cursor over a vec")
        }
        2 => {
            let ch = gen_chunks(s);
            let mut b = BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch));
            let x = go(&mut b, raw);
            (x, rest(&mut b), "buffered reader")
        }
        _ => {
            let ch = gen_chunks(s);
            let mut b = BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch));
            let x = { let mut bb = &mut b; go(&mut bb, raw) };
            (x, rest(&mut b), "borrowed buffered reader")
        }
    }
}

fn check_block(s: &mut Src, c: &mut Ctx, m: &MBlock, d: &[u8], more: &[u8]) -> Result<(), Fail> {
    let raw = s.bool();
    let mut p = if raw { d[4..].to_vec() } else { d.to_vec() };
    let t = trailing(s, more);
    if !t.is_empty() { c.nontrivial = true; c.label("block+trailing"); }
    p.extend_from_slice(&t);
    c.print(&p);
    c.runs += 1;
    let (x, left, how) = one_block(s, &p, if raw { Some((m.kind, m.body.len() as u32)) } else { None });
    match x {
        Err(e) => return fail("block-alone", format!("{} (header: {}) of kind {} length {}: {:?}", how, !raw, m.kind, m.body.len(), e)),
        Ok(b) => meta::matches(&b, &m.model, m.body.len()).or_else(|m| fail("block-alone", format!("{}: {}", how, m)))?,
    }
    ensure!(left == t, "block-consumed", "{}: block of kind {}, {} bytes, followed by {} bytes of which {} were left", how, m.kind, m.body.len(), t.len(), left.len());
    Ok(())
}

/// Reads `k` blocks and hands the reader back.
fn take<R: ReadBytes>(rd: R, k: usize, buf: Vec<i32>) -> (Vec<Result<Option<BD>, E>>, R) {
    let mut fr = FrameReader::new(rd);
    let mut out = Vec::new();
    let mut buf = buf;
    for _ in 0..k {
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => { out.push(Ok(Some(bd(&b)))); buf = b.into_buffer(); }
            Ok(None) => { out.push(Ok(None)); buf = Vec::new(); }
            Err(e) => { out.push(Err(err(&e))); buf = Vec::new(); }
        }
    }
    (out, fr.into_inner())
}

fn frames_from(s: &mut Src, d: &[u8], k: usize) -> (Vec<Result<Option<BD>, E>>, Vec<u8>, &'static str) {
    let n = s.urange(0, 600);
    let buf = match s.draw(2) { 0 => Vec::new(), 1 => vec![0x5a5a5a; n], _ => Vec::with_capacity(n) };
    match s.draw(3) {
        0 => {
            let (x, cur) = take(Cursor::new(d), k, buf);
            (x, d[(cur.position() as usize).min(d.len())..].to_vec(), "cursor over a slice")
        }
        1 => {
            let mut cur = Cursor::new(d.to_vec());
            let x = take(&mut cur, k, buf).0;
            (x, d[(cur.position() as usize).min(d.len())..].to_vec(), "borrowed cursor over a vec")
        }
        2 => {
            let ch = gen_chunks(s);
            let (x, mut r) = take(BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch)), k, buf);
            (x, rest(&mut r), "buffered reader")
        }
        _ => {
            let ch = gen_chunks(s);
            let mut b = BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch));
            let x = take(&mut b, k, buf).0;
            (x, rest(&mut b), "borrowed buffered reader")
        }
    }
}

fn as_text(r: &Result<MetadataBlock, E>) -> String {
    match *r { Ok(ref b) => meta::block_str(b), Err(ref e) if e.is_eof() => "unexpected end".into(), Err(ref e) => e.class().to_string() }
}

/// A block whose header or body is damaged gives the same alone, with or
/// without its header, and as the first of a stream's blocks.
fn damaged_block(s: &mut Src, c: &mut Ctx, d: &[u8], more: &[u8]) -> Result<(), Fail> {
    let mut p = d.to_vec();
    match s.draw(4) {
        0 => p[0] = s.byte() as u8,
        1 => { let n = *s.pick(&[0u32, 1, 3, 4, 33, 34, 35, 7, 8]); p[1..4].copy_from_slice(&n.to_be_bytes()[1..]); }
        2 => { let n = ((p.len() as i64 - 4) + s.range(0, 4) as i64 - 2).max(0) as u32; p[1..4].copy_from_slice(&n.to_be_bytes()[1..]); }
        3 if p.len() > 4 => { let i = s.urange(4, p.len().min(60) - 1); p[i] = s.byte() as u8; }
        _ => { p[0] = (p[0] & 0x80) | s.draw(8) as u8; }
    }
    let claim = u32::from_be_bytes([0, p[1], p[2], p[3]]);
    if claim > 1 << 20 { return Ok(()); }
    p.extend_from_slice(more);
    let k = s.urange(0, 40);
    p.extend_from_slice(&vec![0u8; k]);
    c.print(&p);
    c.label("damaged-block");
    c.runs += 3;
    let (x, left, how) = one_block(s, &p, None);
    let it = { let mut cur = Cursor::new(&p[..]); let r = MetadataBlockReader::new(&mut cur).next().map(|r| r.map_err(|e| err(&e))); (r, p.len() - cur.position() as usize) };
    let (a, b) = (as_text(&x), match it.0 { Some(ref r) => as_text(r), None => "nothing".into() });
    ensure!(a == b, "damaged-block", "header {:?} ({} bytes follow): alone ({}) {:.200}, through the iterator {:.200}", &p[..4], p.len() - 4, how, a, b);
    ensure!(x.is_err() || left.len() == it.1, "damaged-block", "header {:?}: alone {} bytes are left, through the iterator {}", &p[..4], left.len(), it.1);
    let (y, left2, how) = one_block(s, &p[4..], Some((p[0] & 0x7f, claim)));
    let a2 = as_text(&y);
    ensure!(a == a2, "damaged-block", "header {:?} ({} bytes follow): with header {:.200}, without ({}) {:.200}", &p[..4], p.len() - 4, a, how, a2);
    ensure!(x.is_err() || left.len() == left2.len(), "damaged-block", "header {:?}: with the header {} bytes are left, without {}", &p[..4], left.len(), left2.len());
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { max_frames: 6, max_bs: 400, big_per_mille: 8, ..StreamOpts::default() });
    c.describe(|| st.describe());
    // The whole stream, first.
    c.runs += 2;
    let whole = match FlacReader::new(ScriptReader::all(&st.bytes)) {
        Ok(mut r) => read_blocks(&mut r.blocks()),
        Err(e) => return fail("open", format!("{:?}", err(&e))),
    };
    ensure!(whole.1 == End::Clean && whole.0.len() == st.frames.len(), "whole", "{} of {} frames, then {:?}", whole.0.len(), st.frames.len(), whole.1);
    let nb = st.blocks.len();
    let ends: Vec<usize> = (0..nb).map(|i| if i + 1 < nb { st.meta_at[i + 1] } else { st.audio_at }).collect();
    let block_bytes = |i: usize| &st.bytes[st.meta_at[i]..ends[i]];

    // Metadata blocks from packets of their own.
    let first_ogg = s.bool();
    for i in 0..nb {
        if i > 0 && !s.chance(3, 4) { continue; }
        if i == 0 && first_ogg {
            // The first packet of the FLAC to Ogg mapping.
            let left = s.ubits(16) as u16;
            let mut p = b"\x7fFLAC\x01\x00".to_vec();
            p.extend_from_slice(&[(left >> 8) as u8, left as u8]);
            p.extend_from_slice(b"fLaC");
            p.extend_from_slice(block_bytes(0));
            let n = p.len() as u64;
            let t = trailing(s, b"x");
            p.extend_from_slice(&t);
            c.label("ogg-first-packet");
            c.nontrivial |= !t.is_empty();
            c.print(&p);
            let mut cur = Cursor::new(&p);
            let got = (|| -> claxon::Result<(u16, MetadataBlock)> {
                cur.skip(7)?;
                let k = cur.read_be_u16()?;
                cur.skip(4)?;
                Ok((k, metadata::read_metadata_block_with_header(&mut cur)?))
            })();
            c.runs += 1;
            match got {
                Err(e) => return fail("ogg-first-packet", format!("{:?}", err(&e))),
                Ok((k, b)) => {
                    ensure!(k == left, "ogg-first-packet", "{} header packets instead of {}", k, left);
                    meta::matches(&b, &st.blocks[0].model, 34).or_else(|m| fail("ogg-first-packet", m))?;
                    ensure!(cur.position() == n, "ogg-first-packet", "position {} instead of {}", cur.position(), n);
                }
            }
        } else {
            check_block(s, c, &st.blocks[i], block_bytes(i), &st.bytes[ends[i]..(ends[i] + 300).min(st.bytes.len())])?;
        }
    }
    if s.chance(1, 2) {
        let i = s.urange(0, nb - 1);
        damaged_block(s, c, block_bytes(i), &st.bytes[ends[i]..(ends[i] + 300).min(st.bytes.len())])?;
    }
    // All of them through the iterator, from the middle of a larger buffer.
    if s.chance(1, 2) {
        let t = trailing(s, &st.bytes[st.audio_at..]);
        let mut p = vec![0xa5; s.urange(0, 9)];
        let off = p.len();
        p.extend_from_slice(&st.bytes[4..st.audio_at]);
        let end = p.len();
        p.extend_from_slice(&t);
        let mut cur = Cursor::new(&p[..]);
        cur.set_position(off as u64);
        c.runs += 1;
        let mut n = 0;
        for x in MetadataBlockReader::new(&mut cur) {
            ensure!(n < nb, "iterator", "more than {} blocks", nb);
            match x {
                Ok(b) => meta::matches(&b, &st.blocks[n].model, st.blocks[n].body.len()).or_else(|m| fail("iterator", m))?,
                Err(e) => return fail("iterator", format!("block {}: {:?}", n, err(&e))),
            }
            n += 1;
        }
        ensure!(n == nb && cur.position() == end as u64, "iterator", "{} of {} blocks, at {} instead of {}", n, nb, cur.position(), end);
        c.label("iterator");
    }

    // Frames: packets of one or more, in any order.
    let variable = st.frames.first().map(|f| f.variable).unwrap_or(false);
    let known = |i: usize| variable || st.frames[i].number == 0 || st.fixed_bs == Some(st.frames[i].bs);
    let mut packets: Vec<(usize, usize)> = Vec::new();
    let mut i = 0;
    while i < st.frames.len() {
        let k = (if s.chance(2, 3) { 1 } else { s.urange(1, 3) }).min(st.frames.len() - i);
        packets.push((i, k));
        i += k;
    }
    if s.bool() { packets.reverse(); }
    for &(i, k) in &packets {
        let mut p = st.bytes[st.frame_at[i]..st.frame_at[i + k]].to_vec();
        let t = trailing(s, &st.bytes[st.frame_at[i]..st.frame_at[i + k]]);
        p.extend_from_slice(&t);
        c.print(&p);
        if k > 1 { c.label("several-frames"); c.nontrivial = true; }
        if !t.is_empty() { c.label("frame+trailing"); c.nontrivial = true; }
        let at_end = t.is_empty() && s.bool();
        c.runs += 1;
        let (got, left, how) = frames_from(s, &p, k + at_end as usize);
        for j in 0..k {
            match got[j] {
                Ok(Some(ref b)) => {
                    let w = &whole.0[i + j];
                    ensure!((b.channels, b.duration, b.len) == (w.channels, w.duration, w.len) && b.samples == w.samples, "frame-alone", "{}: frame {}: {}", how, i + j, diff_bd(b, w));
                    if known(i + j) { ensure!(b.time == w.time, "frame-time", "{}: frame {} alone at {}, in the stream at {}", how, i + j, b.time, w.time); }
                    super::c01::check_frame(&st.frames[i + j], b, "alone")?;
                }
                ref o => return fail("frame-alone", format!("{}: frame {} ({} of {} in its packet): {:?}", how, i + j, j + 1, k, o.as_ref().map(|_| "end"))),
            }
        }
        if at_end { ensure!(got[k] == Ok(None), "packet-end", "{}: after {} frames of a packet: {:?}", how, k, got[k].as_ref().map(|_| ())); }
        ensure!(left == t, "frame-consumed", "{}: {} frames in {} bytes followed by {}, of which {} were left", how, k, p.len() - t.len(), t.len(), left.len());
        // A packet that is damaged or cut spoils only itself.
        if s.chance(1, 4) {
            let cut = s.urange(1, p.len() - t.len() - 1);
            c.runs += 1;
            let (x, _, how) = frames_from(s, &p[..cut], k);
            ensure!(x.iter().any(|r| r.is_err()) || st.frame_at[i..i + k].contains(&(st.frame_at[i] + cut)), "cut-packet", "{}: a packet cut at {} of {} gave no error", how, cut, p.len() - t.len());
            c.label("cut-packet");
        }
    }
    // An empty packet.
    if s.chance(1, 3) {
        let (x, left, how) = frames_from(s, &[], 2);
        c.runs += 1;
        ensure!(x[0] == Ok(None) && x[1] == Ok(None) && left.is_empty(), "empty-packet", "{}: {:?}", how, x.iter().map(|r| r.as_ref().map(|b| b.is_some())).collect::<Vec<_>>());
        let (x, _, how) = one_block(s, &[], None);
        match x { Err(ref e) if e.is_eof() => {}, ref o => return fail("empty-packet", format!("metadata, {}: {:?}", how, o.as_ref().map(|b| meta::block_str(b)))) }
        c.label("empty-packet");
    }
    Ok(())
}
