//! C02: no input crashes the decoder.

use std::io::Cursor;
use std::rc::Rc;

use crate::damage::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, Bitstream, ReadBytes};
use claxon::metadata::{self, MetadataBlock};
use claxon::{Block, Error, FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C02",
    case,
    rule: "A case is a byte string (valid stream, mutated stream, stream whose damaged frames got correct checksums again, mutated sample file of the repository, metadata block, frame, subframe or noise) driven through one public entry point with random options, read sizes and continued use after errors; \
           non-trivial: the call got past the first field (something was decoded, or the error was not 'signature'/'sync code missing'); distinct by the input bytes and entry point.",
};

fn show_error(e: &Error) -> usize {
    #[allow(deprecated)]
    use std::error::Error as _;
    let mut n = format!("{}", e).len() + format!("{:?}", e).len();
    #[allow(deprecated)]
    { n += e.description().len(); }
    #[allow(deprecated)]
    { n += e.cause().map(|c| c.to_string().len()).unwrap_or(0); }
    n += (e == e) as usize;
    n
}

fn use_block(b: &Block) -> u64 {
    let mut h = 0u64;
    for c in 0..b.channels() {
        let ch = b.channel(c);
        h = h.wrapping_add(ch.iter().fold(0u64, |a, &x| a.wrapping_mul(31).wrapping_add(x as u64)));
        if b.duration() > 0 {
            h = h.wrapping_add(b.sample(c, b.duration() - 1) as u64);
        }
    }
    if b.channels() == 2 {
        for (l, r) in b.stereo_samples() {
            h = h.wrapping_mul(7).wrapping_add(l as u64 ^ r as u64);
        }
    }
    h.wrapping_add(b.time()).wrapping_add(b.len() as u64)
}

fn use_frames<R: ReadBytes>(s: &mut Src, fr: &mut FrameReader<R>, c: &mut Ctx) {
    let mut errors = 0;
    let max_err = s.urange(1, 4);
    let mut buf = Vec::new();
    loop {
        c.runs += 1;
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => {
                use_block(&b);
                c.nontrivial = true;
                c.label("block");
                buf = b.into_buffer();
            }
            Ok(None) => {
                c.label("end");
                // Asking again after the end is allowed.
                if s.bool() { let _ = fr.read_next_or_eof(Vec::new()); }
                return;
            }
            Err(e) => {
                show_error(&e);
                note_err(c, &e);
                buf = Vec::new();
                errors += 1;
                if errors >= max_err { return; }
            }
        }
    }
}

fn note_err(c: &mut Ctx, e: &Error) {
    let l = match *e {
        Error::IoError(_) => "err:io".to_string(),
        Error::FormatError(m) => format!("err:{}", m),
        Error::Unsupported(m) => format!("unsup:{:.40}", m),
    };
    if !l.contains("sync code") && !l.contains("stream header") && !l.contains("ID3") { c.nontrivial = true; }
    c.label(&l);
}

fn use_samples<I: Iterator<Item = claxon::Result<i32>>>(mut it: I, max: usize, c: &mut Ctx) {
    c.runs += 1;
    let mut after = 0;
    for _ in 0..max {
        let _ = it.size_hint();
        match it.next() {
            Some(Ok(_)) => c.nontrivial = true,
            Some(Err(e)) => { show_error(&e); note_err(c, &e); after += 1; }
            None => after += 1,
        }
        if after > 3 { break; }
    }
}

fn use_meta(s: &mut Src, b: &MetadataBlock) {
    if let MetadataBlock::VorbisComment(ref vc) = *b {
        let cs: Vec<String> = vc.comments.iter().map(|c| c.0.clone()).collect();
        for _ in 0..2 {
            let n = super::c11::needle(s, &cs);
            let it = metadata::GetTag::new(&vc.comments, &n);
            let _ = it.size_hint();
            let _ = it.count();
        }
        for t in metadata::Tags::new(&vc.comments) { let _ = t.0.len() + t.1.len(); }
        for v in metadata::GetTag::new(&vc.comments, "artist") { let _ = v.len(); }
    }
    meta::block_str(b);
}

fn corpus() -> &'static Vec<Vec<u8>> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut out = Vec::new();
        for d in ["/repo/testsamples", "/repo/testsamples/fuzz"] {
            let mut names: Vec<_> = match std::fs::read_dir(d) {
                Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
                Err(_) => continue,
            };
            names.sort();
            for n in names {
                if n.is_file() && n.metadata().map(|m| m.len() < 60_000).unwrap_or(false) {
                    if let Ok(b) = std::fs::read(&n) { out.push(b); }
                }
            }
        }
        out.sort();
        out
    })
}

fn stream_bytes(s: &mut Src, c: &mut Ctx) -> Vec<u8> {
    if s.chance(1, 12) && !corpus().is_empty() {
        c.label("input:corpus");
        let mut b = s.pick(corpus()).clone();
        if s.chance(7, 8) { mutate(s, &mut b); }
        return b;
    }
    let (b, l) = streamish(s, 4096);
    c.label(&format!("input:{}", l));
    b
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let entry = s.weighted(&[6, 3, 3, 3, 2, 1]);
    c.print(&entry);
    match entry {
        // A whole stream.
        0 | 1 => {
            let b = stream_bytes(s, c);
            c.print(&b);
            let o = FlacReaderOptions { metadata_only: s.chance(1, 6), read_vorbis_comment: s.bool() };
            c.label(if o.metadata_only { "entry:stream-metadata" } else { "entry:stream" });
            c.describe(|| format!("stream of {} bytes, {:?}: {}", b.len(), o, hex(&b, 60)));
            let chunks = gen_chunks(s);
            let rd = ScriptReader::new(Rc::new(b), chunks);
            c.runs += 1;
            let mut r = match FlacReader::new_ext(rd, o) {
                Ok(r) => r,
                Err(e) => { show_error(&e); note_err(c, &e); return Ok(()); }
            };
            let _ = r.streaminfo();
            let _ = r.vendor().map(|v| v.len());
            let t = r.tags();
            let n = t.len();
            let _ = t.count() + n;
            for v in r.get_tag("TITLE") { let _ = v.len(); }
            let cs: Vec<String> = r.tags().map(|(a, b)| format!("{}={}", a, b)).collect();
            for _ in 0..2 {
                let n = super::c11::needle(s, &cs);
                let _ = r.get_tag(&n).map(|v| v.len()).sum::<usize>() + r.get_tag(&n).size_hint().0;
                let _ = r.get_tag(&n).last();
            }
            let k = s.urange(0, 9);
            let _ = (r.tags().nth(k), r.tags().size_hint(), r.tags().last(), r.tags().skip(k).count());
            if o.metadata_only { let _ = r.into_inner(); return Ok(()); }
            match s.draw(2) {
                0 => use_frames(s, &mut r.blocks(), c),
                1 => use_samples(r.samples(), 60_000, c),
                _ => use_samples(r.into_samples(), 60_000, c),
            }
        }
        // Frames.
        2 => {
            let mut b = Vec::new();
            for _ in 0..s.urange(1, 3) {
                let f = gen_frame(s, 8192);
                b.extend(match s.draw(2) { 0 => damaged_frame(s, &f), 1 => { let mut x = f.bytes.clone(); mutate(s, &mut x); x } _ => f.bytes });
            }
            c.print(&b);
            c.label("entry:frames");
            c.describe(|| format!("frames, {} bytes: {}", b.len(), hex(&b, 60)));
            if s.bool() {
                use_frames(s, &mut FrameReader::new(Cursor::new(b)), c);
            } else {
                let chunks = gen_chunks(s);
                let rd = BufferedReader::new(ScriptReader::new(Rc::new(b), chunks));
                use_frames(s, &mut FrameReader::new(rd), c);
            }
        }
        // Metadata.
        3 => {
            let mut b = Vec::new();
            let n = s.urange(1, 4);
            for i in 0..n {
                let mut m = match s.draw(2) { 0 => meta::gen_tags(s, 6), _ => meta::gen_block(s, false) };
                m.last = i + 1 == n;
                if s.chance(1, 3) { m.claim = Some(s.ubits(24) as u32); }
                if s.chance(1, 6) { m.kind = s.draw(127) as u8; }
                m.emit(&mut b);
            }
            if s.chance(2, 3) { mutate(s, &mut b); }
            c.print(&b);
            c.label("entry:metadata");
            c.describe(|| format!("metadata, {} bytes: {}", b.len(), hex(&b, 60)));
            c.runs += 1;
            match s.draw(2) {
                0 => {
                    let chunks = gen_chunks(s);
                    let mut rd = BufferedReader::new(ScriptReader::new(Rc::new(b), chunks));
                    for r in metadata::MetadataBlockReader::new(&mut rd) {
                        match r { Ok(m) => { use_meta(s, &m); c.nontrivial = true; } Err(e) => { show_error(&e); note_err(c, &e) } }
                    }
                }
                1 => {
                    let mut cur = Cursor::new(&b[..]);
                    for _ in 0..s.urange(1, 5) {
                        match metadata::read_metadata_block_with_header(&mut cur) {
                            Ok(m) => { use_meta(s, &m); c.nontrivial = true; }
                            Err(e) => { show_error(&e); note_err(c, &e) }
                        }
                    }
                }
                _ => {
                    // Any type and any length, also beyond 24 bits.
                    let ty = match s.draw(1) { 0 => s.draw(7) as u8, _ => s.byte() };
                    let len = match s.draw(2) { 0 => b.len() as u32, 1 => s.ubits(24) as u32, _ => s.ubits(32) as u32 };
                    let chunks = gen_chunks(s);
                    let mut rd = BufferedReader::new(ScriptReader::new(Rc::new(b), chunks));
                    match metadata::read_metadata_block(&mut rd, ty, len) {
                        Ok(m) => { use_meta(s, &m); c.nontrivial = true; }
                        Err(e) => { show_error(&e); note_err(c, &e) }
                    }
                }
            }
        }
        // A subframe: any width, any block length.
        4 => {
            let width = s.urange(0, 32) as u32;
            let n = match s.weighted(&[1, 6, 2]) { 0 => 0, 1 => s.urange(1, 64), _ => s.urange(1, 4096) };
            let mut w = crate::bits::BitWriter::new();
            let off = s.draw(7) as u32;
            w.put(0, off);
            if width >= 1 && n >= 1 {
                let x = signal(s, n, width, 0);
                let g = encode_sub(s, &x, width, SubOpts { unary_budget: 1000, kind: None });
                emit_sub(&mut w, &g.spec);
            }
            w.align(0);
            let mut b = w.bytes;
            if s.chance(3, 4) { mutate(s, &mut b); }
            c.print(&b);
            c.print(&width);
            c.label("entry:subframe");
            c.describe(|| format!("subframe width {} length {}: {}", width, n, hex(&b, 60)));
            let mut bs = Bitstream::new(Cursor::new(b));
            if bs.read_leq_u8(off).is_err() { return Ok(()); }
            let mut buf = vec![0x5a5a_5a5ai32; n];
            c.runs += 1;
            match claxon::subframe::decode(&mut bs, width, &mut buf) {
                Ok(()) => c.nontrivial = true,
                Err(e) => { show_error(&e); note_err(c, &e) }
            }
        }
        // Bits.
        _ => {
            let n = s.urange(0, 40);
            let b = s.bytes(n);
            c.print(&b);
            c.label("entry:bits");
            c.nontrivial = true;
            let mut bs = Bitstream::new(BufferedReader::new(ScriptReader::all(&b)));
            let mut errs = 0;
            c.describe(|| format!("bit reads on {}", hex(&b, 40)));
            for _ in 0..s.urange(1, 60) {
                c.runs += 1;
                let r = match s.draw(6) {
                    0 => bs.read_bit().map(|_| ()),
                    1 => bs.read_unary().map(|_| ()),
                    2 => bs.read_leq_u8(s.draw(8) as u32).map(|_| ()),
                    3 => bs.read_gt_u8_leq_u16(9 + s.draw(7) as u32).map(|_| ()),
                    4 => bs.read_leq_u16(s.draw(16) as u32).map(|_| ()),
                    _ => bs.read_leq_u32(s.draw(32) as u32).map(|_| ()),
                };
                if r.is_err() { errs += 1; if errs > 5 { break; } }
            }
        }
    }
    Ok(())
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut o = String::new();
    for x in b.iter().take(max) { o.push_str(&format!("{:02x}", x)); }
    if b.len() > max { o.push_str(".."); }
    o
}
