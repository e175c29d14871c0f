//! C01: decoding is lossless.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use claxon::frame::FrameReader;

pub const PROP: Prop = Prop {
    id: "C01",
    case,
    rule: "A case is audio plus random legal coding choices, encoded by the harness's own encoder and decoded by claxon through FlacReader::blocks, through FrameReader on a cursor, and as samples or from a source that delivers in pieces; \
           non-trivial: at least one frame has a predicted subframe (fixed or LPC) with a residual, or stereo decorrelation, or wasted bits; distinct by the bytes of the stream.",
};

pub fn check_frame(g: &GenFrame, b: &BD, what: &str) -> Result<(), Fail> {
    ensure!(b.channels as usize == g.channels(), "channels", "{}: {} channels encoded, {} decoded", what, g.channels(), b.channels);
    ensure!(b.duration as usize == g.bs, "duration", "{}: block size {} encoded, {} decoded", what, g.bs, b.duration);
    let want = g.planar();
    ensure!(b.samples.len() == want.len(), "length", "{}: {} samples encoded, {} decoded", what, want.len(), b.samples.len());
    if let Some(i) = (0..want.len()).find(|&i| want[i] != b.samples[i]) {
        return fail("sample", format!("{}: channel {} sample {} is {} but was decoded as {}", what, i / g.bs, i % g.bs, want[i], b.samples[i]));
    }
    Ok(())
}

pub fn note_frames(c: &mut Ctx, frames: &[GenFrame]) {
    for f in frames {
        for l in &f.labels {
            c.label(l);
        }
    }
}

pub fn interesting(f: &GenFrame) -> bool {
    f.spec.hdr.ch_code >= 8 || f.spec.subs.iter().any(|s| s.wasted > 0 || match s.body {
        Body::Pred { ref res, .. } => res.parts.iter().any(|p| !p.vals.is_empty()),
        _ => false,
    })
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let unary_budget = match s.weighted(&[30, 4, 1]) { 0 => 2000, 1 => 40_000, _ => 3_000_000 };
    let big = if unary_budget > 40_000 { 0 } else { 12 };
    let max_frames = *s.pick(&[1usize, 2, 3, 6]);
    let st = gen_stream(s, &StreamOpts {
        max_frames, min_frames: 1, big_per_mille: big, unary_budget, ..StreamOpts::default()
    });
    c.describe(|| st.describe());
    c.print(&st.bytes);
    c.nontrivial = st.frames.iter().any(interesting);
    note_frames(c, &st.frames);

    // Through the stream reader.
    let mut r = match claxon::FlacReader::new(std::io::Cursor::new(&st.bytes[..])) {
        Ok(r) => r,
        Err(e) => return fail("open", format!("valid stream not opened: {:?}", err(&e))),
    };
    c.runs += 1;
    let (blocks, end) = read_blocks(&mut r.blocks());
    for (i, (g, b)) in st.frames.iter().zip(&blocks).enumerate() {
        check_frame(g, b, &format!("frame {}", i))?;
    }
    ensure!(end == End::Clean && blocks.len() == st.frames.len(), "frames",
            "{} frames encoded; {} decoded, then {:?}", st.frames.len(), blocks.len(), end);

    // One frame directly, from a cursor, into a fresh buffer.
    let i = s.urange(0, st.frames.len() - 1);
    let g = &st.frames[i];
    let mut fr = FrameReader::new(std::io::Cursor::new(&g.bytes[..]));
    c.runs += 1;
    match read_block(&mut fr, Vec::new()) {
        Ok(Some(b)) => check_frame(g, &b, &format!("frame {} alone", i))?,
        o => return fail("frame-alone", format!("frame {} alone: {:?}", i, o.map(|_| "end of stream"))),
    }

    // The whole stream as samples, or from a source that delivers it in pieces.
    let route = s.draw(5);
    if route < 3 {
        c.runs += 1;
        let ch = gen_chunks(s);
        let mut r = match claxon::FlacReader::new(ScriptReader::new(std::rc::Rc::new(st.bytes.clone()), ch)) {
            Ok(r) => r,
            Err(e) => return fail("open", format!("valid stream not opened: {:?}", err(&e))),
        };
        let (got, end) = match route {
            0 => read_samples(&mut r.samples()),
            1 => read_samples(&mut r.into_samples()),
            _ => {
                let mut v = Vec::new();
                let (blocks, end) = read_blocks(&mut r.blocks());
                for b in &blocks { v.extend(interleave(b)); }
                (v, end)
            }
        };
        let mut at = 0;
        for (i, g) in st.frames.iter().enumerate() {
            let want = g.interleaved();
            let have = &got[at.min(got.len())..(at + want.len()).min(got.len())];
            ensure!(have == &want[..], "samples", "frame {} is decoded to other samples by route {}", i, route);
            at += want.len();
        }
        ensure!(end == End::Clean && got.len() == at, "samples-end", "{} samples encoded, {} decoded, then {:?}", at, got.len(), end);
    }
    Ok(())
}
