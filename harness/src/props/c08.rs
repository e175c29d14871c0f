//! C08: truncation is never taken for completeness.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::metadata;
use claxon::FlacReader;

pub const PROP: Prop = Prop {
    id: "C08",
    case,
    rule: "A case is a valid stream, frame sequence or metadata sequence cut at one or more offsets (every offset of short ones), read through blocks, sample iterators and the metadata functions; evaluated against the known frame and block boundaries; \
           non-trivial: at least one cut inside a frame or metadata block; distinct by bytes and cuts.",
};

fn cuts(s: &mut Src, marks: &[usize], end: usize) -> Vec<usize> {
    if end <= 160 && s.chance(1, 6) {
        return (0..=end).collect();
    }
    let n = s.urange(1, 5);
    (0..n).map(|_| match s.weighted(&[4, 2, 4, 1]) {
        0 => s.urange(0, end),
        1 => *s.pick(marks),
        2 => (*s.pick(marks) + s.urange(0, 6)).saturating_sub(3).min(end),
        _ => end.saturating_sub(s.urange(0, 4)),
    }).collect()
}

fn stream(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { max_frames: 4, big_per_mille: 5, max_bs: 8192, ..StreamOpts::default() });
    let end = st.bytes.len();
    let mut marks = st.meta_at.clone();
    marks.extend(&st.frame_at);
    marks.push(4);
    let cs = cuts(s, &marks, end);
    c.print(&st.bytes);
    c.print(&cs);
    c.describe(|| format!("cut at {:?}: {}", &cs[..cs.len().min(8)], st.describe()));
    for &cut in &cs {
        let data = Rc::new(st.bytes[..cut].to_vec());
        let chunks = gen_chunks(s);
        let how = s.draw(2);
        c.runs += 1;
        let mut r = match FlacReader::new(ScriptReader::new(data.clone(), chunks)) {
            Err(e) => {
                let e = err(&e);
                ensure!(cut < st.audio_at, "open", "cut at {}, behind the metadata ({}), but not opened: {:?}", cut, st.audio_at, e);
                ensure!(e.is_eof(), "class", "cut at {} inside the metadata: {:?}", cut, e);
                c.label("cut:metadata");
                c.nontrivial = true;
                continue;
            }
            Ok(r) => {
                ensure!(cut >= st.audio_at, "open", "cut at {} inside the metadata ({}) but opened", cut, st.audio_at);
                r
            }
        };
        let whole = (0..st.frames.len()).take_while(|&i| st.frame_at[i + 1] <= cut).count();
        let clean = st.frame_at[whole] == cut;
        c.label(if clean { "cut:boundary" } else if cut - st.frame_at[whole] < st.frames[whole].layout.header_len { "cut:frame-header" } else { "cut:frame-body" });
        if !clean { c.nontrivial = true; }
        let end = if how == 0 {
            let (bl, end) = read_blocks(&mut r.blocks());
            ensure!(bl.len() == whole, "blocks", "cut at {}: {} whole frames, {} blocks then {:?}", cut, whole, bl.len(), end);
            for (i, b) in bl.iter().enumerate() { super::c01::check_frame(&st.frames[i], b, &format!("frame {} before the cut", i))?; }
            end
        } else {
            let (v, end) = if how == 1 { let x = read_samples(&mut r.samples()); x } else { read_samples(&mut r.into_samples()) };
            let want: Vec<i32> = st.frames[..whole].iter().flat_map(|f| f.interleaved()).collect();
            ensure!(v == want, "samples", "cut at {}: {} samples in whole frames, {} delivered then {:?}", cut, want.len(), v.len(), end);
            c.label("iterator");
            end
        };
        match end {
            End::Clean => ensure!(clean, "clean-end", "cut at {}, {} bytes into frame {} ({} bytes long), reported as a regular end", cut, cut - st.frame_at[whole], whole, st.frame_at[whole + 1] - st.frame_at[whole]),
            End::Err(e) => {
                ensure!(!clean, "error-at-boundary", "cut at a frame boundary reported as {:?}", e);
                ensure!(e.is_eof(), "class", "cut inside a frame reported as {:?}", e);
            }
        }
    }
    Ok(())
}

fn frames(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 2);
    let fs: Vec<GenFrame> = (0..n).map(|_| gen_frame(s, 300)).collect();
    let mut b = Vec::new();
    let mut at = vec![0];
    let mut marks = vec![0];
    for f in &fs {
        let o = b.len();
        b.extend_from_slice(&f.bytes);
        at.push(b.len());
        marks.extend(&[o + f.layout.header_len, b.len(), b.len() - 2, o + f.layout.sub_end / 8]);
        for x in &f.layout.sub_start { marks.push(o + x / 8); }
    }
    let cs = cuts(s, &marks, b.len());
    c.print(&b);
    c.print(&cs);
    c.label("frames");
    c.describe(|| format!("{} frames of {} bytes cut at {:?}", n, b.len(), &cs[..cs.len().min(8)]));
    for &cut in &cs {
        let whole = (0..n).take_while(|&i| at[i + 1] <= cut).count();
        let clean = at[whole] == cut;
        if !clean { c.nontrivial = true; }
        let d = &b[..cut];
        c.runs += 1;
        let run = match s.draw(2) {
            0 => read_blocks(&mut FrameReader::new(Cursor::new(d))),
            1 => { let mut cur = Cursor::new(d.to_vec()); let x = read_blocks(&mut FrameReader::new(&mut cur)); x }
            _ => { let ch = gen_chunks(s); read_blocks(&mut FrameReader::new(BufferedReader::new(ScriptReader::new(Rc::new(d.to_vec()), ch)))) }
        };
        ensure!(run.0.len() == whole, "blocks", "cut at {}: {} whole frames, {} blocks then {:?}", cut, whole, run.0.len(), run.1);
        for (i, x) in run.0.iter().enumerate() { super::c01::check_frame(&fs[i], x, "before the cut")?; }
        match run.1 {
            End::Clean => ensure!(clean, "clean-end", "cut {} bytes into a frame of {} reported as a regular end", cut - at[whole], at[whole + 1] - at[whole]),
            End::Err(e) => {
                ensure!(!clean, "error-at-boundary", "cut at a frame boundary reported as {:?}", e);
                ensure!(e.is_eof(), "class", "cut inside a frame reported as {:?}", e);
            }
        }
    }
    Ok(())
}

fn meta_case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut bl = meta::gen_extra_blocks(s, false);
    if bl.is_empty() { bl.push(meta::gen_tags(s, 5)); }
    let n = bl.len();
    let mut b = Vec::new();
    let mut at = vec![0];
    for (i, m) in bl.iter_mut().enumerate() { m.last = i + 1 == n; m.emit(&mut b); at.push(b.len()); }
    let cs = cuts(s, &at, b.len() - 1);
    c.print(&b);
    c.print(&cs);
    c.label("metadata");
    c.nontrivial = true;
    c.describe(|| format!("{} metadata blocks of {} bytes cut at {:?}", n, b.len(), &cs[..cs.len().min(8)]));
    for &cut in &cs {
        let cut = cut.min(b.len() - 1);
        let whole = (0..n).take_while(|&i| at[i + 1] <= cut).count();
        let d = Rc::new(b[..cut].to_vec());
        c.runs += 1;
        let kind = s.draw(2);
        let chunks = gen_chunks(s);
        let mut items: Vec<Result<metadata::MetadataBlock, E>> = Vec::new();
        let mut iter_end = true;
        match kind {
            0 => for x in metadata::MetadataBlockReader::new(BufferedReader::new(ScriptReader::new(d, chunks))) { items.push(x.map_err(|e| err(&e))); if items.len() > n + 2 { break; } },
            1 => for x in metadata::MetadataBlockReader::new(Cursor::new(&d[..])) { items.push(x.map_err(|e| err(&e))); if items.len() > n + 2 { break; } },
            _ => {
                iter_end = false;
                let mut rd = BufferedReader::new(ScriptReader::new(d, chunks));
                loop {
                    let x = metadata::read_metadata_block_with_header(&mut rd).map_err(|e| err(&e));
                    let stop = x.is_err();
                    items.push(x);
                    if stop || items.len() > n { break; }
                }
            }
        }
        ensure!(items.len() == whole + 1, "metadata-count", "cut at {}: {} whole blocks, {} results (iterator: {})", cut, whole, items.len(), iter_end);
        for (i, x) in items.iter().enumerate() {
            match x {
                Ok(ref m) => {
                    ensure!(i < whole, "metadata-complete", "cut at {} but block {} was returned: {}", cut, i, meta::block_str(m));
                    meta::matches(m, &bl[i].model, bl[i].body.len()).or_else(|m| fail("metadata", m))?;
                }
                Err(e) => {
                    ensure!(i == whole, "metadata-early", "cut at {} but block {} already failed: {:?}", cut, i, e);
                    ensure!(e.is_eof(), "class", "cut inside metadata reported as {:?}", e);
                }
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.weighted(&[4, 3, 2]) {
        0 => stream(s, c),
        1 => frames(s, c),
        _ => meta_case(s, c),
    }
}
