//! C15: each block reports the stream position of its first sample.

use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::FlacReader;

pub const PROP: Prop = Prop {
    id: "C15",
    case,
    rule: "A case is a stream with fixed or variable block size, numbered from zero or from a random number (up to 31 bits for frames, 36 for samples), whose blocks' times are compared with the stored numbers; \
           non-trivial: a block with a non-zero time was decoded; distinct by bytes.",
};

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let from_zero = s.chance(1, 3);
    let st = gen_stream(s, &StreamOpts {
        max_frames: if from_zero { 8 } else { 4 }, min_frames: 1, from_zero, big_per_mille: 20, extra_meta: false, ..StreamOpts::default()
    });
    let n = st.frames.len();
    let variable = st.frames[0].variable;
    // Whether the block size is fixed is what the frames say: the bounds in the
    // stream information may be wider, and may coincide by chance.
    let st = if s.chance(1, 5) {
        let mut info = st.info.clone();
        let b = st.frames[0].bs;
        let same = st.frames[..(n - 1).max(1)].iter().all(|f| f.bs == b) && st.frames[n - 1].bs <= b;
        if !variable && st.fixed_bs.is_some() && same && st.frames[n - 1].bs == b {
            info.min_bs = s.urange(16, b) as u16;
            info.max_bs = s.urange(b, 65535) as u16;
            c.label("fixed-wide-bounds");
        } else if variable && same && b >= 16 {
            info.min_bs = b as u16;
            info.max_bs = b as u16;
            c.label("variable-equal-bounds");
        }
        let mut blocks = st.blocks;
        blocks[0] = crate::meta::MBlock::info(&info);
        assemble(info, blocks, st.frames, st.fixed_bs)
    } else {
        st
    };
    c.print(&st.bytes);
    c.describe(|| st.describe());
    // A single fixed-size frame shorter than any legal block size: the block
    // size of the stream is not known.
    let known = |i: usize| variable || st.fixed_bs.is_some() || st.frames[i].number == 0;
    c.nontrivial = (0..n).any(|i| known(i) && st.time(i) > 0);
    c.label(if variable { "variable" } else { "fixed" });
    if let (Some(b), true) = (st.fixed_bs, n > 1) { if st.frames[n - 1].bs < b { c.label("short-last-block"); } }
    if st.frames.iter().any(|f| f.number >> 31 != 0) { c.label("above-31-bits"); }
    if (0..n).any(|i| st.time(i) >> 32 != 0) { c.label("time-above-32-bits"); }

    let chunks = gen_chunks(s);
    let mut r = match FlacReader::new(ScriptReader::new(Rc::new(st.bytes.clone()), chunks)) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
    c.runs += 1;
    // One block reader for all, or a new one now and then.
    let mut blocks = Vec::new();
    let renew = s.bool();
    let end = if renew {
        let mut end = None;
        while end.is_none() {
            let k = s.urange(1, 3);
            let mut fr = r.blocks();
            for _ in 0..k {
                match read_block(&mut fr, Vec::new()) {
                    Ok(Some(b)) => blocks.push(b),
                    Ok(None) => { end = Some(End::Clean); break; }
                    Err(e) => { end = Some(End::Err(e)); break; }
                }
            }
        }
        end.unwrap()
    } else {
        let (b, e) = read_blocks(&mut r.blocks());
        blocks = b;
        e
    };
    ensure!(end == End::Clean && blocks.len() == n, "frames", "{} of {} frames, then {:?}", blocks.len(), n, end);
    for (i, b) in blocks.iter().enumerate() {
        if !known(i) { c.label("unknown-block-size"); continue; }
        let sig = if !variable && st.fixed_bs.is_some_and(|x| st.frames[i].bs < x) { "time-short-block" } else { "time" };
        ensure!(b.time == st.time(i), sig, "frame {} ({} {}, block size {}): time {} instead of {}", i,
                if variable { "sample" } else { "frame" }, st.frames[i].number, st.frames[i].bs, b.time, st.time(i));
        // Blocks abut as the stored numbers do.
        if from_zero {
            let want = if i == 0 { 0 } else { blocks[i - 1].time + blocks[i - 1].duration as u64 };
            ensure!(b.time == want, "abut", "block {} starts at {}, the previous ended at {}", i, b.time, want);
        }
    }
    // A frame on its own.
    let i = s.urange(0, n - 1);
    let f = &st.frames[i];
    if variable || st.fixed_bs == Some(f.bs) {
        c.runs += 1;
        match read_block(&mut FrameReader::new(std::io::Cursor::new(&f.bytes[..])), Vec::new()) {
            Ok(Some(b)) => ensure!(b.time == st.time(i), "time-alone", "frame {} ({}) alone: time {} instead of {}", i, f.number, b.time, st.time(i)),
            o => return fail("alone", format!("{:?}", o.map(|_| ()))),
        }
    }
    Ok(())
}
