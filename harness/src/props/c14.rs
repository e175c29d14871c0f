//! C14: all views of the decoded audio agree.

use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::ReadBytes;
use claxon::{Block, FlacReader};

pub const PROP: Prop = Prop {
    id: "C14",
    case,
    rule: "A case is a stream (block sizes and often channel counts vary, sometimes damaged or cut) read as blocks, as borrowed and as owned samples, every accessor of every block compared, or a history of iterators and block readers created, advanced and dropped on one reader, compared with a model that knows the generated frames; \
           non-trivial: at least two frames or a block whose accessors were all compared; distinct by bytes and history.",
};

/// Consumes an iterator through a random mixture of `next`, `nth` and
/// `size_hint`; gives what it skipped as `None`, and whether all of it is
/// known (no `nth` went beyond the end).
fn drain<T, I: Iterator<Item = T>>(s: &mut Src, it: &mut I, mixed: bool) -> Result<(Vec<Option<T>>, bool), Fail> {
    let mut out = Vec::new();
    let mut hints: Vec<(usize, usize, Option<usize>)> = Vec::new();
    loop {
        if mixed && out.len() < 400 && s.chance(1, 8) {
            let h = it.size_hint();
            hints.push((out.len(), h.0, h.1));
        }
        if mixed && out.len() < 400 && s.chance(1, 10) {
            let k = s.urange(0, 9);
            match it.nth(k) {
                Some(x) => { for _ in 0..k { out.push(None); } out.push(Some(x)); continue; }
                // Skipped beyond the end: how many is not known here.
                None => { let n = out.len() + k; for (at, lo, _) in hints { ensure!(lo <= n - at, "size-hint", "after {} items at least {} were announced, at most {} came", at, lo, n - at); } return Ok((out, false)); }
            }
        }
        match it.next() {
            Some(x) => out.push(Some(x)),
            None => break,
        }
    }
    for (at, lo, hi) in hints {
        let n = out.len() - at;
        ensure!(lo <= n && hi.map_or(true, |h| n <= h), "size-hint", "after {} items between {} and {:?} were announced, {} came", at, lo, hi, n);
    }
    Ok((out, true))
}

/// All accessors of a block describe the samples of the frame.
fn check_views(s: &mut Src, c: &mut Ctx, b: &Block, f: &GenFrame) -> Result<(), Fail> {
    let ch = f.channels() as u32;
    let bs = f.bs as u32;
    ensure!(b.channels() == ch && b.duration() == bs && b.len() == ch * bs, "shape", "block of {} x {}: channels {}, duration {}, len {}", ch, bs, b.channels(), b.duration(), b.len());
    for k in 0..ch {
        let x = b.channel(k);
        ensure!(x == &f.samples[k as usize][..], "channel", "channel({}) of {} x {} is not what was encoded", k, ch, bs);
        for i in 0..bs {
            let y = b.sample(k, i);
            ensure!(y == x[i as usize], "sample", "sample({}, {}) is {} but channel({})[{}] is {}", k, i, y, k, i, x[i as usize]);
        }
    }
    if ch == 2 {
        let mixed = s.bool();
        let mut it = b.stereo_samples();
        let (got, exact) = drain(s, &mut it, mixed)?;
        if exact { ensure!(got.len() == bs as usize, "stereo", "stereo_samples of {} samples yields {}", bs, got.len()); }
        for (i, p) in got.iter().enumerate() {
            ensure!(i < bs as usize, "stereo", "stereo_samples yields more than {} pairs", bs);
            if let Some(p) = *p { ensure!(p == (f.samples[0][i], f.samples[1][i]), "stereo", "stereo pair {} is {:?}", i, p); }
        }
        ensure!(it.next().is_none(), "stereo", "stereo_samples continues after its end");
        let k = if s.bool() { 0 } else { s.urange(0, f.bs) };
        let mut it = b.stereo_samples();
        for _ in 0..k { it.next(); }
        let want: Vec<(i32, i32)> = f.samples[0].iter().cloned().zip(f.samples[1].iter().cloned()).skip(k).collect();
        finish(s, it, &want, |g, w| g == w).or_else(|m| fail("stereo", format!("after {} of {}: {}", k, bs, m)))?;
        c.label("stereo");
    } else {
        ensure!(guard(|| b.stereo_samples().next()).is_err(), "misuse", "stereo_samples on {} channels did not panic", ch);
    }
    if s.chance(1, 3) {
        let k = *s.pick(&[ch, ch + 1, 8, 255, 65536, 1 << 31, u32::MAX]).max(&ch);
        let r = guard(|| b.channel(k).len());
        ensure!(r.is_err(), "misuse", "channel({}) of {} channels gave {:?} samples instead of a panic", k, ch, r);
        let i = s.urange(0, f.bs - 1) as u32;
        let r = guard(|| b.sample(k, i));
        ensure!(r.is_err(), "misuse", "sample({}, {}) of {} channels gave {:?} instead of a panic", k, i, ch, r);
        let i = *s.pick(&[bs, bs + 1, 65535, u32::MAX, 1 << 31]).max(&bs);
        let r = guard(|| b.sample(ch - 1, i));
        ensure!(r.is_err(), "misuse", "sample({}, {}) of {} samples gave {:?} instead of a panic", ch - 1, i, bs, r);
        c.label("out-of-range");
    }
    Ok(())
}

fn blocks_checked<R: ReadBytes>(s: &mut Src, c: &mut Ctx, fr: &mut FrameReader<R>, frames: &[GenFrame]) -> Result<(Vec<i32>, usize, End), Fail> {
    let mut inter = Vec::new();
    let mut buf = Vec::new();
    let mut n = 0;
    loop {
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => {
                match frames.get(n) {
                    Some(f) => check_views(s, c, &b, f)?,
                    None => return fail("extra", format!("{} frames encoded, one more decoded", n)),
                }
                for i in 0..b.duration() { for k in 0..b.channels() { inter.push(b.sample(k, i)); } }
                n += 1;
                buf = b.into_buffer();
            }
            Ok(None) => return Ok((inter, n, End::Clean)),
            Err(e) => return Ok((inter, n, End::Err(err(&e)))),
        }
    }
}

fn compare(what: &str, want: &[i32], end: &End, (got, exact): (Vec<Option<claxon::Result<i32>>>, bool)) -> Result<(), Fail> {
    let mut i = 0;
    let mut got_end = End::Clean;
    for x in got {
        match x {
            Some(Ok(v)) => {
                ensure!(i < want.len(), "iterator", "{}: more samples than the {} of the blocks", what, want.len());
                ensure!(v == want[i], "iterator", "{}: item {} is {}, the blocks have {}", what, i, v, want[i]);
                i += 1;
            }
            Some(Err(e)) => { ensure!(got_end == End::Clean, "iterator", "{}: a second error", what); got_end = End::Err(err(&e)); }
            None => i += 1,
        }
    }
    if !exact {
        // `nth` consumed the error or the tail.
        ensure!(i <= want.len() + 1, "iterator", "{}: {} items for {} samples", what, i, want.len());
        return Ok(());
    }
    ensure!(i == want.len() && got_end.same(end), "iterator", "{}: {} samples then {:?}; the blocks have {} then {:?}", what, i, got_end, want.len(), end);
    Ok(())
}

fn views(s: &mut Src, c: &mut Ctx, st: &GenStream) -> Result<(), Fail> {
    // Sometimes the last frame is damaged or cut.
    let mut d = st.bytes.clone();
    let n = st.frames.len();
    if n > 0 && s.chance(1, 4) {
        let (a, e) = (st.frame_at[n - 1], st.frame_at[n]);
        if s.bool() {
            d[e - 1] ^= 1 + s.draw(254) as u8;
            c.label("bad-crc");
        } else {
            d.truncate(a + s.urange(1, e - a - 1));
            c.label("cut");
        }
    }
    let data = Rc::new(d);
    let open = |s: &mut Src| FlacReader::new(ScriptReader::new(data.clone(), gen_chunks(s))).map_err(|e| err(&e));
    c.runs += 3;
    let mut r = match open(s) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", e)) };
    let (want, nb, end) = blocks_checked(s, c, &mut r.blocks(), &st.frames)?;
    if data.len() == st.bytes.len() && *data == st.bytes {
        ensure!(nb == n && end == End::Clean, "frames", "{} of {} frames, then {:?}", nb, n, end);
    }
    let mixed = s.chance(1, 3);
    let mut r = match open(s) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", e)) };
    let got = { let mut it = r.samples(); drain(s, &mut it, mixed)? };
    compare("samples", &want, &end, got)?;
    let mixed = s.chance(1, 3);
    let r = match open(s) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", e)) };
    let got = { let mut it = r.into_samples(); drain(s, &mut it, mixed)? };
    compare("into_samples", &want, &end, got)?;
    // Advanced, then used up by an adaptor.
    let mut all: Vec<Result<i32, E>> = want.into_iter().map(Ok).collect();
    if let End::Err(e) = end { all.push(Err(e)); }
    let k = if s.bool() { 0 } else { s.urange(0, all.len()) };
    let eq = |g: &claxon::Result<i32>, w: &Result<i32, E>| match (g, w) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => err(a).same(b), _ => false };
    c.runs += 1;
    let mut r = match open(s) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", e)) };
    let res = if s.bool() {
        let mut it = r.samples();
        for _ in 0..k { it.next(); }
        finish(s, it, &all[k..], eq)
    } else {
        let mut it = r.into_samples();
        for _ in 0..k { it.next(); }
        finish(s, it, &all[k..], eq)
    };
    res.or_else(|m| fail("iterator", format!("after {} of {} items: {}", k, all.len(), m)))
}

/// Readers and iterators created, advanced and dropped.
fn history(s: &mut Src, c: &mut Ctx, st: &GenStream) -> Result<(), Fail> {
    let data = Rc::new(st.bytes.clone());
    let chunks = gen_chunks(s);
    let mut r = match FlacReader::new(ScriptReader::new(data, chunks)) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
    c.runs += 1;
    let fs = &st.frames;
    let mut at = 0usize;
    let mut log: Vec<String> = Vec::new();
    let steps = s.urange(1, 8);
    for _ in 0..steps {
        match s.draw(3) {
            0 => {
                let k = s.urange(0, 2);
                log.push(format!("read {} blocks", k));
                let mut b = r.blocks();
                for _ in 0..k {
                    match read_block(&mut b, Vec::new()) {
                        Ok(Some(b)) => {
                            ensure!(at < fs.len(), "history", "{:?}: block after the end", log);
                            super::c01::check_frame(&fs[at], &b, &format!("{:?}: frame {}", log, at)).map_err(|f| Fail { sig: "history".into(), msg: f.msg })?;
                            at += 1;
                        }
                        Ok(None) => ensure!(at == fs.len(), "history", "{:?}: end before frame {} of {}", log, at, fs.len()),
                        Err(e) => return fail("history", format!("{:?}: {:?} at frame {}", log, e, at)),
                    }
                }
            }
            x => {
                // Take some samples and drop the iterator.
                let len = fs.get(at).map_or(1, |f| f.bs * f.channels());
                let next_len = fs.get(at + 1).map_or(1, |f| f.bs * f.channels());
                let k = match s.draw(5) {
                    0 => len,
                    1 => len + 1,
                    2 => s.urange(0, len),
                    3 => s.urange(0, len + next_len + 1),
                    4 => 1,
                    _ => 0,
                };
                log.push(format!("take {} samples (blocks of {}, {})", k, len, next_len));
                let mut it = r.samples();
                let mut left = k;
                while left > 0 {
                    if at == fs.len() {
                        for _ in 0..2 { let y = it.next(); ensure!(y.is_none(), "history", "{:?}: item after the end: {:?}", log, y); }
                        break;
                    }
                    let want = fs[at].interleaved();
                    let n = left.min(want.len());
                    for i in 0..n {
                        match it.next() {
                            Some(Ok(v)) => ensure!(v == want[i], "history", "{:?}: frame {} item {} is {}, encoded {}", log, at, i, v, want[i]),
                            o => return fail("history", format!("{:?}: frame {} item {}: {:?}", log, at, i, o)),
                        }
                    }
                    if n < want.len() { c.label("dropped-inside"); } else { c.label("dropped-at-end"); }
                    left -= n;
                    at += 1;
                }
                if x == 3 { std::mem::drop(it); }
            }
        }
    }
    // The rest.
    if s.bool() {
        let (v, end) = read_samples(&mut r.into_samples());
        let want: Vec<i32> = fs[at..].iter().flat_map(|f| f.interleaved()).collect();
        ensure!(v == want && end == End::Clean, "history", "{:?}, then the rest: {} of {} samples, {:?}", log, v.len(), want.len(), end);
    } else {
        let (bl, end) = read_blocks(&mut r.blocks());
        ensure!(bl.len() == fs.len() - at && end == End::Clean, "history", "{:?}, then the rest: {} blocks, {:?}", log, bl.len(), end);
        for (f, b) in fs[at..].iter().zip(&bl) { super::c01::check_frame(f, b, "rest").map_err(|f| Fail { sig: "history".into(), msg: format!("{:?}: {}", log, f.msg) })?; }
    }
    c.print(&log);
    c.describe(|| log.join(", "));
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let e = Block::empty();
    ensure!(e.len() == 0 && e.duration() == 0 && e.channels() == 0 && e.time() == 0, "empty", "Block::empty() is not empty");
    let vary_channels = s.bool();
    let st = gen_stream(s, &StreamOpts {
        max_frames: 6, vary_channels, big_per_mille: 2, max_bs: 65535, extra_meta: false, ..StreamOpts::default()
    });
    c.print(&st.bytes);
    c.describe(|| st.describe());
    c.nontrivial = !st.frames.is_empty();
    if st.frames.windows(2).any(|w| w[0].channels() != w[1].channels()) { c.label("channels-vary"); }
    if st.frames.windows(2).any(|w| w[0].bs != w[1].bs) { c.label("sizes-vary"); }
    if s.bool() { views(s, c, &st) } else { history(s, c, &st) }
}
