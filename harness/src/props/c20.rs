//! C20: after an error an iterator ends and delivers nothing more.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::input::BufferedReader;
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;

pub const PROP: Prop = Prop {
    id: "C20",
    case,
    rule: "A case is a stream or metadata sequence with one damage (broken checksum or sync, impossible block, cut, or a source that fails once or several times) with valid data behind it, or none; the iterator is driven to its first error or end and then asked again up to 40 times while the source's read calls are counted, or jumps about and is used up through iterator adaptors; \
           non-trivial: an error was reported with valid data still to come, or the end was asked for repeatedly; distinct by bytes, damage and read sizes.",
};

/// How the iteration must end.
#[derive(Debug)]
enum Want { End, Format, Unsupported, Eof, Fault(std::io::ErrorKind, u32) }

fn ends_as(w: &Want, e: &E) -> bool {
    match *w {
        Want::End => false,
        Want::Format => e.is_format(),
        Want::Unsupported => matches!(*e, E::Unsupported(_)),
        Want::Eof => e.is_eof(),
        Want::Fault(k, id) => *e == E::Io(k, fault_msg(id)),
    }
}

fn hint(h: (usize, Option<usize>), left: usize) -> Result<(), Fail> {
    ensure!(h.0 <= left && h.1.map(|u| u >= left).unwrap_or(true), "size-hint", "size hint {:?} with {} items to come", h, left);
    Ok(())
}

/// Drives `it`; `n` items and then `want`.
fn drive<T, I: Iterator<Item = claxon::Result<T>>>(
    s: &mut Src, c: &mut Ctx, it: &mut I, n: usize, want: &Want, mut item: impl FnMut(usize, T) -> Result<(), Fail>,
    state: impl Fn() -> (u64, u64), quiet_end: bool,
) -> Result<(), Fail> {
    let is_end = matches!(*want, Want::End);
    let total = n + !is_end as usize;
    for i in 0..n {
        if i % 61 == 0 { hint(it.size_hint(), total - i)?; }
        match it.next() {
            Some(Ok(x)) => item(i, x)?,
            Some(Err(e)) => return fail("early-error", format!("item {} of {} is {:?}", i, n, err(&e))),
            None => return fail("early-end", format!("ended after {} of {} items, before {:?}", i, n, want)),
        }
    }
    hint(it.size_hint(), total - n)?;
    match it.next() {
        None => ensure!(is_end, "no-error", "ended after {} items instead of {:?}", n, want),
        Some(Ok(_)) => return fail("extra-item", format!("an item after the {} there are, instead of {:?}", n, want)),
        Some(Err(e)) => ensure!(ends_as(want, &err(&e)), "error", "after {} items {:?} instead of {:?}", n, err(&e), want),
    }
    let before = state();
    let k = match s.draw(2) { 0 => 1, 1 => 3, _ => s.urange(1, 40) };
    for j in 0..k {
        hint(it.size_hint(), 0)?;
        match it.next() {
            None => {}
            Some(Ok(_)) => return fail("revived", format!("call {} after {:?} delivered an item", j + 1, want)),
            Some(Err(e)) => return fail("second-error", format!("call {} after {:?} delivered {:?}", j + 1, want, err(&e))),
        }
        if !is_end || quiet_end {
            ensure!(state() == before, "reads-on", "call {} after {:?} read the source: {:?} then {:?}", j + 1, want, before, state());
        }
    }
    c.label(match *want { Want::End => "end", Want::Format => "format-error", Want::Unsupported => "unsupported", Want::Eof => "eof", Want::Fault(..) => "fault" });
    Ok(())
}

fn gen_fault(s: &mut Src, at: usize) -> (Fault, Want) {
    let kind = *s.pick(&FAULT_KINDS);
    let id = s.draw(1000) as u32;
    let times = *s.pick(&[1u32, 2, 3, 100]);
    (Fault { at, kind, id, times }, Want::Fault(kind, id))
}

fn samples(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { max_frames: 5, min_frames: 1, max_bs: 300, big_per_mille: 4, ..StreamOpts::default() });
    let n = st.frames.len();
    let mut d = st.bytes.clone();
    let k = s.urange(0, n - 1);
    let (a, b) = (st.frame_at[k], st.frame_at[k + 1]);
    let hl = st.frames[k].layout.header_len;
    let mut faults = Vec::new();
    let (whole, want) = match s.draw(6) {
        0 => (n, Want::End),
        1 => { let x = 1 + s.draw(0xfffe) as u16; d[b - 2] ^= (x >> 8) as u8; d[b - 1] ^= x as u8; (k, Want::Format) }
        2 => { d[a + hl - 1] ^= 1 + s.draw(254) as u8; (k, Want::Format) }
        3 => { d[a] ^= 1 + s.draw(254) as u8; (k, Want::Format) }
        4 => { let cut = s.urange(a + 1, b - 1); d.truncate(cut); (k, Want::Eof) }
        _ => {
            // Mostly inside a frame, at times in front of it or at the end.
            let at = match s.draw(4) { 0 => a, 1 => *st.frame_at.last().unwrap(), _ => s.urange(a, b - 1) };
            let (f, w) = gen_fault(s, at);
            faults.push(f);
            ((0..n).take_while(|&i| st.frame_at[i + 1] <= at).count(), w)
        }
    };
    let chunks = if s.chance(1, 3) { vec![1] } else { gen_chunks(s) };
    c.print(&d);
    c.print(&chunks);
    let own = s.bool();
    c.describe(|| format!("{} of {} frames, then {:?}, owned iterator {}, chunks {:?}; {}", whole, n, want, own, chunks, st.describe()));
    c.nontrivial = true;
    c.runs += 1;
    let expect: Vec<i32> = st.frames[..whole].iter().flat_map(|f| f.interleaved()).collect();
    let rd = ScriptReader::new(Rc::new(d), chunks).with_faults(faults);
    let log = rd.log();
    let state = || (log.reads.get(), log.pos.get() as u64);
    // A large read may meet the fault before the frames in front of it are
    // asked for, never before they are complete.
    let mut r = match FlacReader::new(rd) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
    if s.chance(1, 4) {
        // Jumping about, and then used up by an adaptor.
        c.label("adaptors");
        let mut exp: Vec<Option<i32>> = expect.iter().map(|&x| Some(x)).collect();
        if !matches!(want, Want::End) { exp.push(None); }
        let eq = |g: &claxon::Result<i32>, w: &Option<i32>| match (g, w) { (Ok(x), Some(y)) => x == y, (Err(e), None) => ends_as(&want, &err(e)), _ => false };
        let x = if own { wander(s, r.into_samples(), &exp, eq) } else { wander(s, r.samples(), &exp, eq) };
        return x.or_else(|m| fail("adaptor", m));
    }
    let check = |i: usize, x: i32| -> Result<(), Fail> { ensure!(x == expect[i], "item", "item {} is {} instead of {}", i, x, expect[i]); Ok(()) };
    if own {
        drive(s, c, &mut r.into_samples(), expect.len(), &want, check, state, false)
    } else {
        let mut it = r.samples();
        drive(s, c, &mut it, expect.len(), &want, check, state, false)
    }
}

fn bad_block(s: &mut Src) -> (MBlock, Want) {
    let mut m = MBlock { last: false, kind: 127, body: Vec::new(), model: Model::Reserved, claim: None };
    let n = s.urange(0, 60);
    let w = match s.draw(4) {
        0 => { m.body = s.bytes(n); Want::Format }
        1 => { m.kind = 0; m.body = s.bytes(if n == 34 { 33 } else { n }); Want::Format }
        2 => { m.kind = 2; m.body = s.bytes(n % 4); Want::Format }
        3 => { m.kind = 4; m.body = s.bytes(n % 8); Want::Format }
        _ => { m.kind = if s.bool() { 2 } else { 4 }; m.claim = Some(10 * 1024 * 1024 + 5 + s.draw(1000) as u32); Want::Unsupported }
    };
    (m, w)
}

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut bl = meta::gen_extra_blocks(s, false);
    if bl.is_empty() || s.bool() { let t = meta::gen_block(s, false); bl.push(t); }
    let n = bl.len();
    let bad = if s.bool() { let k = s.urange(0, n - 1); let (mut m, w) = bad_block(s); m.last = k + 1 == n; bl[k] = m; Some((k, w)) } else { None };
    let mut d = Vec::new();
    let mut at = vec![0];
    for (i, m) in bl.iter_mut().enumerate() { m.last = i + 1 == n; m.emit(&mut d); at.push(d.len()); }
    let end = d.len();
    // Something that looks like further blocks.
    for m in meta::gen_extra_blocks(s, false) { m.emit(&mut d); }
    let tail = s.urange(0, 30);
    d.extend(s.bytes(tail));
    let mut faults = Vec::new();
    let (whole, want) = match bad {
        Some((k, w)) => (k, w),
        None => match s.draw(2) {
            0 => (n, Want::End),
            1 => { let cut = s.urange(0, end - 1); d.truncate(cut); ((0..n).take_while(|&i| at[i + 1] <= cut).count(), Want::Eof) }
            _ => { let p = s.urange(0, end - 1); let (f, w) = gen_fault(s, p); faults.push(f); ((0..n).take_while(|&i| at[i + 1] <= p).count(), w) }
        },
    };
    c.print(&d);
    c.label("metadata");
    c.nontrivial = true;
    c.describe(|| format!("{} of {} blocks (kind, length) {:?}, then {:?}", whole, n, bl.iter().map(|m| (m.kind, m.body.len())).collect::<Vec<_>>(), want));
    c.runs += 1;
    let check = |i: usize, b: MetadataBlock| -> Result<(), Fail> { meta::matches(&b, &bl[i].model, bl[i].body.len()).or_else(|m| fail("item", m)) };
    if faults.is_empty() && s.chance(1, 4) {
        // Advanced, then used up by an adaptor or by skipping.
        let mut exp: Vec<Option<usize>> = (0..whole).map(Some).collect();
        if !matches!(want, Want::End) { exp.push(None); }
        let eq = |g: &claxon::Result<MetadataBlock>, w: &Option<usize>| match (g, w) {
            (Ok(b), Some(i)) => meta::matches(b, &bl[*i].model, bl[*i].body.len()).is_ok(),
            (Err(e), None) => ends_as(&want, &err(e)),
            _ => false,
        };
        let it = MetadataBlockReader::new(Cursor::new(&d[..]));
        return wander(s, it, &exp, eq).or_else(|m| fail("adaptor", m));
    }
    if faults.is_empty() && s.bool() {
        let mut cur = Cursor::new(&d[..]);
        {
            let mut it = MetadataBlockReader::new(&mut cur);
            drive(s, c, &mut it, whole, &want, check, || (0, 0), true)?;
        }
        if let Want::End = want { ensure!(cur.position() == end as u64, "reads-on", "at {} after the last block, which ends at {}", cur.position(), end); }
        Ok(())
    } else {
        // Byte by byte the source shows every attempt to read on.
        let chunks = if s.chance(2, 3) { vec![1] } else { gen_chunks(s) };
        c.print(&chunks);
        let bytewise = chunks == [1];
        let rd = ScriptReader::new(Rc::new(d), chunks).with_faults(faults);
        let log = rd.log();
        let state = || (log.reads.get(), log.pos.get() as u64);
        let mut it = MetadataBlockReader::new(BufferedReader::new(rd));
        drive(s, c, &mut it, whole, &want, check, state, true)?;
        if let (Want::End, true) = (&want, bytewise) { ensure!(log.pos.get() == end, "reads-on", "read up to {} for blocks that end at {}", log.pos.get(), end); }
        Ok(())
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(3, 5) { samples(s, c) } else { blocks(s, c) }
}
