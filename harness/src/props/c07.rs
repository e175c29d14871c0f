//! C07: I/O failures are reported faithfully and never corrupt data.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata;
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C07",
    case,
    rule: "A case is a valid stream, metadata or byte string read from a source that fails once or several times at chosen offsets with a chosen error, the call retried afterwards; the oracle is the fault-free decoding of the bytes before the fault and a fresh decoding of the bytes from the fault on; \
           non-trivial: the fault was hit; distinct by bytes, fault offsets and read sizes.",
};

fn gen_fault(s: &mut Src, at: usize, id: u32) -> Fault {
    Fault { at, kind: *s.pick(&FAULT_KINDS), id, times: if s.chance(1, 5) { s.urange(2, 3) as u32 } else { 1 } }
}

fn want(f: &Fault) -> E {
    E::Io(f.kind, fault_msg(f.id))
}

fn offset(s: &mut Src, marks: &[usize], end: usize) -> usize {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.urange(0, end),
        1 => *s.pick(marks),
        2 => (*s.pick(marks) + s.urange(0, 12)).saturating_sub(4).min(end),
        _ => *s.pick(&[end, 2048.min(end), 2047.min(end), 2049.min(end), 4096.min(end)]),
    }
}

fn stream(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let st = gen_stream(s, &StreamOpts { max_frames: 4, big_per_mille: 10, max_bs: 8192, ..StreamOpts::default() });
    let end = st.bytes.len();
    let mut marks = st.meta_at.clone();
    marks.extend(&st.frame_at);
    let at = offset(s, &marks, end);
    let f = gen_fault(s, at, 1);
    let mut faults = vec![f.clone()];
    if s.chance(1, 3) {
        let at2 = offset(s, &marks, end).max(at);
        if at2 > at { faults.push(gen_fault(s, at2, 2)); }
    }
    let chunks = gen_chunks(s);
    c.print(&st.bytes);
    c.print(&(at, &chunks));
    c.describe(|| format!("{:?} in pieces of {:?}: {}", faults, chunks, st.describe()));
    let data = Rc::new(st.bytes.clone());
    let rd = ScriptReader::new(data.clone(), chunks.clone()).with_faults(faults.clone());
    let log = rd.log();
    c.runs += 1;
    let mut r = match FlacReader::new(rd) {
        Err(e) => {
            ensure!(at < st.audio_at, "open", "the source fails at {}, behind the metadata ({}), but opening gave {:?}", at, st.audio_at, err(&e));
            let e = err(&e);
            ensure!(e == want(&f), "error", "the source failed with {:?} while opening, reported was {:?}", want(&f), e);
            c.label("fault:metadata");
            c.nontrivial = true;
            return Ok(());
        }
        Ok(r) => {
            ensure!(at >= st.audio_at, "open", "the source failed at {} inside the metadata ({}) but opening succeeded", at, st.audio_at);
            r
        }
    };
    let by_iterator = s.chance(1, 4);
    let inside = (0..st.frames.len()).find(|&i| st.frame_at[i] <= at && at < st.frame_at[i + 1]);
    let before = inside.unwrap_or(st.frames.len());
    c.label(match inside {
        None => "fault:end",
        Some(i) if st.frame_at[i] == at => "fault:between-frames",
        _ => "fault:inside-frame",
    });
    let clean = match FlacReader::new(Cursor::new(&data[..])) {
        Ok(mut r) => { let x = read_blocks(&mut r.blocks()); x }
        Err(e) => return fail("clean", format!("{:?}", err(&e))),
    };
    ensure!(clean.1 == End::Clean && clean.0.len() == st.frames.len(), "clean", "the fault-free run gave {} blocks then {:?}", clean.0.len(), clean.1);
    if by_iterator {
        let want_s: Vec<i32> = clean.0[..before].iter().flat_map(interleave).collect();
        let (v, e) = read_samples(&mut r.samples());
        ensure!(v == want_s, "before", "{} samples before the failure, {} in the fault-free run", v.len(), want_s.len());
        ensure!(e == End::Err(want(&f)), "error", "the source failed with {:?}, the iterator gave {:?}", want(&f), e);
        c.label("iterator");
    } else {
        let mut bl = r.blocks();
        for i in 0..before {
            match read_block(&mut bl, Vec::new()) {
                Ok(Some(b)) => ensure!(b == clean.0[i], "before", "block {} before the failure: {}", i, diff_bd(&b, &clean.0[i])),
                o => return fail("before", format!("block {} lies before the failure at {} but gave {:?}", i, at, o.map(|_| "end of stream"))),
            }
        }
        for k in 0..f.times {
            match read_block(&mut bl, Vec::new()) {
                Err(ref e) if *e == want(&f) => {}
                Err(e) => return fail("error", format!("attempt {}: the source failed with {:?}, reported was {:?}", k, want(&f), e)),
                Ok(Some(b)) => return fail("data", format!("attempt {}: the source failed at {} but a block of {} x {} was returned", k, at, b.channels, b.duration)),
                Ok(None) => return fail("data", format!("attempt {}: the source failed at {} but the end of the stream was reported", k, at)),
            }
        }
    }
    c.nontrivial = log.faults.get() > 0;
    // From here on: as a reader that starts at the failed byte.
    let mut rest = st.bytes[..st.audio_at].to_vec();
    rest.extend_from_slice(&st.bytes[at..]);
    let skip = at - st.audio_at;
    let later: Vec<Fault> = faults[1..].iter().map(|x| Fault { at: x.at - skip, ..x.clone() }).collect();
    let mut fresh = match FlacReader::new(ScriptReader::new(Rc::new(rest), vec![0]).with_faults(later)) {
        Ok(r) => r,
        Err(e) => return fail("clean", format!("{:?}", err(&e))),
    };
    if by_iterator && f.times > 1 {
        // The remaining failures.
        for _ in 1..f.times {
            let e = read_block(&mut r.blocks(), Vec::new());
            ensure!(e == Err(want(&f)), "error", "a repeated failure was reported as {:?}", e.map(|_| "data or end"));
        }
    }
    let mut a = r.blocks();
    let mut b = fresh.blocks();
    for i in 0..st.frames.len() + 3 {
        let x = read_block(&mut a, Vec::new());
        let y = read_block(&mut b, Vec::new());
        c.runs += 1;
        match (&x, &y) {
            (Ok(Some(p)), Ok(Some(q))) if p == q => {}
            (Ok(None), Ok(None)) => break,
            (Err(p), Err(q)) if p.same(q) => {}
            _ => return fail("retry", format!("after the failure at {}, call {} gave {:.200} but a reader starting at the failed byte gives {:.200}", at, i, format!("{:?}", x), format!("{:?}", y))),
        }
    }
    Ok(())
}

fn meta_case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let big = s.chance(1, 6);
    let mut bl = meta::gen_extra_blocks(s, big);
    if bl.is_empty() { bl.push(meta::gen_block(s, big)); }
    let n = bl.len();
    let mut b = Vec::new();
    let mut ends = vec![0];
    for (i, m) in bl.iter_mut().enumerate() {
        m.last = i + 1 == n;
        m.emit(&mut b);
        ends.push(b.len());
    }
    let tail = s.bytes(20);
    let total = b.len();
    b.extend_from_slice(&tail);
    let at = offset(s, &ends, total.max(1) - 1).min(total - 1);
    let f = gen_fault(s, at, 1);
    let chunks = gen_chunks(s);
    c.print(&b);
    c.print(&(at, &chunks));
    c.label("metadata");
    c.nontrivial = true;
    c.describe(|| format!("{} metadata blocks of {} bytes, {:?}, pieces of {:?}", n, total, f, chunks));
    let before = (0..n).find(|&i| at < ends[i + 1]).unwrap();
    let data = Rc::new(b);
    let mut rd = BufferedReader::new(ScriptReader::new(data.clone(), chunks).with_faults(vec![f.clone()]));
    c.runs += 1;
    if s.bool() {
        let mut it = metadata::MetadataBlockReader::new(&mut rd);
        for i in 0..before {
            match it.next() {
                Some(Ok(ref x)) => meta::matches(x, &bl[i].model, bl[i].body.len()).or_else(|m| fail("before", m))?,
                o => return fail("before", format!("block {} lies before the failure but gave {:?}", i, o.map(|r| r.err().map(|e| err(&e))))),
            }
        }
        match it.next() {
            Some(Err(ref e)) if err(e) == want(&f) => {}
            o => return fail("error", format!("the source failed with {:?}, the iterator gave {:?}", want(&f), o.map(|r| r.map(|b| meta::block_str(&b)).map_err(|e| err(&e))))),
        }
    } else {
        for i in 0..before {
            match metadata::read_metadata_block_with_header(&mut rd) {
                Ok(ref x) => meta::matches(x, &bl[i].model, bl[i].body.len()).or_else(|m| fail("before", m))?,
                Err(e) => return fail("before", format!("block {} lies before the failure but gave {:?}", i, err(&e))),
            }
        }
        for k in 0..f.times {
            // The first attempt fails inside the block; further ones, which
            // begin with a header, at once.
            match metadata::read_metadata_block_with_header(&mut rd) {
                Err(ref e) if err(e) == want(&f) => {}
                o => return fail("error", format!("attempt {}: the source failed with {:?}, reported was {:?}", k, want(&f), o.map(|b| meta::block_str(&b)).map_err(|e| err(&e)))),
            }
        }
    }
    // What follows is what has not been read.
    if f.times == 1 {
        let mut got = Vec::new();
        loop {
            match rd.read_u8_or_eof() {
                Ok(Some(x)) => got.push(x),
                Ok(None) => break,
                Err(e) => return fail("error", format!("a second error: {:?}", ioerr(&e))),
            }
            if got.len() > data.len() { break; }
        }
        ensure!(got == &data[at..], "retry", "after the failure at {} of {}, {} bytes followed: {}, expected {}", at, data.len(), got.len(), super::c02::hex(&got, 16), super::c02::hex(&data[at..], 16));
    }
    Ok(())
}

/// Byte-level operations against a model of a byte string with faults.
fn bytes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = match s.weighted(&[3, 1]) { 0 => s.urange(0, 60), _ => s.urange(0, 5000) };
    let data = Rc::new(s.bytes(n));
    let nf = s.urange(1, 4);
    let mut faults: Vec<Fault> = Vec::new();
    for i in 0..nf {
        let at = match s.weighted(&[4, 1, 1]) { 0 => s.urange(0, n), 1 => n, _ => 2048.min(n) };
        if faults.iter().all(|f| f.at != at) { faults.push(gen_fault(s, at, i as u32)); }
    }
    faults.sort_by_key(|f| f.at);
    let chunks = gen_chunks(s);
    c.print(&(n, faults.iter().map(|f| f.at).collect::<Vec<_>>(), &chunks));
    c.label("bytes");
    c.describe(|| format!("{} bytes, {:?}, pieces of {:?}", n, faults, chunks));
    let rd = ScriptReader::new(data.clone(), chunks).with_faults(faults.clone());
    let log = rd.log();
    let mut rd = BufferedReader::new(rd);
    let borrowed = s.bool();
    let mut p = 0usize;
    let mut after_end = 0;
    for step in 0..s.urange(1, 40) {
        let op = s.draw(8);
        let amount = match s.weighted(&[4, 2, 1]) { 0 => s.urange(0, 9), 1 => s.urange(0, n + 2), _ => s.urange(0, 3000) };
        let need = match op { 0 | 1 => 1, 2 | 3 => 2, 4 => 3, 5 | 6 => 4, _ => amount };
        let tolerant = op == 1 || op == 3;
        // The model.
        let hit = faults.iter().position(|f| f.times > 0 && f.at >= p && f.at < p + need && f.at <= n);
        let model: Result<Option<Vec<u8>>, Option<E>> = if need == 0 {
            Ok(Some(vec![]))
        } else if let Some(k) = hit {
            p = faults[k].at;
            faults[k].times -= 1;
            Err(Some(want(&faults[k])))
        } else if p + need > n {
            let left = n - p;
            p = n;
            if tolerant && left == 0 { Ok(None) } else { Err(None) }
        } else {
            p += need;
            Ok(Some(data[p - need..p].to_vec()))
        };
        c.runs += 1;
        let got = if borrowed { let mut b = &mut rd; apply(&mut b, op, amount) } else { apply(&mut rd, op, amount) };
        let ok = match (&model, &got) {
            (Ok(Some(v)), Ok(Some(w))) => if op == 8 { w.is_empty() } else { v == w },
            (Ok(None), Ok(None)) => true,
            (Err(Some(a)), Err(b)) => a == b,
            (Err(None), Err(b)) => b.is_eof() && !format!("{:?}", b).contains("injected"),
            _ => false,
        };
        ensure!(ok, "byte-op", "step {}: {}({}) at {} of {}: expected {:?}, got {:?}", step, OPS[op as usize], amount, p, n, model, got);
        if p == n { after_end += 1; if after_end > 6 { break; } }
    }
    c.nontrivial = log.faults.get() > 0;
    Ok(())
}

pub const OPS: [&str; 9] = ["read_u8", "read_u8_or_eof", "read_be_u16", "read_be_u16_or_eof", "read_be_u24", "read_be_u32", "read_le_u32", "read_into", "skip"];

/// The bytes an operation read, in stream order; nothing for `skip`.
pub fn apply<R: ReadBytes>(r: &mut R, op: u64, amount: usize) -> Result<Option<Vec<u8>>, E> {
    let be = |v: u32, n: usize| v.to_be_bytes()[4 - n..].to_vec();
    match op {
        0 => r.read_u8().map(|v| Some(vec![v])),
        1 => r.read_u8_or_eof().map(|v| v.map(|v| vec![v])),
        2 => r.read_be_u16().map(|v| Some(be(v as u32, 2))),
        3 => r.read_be_u16_or_eof().map(|v| v.map(|v| be(v as u32, 2))),
        4 => r.read_be_u24().map(|v| Some(be(v & 0xff_ffff, 3)).filter(|_| v < 1 << 24).or(Some(vec![]))),
        5 => r.read_be_u32().map(|v| Some(be(v, 4))),
        6 => r.read_le_u32().map(|v| Some(v.to_le_bytes().to_vec())),
        7 => {
            // Guard bytes on both sides.
            let mut b = vec![0xeeu8; amount + 16];
            let res = r.read_into(&mut b[8..8 + amount]);
            if b[..8].iter().chain(&b[8 + amount..]).any(|&x| x != 0xee) {
                return Err(E::Format("wrote outside the buffer".into()));
            }
            res.map(|_| Some(b[8..8 + amount].to_vec()))
        }
        _ => r.skip(amount as u32).map(|_| Some(vec![])),
    }.map_err(|e| ioerr(&e))
}

/// One frame reader on a buffered reader, without a stream around it.
fn frames(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 3);
    let fs: Vec<GenFrame> = (0..n).map(|_| gen_frame(s, 300)).collect();
    let mut at = vec![0];
    let mut b = Vec::new();
    for f in &fs { b.extend_from_slice(&f.bytes); at.push(b.len()); }
    // Every boundary of the frame structure is a mark.
    let mut marks = at.clone();
    for (i, f) in fs.iter().enumerate() {
        marks.push(at[i] + f.layout.header_len);
        marks.push(at[i + 1] - 2);
        marks.push(at[i + 1] - 1);
        for x in &f.layout.sub_start { marks.push(at[i] + x / 8); }
    }
    let o = offset(s, &marks, b.len());
    let f = gen_fault(s, o, 1);
    let chunks = gen_chunks(s);
    c.print(&b);
    c.print(&(o, &chunks));
    c.label("frames");
    c.describe(|| format!("{} frames of {} bytes, {:?}, pieces of {:?}", n, b.len(), f, chunks));
    let data = Rc::new(b);
    let rd = ScriptReader::new(data.clone(), chunks).with_faults(vec![f.clone()]);
    let log = rd.log();
    let mut fr = FrameReader::new(BufferedReader::new(rd));
    let before = (0..n).find(|&i| o < at[i + 1]).unwrap_or(n);
    c.runs += 1;
    for i in 0..before {
        match read_block(&mut fr, Vec::new()) {
            Ok(Some(b)) => super::c01::check_frame(&fs[i], &b, "before the failure")?,
            e => return fail("before", format!("frame {} lies before the failure but gave {:?}", i, e.map(|_| "end"))),
        }
    }
    for k in 0..f.times {
        match read_block(&mut fr, Vec::new()) {
            Err(ref e) if *e == want(&f) => {}
            x => return fail("error", format!("attempt {}: the source failed with {:?} at {}, result {:.200}", k, want(&f), o, format!("{:?}", x))),
        }
    }
    c.nontrivial = log.faults.get() > 0;
    let mut fresh = FrameReader::new(Cursor::new(&data[o..]));
    for _ in 0..n + 2 {
        let x = read_block(&mut fr, Vec::new());
        let y = read_block(&mut fresh, Vec::new());
        match (&x, &y) {
            (Ok(Some(p)), Ok(Some(q))) if p == q => {}
            (Ok(None), Ok(None)) => break,
            (Err(p), Err(q)) if p.same(q) => {}
            _ => return fail("retry", format!("after the failure at {}: {:.200} but a reader starting there gives {:.200}", o, format!("{:?}", x), format!("{:?}", y))),
        }
    }
    Ok(())
}

/// A path that cannot be opened or read gives the error the system gives.
fn paths(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let dir = std::env::temp_dir();
    let p: std::path::PathBuf = match s.draw(5) {
        0 => dir.join(format!("claxon-verif-missing-{}.flac", std::process::id())),
        1 => dir,
        2 => "/dev/null/x.flac".into(),
        3 => dir.join("x".repeat(s.urange(256, 5000))),
        4 => "".into(),
        _ => "/tmp/with\0nul".into(),
    };
    let want = match std::fs::File::open(&p) {
        Err(e) => ioerr(&e),
        Ok(mut f) => match std::io::Read::read(&mut f, &mut [0u8; 16]) {
            Err(e) => ioerr(&e),
            Ok(_) => return Ok(()),
        },
    };
    c.print(&p);
    c.label("paths");
    c.describe(|| format!("{:.60?}: {:?}", p, want));
    c.nontrivial = true;
    c.runs += 2;
    let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: s.bool() };
    for (n, r) in [("open", FlacReader::open(&p).map(|_| ())), ("open_ext", FlacReader::open_ext(&p, o).map(|_| ()))] {
        let got = r.map_err(|e| err(&e));
        ensure!(got == Err(want.clone()), "path", "{} of {:.60?}: the system says {:?}, reported was {:?}", n, p, want, got);
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 2000) { return paths(s, c); }
    match s.weighted(&[4, 2, 3, 3]) {
        0 => stream(s, c),
        1 => meta_case(s, c),
        2 => bytes(s, c),
        _ => frames(s, c),
    }
}
