//! C06: how the source delivers its bytes does not matter.

use std::io::Cursor;
use std::rc::Rc;

use crate::damage::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta;
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlockReader, read_metadata_block_with_header};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C06",
    case,
    rule: "A case is a byte string (valid, mutated, damaged with right checksums, or noise) read through several schedules of read sizes and kinds of reader, everything observed up to the first error compared; \
           non-trivial: something was decoded or the source delivered in more than one piece; distinct by bytes and schedules.",
};

fn blocks_of<R: ReadBytes>(rd: R) -> (Vec<String>, End) {
    let mut v = Vec::new();
    for b in MetadataBlockReader::new(rd) {
        match b {
            Ok(b) => v.push(meta::block_str(&b)),
            Err(e) => return (v, End::Err(err(&e))),
        }
    }
    (v, End::Clean)
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.weighted(&[6, 3, 2]) {
        // Whole streams.
        0 => {
            let (b, l) = if s.chance(1, 6) {
                // Metadata longer than any buffer.
                let st = gen_stream(s, &StreamOpts { max_frames: 2, big_meta: true, max_bs: 1000, ..StreamOpts::default() });
                (st.bytes, "big-metadata")
            } else {
                streamish(s, 4096)
            };
            c.label(&format!("stream:{}", l));
            c.print(&b);
            let o = FlacReaderOptions { metadata_only: s.chance(1, 8), read_vorbis_comment: !s.chance(1, 4) };
            let data = Rc::new(b);
            let a = observe(Cursor::new(&data[..]), o);
            c.runs += 1;
            let some = a.run.as_ref().map(|r| !r.0.is_empty()).unwrap_or(false);
            c.nontrivial = some || a.open.is_ok();
            for _ in 0..2 {
                let chunks = gen_chunks(s);
                c.print(&chunks);
                c.describe(|| format!("{} stream of {} bytes in pieces of {:?}", l, data.len(), chunks));
                let x = observe(ScriptReader::new(data.clone(), chunks.clone()), o);
                c.runs += 1;
                if let Err(m) = same_obs(&a, &x) {
                    return fail("schedule", format!("pieces of {:?} change the result: {}", chunks, m));
                }
            }
            // Sample iterator with another schedule.
            if let (Ok(_), Some(run)) = (&a.open, &a.run) {
                let want: Vec<i32> = run.0.iter().flat_map(interleave).collect();
                let chunks = gen_chunks(s);
                let owned = s.bool();
                if let Ok(mut r) = FlacReader::new_ext(ScriptReader::new(data.clone(), chunks.clone()), o) {
                    let got = if owned { read_samples(&mut r.into_samples()) } else { let x = read_samples(&mut r.samples()); x };
                    c.runs += 1;
                    ensure!(got.0 == want && got.1.same(&run.1), "schedule-iterator",
                            "pieces of {:?}: {} samples then {:?}, versus {} then {:?}", chunks, got.0.len(), got.1, want.len(), run.1);
                } else {
                    return fail("schedule", format!("pieces of {:?}: not opened", chunks));
                }
            }
            // A file.
            if s.chance(1, 300) {
                let p = temp_file(&data);
                let x = match FlacReader::open_ext(&p, o) {
                    Err(e) => Obs { open: Err(err(&e)), run: None },
                    Ok(mut r) => {
                        let m = meta_obs(&r);
                        let run = if o.metadata_only { None } else { Some(read_blocks(&mut r.blocks())) };
                        Obs { open: Ok(m), run }
                    }
                };
                let y = if o == FlacReaderOptions::default() {
                    FlacReader::open(&p).map(|r| meta_obs(&r)).map_err(|e| err(&e))
                } else {
                    x.open.clone()
                };
                let _ = std::fs::remove_file(&p);
                c.label("file");
                c.runs += 1;
                if let Err(m) = same_obs(&a, &x) { return fail("file", format!("reading from a file gives something else: {}", m)); }
                let same = match (&x.open, &y) { (Ok(p), Ok(q)) => p == q, (Err(p), Err(q)) => p.same(q), _ => false };
                ensure!(same, "file", "open and open_ext differ: {:?} and {:?}", x.open, y);
            }
        }
        // Frames through all kinds of readers.
        1 => {
            let mut b = Vec::new();
            for _ in 0..s.urange(1, 3) {
                let f = gen_frame(s, 4096);
                b.extend(match s.weighted(&[3, 2, 1]) { 0 => f.bytes, 1 => damaged_frame(s, &f), _ => { let mut x = f.bytes; mutate(s, &mut x); x } });
            }
            c.print(&b);
            let data = Rc::new(b);
            let a = read_blocks(&mut FrameReader::new(Cursor::new(&data[..])));
            c.runs += 1;
            c.nontrivial = !a.0.is_empty();
            c.label("frames");
            let chunks = gen_chunks(s);
            c.print(&chunks);
            c.describe(|| format!("{} bytes of frames in pieces of {:?}", data.len(), chunks));
            let script = || ScriptReader::new(data.clone(), chunks.clone());
            for kind in 0..5 {
                let x = match kind {
                    0 => read_blocks(&mut FrameReader::new(Cursor::new(data.to_vec()))),
                    1 => read_blocks(&mut FrameReader::new(BufferedReader::new(script()))),
                    2 => { let mut r = BufferedReader::new(script()); let x = read_blocks(&mut FrameReader::new(&mut r)); x }
                    3 => { let mut r = Cursor::new(&data[..]); let x = read_blocks(&mut FrameReader::new(&mut r)); x }
                    _ => {
                        // A new frame reader for every block.
                        let mut r = BufferedReader::new(script());
                        let mut v = Vec::new();
                        loop {
                            match read_block(&mut FrameReader::new(&mut r), Vec::new()) {
                                Ok(Some(b)) => v.push(b),
                                Ok(None) => break (v, End::Clean),
                                Err(e) => break (v, End::Err(e)),
                            }
                        }
                    }
                };
                c.runs += 1;
                if let Err(m) = same_run(&a, &x) { return fail("reader-kind", format!("reader kind {}: {}", kind, m)); }
            }
        }
        // Metadata through all kinds of readers.
        _ => {
            let big = s.chance(1, 4);
            let mut bl = meta::gen_extra_blocks(s, big);
            if bl.is_empty() { bl.push(meta::gen_block(s, big)); }
            let n = bl.len();
            let mut b = Vec::new();
            for (i, m) in bl.iter_mut().enumerate() { m.last = i + 1 == n; m.emit(&mut b); }
            if s.bool() { mutate(s, &mut b); }
            c.print(&b);
            let data = Rc::new(b);
            let a = blocks_of(Cursor::new(&data[..]));
            c.nontrivial = !a.0.is_empty();
            c.label("metadata");
            let chunks = gen_chunks(s);
            c.print(&chunks);
            c.describe(|| format!("{} bytes of metadata in pieces of {:?}", data.len(), chunks));
            let script = || ScriptReader::new(data.clone(), chunks.clone());
            for kind in 0..4 {
                let x = match kind {
                    0 => blocks_of(BufferedReader::new(script())),
                    1 => { let mut r = BufferedReader::new(script()); blocks_of(&mut r) }
                    2 => blocks_of(Cursor::new(data.to_vec())),
                    _ => {
                        let mut r = BufferedReader::new(script());
                        let mut v = Vec::new();
                        let mut end = End::Clean;
                        for _ in 0..a.0.len() + (a.1 != End::Clean) as usize {
                            match read_metadata_block_with_header(&mut r) {
                                Ok(b) => v.push(meta::block_str(&b)),
                                Err(e) => { end = End::Err(err(&e)); break }
                            }
                        }
                        (v, end)
                    }
                };
                c.runs += 1;
                ensure!(x.0 == a.0 && x.1.same(&a.1), "reader-kind-metadata", "reader kind {}: {:.300?} versus {:.300?}", kind, x, a);
            }
        }
    }
    Ok(())
}
