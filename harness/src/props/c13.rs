//! C13: reader options only choose what is read.

use std::io;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, Model};
use crate::src::Src;
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C13",
    case,
    rule: "A case opens one valid stream with each of the four option combinations and compares what is reported (rarely from a real file, with `open` and `open_ext`), and opens it metadata-only with everything behind the requested metadata damaged, missing or unreadable; \
           non-trivial: the stream has blocks behind the stream information or audio; distinct by bytes.",
};

const ALL: [FlacReaderOptions; 4] = [
    FlacReaderOptions { metadata_only: false, read_vorbis_comment: true },
    FlacReaderOptions { metadata_only: false, read_vorbis_comment: false },
    FlacReaderOptions { metadata_only: true, read_vorbis_comment: true },
    FlacReaderOptions { metadata_only: true, read_vorbis_comment: false },
];

/// What a reader with these options must report of the metadata.
fn check<R: io::Read>(r: &FlacReader<R>, st: &GenStream, o: FlacReaderOptions, what: &str) -> Result<(), Fail> {
    let tags = st.blocks.iter().find_map(|b| match b.model { Model::Tags { ref vendor, ref comments } => Some((vendor, comments)), _ => None });
    meta::info_matches(&r.streaminfo(), &st.info).or_else(|m| fail("info", format!("{:?} {}: {}", o, what, m)))?;
    let got: Vec<String> = r.tags().map(|(a, b)| format!("{}={}", a, b)).collect();
    match tags {
        Some((v, cs)) if o.read_vorbis_comment => {
            ensure!(r.vendor() == Some(&v[..]), "tags", "{:?} {}: vendor {:.200?}, stored {:.200}", o, what, r.vendor(), v);
            ensure!(&got == cs, "tags", "{:?} {}: tags {:.400}, stored {:.400}", o, what, format!("{:?}", got), format!("{:?}", cs));
        }
        _ => ensure!(r.vendor().is_none() && got.is_empty() && r.get_tag("TITLE").next().is_none(), "tags", "{:?} {}: vendor {:?} tags {:?} although not requested or not there", o, what, r.vendor(), got),
    }
    Ok(())
}

/// The audio, by block or by sample.
fn audio<R: io::Read>(by_block: bool, mut r: FlacReader<R>, st: &GenStream, o: FlacReaderOptions, what: &str) -> Result<(), Fail> {
    if by_block {
        let (bl, end) = read_blocks(&mut r.blocks());
        ensure!(bl.len() == st.frames.len() && end == End::Clean, "audio", "{:?} {}: {} of {} frames then {:?}", o, what, bl.len(), st.frames.len(), end);
        for (f, b) in st.frames.iter().zip(&bl) { super::c01::check_frame(f, b, &format!("{:?} {}", o, what))?; }
    } else {
        let (v, end) = read_samples(&mut r.into_samples());
        let want: Vec<i32> = st.frames.iter().flat_map(|f| f.interleaved()).collect();
        ensure!(v == want && end == End::Clean, "audio", "{:?} {}: {} of {} samples then {:?}", o, what, v.len(), want.len(), end);
    }
    Ok(())
}

/// The same through the functions that open a file.
fn from_file(s: &mut Src, p: &std::path::Path, st: &GenStream) -> Result<(), Fail> {
    for i in 0..5 {
        let (o, what) = if i < 4 { (ALL[i], "open_ext") } else { (ALL[0], "open") };
        let r = if i < 4 { FlacReader::open_ext(p, o) } else { FlacReader::open(p) };
        let mut r = match r { Ok(r) => r, Err(e) => return fail("open", format!("{:?} {}: {:?}", o, what, err(&e))) };
        check(&r, st, o, what)?;
        if o.metadata_only {
            let x = guard(|| read_block(&mut r.blocks(), Vec::new()).ok().and_then(|b| b).map(|b| b.len));
            ensure!(x.is_err(), "misuse", "{:?} {}: audio from a metadata-only reader gave {:?} instead of a panic", o, what, x);
        } else {
            audio(s.bool(), r, st, o, what)?;
        }
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let big_meta = s.chance(1, 50);
    let st = gen_stream(s, &StreamOpts { max_frames: 2, big_meta, max_bs: 300, big_per_mille: 0, ..StreamOpts::default() });
    c.print(&st.bytes);
    c.nontrivial = st.blocks.len() > 1 || !st.frames.is_empty();
    c.describe(|| format!("blocks (kind, length) {:?}; {}", st.blocks.iter().map(|m| (m.kind, m.body.len())).collect::<Vec<_>>(), st.describe()));
    let tag_at = st.blocks.iter().position(|b| b.kind == 4);
    let ends: Vec<usize> = (0..st.blocks.len()).map(|i| if i + 1 < st.blocks.len() { st.meta_at[i + 1] } else { st.audio_at }).collect();
    let data = Rc::new(st.bytes.clone());
    // FlacReaderOptions::default reads tags and audio.
    ensure!(FlacReaderOptions::default() == ALL[0], "default", "default options are {:?}", FlacReaderOptions::default());
    for &o in &ALL {
        let chunks = gen_chunks(s);
        c.runs += 1;
        let r = FlacReader::new_ext(ScriptReader::new(data.clone(), chunks), o);
        let mut r = match r { Ok(r) => r, Err(e) => return fail("open", format!("{:?}: {:?}", o, err(&e))) };
        check(&r, &st, o, "whole stream")?;
        if !o.metadata_only {
            audio(s.bool(), r, &st, o, "whole stream")?;
        } else if s.chance(1, 4) {
            // Audio from a metadata-only reader panics.
            let which = s.draw(2);
            c.label("misuse");
            let p = guard(|| match which {
                0 => { let mut b = r.blocks(); read_block(&mut b, Vec::new()).ok().and_then(|b| b).map(|b| b.len) }
                1 => { let x = r.samples().next(); x.and_then(|x| x.ok()).map(|x| x as u32) }
                _ => r.into_samples().next().and_then(|x| x.ok()).map(|x| x as u32),
            });
            ensure!(p.is_err(), "misuse", "audio from a metadata-only reader gave {:?} instead of a panic", p);
        } else {
            let _ = r.into_inner();
        }
    }
    // From a file.
    if s.chance(1, 150) {
        c.label("file");
        let p = temp_file(&st.bytes);
        let r = from_file(s, &p, &st);
        let _ = std::fs::remove_file(&p);
        r?;
    }
    // Metadata-only, with a ruined rest.
    for &o in &ALL[2..] {
        let needed = if !o.read_vorbis_comment { ends[0] } else { match tag_at { Some(i) => ends[i], None => st.audio_at } };
        let mut d = st.bytes[..needed].to_vec();
        let mut faults = Vec::new();
        let what = match s.draw(4) {
            0 => "nothing follows",
            1 => { faults.push(Fault { at: needed, kind: *s.pick(&FAULT_KINDS), id: 3, times: 1000 }); d.push(0); "the source fails behind it" }
            2 => { d.extend(vec![0xffu8; 40]); "0xff follows" }
            3 => { let k = s.urange(1, 200); d.extend(s.bytes(k)); "noise follows" }
            _ => { let k = needed + s.urange(0, st.bytes.len() - needed); d = st.bytes[..k].to_vec(); "the rest is cut" }
        };
        c.label(what);
        let chunks = gen_chunks(s);
        c.runs += 1;
        let rd = ScriptReader::new(Rc::new(d), chunks).with_faults(faults);
        let log = rd.log();
        match FlacReader::new_ext(rd, o) {
            Err(e) => return fail("ruined-rest", format!("{:?}, the requested metadata ends at {}, {}: {:?}", o, needed, what, err(&e))),
            Ok(r) => {
                check(&r, &st, o, what)?;
                ensure!(log.faults.get() == 0, "ruined-rest", "{:?}: read on behind the requested metadata", o);
            }
        }
    }
    Ok(())
}
