//! Part of C24: several threads make the first use of the library in a
//! process, at the same time. Every case is a process of its own.

use std::io::Cursor;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, Model};
use crate::src::Src;
use claxon::frame::FrameReader;
use claxon::metadata::MetadataBlockReader;
use claxon::FlacReader;

pub const PROP: Prop = Prop {
    id: "C24f",
    case,
    rule: "A case is a new process in which two to six threads read valid streams at the same moment, before anything else was read in that process, and compare with what was encoded.",
};

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let seed = s.draw(u64::MAX);
    c.print(&seed);
    c.nontrivial = true;
    c.label("first-use");
    c.describe(|| format!("first use in a new process, seed {}", seed));
    c.runs += 1;
    let exe = std::env::current_exe().expect("own path");
    let o = Command::new(exe).arg("first").arg(seed.to_string()).output().expect("new process");
    match o.status.code() {
        Some(0) => Ok(()),
        Some(1) => fail("first-use", format!("seed {}: {}", seed, String::from_utf8_lossy(&o.stdout).trim())),
        Some(n) => panic!("HARNESS: a process ended with {}: {}", n, String::from_utf8_lossy(&o.stderr)),
        None => fail("first-use", format!("seed {}: the process died: {} {:.300}", seed, o.status, String::from_utf8_lossy(&o.stderr))),
    }
}

fn use_it(kind: usize, st: &GenStream) -> Result<(), Fail> {
    match kind {
        0 => {
            let mut r = match FlacReader::new(&st.bytes[..]) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
            meta::info_matches(&r.streaminfo(), &st.info).or_else(|m| fail("info", m))?;
            if let Some((v, cs)) = st.blocks.iter().find_map(|b| match b.model { Model::Tags { ref vendor, ref comments } => Some((vendor, comments)), _ => None }) {
                let got: Vec<String> = r.tags().map(|(a, b)| format!("{}={}", a, b)).collect();
                ensure!(r.vendor() == Some(&v[..]) && &got == cs, "tags", "tags {:?} and vendor {:?}", got, r.vendor());
                for t in cs {
                    let k = t.find('=').unwrap();
                    ensure!(r.get_tag(&t[..k].to_ascii_lowercase()).any(|x| x == &t[k + 1..]), "tags", "tag {:?} is not found", t);
                }
            }
            let (bl, end) = read_blocks(&mut r.blocks());
            ensure!(bl.len() == st.frames.len() && end == End::Clean, "audio", "{} of {} frames then {:?}", bl.len(), st.frames.len(), end);
            for (f, b) in st.frames.iter().zip(&bl) { super::c01::check_frame(f, b, "blocks")?; }
        }
        1 => {
            let r = match FlacReader::new(&st.bytes[..]) { Ok(r) => r, Err(e) => return fail("open", format!("{:?}", err(&e))) };
            let (v, end) = read_samples(&mut r.into_samples());
            let want: Vec<i32> = st.frames.iter().flat_map(|f| f.interleaved()).collect();
            ensure!(v == want && end == End::Clean, "audio", "{} of {} samples then {:?}", v.len(), want.len(), end);
        }
        2 => {
            let (bl, end) = read_blocks(&mut FrameReader::new(Cursor::new(&st.bytes[st.audio_at..])));
            ensure!(bl.len() == st.frames.len() && end == End::Clean, "audio", "{} of {} frames then {:?}", bl.len(), st.frames.len(), end);
            for (f, b) in st.frames.iter().zip(&bl) { super::c01::check_frame(f, b, "frames")?; }
        }
        _ => {
            let mut n = 0;
            for b in MetadataBlockReader::new(Cursor::new(&st.bytes[4..])) {
                match b {
                    Ok(b) => meta::matches(&b, &st.blocks[n].model, st.blocks[n].body.len()).or_else(|m| fail("metadata", m))?,
                    Err(e) => return fail("metadata", format!("{:?}", err(&e))),
                }
                n += 1;
            }
            ensure!(n == st.blocks.len(), "metadata", "{} of {} blocks", n, st.blocks.len());
        }
    }
    Ok(())
}

/// In the new process.
pub fn first(seed: u64) -> Result<(), String> {
    let mut s = Src::random(seed);
    let n = s.urange(2, 6);
    let same = s.bool();
    let one = s.weighted(&[3, 2, 2, 1]);
    let opts = StreamOpts { min_frames: 1, max_frames: 2, max_bs: 40, big_per_mille: 0, many_per_mille: 0, ..StreamOpts::default() };
    let first = gen_stream(&mut s, &opts);
    let jobs: Vec<(usize, GenStream)> = (0..n).map(|_| {
        let k = if same { one } else { s.weighted(&[3, 2, 2, 1]) };
        (k, if same || s.bool() { first.clone() } else { gen_stream(&mut s, &opts) })
    }).collect();
    let there = AtomicUsize::new(0);
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.iter().enumerate().map(|(i, &(k, ref st))| { let there = &there; sc.spawn(move || {
            there.fetch_add(1, Ordering::SeqCst);
            while there.load(Ordering::SeqCst) < n { std::hint::spin_loop(); }
            for _ in 0..i * 40 { std::hint::spin_loop(); }
            match guard(|| use_it(k, st)) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(f)) => Err(format!("{}: {}", f.sig, f.msg)),
                Err(p) => Err(format!("panic: {} at {}", p.msg, p.loc)),
            }
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    for (i, r) in res.into_iter().enumerate() {
        if let Err(m) = r { return Err(format!("thread {} of {}, use {}: {}", i, n, jobs[i].0, m)); }
    }
    Ok(())
}
