//! C09: stream information is reported exactly.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock};
use crate::src::Src;
use claxon::input::BufferedReader;
use claxon::metadata::{self, MetadataBlock, StreamInfo};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C09",
    case,
    rule: "A case is a stream information block of random fields, biased to the limits of each field and of the validity conditions, read through FlacReader (all options), the block reader and the two block functions; \
           non-trivial: every case (the verdict and every field are compared with the model); distinct by the 34 bytes and the claimed length.",
};

fn field(s: &mut Src, bits: u32, special: &[u64]) -> u64 {
    match s.weighted(&[2, 2, 1]) {
        0 => *s.pick(special),
        1 => s.ubits(bits),
        _ => s.draw((1u64 << bits) - 1),
    }
}

pub fn gen_info(s: &mut Src) -> Info {
    let min_bs = field(s, 16, &[4096, 16, 15, 17, 0, 1, 65535, 192]) as u16;
    let max_bs = match s.draw(3) { 0 => min_bs, 1 => min_bs.wrapping_add(s.draw(2) as u16).wrapping_sub(1), _ => field(s, 16, &[4096, 65535, 16, 15, 0]) as u16 };
    let min_fs = field(s, 24, &[0, 1, 14, 0xff_ffff, 0x80_0000, 0xffff, 0x1_0000]) as u32;
    let max_fs = match s.draw(3) { 0 => 0, 1 => min_fs.wrapping_add(s.draw(2) as u32).wrapping_sub(1) & 0xff_ffff, _ => field(s, 24, &[0, 1, 0xff_ffff, 0x1_0000]) as u32 };
    let rate = field(s, 20, &[44100, 0, 1, 655350, 655351, 655349, 0xf_ffff, 0x8_0000, 65535, 65536, 192000, 96000, 16, 15]) as u32;
    let channels = 1 + s.draw(7) as u32;
    let bps = match s.draw(1) { 0 => *s.pick(&[16u32, 24, 8, 32, 4, 17, 16, 20, 12]), _ => 1 + s.draw(31) as u32 };
    let samples = match s.draw(3) { 0 => 0, 1 => *s.pick(&[1u64, 0xf_ffff_ffff, 0x1_0000_0000, 0xffff_ffff, 0xf_0000_0000, 0x8_0000_0000]), _ => s.ubits(36) };
    let mut md5 = [0u8; 16];
    match s.draw(2) {
        0 => {}
        1 => { let b = s.byte(); md5 = [b; 16] }
        _ => { for b in md5.iter_mut() { *b = s.byte() } }
    }
    Info { min_bs, max_bs, min_fs, max_fs, rate, channels, bps, samples, md5 }
}

pub fn valid(i: &Info) -> Result<(), &'static str> {
    if i.min_bs > i.max_bs { return Err("min block size > max"); }
    if i.min_bs < 16 { return Err("block size < 16"); }
    if i.max_fs != 0 && i.min_fs > i.max_fs { return Err("min frame size > max"); }
    if i.rate == 0 || i.rate > 655350 { return Err("sample rate"); }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut i = gen_info(s);
    // Half of the cases valid, most of the others wrong in one way.
    if s.bool() || s.bool() {
        let keep = s.draw(4);
        if keep != 1 { i.min_bs = i.min_bs.max(16); }
        if keep != 2 { i.max_bs = i.max_bs.max(i.min_bs); }
        if keep != 3 && i.max_fs != 0 { i.max_fs = i.max_fs.max(i.min_fs); }
        if keep != 4 && (i.rate == 0 || i.rate > 655350) { i.rate = *s.pick(&[655350u32, 1, 96000]); }
    }
    let mut b = MBlock::info(&i);
    b.last = s.bool();
    let wrong_len = s.chance(1, 10);
    if wrong_len {
        let l = match s.draw(3) { 0 => *s.pick(&[33u32, 35, 0, 18, 68, 34 + 65536, 34 + 256]), 1 => s.urange(0, 80) as u32, _ => s.ubits(24) as u32 };
        if l == 34 { return Ok(()); }
        b.claim = Some(l);
    }
    c.print(&b.bytes());
    c.nontrivial = true;
    let verdict = if wrong_len { Err("length") } else { valid(&i) };
    // Too few bits per sample is impossible as well: either way.
    let either = i.bps < 4 && verdict.is_ok();
    c.label(verdict.err().unwrap_or("valid"));
    c.describe(|| format!("{:?} claim {:?}: {:?}", i, b.claim, verdict));
    let how = s.draw(4);
    let chunks = gen_chunks(s);
    c.runs += 1;
    let mut junk = b.bytes();
    let k = s.urange(0, 60);
    junk.extend(s.bytes(k));
    let script = |d: Vec<u8>| ScriptReader::new(Rc::new(d), chunks.clone());
    let unpack = |r: claxon::Result<MetadataBlock>| -> Result<StreamInfo, E> {
        match r {
            Ok(MetadataBlock::StreamInfo(x)) => Ok(x),
            Ok(o) => Err(E::Unsupported(format!("not stream information but {}", meta::block_str(&o)))),
            Err(e) => Err(err(&e)),
        }
    };
    let got: Result<StreamInfo, E> = match how {
        0 => {
            // A whole stream.
            let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: s.bool() };
            let mut d = b"fLaC".to_vec();
            if wrong_len {
                d.extend_from_slice(&junk);
            } else {
                let mut x = b.clone();
                x.last = s.bool();
                let last = x.last;
                x.emit(&mut d);
                if !last { let mut p = meta::gen_block(s, false); p.last = true; p.emit(&mut d); }
            }
            FlacReader::new_ext(script(d), o).map(|r| r.streaminfo()).map_err(|e| err(&e))
        }
        1 => unpack(metadata::read_metadata_block_with_header(&mut BufferedReader::new(script(junk)))),
        2 => unpack(metadata::read_metadata_block_with_header(&mut Cursor::new(junk))),
        3 => unpack(metadata::read_metadata_block(&mut Cursor::new(&junk[4..]), 0, b.claim.unwrap_or(34))),
        _ => match metadata::MetadataBlockReader::new(Cursor::new(&junk[..])).next() {
            None => return fail("none", "no block reported".into()),
            Some(r) => unpack(r),
        },
    };
    match (verdict, got) {
        (Ok(()), Ok(si)) => meta::info_matches(&si, &i).or_else(|m| fail("fields", m)),
        (_, Err(E::Format(_))) if either => Ok(()),
        (Ok(()), Err(e)) => fail("rejected", format!("valid stream information rejected: {:?}: {:?}", e, i)),
        (Err(_), Err(E::Format(_))) => Ok(()),
        (Err(w), Err(e)) => fail("class", format!("invalid stream information ({}) gave {:?}", w, e)),
        (Err(w), Ok(si)) => fail("accepted", format!("invalid stream information ({}) accepted: {:?}", w, si)),
    }
}
