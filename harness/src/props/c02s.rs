//! Part of C02: the stack in use does not grow with the input.

use std::io::{self, Read};

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::MetadataBlockReader;
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C02s",
    case,
    rule: "A case is a long input (much metadata, long tags, many frames, calls or bits), delivered in pieces down to one byte, and read on a thread with a small stack, in a build without optimisation; it must end.",
};

struct Drip<'a> { d: &'a [u8], pos: usize, most: usize }
impl<'a> Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.d.len() - self.pos).min(b.len()).min(self.most);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn meta_case(s: &mut Src, c: &mut Ctx) -> bool {
    let i = Info { min_bs: 16, max_bs: 65535, min_fs: 0, max_fs: 0, rate: 44100, channels: 2, bps: 16, samples: 0, md5: [0; 16] };
    let mut blocks = vec![MBlock::info(&i)];
    let blk = |kind: u8, body: Vec<u8>| MBlock { last: false, kind, body, model: Model::Opaque, claim: None };
    let n = s.urange(20_000, 120_000);
    let shape = s.draw(5);
    match shape {
        0 => blocks.push(blk(*s.pick(&[1u8, 3, 5, 6, 90]), vec![0; n / 18 * 18])),
        1 => blocks.push(blk(2, vec![1; n])),
        2 => blocks.push(blk(4, meta::tag_bytes(&vec![b'v'; n], &[b"A=b".to_vec()]))),
        3 => { let mut t = b"NAME=".to_vec(); t.extend(vec![b'x'; n]); blocks.push(blk(4, meta::tag_bytes(b"v", &[t]))) }
        4 => blocks.push(blk(4, meta::tag_bytes(b"v", &(0..n / 4).map(|k| format!("N{}=", k).into_bytes()).collect::<Vec<_>>()))),
        _ => { let kind = *s.pick(&[1u8, 2, 6, 90]); for _ in 0..n / 4 { blocks.push(blk(kind, vec![0; if kind == 2 { 4 } else { 0 }])); } }
    }
    let d = assemble(i, blocks, vec![], None).bytes;
    let most = *s.pick(&[1usize, 1, 3, 17]);
    let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: s.bool() };
    c.describe(|| format!("metadata shape {} of {} bytes, {} at a time, options {:?}", shape, d.len(), most, (o.metadata_only, o.read_vorbis_comment)));
    c.print(&(shape, n, most));
    let mut r = BufferedReader::new(Drip { d: &d[4..], pos: 0, most });
    match s.draw(2) {
        0 => MetadataBlockReader::new(&mut r).all(|b| b.is_ok()),
        1 => { let k = d.len() as u32 - 4; r.skip(k).is_ok() }
        _ => match FlacReader::new_ext(Drip { d: &d, pos: 0, most }, o) { Ok(r) => { let n = r.tags().count() + r.get_tag("n3").count() + r.get_tag("absent").count(); n < usize::MAX } Err(_) => false },
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    c.nontrivial = true;
    c.runs += 1;
    let own = s.bool();
    // Claxon needs a few kilobytes, whatever the input.
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(sc, || guard(|| {
            if own { c.label("metadata"); meta_case(s, c) } else {
                let k = s.draw(super::c27::WORK.len() as u64 - 1) as usize;
                c.label(super::c27::WORK[k]);
                c.describe(|| super::c27::WORK[k].to_string());
                let sd = s.draw(u64::MAX);
                c.print(&(k, sd));
                super::c27::work(k, &mut Src::random(sd), 16)
                    .good
            }
        })).expect("thread").join().expect("join")
    });
    match r {
        Err(p) => fail("panic", format!("at {}: {}", p.loc, p.msg)),
        Ok(g) => { ensure!(g, "result", "a valid long input was not read as it is"); Ok(()) }
    }
}
