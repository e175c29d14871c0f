//! Ways in which a frame can reach the decoder: alone or after others, through
//! one kind of reader or another, block by block or as samples.

use std::io::Cursor;
use std::rc::Rc;

use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;

#[derive(Debug)]
pub enum Out {
    Block(BD),
    /// Seen as samples only.
    Samples,
    End,
    Err(E),
}

/// Frames that come first. `target` is the intact form of the frame to come.
pub fn gen_before(s: &mut Src, target: &GenFrame) -> Vec<GenFrame> {
    let small = target.bytes.len() < 3000;
    match s.weighted(&[3, 3, 3, 2, 1]) {
        0 => vec![],
        1 if small => vec![target.clone()],
        2 => vec![gen_frame(s, 64)],
        3 => { let n = s.urange(2, 4); (0..n).map(|_| if small && s.bool() { target.clone() } else { gen_frame(s, 64) }).collect() }
        _ => {
            let g = gen_frame(s, 4);
            let n = if s.chance(1, 20) { s.urange(100, 300) } else { s.urange(5, 20) };
            vec![g; n]
        }
    }
}

fn check(g: &GenFrame, b: &BD) -> Result<(), Fail> {
    ensure!(b.channels as usize == g.channels() && b.duration as usize == g.bs && b.samples == g.planar(),
            "frame-before", "an intact frame before the one in question was decoded to something else");
    Ok(())
}

fn drive<R: ReadBytes>(s: &mut Src, fr: &mut FrameReader<R>, before: &[GenFrame]) -> Result<Out, Fail> {
    let mut keep: Vec<i32> = Vec::new();
    for g in before {
        let buf = if s.bool() { Vec::new() } else { std::mem::take(&mut keep) };
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => { check(g, &bd(&b))?; keep = b.into_buffer(); }
            Ok(None) => return fail("frame-before", "end of stream instead of an intact frame".into()),
            Err(e) => return fail("frame-before", format!("{:?} instead of an intact frame", err(&e))),
        }
    }
    let buf = match s.draw(2) { 0 => Vec::new(), 1 => keep, _ => { let n = s.urange(0, 300); vec![0x5a5a_5a5a; n] } };
    Ok(match read_block(fr, buf) { Ok(Some(b)) => Out::Block(b), Ok(None) => Out::End, Err(e) => Out::Err(e) })
}

/// What becomes of the frame at the front of `data` when it comes after
/// `before` by a random route.
pub fn present(s: &mut Src, c: &mut Ctx, before: &[GenFrame], data: &[u8]) -> Result<Out, Fail> {
    let mut bytes = Vec::new();
    let route = s.draw(8);
    let stream = route >= 5;
    if stream {
        let (ch, bps) = match before.get(0) { Some(g) => (g.channels() as u32, g.bps), None => (s.urange(1, 8) as u32, *s.pick(&BPS)) };
        let info = Info {
            min_bs: 16, max_bs: 65535, min_fs: 0, max_fs: 0,
            rate: 44100, channels: ch, bps, samples: 0, md5: [0; 16],
        };
        bytes = assemble(info.clone(), vec![crate::meta::MBlock::info(&info)], vec![], None).bytes;
    }
    for g in before { bytes.extend_from_slice(&g.bytes); }
    bytes.extend_from_slice(data);
    c.runs += 1;
    if !stream {
        return match route {
            0 => drive(s, &mut FrameReader::new(Cursor::new(bytes)), before),
            1 => { let n = s.urange(1, 65535) as u16; drive(s, &mut FrameReader::with_fixed_block_size(Cursor::new(bytes), n), before) }
            2 => { let ch = gen_chunks(s); let mut r = BufferedReader::new(ScriptReader::new(Rc::new(bytes), ch)); drive(s, &mut FrameReader::new(&mut r), before) }
            _ => { let ch = gen_chunks(s); drive(s, &mut FrameReader::new(BufferedReader::new(ScriptReader::new(Rc::new(bytes), ch))), before) }
        };
    }
    let ch = gen_chunks(s);
    let mut r = match claxon::FlacReader::new(ScriptReader::new(Rc::new(bytes), ch)) {
        Ok(r) => r,
        Err(e) => return fail("open", format!("{:?}", err(&e))),
    };
    match route {
        5 => drive(s, &mut r.blocks(), before),
        6 => {
            for g in before {
                match read_block(&mut r.blocks(), Vec::new()) {
                    Ok(Some(b)) => check(g, &b)?,
                    o => return fail("frame-before", format!("{:?} instead of an intact frame", o.map(|_| ()))),
                }
            }
            drive(s, &mut r.blocks(), &[])
        }
        7 => as_samples(&mut r.samples(), before),
        _ => as_samples(&mut r.into_samples(), before),
    }
}

fn as_samples<I: Iterator<Item = claxon::Result<i32>>>(it: &mut I, before: &[GenFrame]) -> Result<Out, Fail> {
    for g in before {
        for w in g.interleaved() {
            match it.next() {
                Some(Ok(v)) if v == w => {}
                _ => return fail("frame-before", "an intact frame before the one in question was decoded to something else".into()),
            }
        }
    }
    Ok(match it.next() { Some(Ok(_)) => Out::Samples, None => Out::End, Some(Err(e)) => Out::Err(err(&e)) })
}

/// A reader of bytes whose position can be watched.
pub struct Tracked {
    pub d: Rc<Vec<u8>>,
    pub pos: Rc<std::cell::Cell<usize>>,
}

impl Tracked {
    fn eof<T>() -> std::io::Result<T> {
        Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "end of the data"))
    }
}

impl ReadBytes for Tracked {
    fn read_u8(&mut self) -> std::io::Result<u8> {
        match self.read_u8_or_eof()? { Some(b) => Ok(b), None => Tracked::eof() }
    }
    fn read_u8_or_eof(&mut self) -> std::io::Result<Option<u8>> {
        let p = self.pos.get();
        if p < self.d.len() { self.pos.set(p + 1); Ok(Some(self.d[p])) } else { Ok(None) }
    }
    fn read_into(&mut self, b: &mut [u8]) -> std::io::Result<()> {
        let p = self.pos.get();
        if self.d.len() - p < b.len() { return Tracked::eof(); }
        b.copy_from_slice(&self.d[p..p + b.len()]);
        self.pos.set(p + b.len());
        Ok(())
    }
    fn skip(&mut self, n: u32) -> std::io::Result<()> {
        let p = self.pos.get();
        if self.d.len() - p < n as usize { return Tracked::eof(); }
        self.pos.set(p + n as usize);
        Ok(())
    }
}
