//! C17: byte-level reading equals reading a byte string.

use std::io::Cursor;
use std::rc::Rc;

use super::c07::{apply, OPS};
use crate::engine::*;
use crate::ensure;
use crate::io::*;
use crate::src::Src;
use claxon::input::{BufferedReader, ReadBytes};

pub const PROP: Prop = Prop {
    id: "C17",
    case,
    rule: "A case is a byte string and a sequence of byte-level operations (integers, fills, skips of any amount) on a buffered reader with a schedule of read sizes, a borrowed reader or a cursor (at any position), compared with a model that knows the bytes; \
           non-trivial: at least three operations that succeed, or one that runs into the end; distinct by bytes, operations and schedule.",
};

fn amount(s: &mut Src, n: usize, op: u64) -> usize {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => s.urange(0, 9),
        // One in two of a large string is skipped as a whole.
        1 => if n > 50_000 && op == 8 && s.bool() {
            let k = *s.pick(&[65536usize, 65535, 131072, 1 << 17, 1 << 20, 1 << 24]);
            k + s.urange(0, 300)
        } else { s.urange(0, n + 3) },
        2 => *s.pick(&[2047usize, 2048, 2049, 4096, 1, 0]),
        _ => if op == 8 { *s.pick(&[u32::MAX as usize, 1 << 31, u32::MAX as usize - 1, 65536, 1 << 24]) } else { s.urange(0, 10_000) },
    }
}

struct M<'a> {
    d: &'a [u8],
    /// Where the reader may be: one position, unless an operation failed.
    at: Vec<usize>,
    /// A cursor behind its end: whether nothing can be read there is open.
    beyond: bool,
}

impl<'a> M<'a> {
    fn step(&mut self, op: u64, amount: usize, got: &Result<Option<Vec<u8>>, E>) -> bool {
        let need = match op { 0 | 1 => 1, 2 | 3 => 2, 4 => 3, 5 | 6 => 4, _ => amount };
        let n = self.d.len();
        let tolerant = op == 1 || op == 3;
        let mut next = Vec::new();
        // In ascending order: `p..=n` includes what later ones would add.
        for &p in &self.at {
            let left = n - p;
            if need == 0 && self.beyond {
                if got.as_ref().map_or_else(|e| e.is_eof(), |v| v.as_ref().is_some_and(|v| v.is_empty())) { next.push(p); }
            } else if need <= left {
                let want = if op == 8 { &[][..] } else { &self.d[p..p + need] };
                if let Ok(Some(v)) = got { if v == want { next.push(p + need); } }
            } else if tolerant && left == 0 {
                if let Ok(None) = got { next.push(p); }
            } else if let Err(e) = got {
                // How much a failed operation consumes is not specified.
                if e.is_eof() { next.extend(p..=n); break; }
            }
        }
        next.sort();
        next.dedup();
        self.at = next;
        !self.at.is_empty()
    }
}

fn drive<R: ReadBytes>(s: &mut Src, c: &mut Ctx, rd: &mut R, d: &[u8], what: &str, single: Option<fn(&R) -> usize>) -> Result<(), Fail> {
    let n = d.len();
    let mut m = M { d, at: vec![0], beyond: what.ends_with("behind its end") };
    let mut log: Vec<(u64, usize)> = Vec::new();
    let steps = match s.draw(2) { 0 => s.urange(1, 12), 1 => s.urange(1, 60), _ => s.urange(1, 400) };
    let fixed = if s.chance(1, 4) { Some(s.draw(8)) } else { None };
    let (mut good, mut ended) = (0, 0);
    for step in 0..steps {
        let op = match fixed { Some(o) if !s.chance(1, 5) => o, _ => s.draw(8) };
        let k = amount(s, n, op);
        log.push((op, k));
        let before = m.at.clone();
        let got = apply(rd, op, k);
        c.runs += 1;
        if let Err(E::Format(ref w)) = got { return fail("guard", format!("{}: {}({}) {}", what, OPS[op as usize], k, w)); }
        ensure!(m.step(op, k, &got), "byte-op", "{}: step {}: {}({}) at {:?} of {} gave {:.120}", what, step, OPS[op as usize], k, &before[..before.len().min(3)], n, format!("{:?}", got));
        if let Some(pos) = single {
            let p = pos(rd);
            if m.at.len() > 1 { m.at.retain(|&x| x == p); }
            ensure!(m.at == [p], "position", "{}: step {}: {}({}) left the cursor at {} instead of {:?}", what, step, OPS[op as usize], k, p, m.at);
        }
        // Too many places where it may be to go on.
        if m.at.len() > 20_000 { ended += 1; break; }
        match got { Ok(Some(_)) => good += 1, _ => { ended += 1; if ended > 3 { break; } } }
    }
    c.print(&log);
    c.nontrivial = good >= 3 || ended > 0;
    if ended > 0 { c.label("ran-into-end"); }
    c.describe(|| format!("{}: {} bytes, {:?}", what, n, log.iter().take(6).map(|&(o, k)| format!("{}({})", OPS[o as usize], k)).collect::<Vec<_>>()));
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let n = match s.weighted(&[400, 200, 200, 8, 1]) {
        3 => s.urange(60_000, 300_000),
        4 => if s.chance(1, 12) { s.urange(1 << 24, 20_000_000) } else { s.urange(300_000, 2_000_000) },
        0 => s.urange(0, 40), 1 => s.urange(0, 3000), _ => *s.pick(&[2047usize, 2048, 2049, 2050, 4095, 4096, 4097, 4100, 2051]) };
    let d = s.bytes(n);
    c.print(&d);
    match s.draw(5) {
        0 | 1 => {
            let chunks = gen_chunks(s);
            c.print(&chunks);
            c.label("buffered");
            let mut r = BufferedReader::new(ScriptReader::new(Rc::new(d.clone()), chunks));
            drive(s, c, &mut r, &d, "buffered", None)
        }
        2 => {
            let chunks = gen_chunks(s);
            c.print(&chunks);
            c.label("borrowed");
            let mut r = BufferedReader::new(ScriptReader::new(Rc::new(d.clone()), chunks));
            let mut b = &mut r;
            if s.bool() { drive(s, c, &mut b, &d, "borrowed", None) } else { let mut bb = &mut b; drive(s, c, &mut bb, &d, "borrowed twice", None) }
        }
        3 => {
            c.label("cursor-vec");
            let mut r = Cursor::new(d.clone());
            drive(s, c, &mut r, &d, "cursor", Some(|r| r.position() as usize))
        }
        4 => {
            c.label("cursor-borrowed");
            let mut r = Cursor::new(&d[..]);
            let mut b = &mut r;
            drive(s, c, &mut b, &d, "borrowed cursor", None)
        }
        _ => {
            // A cursor somewhere else, also behind the end.
            c.label("cursor-moved");
            let p = match s.draw(3) {
                0 => s.urange(0, n) as u64,
                1 => n as u64 + s.draw(5),
                2 => u64::MAX - s.draw(9),
                _ => s.ubits(64),
            };
            let mut r = Cursor::new(&d[..]);
            r.set_position(p);
            c.print(&p);
            let rest = &d[(p.min(n as u64)) as usize..];
            drive(s, c, &mut r, rest, &format!("cursor at {}{}", p, if p > n as u64 { " behind its end" } else { "" }), None)
        }
    }
}
