//! The choice source: every random decision of a test case is one entry of a
//! choice sequence. A case is a pure function of its choice sequence, so a
//! failing case is replayed from it and shrunk by editing it.

use std::fs::File;
use std::io::Write;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    /// xorshift128+
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    pub fn below_incl(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93);
    splitmix(&mut s)
}

/// Numbers and strings that occur in the source of the code under test, as a
/// fuzzer's dictionary: numbers drawn from a range are sometimes one of them.
/// Those that are new against the tree this was written for come first.
#[derive(Default)]
pub struct Dict {
    pub all: Vec<u64>,
    pub new: Vec<u64>,
    pub strings: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("n ") { if let Ok(v) = x.parse() { d.all.push(v); } }
            if let Some(x) = l.strip_prefix("N ") { if let Ok(v) = x.parse() { d.all.push(v); d.new.push(v); } }
            if let Some(x) = l.strip_prefix("s ") {
                let b: Vec<u8> = (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
                if let Ok(t) = String::from_utf8(b) { d.strings.push(t); }
            }
        }
        d
    })
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// Choices decoded from fuzzer bytes: as many bytes as the range needs.
    Bytes(Vec<u8>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    rec: Vec<u64>,
    pub rec_file: Option<File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, rec: Vec::new(), rec_file: None }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { mode: Mode::Replay(choices.to_vec()), pos: 0, rec: Vec::new(), rec_file: None }
    }
    pub fn from_bytes(data: &[u8]) -> Src {
        Src { mode: Mode::Bytes(data.to_vec()), pos: 0, rec: Vec::new(), rec_file: None }
    }
    pub fn into_choices(self) -> Vec<u64> {
        self.rec
    }
    pub fn choices(&self) -> &[u64] {
        &self.rec
    }

    /// The one primitive: a number in `0..=max`. Smaller is simpler.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match self.mode {
            Mode::Random(ref mut r) => r.below_incl(max),
            Mode::Replay(ref c) => {
                let v = c.get(self.pos).cloned().unwrap_or(0);
                self.pos += 1;
                if v > max { if max == u64::MAX { v } else { v % (max + 1) } } else { v }
            }
            Mode::Bytes(ref d) => {
                let mut v = 0u64;
                let mut m = max;
                while m > 0 {
                    v = v << 8 | d.get(self.pos).cloned().unwrap_or(0) as u64;
                    self.pos += 1;
                    m >>= 8;
                }
                if max == u64::MAX { v } else { v % (max + 1) }
            }
        };
        self.note(v)
    }

    fn note(&mut self, v: u64) -> u64 {
        self.rec.push(v);
        if let Some(ref mut f) = self.rec_file {
            let _ = writeln!(f, "{}", v);
        }
        v
    }

    /// A number in `0..=max` such that it is in the dictionary (or next to a
    /// number there) when `off` is added; rarely, and only when generating.
    fn from_dict(&mut self, max: u64, off: u64) -> Option<u64> {
        if max < 16 { return None; }
        let v = match self.mode {
            Mode::Random(ref mut r) => {
                let x = r.next();
                if x & 31 != 0 { return None; }
                let d = dict();
                let l = if !d.new.is_empty() && x >> 8 & 1 == 1 { &d.new } else { &d.all };
                if l.is_empty() { return None; }
                let v = l[((x >> 32) % l.len() as u64) as usize];
                let v = match x >> 9 & 7 { 0 => v.wrapping_sub(1), 1 => v.wrapping_add(1), _ => v };
                v.wrapping_sub(off)
            }
            _ => return None,
        };
        if v <= max { Some(self.note(v)) } else { None }
    }

    /// A number in `0..=max`, uniform but for the dictionary.
    pub fn num(&mut self, max: u64) -> u64 {
        match self.from_dict(max, 0) { Some(v) => v, None => self.draw(max) }
    }
    /// In `lo..=hi`, uniform but for the dictionary.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let max = hi.wrapping_sub(lo) as u64;
        lo.wrapping_add(match self.from_dict(max, lo as u64) { Some(v) => v, None => self.draw(max) } as i64)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        let max = (hi - lo) as u64;
        lo + match self.from_dict(max, lo as u64) { Some(v) => v, None => self.draw(max) } as usize
    }
    /// True with probability about `num/den`; `false` is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den - 1);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64 - 1) as usize;
        &xs[i]
    }
    /// Index into `w` with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.draw(total - 1);
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        w.len() - 1
    }
    /// An unsigned number of at most `bits` bits with a bias to boundaries
    /// (few bits, powers of two and their neighbours, all ones).
    pub fn ubits(&mut self, bits: u32) -> u64 {
        if bits == 0 {
            return 0;
        }
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.draw(5) {
            0 => self.draw(max.min(16)),
            1 => {
                let b = self.draw(bits as u64) as u32;
                let m = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
                self.draw(m)
            }
            2 => {
                let b = self.draw(bits as u64 - 1) as u32;
                let p = 1u64 << b;
                let d = self.draw(2);
                p.wrapping_add(d).wrapping_sub(1) & max
            }
            3 => max - self.draw(max.min(4)),
            _ => self.num(max),
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.num(255) as u8
    }
    /// `n` raw bytes. Long runs are expanded from one drawn seed, so that the
    /// choice sequence stays short.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 24 {
            return (0..n).map(|_| self.byte()).collect();
        }
        match self.draw(3) {
            0 => vec![self.byte(); n],
            _ => {
                let seed = self.draw(u64::MAX);
                let mut r = Rng::new(seed);
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(n);
                v
            }
        }
    }
}
