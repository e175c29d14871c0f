//! Bit writer and checksums, written from the format specification.

#[derive(Clone, Default)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    /// Bits used in the last byte (0: the last byte is full or absent).
    used: u32,
}

impl BitWriter {
    pub fn new() -> BitWriter {
        BitWriter { bytes: Vec::new(), used: 0 }
    }
    pub fn bit_len(&self) -> usize {
        if self.used == 0 { self.bytes.len() * 8 } else { (self.bytes.len() - 1) * 8 + self.used as usize }
    }
    pub fn put(&mut self, v: u64, n: u32) {
        debug_assert!(n <= 64);
        let mut left = n;
        while left > 0 {
            if self.used == 0 {
                self.bytes.push(0);
            }
            let room = 8 - self.used;
            let take = room.min(left);
            let chunk = ((v >> (left - take)) & ((1u64 << take) - 1)) as u8;
            let last = self.bytes.len() - 1;
            self.bytes[last] |= chunk << (room - take);
            self.used = (self.used + take) & 7;
            left -= take;
        }
    }
    pub fn put_signed(&mut self, v: i64, n: u32) {
        if n == 0 {
            return;
        }
        let m = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
        self.put(v as u64 & m, n);
    }
    /// `q` zeros and a one.
    pub fn unary(&mut self, q: u64) {
        let mut left = q;
        while left > 0 {
            if self.used == 0 && left >= 8 {
                self.bytes.resize(self.bytes.len() + (left / 8) as usize, 0);
                left %= 8;
                continue;
            }
            let t = left.min(8 - self.used as u64) as u32;
            self.put(0, t);
            left -= t as u64;
        }
        self.put(1, 1);
    }
    /// Pads to a byte boundary with bits of `fill`.
    pub fn align(&mut self, fill: u8) {
        if self.used != 0 {
            let n = 8 - self.used;
            self.put(fill as u64 & ((1 << n) - 1), n);
        }
    }
}

const fn tab8() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        // x^8 + x^2 + x + 1
        let mut c = i as u8;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x80 != 0 { (c << 1) ^ 0x07 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
const fn tab16() -> [u16; 256] {
    let mut t = [0u16; 256];
    let mut i = 0;
    while i < 256 {
        // x^16 + x^15 + x^2 + 1
        let mut c = (i as u16) << 8;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static T8: [u8; 256] = tab8();
static T16: [u16; 256] = tab16();

pub fn crc8(d: &[u8]) -> u8 {
    d.iter().fold(0, |c, &b| T8[(c ^ b) as usize])
}
pub fn crc16(d: &[u8]) -> u16 {
    d.iter().fold(0, |c, &b| (c << 8) ^ T16[((c >> 8) as u8 ^ b) as usize])
}

/// The "UTF-8" style number coding, using exactly `len` bytes (1..=7).
pub fn var_int(v: u64, len: usize) -> Vec<u8> {
    match len {
        1 => vec![v as u8 & 0x7f],
        _ => {
            let n = len - 1;
            let lead = (0xff00u32 >> len) as u8;
            let mut out = vec![lead | if n * 6 < 64 { (v >> (6 * n)) as u8 } else { 0 }];
            for i in (0..n).rev() {
                out.push(0x80 | (v >> (6 * i)) as u8 & 0x3f);
            }
            out
        }
    }
}
/// The number of bytes the shortest coding of `v` takes.
pub fn var_int_len(v: u64) -> usize {
    if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x1_0000 { 3 }
    else if v < 0x20_0000 { 4 } else if v < 0x400_0000 { 5 } else if v < 0x8000_0000 { 6 } else { 7 }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(crc8(&[0x61, 0x62, 0x63]), 0x5f);
        assert_eq!(crc16(&[0x61, 0x62, 0x63]), 0xcadb);
        assert_eq!(var_int(0xa2, 2), vec![0xc2, 0xa2]);
        assert_eq!(var_int(0x10348, 4), vec![0xf0, 0x90, 0x8d, 0x88]);
        assert_eq!(var_int(0xf_ffff_ffff, 7), vec![0xfe, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf]);
        let mut w = BitWriter::new();
        w.put(1, 3);
        w.unary(20);
        assert_eq!(w.bit_len(), 24);
        assert_eq!(w.bytes, vec![0x20, 0, 1]);
    }
}
