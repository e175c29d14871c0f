//! Metadata block generator and model.

use crate::gen::Info;
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Model {
    Info(Info),
    Padding(u32),
    App { id: u32, data: Vec<u8> },
    Tags { vendor: String, comments: Vec<String> },
    /// Seek table, cue sheet, picture: passed over.
    Opaque,
    Reserved,
}

#[derive(Clone, Debug)]
pub struct MBlock {
    pub last: bool,
    pub kind: u8,
    pub body: Vec<u8>,
    pub model: Model,
    /// Overrides the length field if set.
    pub claim: Option<u32>,
}

impl MBlock {
    pub fn info(i: &Info) -> MBlock {
        MBlock { last: false, kind: 0, body: i.encode(), model: Model::Info(i.clone()), claim: None }
    }
    pub fn emit(&self, out: &mut Vec<u8>) {
        let n = self.claim.unwrap_or(self.body.len() as u32);
        out.push((self.last as u8) << 7 | self.kind);
        out.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
        out.extend_from_slice(&self.body);
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.emit(&mut v);
        v
    }
}

/// Length of an opaque body, biased to the refill size of a buffered reader
/// and its multiples.
pub fn body_len(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[6, 3, if big { 2 } else { 0 }, 2]) {
        0 => s.urange(0, 40),
        1 => s.urange(0, 400),
        2 => match s.weighted(&[60, 5, 1]) {
            0 => s.urange(0, 70_000),
            1 => s.urange(60_000, 1_200_000),
            // Up to the largest length there is; an application block of
            // that size (with its id) is still accepted below 10 MiB.
            _ => *s.pick(&[(1usize << 20) - 4, 1 << 20, 10 * 1024 * 1024 - 5, 10 * 1024 * 1024 - 4, (1 << 23) - 4, 1 << 23]),
        },
        _ => {
            let base = *s.pick(&[2048usize, 4096, 1024, 2006, 6144]);
            (base + s.urange(0, 64)).saturating_sub(32)
        }
    }
}

pub fn text(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[3, 4, 1]) { 0 => s.urange(0, 3.min(max)), 1 => s.urange(0, 20.min(max)), _ => s.urange(0, max) };
    let d = &crate::src::dict().strings;
    if !d.is_empty() && s.chance(1, 8) { return s.pick(d).clone(); }
    let mut out = String::new();
    if n > 40 {
        let unit = *s.pick(&["x", "=", "äé", "\u{1f3b5}", "abc ", "\u{0}"]);
        while out.len() < n { out.push_str(unit); }
        return out;
    }
    for _ in 0..n {
        let c = match s.weighted(&[6, 2, 2, 1]) {
            0 => (32 + s.draw(94) as u8) as char,
            1 => *s.pick(&['=', '\0', '\n', '\u{7f}', '~', '"']),
            2 => *s.pick(&['ä', 'ſ', 'K', 'İ', '\u{1f3b5}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            _ => char::from_u32(s.draw(0x10ffff) as u32).unwrap_or('\u{fffd}'),
        };
        out.push(c);
    }
    out
}

/// A legal tag name: bytes 0x20..=0x7d without '='. From a small pool (to get
/// duplicates and near misses), with random case, or arbitrary.
pub fn tag_name(s: &mut Src) -> String {
    let d = &crate::src::dict().strings;
    if !d.is_empty() && s.chance(1, 8) {
        let t: String = s.pick(d).bytes().filter(|&b| b >= 0x20 && b <= 0x7d && b != b'=').map(|b| b as char).collect();
        return rand_case(s, &t);
    }
    let base: String = match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&["ARTIST", "TITLE", "A", "AR", "ARTISTS", "", "X[", "X{", "X@", "X`", "X]", "X}", "X\\", "X|", "X^", " ", "A B", "Z", "M1", "TITL", "ITLE"]).to_string(),
        1 => {
            let n = s.urange(0, 5);
            (0..n).map(|_| {
                let mut c = 0x20 + s.draw(0x5d) as u8;
                if c == b'=' { c = b'<'; }
                c as char
            }).collect()
        }
        _ => {
            let n = s.urange(0, 300);
            let c = *s.pick(&['Q', '}', ' ']);
            (0..n).map(|_| c).collect()
        }
    };
    rand_case(s, &base)
}

pub fn rand_case(s: &mut Src, t: &str) -> String {
    match s.draw(3) {
        0 => t.to_string(),
        1 => t.to_ascii_lowercase(),
        2 => t.to_ascii_uppercase(),
        _ => {
            let m = s.draw(u64::MAX);
            t.chars().enumerate().map(|(i, c)| if m >> (i % 64) & 1 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
        }
    }
}

pub fn tag_bytes(vendor: &[u8], entries: &[Vec<u8>]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
    b.extend_from_slice(vendor);
    b.extend_from_slice(&(entries.len() as u32).to_le_bytes());
    for e in entries {
        b.extend_from_slice(&(e.len() as u32).to_le_bytes());
        b.extend_from_slice(e);
    }
    b
}

pub fn gen_tags(s: &mut Src, max: usize) -> MBlock {
    let vendor = if max >= 1000 && s.chance(1, 3) { text(s, 70_000) } else { text(s, 60) };
    // From 1000 on, tags may be long instead of many.
    let n = match s.weighted(&[1, 4, 2]) {
        0 => 0,
        1 => s.urange(0, 6.min(max)),
        _ => s.urange(0, max),
    };
    let mut entries: Vec<Vec<u8>> = Vec::new();
    let mut comments = Vec::new();
    if max >= 65_536 {
        // More than sixteen bits can count.
        let k = 65_535 + s.urange(0, 300);
        let name: String = tag_name(s).chars().take(20).collect();
        for i in 0..k {
            let c = format!("{}={}", name, i % 1000);
            entries.push(c.clone().into_bytes());
            comments.push(c);
        }
        let body = tag_bytes(vendor.as_bytes(), &entries);
        return MBlock { last: false, kind: 4, body, model: Model::Tags { vendor, comments }, claim: None };
    }
    let mut total = vendor.len();
    for _ in 0..n {
        // Well below the limit for a block.
        if total > 8_000_000 { break; }
        if s.chance(1, 8) {
            entries.push(Vec::new());
            continue;
        }
        let mut name = tag_name(s);
        if n < 40 && max >= 1000 && s.chance(1, 8) {
            // A long name.
            let k = match s.draw(2) { 0 => 65_530 + s.urange(0, 12), 1 => s.urange(200, 3000), _ => s.urange(60_000, 70_000) };
            name.push_str(&"N".repeat(k));
        }
        let value = text(s, if n < 40 && max >= 1000 { 200_000 } else { 200 });
        let c = format!("{}={}", name, value);
        total += c.len() + 4;
        entries.push(c.clone().into_bytes());
        comments.push(c);
    }
    MBlock {
        last: false, kind: 4, body: tag_bytes(vendor.as_bytes(), &entries),
        model: Model::Tags { vendor, comments }, claim: None,
    }
}

pub fn gen_block(s: &mut Src, big: bool) -> MBlock {
    let (kind, body, model): (u8, Vec<u8>, Model) = match s.weighted(&[4, 4, 2, 2, 2, 3]) {
        0 => {
            let n = body_len(s, big);
            (1, vec![0; n], Model::Padding(n as u32))
        }
        1 => {
            let n = body_len(s, big);
            let id = s.ubits(32) as u32;
            let data = s.bytes(n);
            let mut b = id.to_be_bytes().to_vec();
            b.extend_from_slice(&data);
            (2, b, Model::App { id, data })
        }
        k @ 2..=4 => {
            let n = body_len(s, big);
            ([3, 5, 6][k - 2], s.bytes(n), Model::Opaque)
        }
        _ => {
            let n = body_len(s, big);
            let kind = match s.draw(3) { 0 => 7, 1 => 126, _ => 7 + s.draw(119) as u8 };
            (kind, s.bytes(n), Model::Reserved)
        }
    };
    MBlock { last: false, kind, body, model, claim: None }
}

/// Blocks that may follow the stream information: any, at most one of tags.
pub fn gen_extra_blocks(s: &mut Src, big: bool) -> Vec<MBlock> {
    let n = match s.weighted(&[3, 4, 1]) { 0 => 0, 1 => s.urange(0, 3), _ => s.urange(0, 8) };
    let mut v: Vec<MBlock> = (0..n).map(|_| gen_block(s, big)).collect();
    if s.chance(1, 500) {
        // More than eight bits, or half of that, can count; a few bytes each.
        let k = *s.pick(&[128usize, 256, 256, 256, 512, 300]) + s.urange(0, 4);
        let seed = s.draw(u64::MAX);
        for i in v.len()..k.saturating_sub(3) {
            let mut t = Src::random(crate::src::mix(seed, i as u64));
            let len = t.urange(0, 9);
            let (kind, body, model) = match t.draw(2) {
                0 => (1, vec![0; len], Model::Padding(len as u32)),
                1 => { let id = t.draw(u32::MAX as u64) as u32; let data = t.bytes(len); let mut b = id.to_be_bytes().to_vec(); b.extend(&data); (2, b, Model::App { id, data }) }
                _ => (7 + t.draw(119) as u8, t.bytes(len), Model::Reserved),
            };
            v.push(MBlock { last: false, kind, body, model, claim: None });
        }
    }
    if s.chance(1, 2) {
        let long = big && s.chance(1, 3);
        let t = gen_tags(s, if long { 1000 } else { 12 });
        let at = s.urange(0, v.len());
        v.insert(at, t);
    }
    v
}

/// Compares a decoded block against its model.
pub fn matches(b: &claxon::metadata::MetadataBlock, m: &Model, len: usize) -> Result<(), String> {
    use claxon::metadata::MetadataBlock as B;
    let ok = match (m, b) {
        (Model::Info(i), B::StreamInfo(si)) => return info_matches(si, i),
        (Model::Padding(n), B::Padding { length }) => *n == *length,
        (Model::App { id, data }, B::Application { id: i2, data: d2 }) => id == i2 && data == d2,
        (Model::Tags { vendor, comments }, B::VorbisComment(vc)) => {
            vendor == &vc.vendor && comments.len() == vc.comments.len()
                && comments.iter().zip(&vc.comments).all(|(c, (c2, i))| c == c2 && c.find('=') == Some(*i))
        }
        // Passed over as opaque: reported as padding of that length today; a
        // kind of its own would be right as well.
        (Model::Opaque, B::Padding { length }) => *length as usize == len,
        (Model::Opaque, B::SeekTable(_)) | (Model::Opaque, B::CueSheet) | (Model::Opaque, B::Picture) => true,
        (Model::Reserved, B::Reserved) => true,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("block {:.200} reported as {}", format!("{:?}", m), block_str(b))) }
}

pub fn block_str(b: &claxon::metadata::MetadataBlock) -> String {
    use claxon::metadata::MetadataBlock as B;
    match *b {
        B::StreamInfo(ref s) => format!("StreamInfo({:?})", s),
        B::Padding { length } => format!("Padding({})", length),
        B::Application { id, ref data } => format!("Application({:#x}, {:?})", id, data),
        B::SeekTable(_) => "SeekTable".into(),
        B::VorbisComment(ref v) => format!("Tags({:?}, {:?})", v.vendor, v.comments),
        B::CueSheet => "CueSheet".into(),
        B::Picture => "Picture".into(),
        B::Reserved => "Reserved".into(),
    }
}

pub fn info_matches(si: &claxon::metadata::StreamInfo, i: &Info) -> Result<(), String> {
    let nz = |v: u32| if v == 0 { None } else { Some(v) };
    let ok = si.min_block_size == i.min_bs && si.max_block_size == i.max_bs
        && si.min_frame_size == nz(i.min_fs) && si.max_frame_size == nz(i.max_fs)
        && si.sample_rate == i.rate && si.channels == i.channels && si.bits_per_sample == i.bps
        && si.samples == if i.samples == 0 { None } else { Some(i.samples) }
        && si.md5sum == i.md5;
    if ok { Ok(()) } else { Err(format!("stored {:?}, reported {:?}", i, si)) }
}
