//! C11: tags are reported exactly as stored.

use std::io::Cursor;
use std::rc::Rc;

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::meta::{self, MBlock, Model};
use crate::src::Src;
use claxon::input::BufferedReader;
use claxon::metadata::{self, GetTag, MetadataBlock, Tags};
use claxon::{FlacReader, FlacReaderOptions};

pub const PROP: Prop = Prop {
    id: "C11",
    case,
    rule: "A case is a tag block, valid or with one field damaged (lengths, counts, characters, claimed block length), judged by an independent parser of the same bytes; for valid ones the vendor string, tags, counts while iterating and lookups (own names in other case, near misses, substrings, non-ASCII names) are compared with the model; \
           non-trivial: at least one tag, or a damaged block; distinct by bytes.",
};

/// Independent parser: what a block of exactly these bytes says.
fn parse(b: &[u8]) -> Result<(String, Vec<String>), &'static str> {
    fn le(b: &[u8], p: usize) -> Option<usize> {
        if p + 4 > b.len() { return None; }
        Some((0..4).map(|i| (b[p + i] as usize) << (8 * i)).sum())
    }
    let vl = le(b, 0).ok_or("no vendor length")?;
    if vl > b.len() - 4 { return Err("vendor too long"); }
    let vendor = std::str::from_utf8(&b[4..4 + vl]).map_err(|_| "vendor not UTF-8")?.to_string();
    let mut p = 4 + vl;
    let n = le(b, p).ok_or("no count")?;
    p += 4;
    let mut out = Vec::new();
    for _ in 0..n {
        let l = le(b, p).ok_or("too few entries")?;
        p += 4;
        if l > b.len() - p { return Err("entry too long"); }
        let e = &b[p..p + l];
        p += l;
        if l == 0 { continue; }
        let eq = e.iter().position(|&x| x == b'=').ok_or("no equals sign")?;
        if e[..eq].iter().any(|&x| x < 0x20 || x > 0x7d) { return Err("name byte"); }
        out.push(std::str::from_utf8(e).map_err(|_| "value not UTF-8")?.to_string());
    }
    if p != b.len() { return Err("excess data"); }
    Ok((vendor, out))
}

/// ASCII case folding, written out.
fn fold(t: &str) -> Vec<u8> {
    t.bytes().map(|b| if b >= b'A' && b <= b'Z' { b + 32 } else { b }).collect()
}

pub fn needle(s: &mut Src, cs: &[String]) -> String {
    let own = |s: &mut Src| -> String {
        if cs.is_empty() { return meta::tag_name(s); }
        let c = s.pick(cs);
        c[..c.find('=').unwrap()].to_string()
    };
    let base = own(s);
    match s.weighted(&[4, 2, 1, 1, 1, 1, 1]) {
        0 => meta::rand_case(s, &base),
        1 => meta::tag_name(s),
        // One bit off (an ASCII letter and its neighbours in bit 5).
        2 => {
            let mut b = base.into_bytes();
            if !b.is_empty() { let i = s.urange(0, b.len() - 1); b[i] ^= *s.pick(&[0x20u8, 1, 0x40]); }
            String::from_utf8_lossy(&b).into_owned()
        }
        3 => { let mut b = base; b.pop(); b }
        4 => format!("{}{}", base, s.pick(&["=", " ", "x", "\0"])),
        // Letters whose Unicode case folding is ASCII.
        5 => base.replace('s', "ſ").replace('S', "ſ").replace('K', "\u{212a}").replace('I', "İ"),
        _ => s.pick(&["", "=", "é", "ARTIST=", "\u{10ffff}"]).to_string(),
    }
}

fn check_views<'a, F: Fn() -> Tags<'a>, G: Fn(&str) -> Vec<String>>(s: &mut Src, cs: &[String], tags: F, get: G) -> Result<(), Fail> {
    let want: Vec<(&str, &str)> = cs.iter().map(|x| { let i = x.find('=').unwrap(); (&x[..i], &x[i + 1..]) }).collect();
    let mut t = tags();
    for i in 0..want.len() + 1 {
        let left = want.len() - i;
        ensure!(t.len() == left && t.size_hint() == (left, Some(left)), "count", "{} tags left, len {} hint {:?}", left, t.len(), t.size_hint());
        match t.next() {
            Some(p) => ensure!(i < want.len() && p == want[i], "tag", "tag {}: stored {:?}, reported {:?}", i, want.get(i), p),
            None => ensure!(i == want.len(), "count", "{} tags reported, {} stored", i, want.len()),
        }
    }
    ensure!(t.next().is_none() && t.len() == 0, "count", "a tag after the last");
    ensure!(tags().count() == want.len(), "count", "count {} of {}", tags().count(), want.len());
    if !want.is_empty() {
        let k = s.urange(0, want.len() - 1);
        ensure!(tags().nth(k) == Some(want[k]), "tag", "nth({})", k);
        ensure!(tags().last() == want.last().cloned(), "tag", "last");
        let mut t = tags();
        let _ = t.nth(k);
        ensure!(t.len() == want.len() - k - 1 && t.next() == want.get(k + 1).cloned(), "count", "after nth({}) of {}", k, want.len());
        ensure!(tags().skip(k).eq(want[k..].iter().cloned()), "tag", "skip({})", k);
        let mut t = tags();
        for _ in 0..k { t.next(); }
        finish(s, t, &want[k..], |g, w| g == w).or_else(|m| fail("tag", format!("after {} of {} tags: {}", k, want.len(), m)))?;
    }
    ensure!(tags().nth(want.len()).is_none() && tags().nth(want.len() + s.urange(0, 5)).is_none(), "tag", "nth behind the last");
    for _ in 0..4 {
        let n = needle(s, cs);
        let exp: Vec<String> = want.iter().filter(|(k, _)| fold(k) == fold(&n)).map(|(_, v)| v.to_string()).collect();
        let got = get(&n);
        ensure!(got == exp, "lookup", "lookup of {:?}: expected {:?}, got {:?}", n, exp, got);
    }
    Ok(())
}

/// Lookups used up by adaptors, or after skipping some results.
fn check_get<'a>(s: &mut Src, cs: &[String], n: &str, get: impl Fn() -> GetTag<'a>) -> Result<(), Fail> {
    let exp: Vec<&str> = cs.iter().map(|x| { let i = x.find('=').unwrap(); (&x[..i], &x[i + 1..]) }).filter(|(k, _)| fold(k) == fold(n)).map(|(_, v)| v).collect();
    let k = s.urange(0, exp.len());
    let mut it = get();
    for i in 0..k { ensure!(it.next() == Some(exp[i]), "lookup", "lookup of {:?}: result {}", n, i); }
    let (lo, hi) = it.size_hint();
    ensure!(lo <= exp.len() - k && hi.map_or(true, |h| h >= exp.len() - k), "lookup", "lookup of {:?}: size hint {:?} with {} results to come", n, (lo, hi), exp.len() - k);
    finish(s, it, &exp[k..], |g, w| g == w).or_else(|m| fail("lookup", format!("lookup of {:?}, after {} of {} results: {}", n, k, exp.len(), m)))?;
    let j = s.urange(0, exp.len() + 1);
    let mut it = get();
    ensure!(it.nth(j) == exp.get(j).cloned() && it.next() == exp.get(j + 1).cloned(), "lookup", "lookup of {:?}: nth({}) of {} results", n, j, exp.len());
    let mut it = get();
    for _ in 0..exp.len() { it.next(); }
    ensure!(it.next().is_none() && it.next().is_none(), "lookup", "lookup of {:?} goes on after {} results", n, exp.len());
    Ok(())
}

fn damage(s: &mut Src, b: &mut Vec<u8>) -> &'static str {
    // Offsets of all length fields of the still valid block.
    let le = |b: &[u8], p: usize| -> usize { (0..4).map(|i| (b[p + i] as usize) << (8 * i)).sum() };
    let mut lens = vec![0usize];
    let vl = le(b, 0);
    let count_at = 4 + vl;
    let mut p = count_at + 4;
    let mut entries = Vec::new();
    for _ in 0..le(b, count_at) {
        lens.push(p);
        let l = le(b, p);
        if l > 0 { entries.push((p + 4, l)); }
        p += 4 + l;
    }
    let put = |b: &mut Vec<u8>, p: usize, v: u32| for i in 0..4 { b[p + i] = (v >> (8 * i)) as u8 };
    match s.weighted(&[3, 3, 2, 2, 2, 2, 1]) {
        0 => {
            let at = *s.pick(&lens);
            let v = le(b, at) as u32;
            let d = s.urange(1, 5) as u32;
            let x = match s.draw(5) { 0 => v.wrapping_add(d), 1 => v.wrapping_sub(d), 2 => 0, 3 => u32::MAX - s.draw(12) as u32, 4 => s.ubits(32) as u32, _ => b.len() as u32 - s.urange(0, b.len().min(16)) as u32 };
            put(b, at, x);
            "length-field"
        }
        1 => {
            let v = le(b, count_at) as u32;
            let d = s.urange(1, 5) as u32;
            let x = match s.draw(4) { 0 => v.wrapping_add(d), 1 => v.wrapping_sub(d), 2 => s.ubits(32) as u32, 3 => (b.len() / 4) as u32, _ => v + (s.urange(0, b.len()) as u32) };
            put(b, count_at, x);
            "count"
        }
        2 => {
            if let Some(&(at, l)) = entries.get(s.urange(0, entries.len().max(1) - 1)) {
                let eq = b[at..at + l].iter().position(|&x| x == b'=').unwrap();
                if s.bool() && eq > 0 {
                    let i = at + s.urange(0, eq - 1);
                    b[i] = *s.pick(&[0x1fu8, 0x7e, 0x7f, 0x80, 0xff, 0, 0x20, 0x7d, 0xc3, b'\n']);
                } else {
                    // No equals sign at all, or another one.
                    for x in &mut b[at..at + l] { if *x == b'=' { *x = *s.pick(&[b'x', b'<', 0x7e]); } }
                }
            }
            "entry-name"
        }
        3 => {
            if let Some(&(at, l)) = entries.get(s.urange(0, entries.len().max(1) - 1)) {
                let i = at + s.urange(0, l - 1);
                b[i] = *s.pick(&[0x80u8, 0xff, 0xc0, 0xed, 0xf5, 0xc1, 0xbf, 0xf0, 0xe0]);
            }
            "entry-byte"
        }
        4 => {
            if vl > 0 { let i = 4 + s.urange(0, vl - 1); b[i] = *s.pick(&[0x80u8, 0xff, 0xc0, 0xed, 0xf5, 0xf0]); }
            "vendor-byte"
        }
        5 => {
            let k = s.urange(1, 9);
            if s.bool() { let x = s.bytes(k); b.extend(x); } else { let n = b.len().saturating_sub(k); b.truncate(n); }
            "block-length"
        }
        _ => {
            let at = s.urange(0, b.len() - 1);
            b[at] ^= 1 << s.draw(7);
            "bit"
        }
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let many = s.chance(1, 40);
    let mut m = if many {
        let most = if s.chance(1, 12) { 65_536 } else { 2000 };
        let n = if s.chance(1, 8) { *s.pick(&[1000usize, 5000, 40_000, most]) } else { s.urange(50, 400) };
        meta::gen_tags(s, n)
    } else {
        meta::gen_tags(s, 12)
    };
    let damaged = s.chance(1, 2);
    if damaged { let w = damage(s, &mut m.body); c.label(&format!("damage:{}", w)); }
    let verdict = parse(&m.body);
    if m.body.len() < 8 { c.label("short"); }
    c.print(&m.body);
    match verdict {
        Ok((_, ref cs)) => { c.nontrivial = damaged || !cs.is_empty(); c.label(if damaged { "damaged-but-valid" } else { "valid" }); }
        Err(w) => { c.nontrivial = true; c.label(&format!("invalid:{}", w)); }
    }
    c.describe(|| format!("{} byte tag block: {:.300?}", m.body.len(), verdict));
    m.last = true;
    let chunks = gen_chunks(s);
    c.runs += 1;
    let tail = s.bytes(12);
    if s.bool() {
        // The block alone.
        let mut d = m.bytes();
        d.extend_from_slice(&tail);
        let r = match s.draw(2) {
            0 => metadata::read_metadata_block_with_header(&mut BufferedReader::new(ScriptReader::new(Rc::new(d), chunks))),
            1 => metadata::read_metadata_block_with_header(&mut Cursor::new(d)),
            _ => metadata::read_metadata_block(&mut Cursor::new(&d[4..]), 4, m.body.len() as u32),
        };
        match (r, &verdict) {
            (Ok(MetadataBlock::VorbisComment(ref vc)), Ok((v, cs))) => {
                ensure!(&vc.vendor == v, "vendor", "vendor {:?}, reported {:?}", v, vc.vendor);
                let got: Vec<&String> = vc.comments.iter().map(|x| &x.0).collect();
                ensure!(got == cs.iter().collect::<Vec<_>>(), "tag", "stored {:?}, reported {:?}", cs, got);
                check_views(s, cs, || Tags::new(&vc.comments), |n| GetTag::new(&vc.comments, n).map(|x| x.to_string()).collect())?;
                let n = needle(s, cs);
                check_get(s, cs, &n, || GetTag::new(&vc.comments, &n))
            }
            (Ok(o), Ok(_)) => fail("kind", format!("a tag block reported as {}", meta::block_str(&o))),
            (Ok(_), Err(w)) => fail(&format!("accepted:{}", w), format!("a tag block with '{}' was accepted", w)),
            (Err(e), Ok(_)) => fail("rejected", format!("a valid tag block was rejected: {:?}", err(&e))),
            (Err(e), Err(w)) => { let e = err(&e); ensure!(e.is_format(), "class", "'{}' gave {:?}", w, e); Ok(()) }
        }
    } else {
        let info = Info { min_bs: 16, max_bs: 4096, min_fs: 0, max_fs: 0, rate: 44100, channels: 2, bps: 16, samples: 0, md5: [0; 16] };
        let mut d = b"fLaC".to_vec();
        MBlock::info(&info).emit(&mut d);
        if s.bool() { let mut p = meta::gen_block(s, false); p.last = false; p.emit(&mut d); }
        m.last = s.bool();
        let tail_block = !m.last;
        m.emit(&mut d);
        if tail_block { MBlock { last: true, kind: 1, body: vec![0; 9], model: Model::Padding(9), claim: None }.emit(&mut d); }
        let o = FlacReaderOptions { metadata_only: s.bool(), read_vorbis_comment: true };
        match (FlacReader::new_ext(ScriptReader::new(Rc::new(d), chunks), o), &verdict) {
            (Ok(r), Ok((v, cs))) => {
                ensure!(r.vendor() == Some(&v[..]), "vendor", "vendor {:?}, reported {:?}", v, r.vendor());
                check_views(s, cs, || r.tags(), |n| r.get_tag(n).map(|x| x.to_string()).collect())?;
                let n = needle(s, cs);
                check_get(s, cs, &n, || r.get_tag(&n))
            }
            (Ok(_), Err(w)) => fail(&format!("accepted:{}", w), format!("a stream whose tags have '{}' was opened", w)),
            (Err(e), Ok(_)) => fail("rejected", format!("a stream with valid tags was rejected: {:?}", err(&e))),
            (Err(e), Err(w)) => { let e = err(&e); ensure!(e.is_format(), "class", "'{}' gave {:?}", w, e); Ok(()) }
        }
    }
}
