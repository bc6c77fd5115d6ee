//! The extracted hash is the footer, or an error.
use crate::docs::{doc, Doc};
use crate::gens::{self, TREE};
use crate::model::Tree;
use crate::props::c12::word;
use crate::readers::{Chunky, Plan};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::get_hash;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { d: Doc, plan: Plan, start: u16, bad: Vec<(u16, u8)>, hash_word: String }

fn err_or(r: std::io::Result<Vec<u8>>, what: &dyn Fn() -> String) -> Res {
    match r { Err(_) => Ok(()), Ok(h) => Err(format!("{}: accepted, hash {}", what(), crate::digest::hex(&h))) }
}
fn check(c: &Case, cx: &mut Cx) -> Res {
    let text = c.d.text();
    let want = c.d.footer().to_vec();
    let same = |r: std::io::Result<Vec<u8>>, how: &str| match r {
        Ok(h) if h == want => Ok(()),
        Ok(h) => Err(format!("{}: got {}, the footer is {}", how, crate::digest::hex(&h), crate::digest::hex(&want))),
        Err(e) => Err(format!("{}: {}", how, e)),
    };
    c.d.class(cx);
    cx.nontrivial(true);
    same(get_hash(&mut Cursor::new(&text)), "from a slice")?;
    same(get_hash(&mut Chunky::new(text.clone(), &c.plan)), &format!("reads as {:?}", c.plan))?;
    same(get_hash(&mut BufReader::with_capacity(c.plan.cap(), Chunky::new(text.clone(), &c.plan))), &format!("buffered, {:?}", c.plan))?;
    // every proper prefix
    let step = (text.len() / 700).max(1);
    let mut cuts: Vec<usize> = (0..text.len()).step_by(step).chain(text.len().saturating_sub(140)..text.len()).collect();
    cuts.sort();
    cuts.dedup();
    cx.evals(cuts.len() as u64);
    for n in cuts {
        // a prefix that itself ends in something of the shape of a footer line is a signature to this function
        let t = &text[..n];
        if n >= 66 && t[n - 1] == b'\n' && t[n - 66] == b'\n' && t[n - 65..n - 1].iter().all(|c| c.is_ascii_hexdigit()) { continue; }
        err_or(get_hash(&mut Cursor::new(t)), &|| format!("truncated to {} of {} bytes", n, text.len()))?;
    }
    let len = text.len();
    let mut bad = |at: usize, b: u8, what: &str| -> Res {
        let mut t = text.clone();
        if t[at] == b { return Ok(()); }
        t[at] = b;
        cx.evals(1);
        err_or(get_hash(&mut Cursor::new(&t)), &|| format!("{}: byte {} is {:#x} instead of {:#x}", what, at, b, text[at]))
    };
    for &(p, b) in &c.bad {
        bad(p as usize % 16, b, "magic")?;
        let at = len - 65 + p as usize % 64;
        if !b.is_ascii_hexdigit() { bad(at, b, "non-hex footer")?; }
        bad(len - 1, b, "no final newline")?;
        bad(len - 66, b, "no newline before the footer")?;
    }
    for b in [b'g', b'G', b'/', b':', b'@', b'`', b' ', 0, 0x80, 0xff] { for k in [0, 1, 31, 62, 63] { bad(len - 65 + k, b, "non-hex footer")?; } }
    // the hash type
    let rest = &text[16 + c.d.h.name().len()..];
    if crate::digest::H::parse(&c.hash_word).is_none() {
        let t = [b"DIRSIGNATURE.v1 ", c.hash_word.as_bytes(), rest].concat();
        if !c.hash_word.contains(' ') { err_or(get_hash(&mut Cursor::new(&t)), &|| format!("hash type {:?}", c.hash_word))?; }
    }
    // names that are nearly right
    let n = c.d.h.name();
    let up: String = n.chars().enumerate().map(|(i, ch)| if c.start as usize >> (i % 11) & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
    let at = c.start as usize % (n.len() + 1);
    let ws = ["\t", "\n", "\r", "\u{b}", "\u{c}", "\0", "\u{85}", "\u{a0}", "-", "_", "0", "="][c.start as usize / 16 % 12];
    let near = [up, n.to_uppercase(), format!("{}{}", n, ws), format!("{}{}", ws, n), format!("{}{}{}", &n[..at], ws, &n[at..]), n.replace('/', ws), n.replace('/', ""), n[..at].to_string(), n[at..].to_string(), format!("{}{}", n, &n[at..]), format!("/{}", n), format!("{}/", n)];
    for w in near.iter().filter(|w| crate::digest::H::parse(w).is_none()) {
        let t = [b"DIRSIGNATURE.v1 ", w.as_bytes(), rest].concat();
        err_or(get_hash(&mut Cursor::new(&t)), &|| format!("hash type {:?}", w))?;
    }
    // without the final newline, with more after it
    for tail in [&b""[..], b"x", b"\n\n", b" \n", b"\nx"] {
        let t = [&text[..len - 1], tail].concat();
        err_or(get_hash(&mut Cursor::new(&t)), &|| format!("ends in {:?} instead of a newline", tail))?;
    }
    // failing reads and seeks: whatever is read, a reader failing before all needed bytes were read gives an error
    for p in c.bad.iter().map(|x| x.0 as usize % 32).chain([0, 31].iter().cloned()).chain(c.bad.iter().map(|x| len - 66 + x.0 as usize % 66)) {
        let mut r = Chunky::new(text.clone(), &c.plan).failing(Some(p as u64));
        let g = get_hash(&mut r);
        if r.failed || p < 16 { err_or(g, &|| format!("reading fails at byte {}", p))?; } else { same(g, "failing reader that did not fail")?; }
    }
    let mut r = Chunky::new(text.clone(), &c.plan);
    r.fail_seek = true;
    err_or(get_hash(&mut r), &|| "seeking fails".into())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (doc(), gens::plan(), any::<u16>(), prop::collection::vec((any::<u16>(), any::<u8>()), 1..8), word())
        .prop_map(|(d, plan, start, bad, hash_word)| Case { d, plan, start, bad, hash_word }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for bs in [1u64, 32768, u64::MAX] {
            for chunks in [vec![], vec![1u16], vec![0, 3], vec![31, 1], vec![32, 65, 1], vec![65]] {
                for w in ["sha512/25", "sha512/2566", "blake2b/25", "blake3", "", "SHA512/256", "sha512_256", "blake2b", "blake3/2560000000000000000000"] {
                    for empty in [false, true] {
                        v.push(Case { d: Doc { t: Tree::new(), h, bs, attrs: vec![], salt: 4, mask: 0, empty }, plan: Plan { chunks: chunks.clone(), buf: 5 }, start: 0, bad: vec![(3, b'x'), (15, b'\t')], hash_word: w.into() });
                    }
                }
            }
        }
    }
    v
}

/// A scanned directory, read from a real file at whatever position.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scanned { t: Tree, cfg: Cfg, pos: u16 }
fn check_scan(c: &Scanned, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &c.t);
    let r = scan_ok(&d, &c.cfg);
    cx.cleanup(&d);
    let out = r?;
    let n = out.len();
    let want = out[n - 65..n - 1].to_vec();
    let p = cx.dir.join("sig");
    must(std::fs::write(&p, &out), "write");
    let mut f = must(std::fs::File::open(&p), "open");
    let g = get_hash(&mut f).map_err(|e| format!("get_hash of a scan: {}", e))?;
    cx.nontrivial(crate::model::count(&c.t) > 0);
    if crate::digest::hex(&g).as_bytes() != &want[..] { return Err(format!("got {}, the last line is {}", crate::digest::hex(&g), String::from_utf8_lossy(&want))); }
    // the file can be used further
    let mut s = Vec::new();
    must(f.seek(SeekFrom::Start(0)), "seek");
    must(f.read_to_end(&mut s), "read");
    if s != out { return Err("the file changed".into()); }
    Ok(())
}
fn st_scan(_: Tier) -> BoxedStrategy<Scanned> { (gens::tree(TREE), gens::cfg(), any::<u16>()).prop_map(|(t, cfg, pos)| Scanned { t, cfg, pos }).boxed() }
/// A signature of any length, most of it never read.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge { h: crate::digest::H, len: u64, cut: u8, salt: u8, plan: Plan }
struct Virtual { head: Vec<u8>, tail: Vec<u8>, len: u64, pos: u64, plan: Vec<u16>, i: usize }
impl Read for Virtual {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        if !self.plan.is_empty() {
            let c = self.plan[self.i % self.plan.len()];
            self.i += 1;
            if c == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
            n = n.min(c as usize);
        }
        let t = self.len - self.tail.len() as u64;
        for (k, x) in b[..n].iter_mut().enumerate() {
            let p = self.pos + k as u64;
            *x = if p < self.head.len() as u64 { self.head[p as usize] } else if p >= t { self.tail[(p - t) as usize] } else { b'x' };
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Virtual {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let p = match s { SeekFrom::Start(n) => n as i128, SeekFrom::End(n) => self.len as i128 + n as i128, SeekFrom::Current(n) => self.pos as i128 + n as i128 };
        if p < 0 || p > i64::MAX as i128 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
fn check_huge(c: &Huge, cx: &mut Cx) -> Res {
    let foot: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(7).wrapping_add(c.salt)).collect();
    let mut tail = format!("\n{}\n", crate::digest::hex(&foot)).into_bytes();
    tail.truncate(66 - c.cut as usize % 66);
    let head = format!("DIRSIGNATURE.v1 {} block_size=32768\n/\n  l s x", c.h.name()).into_bytes();
    let len = c.len.max((head.len() + tail.len()) as u64);
    cx.nontrivial(len > 1 << 16);
    cx.class_if(len >= 1 << 32, "more than 4 GiB");
    let mut plan = c.plan.chunks.clone();
    if !plan.is_empty() && plan.iter().all(|&c| c == 0) { plan.push(1); }
    let mut v = Virtual { head, tail, len, pos: 0, plan, i: 0 };
    let r = get_hash(&mut v);
    if c.cut as usize % 66 > 0 { return err_or(r, &|| format!("signature of {} bytes with the last {} missing", len, c.cut % 66)); }
    match r { Ok(h) if h == foot => Ok(()), Ok(h) => Err(format!("signature of {} bytes: got {}, the footer is {}", len, crate::digest::hex(&h), crate::digest::hex(&foot))), Err(e) => Err(format!("signature of {} bytes: {}", len, e)) }
}
fn st_huge(_: Tier) -> BoxedStrategy<Huge> {
    let len = prop_oneof![2 => 0u64..100_000, 2 => (15u32..62, -200i64..200).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)), 2 => 0u64..1 << 62, 2 => crate::dict::near(0, 1 << 62, 1024)];
    (gens::any_h(), len, prop_oneof![3 => Just(0u8), 1 => any::<u8>()], any::<u8>(), gens::plan()).prop_map(|(h, len, cut, salt, plan)| Huge { h, len, cut, salt, plan }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C18", level: "exploration", rule: "each generated signature is checked whole, at every truncation and with corruptions (doc); scanned tree is not empty (scan); the signature is longer than 64 KB (huge)",
        assumptions: &["a prefix that itself ends in a line of 64 hex digits cannot be told from a signature by this function, it only looks at both ends"],
        parts: vec![part("doc", [6000, 150_000], st, fixed, check), part("scan", [6000, 50_000], st_scan, || vec![], check_scan),
            part("huge", [100_000, 1_000_000], st_huge, || vec![], check_huge)],
    }
}
