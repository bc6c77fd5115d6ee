//! Hashing and checking a file agree with the format and with each other.
use crate::digest::{hex, H, ALL_H};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Content, Node, Tree, B};
use crate::readers::{Chunky, Plan};
use crate::refsig::{self, Ent, Hasher, Huge, B3};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::v1::{Entry, Hashes, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Variant of a content that is checked against the hashes of the original.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Alter { Flip(u32, u8), Cut(u32), Extend(u16, u8), DropBlock(u16), SwapBlocks(u16, u16), RepeatBlock(u16), Insert(u32, u8), Same }
fn altered(d: &[u8], bs: u64, a: &Alter) -> Vec<u8> {
    let mut v = d.to_vec();
    let bs = bs.min(1 << 40) as usize;
    let blocks: Vec<&[u8]> = d.chunks(bs).collect();
    let nb = blocks.len();
    let cat = |b: Vec<&[u8]>| b.concat();
    match a {
        Alter::Same => {}
        Alter::Flip(p, x) => if !v.is_empty() { let n = v.len(); v[*p as usize % n] ^= (*x).max(1) },
        Alter::Cut(p) => { let n = v.len(); v.truncate(if n == 0 { 0 } else { *p as usize % n }) }
        Alter::Extend(n, x) => v.extend(std::iter::repeat(*x).take(*n as usize + 1)),
        Alter::DropBlock(i) => if nb > 0 { let mut b = blocks; b.remove(*i as usize % nb); v = cat(b) },
        Alter::SwapBlocks(i, j) => if nb > 0 { let mut b = blocks; b.swap(*i as usize % nb, *j as usize % nb); v = cat(b) },
        Alter::RepeatBlock(i) => if nb > 0 { let mut b = blocks; let k = *i as usize % nb; b.insert(k, b[k]); v = cat(b) },
        Alter::Insert(p, x) => { let k = *p as usize % (v.len() + 1); v.insert(k, *x) }
    }
    v
}
fn alter() -> BoxedStrategy<Alter> {
    prop_oneof![
        1 => Just(Alter::Same), 4 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Alter::Flip(a, b)), 3 => any::<u32>().prop_map(Alter::Cut),
        3 => (prop_oneof![Just(0u16), 0u16..300], prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(a, b)| Alter::Extend(a, b)),
        1 => any::<u16>().prop_map(Alter::DropBlock), 1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Alter::SwapBlocks(a, b)),
        1 => any::<u16>().prop_map(Alter::RepeatBlock), 1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Alter::Insert(a, b)),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { c: Content, h: H, bs: u64, plan: Plan, plan2: Plan, alts: Vec<Alter>, fails: Vec<u32>, flips: Vec<(u16, u8)> }

fn list(h: &Hashes) -> Vec<[u8; 32]> {
    h.iter().map(|x| { let mut d = [0xEE; 32]; if x.len() == 32 { d.copy_from_slice(x) } d }).collect()
}
fn accessors(g: &Hashes, h: H, bs: u64, want: &[[u8; 32]]) -> Res {
    if g.len() != want.len() { return Err(format!("{} hashes, expected {}", g.len(), want.len())); }
    if g.block_size() != bs || g.hash_type() != h.real() { return Err("wrong block size or hash type".into()); }
    for (i, w) in want.iter().enumerate() {
        if g.get(i) != Some(&w[..]) { return Err(format!("hash {}: {}, expected {}", i, g.get(i).map_or("none".into(), hex), hex(w))); }
    }
    if list(g) != want { return Err("iter() differs from get()".into()); }
    for i in [want.len(), want.len() + 1, usize::MAX / 32, usize::MAX] { if g.get(i).is_some() { return Err(format!("hash {} of {}", i, want.len())); } }
    Ok(())
}
fn parsed(h: H, bs: u64, size: u64, hashes: &[[u8; 32]]) -> Result<Hashes, String> {
    let v = [Ent::Dir(B::s("/")), Ent::File { path: B::s("/f"), exe: false, size, hashes: hashes.to_vec() }];
    let text = refsig::text(h, bs, &v);
    let mut p = Parser::new(&text[..]).map_err(|e| format!("parse: {}", e))?;
    for e in p.iter() { if let Entry::File { hashes, .. } = e.map_err(|e| format!("parse: {}", e))? { return Ok(hashes); } }
    Err("no file in the parsed signature".into())
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let data = c.c.bytes();
    let n = data.len() as u64;
    let good = Hasher::new(c.h, B3::Correct).file(&data, c.bs);
    let multi = good.len() > 1;
    cx.nontrivial(n > 0);
    cx.class_if(n == 0, "empty content");
    cx.class_if(multi, "several blocks");
    cx.class_if(n > 0 && n % c.bs == 0, "exact multiple of the block size");
    cx.class_if(!c.plan.trivial(), "split or interrupted reads");
    cx.class(c.h.name());
    let how = |p: &Plan| format!("{} bytes in blocks of {}, {}, reads {:?}", n, c.bs, c.h.name(), p.chunks);
    let (size, hashes) = Hashes::hash_file(c.h.real(), c.bs, Chunky::new(data.clone(), &c.plan)).map_err(|e| format!("hash_file failed: {} ({})", e, how(&c.plan)))?;
    if size != n { return Err(format!("hash_file returned length {} ({})", size, how(&c.plan))); }
    let mut eff = good.clone();
    if let Err(m) = accessors(&hashes, c.h, c.bs, &good) {
        let bad = Hasher::new(c.h, B3::PerFile).file(&data, c.bs);
        let m = format!("hash_file: {} ({})", m, how(&c.plan));
        if c.h != H::B3 || accessors(&hashes, c.h, c.bs, &bad).is_err() { return Err(m); }
        cx.known("blake3-cumulative", &m)?;
        eff = bad;
    }
    // the same from any reader, and from the text of a signature
    let again = Hashes::hash_file(c.h.real(), c.bs, &data[..]).map_err(|e| format!("hash_file: {}", e))?;
    if again != (n, hashes.clone()) { return Err(format!("two readers of the same bytes give different hashes ({})", how(&c.plan))); }
    let p = parsed(c.h, c.bs, n, &eff)?;
    if p != hashes { return Err(format!("hashes of a parsed entry differ from those of the file: {:?} and {:?}", p, hashes)); }
    // checking: yes iff the same bytes
    for (what, hs) in [("hash_file", &hashes), ("the parser", &p)] {
        for a in c.alts.iter().chain(std::iter::once(&Alter::Same)) {
            let v = altered(&data, c.bs, a);
            let same = v == data;
            cx.evals(1);
            cx.class_if(!same, "altered content");
            let got = hs.check_file(Chunky::new(v.clone(), &c.plan2)).map_err(|e| format!("check_file failed: {} ({})", e, how(&c.plan2)))?;
            if got != same { return Err(format!("check_file says {} for {:?} of hashes from {} ({})", got, a, what, how(&c.plan2))); }
            // a reader that fails is not answered with yes, and with no only if what it gave differs
            for f in &c.fails {
                let at = *f as u64 % (v.len() as u64 + 1);
                let mut r = Chunky::new(v.clone(), &c.plan2).failing(Some(at));
                let got = hs.check_file(&mut r);
                let differs_before = v.len().min(at as usize) > data.len() || v[..at as usize] != data[..(at as usize).min(data.len())];
                cx.evals(1);
                match got {
                    Err(_) => {}
                    Ok(x) if !r.failed => if x != same { return Err(format!("check_file says {} for {:?}, reader failing at {} ({})", x, a, at, how(&c.plan2))); },
                    Ok(false) if differs_before => {}
                    Ok(x) => return Err(format!("check_file answers {} although the reader failed at byte {} of {} ({})", x, at, v.len(), how(&c.plan2))),
                }
            }
        }
    }
    // hashes that differ in a single bit are those of another file
    let mut bad = eff.clone();
    for (i, bit) in c.flips.iter().filter(|_| !eff.is_empty()) {
        let (i, byte) = (*i as usize % eff.len(), *bit as usize / 8);
        bad[i][byte] ^= 1 << (bit % 8);
        let hs = parsed(c.h, c.bs, n, &bad)?;
        bad[i][byte] ^= 1 << (bit % 8);
        cx.evals(1);
        cx.class("altered hashes");
        let got = hs.check_file(Chunky::new(data.clone(), &c.plan2)).map_err(|e| format!("check_file failed: {} ({})", e, how(&c.plan2)))?;
        if got { return Err(format!("check_file says true for hashes that differ from those of the file in bit {} of byte {} of hash {} of {} ({})", bit % 8, byte, i, eff.len(), how(&c.plan2))); }
    }
    for f in c.fails.iter().map(|f| *f as u64 % (n + 1)).chain([0, n]) {
        let mut r = Chunky::new(data.clone(), &c.plan).failing(Some(f));
        cx.evals(1);
        if let Ok((s, _)) = Hashes::hash_file(c.h.real(), c.bs, &mut r) {
            return Err(format!("hash_file returns length {} although the reader fails at byte {} ({})", s, f, how(&c.plan)));
        }
    }
    Ok(())
}
fn st(tier: Tier) -> BoxedStrategy<Case> {
    let most = if tier.thorough() { 400_000u32 } else { 110_000 };
    let shape = prop_oneof![
        // small blocks, lengths around multiples
        5 => (1u64..40, prop_oneof![3 => 0u32..8, 1 => 8u32..40], -2i32..3).prop_map(|(bs, k, d)| ((bs as i32 * k as i32 + d).max(0) as u32, bs)),
        2 => (0u32..300, 1u64..400),
        1 => (gens::edge_len(), Just(32768u64)),
        1 => (8190u32..8195, 1u32..4, 0u32..3).prop_map(|(bs, k, d)| (bs * k + d, bs as u64)),
        1 => (0u32..2000, prop::sample::select(vec![u32::MAX as u64, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX])),
        1 => (0..most, 1000u64..70_000),
        1 => (crate::dict::near(0, 100_000, 1024), crate::dict::near(1, u64::MAX, 1024)).prop_map(|(n, bs)| (n.min(2000 * bs.min(100)) as u32, bs)),
        1 => (crate::dict::near(1, 400, 1), prop::sample::select(vec![1u64, 2, 3, 64]), -1i32..2).prop_map(|(k, bs, d)| ((k * bs) as u32 + 1).saturating_add_signed(d - 1)).prop_flat_map(|n| (Just(n), prop::sample::select(vec![1u64, 2, 3, 64]))),
    ];
    (shape, (gens::seed(), gens::xors()), gens::any_h(), gens::plan(), gens::plan(), prop::collection::vec(alter(), 1..5), prop::collection::vec(any::<u32>(), 0..4), prop::collection::vec(any::<(u16, u8)>(), 0..4))
        .prop_map(|((len, bs), (seed, xor), h, mut plan, mut plan2, alts, fails, flips)| {
            // keep the number of reads reasonable for large files
            if len > 3000 { for p in [&mut plan, &mut plan2] { for c in p.chunks.iter_mut() { if *c != 0 && (*c as u32) < len / 300 { *c = (len / 300) as u16 + *c; } } } }
            Case { c: Content { len, seed, xor, head: vec![] }, h, bs, plan, plan2, alts, fails, flips }
        }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in ALL_H {
        for bs in [1u64, 2, 3, 4, 7, 16] {
            for len in 0..20u32 {
                for seed in [0u16, 5] {
                    for chunks in [vec![], vec![0u16, 1], vec![3]] {
                        let p = Plan { chunks, buf: 1 };
                        v.push(Case { c: Content::new(len, seed), h, bs, plan: p.clone(), plan2: p, fails: vec![len.saturating_sub(1), len / 2], flips: vec![(0, 0), (u16::MAX / 2, 255), (1, (len * 13) as u8)],
                            alts: vec![Alter::Cut(len.saturating_sub(1)), Alter::Cut(0), Alter::Extend(0, 0), Alter::Extend(bs as u16 - 1, 0), Alter::Flip(0, 1), Alter::Flip(len.saturating_sub(1), 128),
                                Alter::DropBlock(0), Alter::DropBlock((len as u16).saturating_sub(1) / bs as u16), Alter::SwapBlocks(0, 1), Alter::RepeatBlock(0)] });
                    }
                }
            }
        }
        for (len, bs) in [(65536u32, 32768u64), (65537, 32768), (32768, 32768), (32767, 32768), (65536, 65536), (100_000, u64::MAX)] {
            v.push(Case { c: Content::new(len, 9), h, bs, plan: Plan::default(), plan2: Plan { chunks: vec![1000, 0, 8192], buf: 1 }, fails: vec![32767, 32768, 0], flips: vec![(0, 0), (1, 255), (3, 130)],
                alts: vec![Alter::Cut(32768), Alter::Cut(len - 1), Alter::Extend(0, 0), Alter::Extend(32767, 0), Alter::Flip(32767, 1), Alter::Flip(32768, 1)] });
        }
    }
    v
}

/// hash_file gives what a scan writes; check_file of a scanned entry recognises the file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scanned { t: Tree, cfg: Cfg, plan: Plan }
fn check_scan(c: &Scanned, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &c.t);
    let r = scan_ok(&d, &c.cfg);
    cx.cleanup(&d);
    let out = r?;
    let mut files: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    walk(&c.t, &mut |p, n| if let Some(Node::File(ct, _)) = n { files.insert(p.to_vec(), ct.bytes()); });
    cx.nontrivial(files.values().any(|v| !v.is_empty()));
    cx.class_if(c.cfg.threaded(), "threaded scan");
    // the listed deviation of blake3, reproduced exactly
    let mut wrong: BTreeMap<Vec<u8>, Vec<[u8; 32]>> = BTreeMap::new();
    if c.cfg.h == H::B3 {
        for e in refsig::entries(&c.t, H::B3, c.cfg.bad_b3()) { if let Ent::File { path, hashes, .. } = e { wrong.insert(path.0, hashes); } }
    }
    let mut p = Parser::new(&out[..]).map_err(|e| format!("parse: {}", e))?;
    for e in p.iter() {
        if let Entry::File { path, size, hashes, .. } = e.map_err(|e| format!("parse: {}", e))? {
            let k = crate::docs::bytes(&path).0;
            let data = files.remove(&k).ok_or_else(|| format!("unexpected file {:?}", path))?;
            let (n, hs) = Hashes::hash_file(c.cfg.h.real(), hashes.block_size(), Chunky::new(data.clone(), &c.plan)).map_err(|e| format!("hash_file: {}", e))?;
            if n != size || n != data.len() as u64 { return Err(format!("{:?}: sizes {} in the scan, {} from hash_file, {} in fact", path, size, n, data.len())); }
            let yes = hashes.check_file(Chunky::new(data.clone(), &c.plan)).map_err(|e| format!("check_file: {}", e))?;
            if hs != hashes || !yes {
                let m = format!("{:?} ({:?}): hash_file {} the scanned hashes, check_file of the unchanged file says {}", path, c.cfg, if hs == hashes { "equals" } else { "differs from" }, yes);
                let sim = c.cfg.h == H::B3 && list(&hashes) == wrong[&k] && list(&hs) == Hasher::new(H::B3, B3::PerFile).file(&data, refsig::BS) && yes == (hs == hashes);
                if !sim { return Err(m); }
                cx.known("blake3-cumulative", &m)?;
            }
        }
    }
    if let Some(f) = files.keys().next() { return Err(format!("{:?} is not in the scan", B(f.clone()))); }
    Ok(())
}
fn st_scan(_: Tier) -> BoxedStrategy<Scanned> {
    let o = TreeOpt { big: true, specials: false, max: 10, top: 5, ..TREE };
    (gens::tree(o), gens::cfg(), gens::plan()).prop_map(|(t, cfg, mut plan)| {
        for c in plan.chunks.iter_mut() { if *c != 0 && *c < 300 { *c += 300; } }
        Scanned { t, cfg, plan }
    }).boxed()
}
/// Streams longer than 4 GiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large { f: Huge, h: H, bs: u64, alts: Vec<Huge>, same: bool, only: Option<Tier> }
struct Stream<'a> { f: &'a Huge, pos: u64 }
impl<'a> std::io::Read for Stream<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.f.fill(self.pos, buf);
        self.pos += n as u64;
        Ok(n)
    }
}
fn check_large(c: &Large, cx: &mut Cx) -> Res {
    if c.only.map_or(false, |t| t != cx.tier) { return Ok(()); }
    cx.long_case();
    cx.nontrivial(true);
    cx.class("stream longer than 4 GiB");
    let how = format!("{} bytes in blocks of {}, {}", c.f.len, c.bs, c.h.name());
    let (n, hs) = Hashes::hash_file(c.h.real(), c.bs, Stream { f: &c.f, pos: 0 }).map_err(|e| format!("hash_file failed: {} ({})", e, how))?;
    if n != c.f.len { return Err(format!("hash_file returned length {} ({})", n, how)); }
    cx.alive();
    if let Err(m) = accessors(&hs, c.h, c.bs, &c.f.hashes(c.h, c.bs, B3::Correct)) {
        let m = format!("hash_file: {} ({})", m, how);
        if c.h != H::B3 || accessors(&hs, c.h, c.bs, &c.f.hashes(c.h, c.bs, B3::PerFile)).is_err() { return Err(m); }
        cx.known("blake3-cumulative", &m)?;
    }
    for a in c.alts.iter().chain(Some(&c.f).filter(|_| c.same)) {
        cx.alive();
        let got = hs.check_file(Stream { f: a, pos: 0 }).map_err(|e| format!("check_file failed: {} ({})", e, how))?;
        if got != (*a == c.f) { return Err(format!("check_file says {} for {:?} ({})", got, a, how)); }
    }
    Ok(())
}
fn large() -> Vec<Large> {
    let g = 1u64 << 32;
    let f = Huge { len: g + 5, marks: vec![(0, 1), (g - 1, 4), (g, 5), (g + 4, 6)] };
    let mut late = f.clone();
    late.marks[3].1 = 7;
    let mut v = vec![Large { f: f.clone(), h: H::B2, bs: 1 << 20, alts: vec![Huge { len: 5, ..f.clone() }], same: true, only: None },
        Large { f: f.clone(), h: H::B2, bs: 32768, alts: vec![Huge { len: g, ..f.clone() }], same: false, only: Some(Tier::Quick) }];
    for h in ALL_H { for bs in [32768, 1_000_003, 1 << 26] {
        v.push(Large { f: f.clone(), h, bs, alts: vec![late.clone(), Huge { len: g, ..f.clone() }, Huge { len: g + 6, ..f.clone() }, Huge { len: 5, ..f.clone() }], same: true, only: Some(Tier::Thorough) });
    } }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C19", level: "exploration", rule: "the content is not empty (hash); some file of the scanned tree is not empty (scan)",
        assumptions: &["block sizes of at least 1 byte (the parser rejects 0)", "collision resistance of the digests"],
        parts: vec![part("hash", [60_000, 1_000_000], st, fixed, check), part("scan", [6000, 60_000], st_scan, || vec![], check_scan),
            part("large", [0, 0], |_| Just(large().remove(0)).boxed(), large, check_large)],
    }
}
