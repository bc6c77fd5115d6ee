//! Each block hash is the digest of exactly that block of that file.
use crate::digest::{hex, H, ALL_H};
use crate::fsops;
use crate::gens;
use crate::interpose::{self, Script};
use crate::model::{Content, Node, Tree, B};
use crate::refsig::{entries, read_strict, Ent, Huge, B3};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_with, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { files: Vec<(u8, Content)>, cfg: Cfg, reads: Vec<u16> }

fn tree(files: &[(u8, Content)]) -> Tree {
    let mut t = Tree::new();
    for (i, (d, c)) in files.iter().enumerate() {
        let f = Node::File(c.clone(), 0o644);
        let n = B::s(&format!("f{:03}", i));
        if *d == 0 { t.insert(n, f); } else {
            if let Node::Dir(k, _) = t.entry(B::s(&format!("d{}", d))).or_insert_with(Node::dir) { k.insert(n, f); }
        }
    }
    t
}

type Blocks = Vec<(B, u64, Vec<[u8; 32]>)>;
fn files_of(v: Vec<Ent>) -> Blocks {
    v.into_iter().filter_map(|e| match e { Ent::File { path, size, hashes, .. } => Some((path, size, hashes)), _ => None }).collect()
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let t = tree(&c.files);
    fsops::make_plain(&d, &t);
    let r = scan_with(&d, &c.cfg, &Script { reads: c.reads.clone(), ..Script::default() });
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan failed: {}", e))?;
    let max = c.files.iter().map(|f| f.1.len).max().unwrap_or(0);
    cx.nontrivial(max > 32768 || c.files.len() > 1 && max > 0);
    cx.class_if(max > 32768, "several blocks");
    cx.class_if(c.files.iter().any(|f| f.1.len > 0 && f.1.len % 32768 == 0), "exact multiple of the block size");
    cx.class_if(c.files.iter().any(|f| f.1.len == 0), "empty file");
    cx.class_if(interpose::split_reads() > 0, "short or interrupted reads");
    cx.class_if(c.cfg.threaded(), "threaded");
    let got = files_of(read_strict(&out)?.ents);
    let want = files_of(entries(&t, c.cfg.h, B3::Correct));
    if got == want { return Ok(()); }
    let mut msg = format!("{} file lines, expected {}", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        if g.0 != w.0 || g.1 != w.1 || g.2.len() != w.2.len() { msg = format!("{:?} size {} with {} hashes, expected {:?} size {} with {}", g.0, g.1, g.2.len(), w.0, w.1, w.2.len()); break; }
        if let Some(i) = (0..g.2.len()).find(|&i| g.2[i] != w.2[i]) {
            msg = format!("{:?} block {}: hash {} but the block's {} digest is {}", g.0, i, hex(&g.2[i]), c.cfg.h.name(), hex(&w.2[i]));
            break;
        }
    }
    if c.cfg.h == H::B3 && got == files_of(entries(&t, H::B3, c.cfg.bad_b3())) { return cx.known("blake3-cumulative", &msg); }
    Err(format!("{} ({:?})", msg, c.cfg))
}

fn st(tier: Tier) -> BoxedStrategy<Case> {
    let len = if tier.thorough() { prop_oneof![6 => gens::edge_len(), 1 => 0u32..2_000_000].boxed() } else { gens::edge_len() };
    (prop::collection::vec((0u8..3, gens::content(len)), 1..6), gens::cfg(),
     prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(prop_oneof![1 => Just(0u16), 2 => 1u16..50, 3 => 50u16..9000], 1..6)])
        .prop_map(|(files, cfg, mut reads)| {
            // keep the number of reads reasonable for large files
            let total: u64 = files.iter().map(|f| f.1.len as u64).sum();
            let min = (total / 4000).min(8000) as u16;
            for r in reads.iter_mut() { if *r != 0 && *r < min { *r += min; } }
            Case { files, cfg, reads }
        }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in ALL_H {
        for threads in [0u16, 4] {
            let cfg = Cfg { h, threads, queue: None, progress: false };
            // every small size, every boundary, both equal and random blocks
            let small = (0..300).map(|n| (0, Content::new(n, 5))).collect();
            v.push(Case { files: small, cfg: cfg.clone(), reads: vec![] });
            for seed in 0..3 {
                let edges = (1..6u32).flat_map(|b| [b * 32768 - 1, b * 32768, b * 32768 + 1]).map(|n| (1, Content::new(n, seed))).collect();
                v.push(Case { files: edges, cfg: cfg.clone(), reads: vec![] });
            }
            for n in [1, 100, 32767, 32768] {
                v.push(Case { files: vec![(0, Content::new(n, 7))], cfg: cfg.clone(), reads: vec![0, 13, 4096] });
            }
        }
    }
    v
}
/// Files larger than 4 GiB (sparse).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large { f: Huge, h: H, threads: u16, only: Option<Tier> }
fn check_large(c: &Large, cx: &mut Cx) -> Res {
    use std::os::unix::fs::FileExt;
    if c.only.map_or(false, |t| t != cx.tier) { return Ok(()); }
    cx.long_case();
    let d = cx.fresh();
    let f = must(std::fs::File::create(d.join("huge")), "file");
    must(f.set_len(c.f.len), "sparse file");
    for (p, b) in &c.f.marks { must(f.write_all_at(&[*b], *p), "mark"); }
    drop(f);
    let cfg = Cfg { h: c.h, threads: c.threads, queue: None, progress: false };
    let r = scan_with(&d, &cfg, &Script::default());
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan failed: {}", e))?;
    cx.nontrivial(true);
    cx.class("file larger than 4 GiB");
    let got = files_of(read_strict(&out)?.ents);
    let want = |m| vec![(B::s("/huge"), c.f.len, c.f.hashes(c.h, 32768, m))];
    let good = want(B3::Correct);
    if got == good { return Ok(()); }
    let msg = format!("file of {} bytes ({:?}): {}", c.f.len, cfg, match got.get(0) {
        None => "not listed".into(),
        Some(g) if (g.1, g.2.len()) != (c.f.len, good[0].2.len()) => format!("size {} with {} hashes, expected {}", g.1, g.2.len(), good[0].2.len()),
        Some(g) => format!("block {:?} differs", (0..g.2.len()).find(|&i| g.2[i] != good[0].2[i])),
    });
    if c.h == H::B3 && got == want(B3::PerFile) { return cx.known("blake3-cumulative", &msg); }
    Err(msg)
}
fn large() -> Vec<Large> {
    let mut v = vec![];
    let g = 1u64 << 32;
    for (i, h) in [H::B2, H::Sha, H::B3].iter().enumerate() {
        for (j, threads) in [0u16, 3].iter().enumerate() {
            let f = Huge { len: g + 5 + 40_000 * i as u64, marks: vec![(0, 1), (g / 2 - 1, 2), (g / 2, 3), (g - 1, 4), (g, 5), (g + 4, 6)] };
            // two cases for every change, all of them in the thorough tier
            let quick = *h == H::B2;
            v.push(Large { f, h: *h, threads: *threads, only: if quick { None } else { Some(Tier::Thorough) } });
            if !quick { continue; }
            v.push(Large { f: Huge { len: 2 * g + 32768 * j as u64, marks: vec![(g + 7, 9), (2 * g - 1, 8)] }, h: *h, threads: *threads, only: Some(Tier::Thorough) });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C04", level: "exploration", rule: "a file of more than one block, or several files of which one is not empty",
        assumptions: &["block size is 32768 (ScannerConfig offers no other)", "short and interrupted reads injected by interposing read(2)"],
        parts: vec![part("blocks", [9000, 100_000], st, fixed, check), part("large", [0, 0], |_| Just(large().remove(0)).boxed(), large, check_large)],
    }
}
