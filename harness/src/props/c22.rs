//! Several roots are indexed as their union.
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Content, Node, Tree, B};
use crate::refsig::{self, B3};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{exact, exact_text, Cfg};
use dir_signature::{v1, Error, ScannerConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

fn mix(mut x: u64) -> u64 { x ^= x >> 33; x = x.wrapping_mul(0xff51_afd7_ed55_8ccd); x ^= x >> 33; x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53); x ^ (x >> 33) }
fn h(seed: u64, p: &B) -> u64 { mix(p.0.iter().fold(seed, |a, &b| (a ^ b as u64).wrapping_mul(0x100_0000_01b3))) }
/// Distributes a tree over the roots in `mask`; what is put in several roots is a directory, unless `dup`.
fn split(t: &Tree, seed: u64, mask: u32, dup: bool, out: &mut [Tree]) {
    let k = out.len();
    let members: Vec<usize> = (0..k).filter(|i| mask >> i & 1 == 1).collect();
    for (n, x) in t {
        let r = h(seed, n);
        match x {
            Node::Dir(sub, m) => {
                let mut mk = (r >> 8) as u32 & mask;
                if r % 3 == 0 { mk = mask; }
                if mk == 0 { mk = 1 << members[r as usize / 5 % members.len()]; }
                let mut parts = vec![Tree::new(); k];
                split(sub, r, mk, dup, &mut parts);
                for (i, p) in parts.into_iter().enumerate() { if mk >> i & 1 == 1 { out[i].insert(n.clone(), Node::Dir(p, *m)); } }
            }
            x => {
                out[members[r as usize / 5 % members.len()]].insert(n.clone(), x.clone());
                if dup && r % 2 == 0 { for i in &members { if r >> (20 + i) & 1 == 1 { out[*i].insert(n.clone(), x.clone()); } } }
            }
        }
    }
}
/// Root directories on disk in the order they are added.
fn materialise(cx: &mut Cx, parts: &[Tree], spell: u8) -> (PathBuf, Vec<PathBuf>) {
    let d = cx.fresh();
    let mut v = vec![];
    for (i, t) in parts.iter().enumerate() {
        let p = d.join(format!("r{}", i));
        crate::runner::must(std::fs::create_dir(&p), "root");
        crate::fsops::make_plain(&p, t);
        v.push(match spell % 3 { 0 => p, 1 => d.join(format!("r{}/", i)), _ => d.join(format!("./r{}/.", i)) });
    }
    (d, v)
}
const ROOTS: [&str; 4] = ["/", "//", "/.", "/./"];
fn run(cfg: &Cfg, dirs: &[(&Path, String)]) -> Result<Vec<u8>, Error> {
    let mut c: ScannerConfig = cfg.build();
    for (d, p) in dirs { c.add_dir(d, p); }
    let mut v = vec![];
    let r = v1::scan(&c, &mut v);
    crate::interpose::quiesce();
    r.map(|_| v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, k: u8, seed: u64, order: Vec<u16>, spell: u8, root: u8, cfg: Cfg }
fn ordered(n: usize, order: &[u16]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|&i| (order.get(i).cloned().unwrap_or(0), i));
    v
}
fn check(c: &Case, cx: &mut Cx) -> Res {
    let k = if c.k < 8 { (c.k % 4) as usize + 1 } else { c.k as usize % 24 + 5 };
    let mut parts = vec![Tree::new(); k];
    split(&c.t, c.seed, (1 << k) - 1, false, &mut parts);
    let mut shared = 0;
    walk(&c.t, &mut |p, n| if let Some(Node::Dir(..)) = n { if parts.iter().filter(|t| has(t, p)).count() > 1 { shared += 1 } });
    cx.nontrivial(parts.iter().filter(|t| !t.is_empty()).count() > 1);
    cx.class(["one root", "two roots", "three roots", "four roots", "many roots"][k.min(5) - 1]);
    cx.class_if(shared > 0, "directories shared by several roots");
    let (d, roots) = materialise(cx, &parts, c.spell);
    let ord = ordered(k, &c.order);
    let r = run(&c.cfg, &ord.iter().map(|&i| (&roots[i] as &Path, ROOTS[(c.root as usize + i) % 4].to_string())).collect::<Vec<_>>());
    let r2 = if k > 1 { run(&c.cfg, &ord.iter().rev().map(|&i| (&roots[i] as &Path, "/".to_string())).collect::<Vec<_>>()) } else { Ok(vec![]) };
    // without a root, or with one that is missing
    let none = run(&c.cfg, &[]);
    let gone = d.join("gone");
    let mut with_gone: Vec<(&Path, String)> = roots.iter().map(|r| (r as &Path, "/".to_string())).collect();
    with_gone.insert(c.seed as usize % (k + 1), (&gone, "/".into()));
    let missing = run(&c.cfg, &with_gone);
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan of {} roots failed: {}", k, e))?;
    exact(cx, &out, &c.t, &c.cfg).map_err(|m| format!("{} roots: {}", k, m))?;
    if k > 1 {
        let out2 = r2.map_err(|e| format!("scan of {} roots failed: {}", k, e))?;
        if out2 != out { return Err(format!("the order of the roots changes the signature: {}", refsig::diff(&out, &out2))); }
    }
    match none { Err(Error::NoRootDirectory) => {} r => return Err(format!("no directory at all: {:?}", r.map(|v| refsig::show(&v)))) }
    match missing { Err(Error::OpenDir(_)) => {} r => return Err(format!("a missing root: {:?}", r.map(|v| refsig::show(&v)))) }
    Ok(())
}
fn has(t: &Tree, p: &[u8]) -> bool {
    let mut t = t;
    for c in p.split(|&c| c == b'/').filter(|c| !c.is_empty()) { match t.get(&B(c.to_vec())) { Some(Node::Dir(k, _)) => t = k, _ => return false } }
    true
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { max: 30, top: 8, many: gens::MANY, ..TREE };
    (gens::tree(o), prop_oneof![10 => Just(0u8), 60 => 1u8..4, 2 => 8u8..], any::<u64>(), prop::collection::vec(any::<u16>(), 4), any::<u8>(), 0u8..4, gens::cfg())
        .prop_map(|(t, k, seed, order, spell, root, cfg)| Case { t, k, seed, order, spell, root, cfg }).boxed()
}

/// The same file in several roots.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dup { t: Tree, k: u8, seed: u64, cfg: Cfg }
fn check_dup(c: &Dup, cx: &mut Cx) -> Res {
    let k = (c.k % 3) as usize + 2;
    let mut parts = vec![Tree::new(); k];
    split(&c.t, c.seed, (1 << k) - 1, true, &mut parts);
    let (d, roots) = materialise(cx, &parts, 0);
    let r = run(&c.cfg, &roots.iter().map(|r| (r as &Path, "/".to_string())).collect::<Vec<_>>());
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan of {} roots failed: {}", k, e))?;
    // what the listed finding gives: one line per root
    let ents = refsig::entries(&c.t, c.cfg.h, B3::Correct);
    let mut dup = String::new();
    let mut dups = 0;
    for e in &ents {
        let n = if e.is_dir() { 1 } else { parts.iter().filter(|t| leaf(t, &e.path().0)).count() };
        if n > 1 { dups += 1; }
        for _ in 0..n { dup.push_str(&refsig::line(e)); }
    }
    cx.nontrivial(dups > 0);
    let good = refsig::body(&ents);
    let r = exact_text(cx, &out, &c.cfg, &good, String::new);
    if let Err(m) = r {
        exact_text(cx, &out, &c.cfg, &dup, String::new).map_err(|_| m.clone())?;
        cx.known("duplicate-lines", &m)?;
    }
    Ok(())
}
fn leaf(t: &Tree, p: &[u8]) -> bool {
    let v: Vec<&[u8]> = p.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect();
    let mut t = t;
    for c in &v[..v.len() - 1] { match t.get(&B(c.to_vec())) { Some(Node::Dir(k, _)) => t = k, _ => return false } }
    t.contains_key(&B(v[v.len() - 1].to_vec()))
}
fn st_dup(_: Tier) -> BoxedStrategy<Dup> {
    (gens::tree(TreeOpt { max: 16, top: 6, ..TREE }), any::<u8>(), any::<u64>(), gens::cfg())
        .prop_map(|(t, k, seed, mut cfg)| { if cfg.h == crate::digest::H::B3 { cfg.h = crate::digest::H::B2; } Dup { t, k, seed, cfg } }).boxed()
}

/// A directory under a prefix.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prefix { t: Tree, sub: Tree, prefix: Vec<B>, sp: u8, first: bool, cfg: Cfg }
fn check_prefix(c: &Prefix, cx: &mut Cx) -> Res {
    let (d, roots) = materialise(cx, &[c.t.clone(), c.sub.clone()], 0);
    let mut p = Vec::new();
    for n in &c.prefix { p.push(b'/'); if c.sp % 3 == 1 { p.push(b'/'); } p.extend_from_slice(&n.0); }
    if c.sp % 3 == 2 { p.push(b'/'); }
    let pre = B(p);
    let mut conf = c.cfg.build();
    if c.first { conf.add_dir(&roots[1], pre.path()); }
    conf.add_dir(&roots[0], "/");
    if !c.first { conf.add_dir(&roots[1], pre.path()); }
    let mut out = vec![];
    let r = v1::scan(&conf, &mut out);
    let mut alone = c.cfg.build();
    alone.add_dir(&roots[1], pre.path());
    let mut none = vec![];
    let only = v1::scan(&alone, &mut none);
    crate::interpose::quiesce();
    cx.cleanup(&d);
    match only { Err(Error::NoRootDirectory) => {} r => return Err(format!("no directory at / but the scan gives {:?}", r)) }
    r.map_err(|e| format!("scan failed: {}", e))?;
    let mut full = c.t.clone();
    {
        let mut at = &mut full;
        for n in &c.prefix {
            match at.entry(n.clone()).or_insert_with(Node::dir) { Node::Dir(k, _) => at = k, _ => return Ok(()) }
        }
        // conflicts are not specified
        for (n, x) in &c.sub { if at.contains_key(n) { return Ok(()); } at.insert(n.clone(), x.clone()); }
    }
    cx.nontrivial(true);
    cx.class_if(c.prefix.len() > 1, "prefix of several components");
    if let Err(m) = exact(cx, &out, &full, &c.cfg) {
        exact(cx, &out, &c.t, &c.cfg).map_err(|_| m.clone())?;
        cx.known("prefix-ignored", &m)?;
    }
    Ok(())
}
fn st_prefix(_: Tier) -> BoxedStrategy<Prefix> {
    let o = TreeOpt { max: 8, top: 4, ..TREE };
    (gens::tree(o), gens::tree(o), prop::collection::vec(gens::name(), 1..3), any::<u8>(), any::<bool>(), gens::cfg())
        .prop_map(|(t, sub, prefix, sp, first, cfg)| Prefix { t, sub, prefix, sp, first, cfg }).boxed()
}

/// Roots that overlap: any directories of one tree, also nested ones, the same one twice and symlinks to them.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nested { t: Tree, picks: Vec<u16>, links: u8, cfg: Cfg }
fn dirs_of(t: &Tree) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    walk(t, &mut |p, n| if let Some(Node::Dir(..)) = n { if p != b"/" { v.push(p.to_vec()) } });
    v
}
fn at<'a>(t: &'a Tree, p: &[u8]) -> &'a Tree {
    let mut t = t;
    for c in p.split(|&c| c == b'/').filter(|c| !c.is_empty()) { match &t[&B(c.to_vec())] { Node::Dir(k, _) => t = k, _ => unreachable!() } }
    t
}
/// None if something but a directory occurs twice.
fn union(into: &mut Tree, t: &Tree) -> Option<()> {
    for (n, x) in t {
        match (into.get_mut(n), x) {
            (None, x) => { into.insert(n.clone(), x.clone()); }
            (Some(Node::Dir(a, _)), Node::Dir(b, _)) => union(a, b)?,
            (Some(Node::Fifo), Node::Fifo) | (Some(Node::Sock), Node::Sock) => {}
            _ => return None,
        }
    }
    Some(())
}
fn check_nested(c: &Nested, cx: &mut Cx) -> Res {
    let ds = dirs_of(&c.t);
    let mut want = Tree::new();
    let mut used = vec![];
    for p in &c.picks {
        let d = &ds[*p as usize % ds.len()];
        let mut w = want.clone();
        if union(&mut w, at(&c.t, d)).is_some() { want = w; used.push(d.clone()); }
    }
    if used.is_empty() { return Ok(()); }
    cx.nontrivial(used.iter().any(|a| used.iter().any(|b| b.len() > a.len() && b.starts_with(a) && !at(&c.t, b).is_empty())));
    cx.class_if((0..used.len()).any(|i| used[..i].contains(&used[i])), "the same directory twice");
    let (d, roots) = materialise(cx, &[c.t.clone()], 0);
    let mut paths = vec![];
    for (i, u) in used.iter().enumerate() {
        let p = roots[0].join(B(u.iter().skip(1).cloned().collect()).path());
        if c.links >> (i % 8) & 1 == 1 {
            let l = d.join(format!("l{}", i));
            crate::runner::must(std::os::unix::fs::symlink(&p, &l), "link to a root");
            paths.push(l);
        } else { paths.push(p); }
    }
    let r = run(&c.cfg, &paths.iter().map(|r| (r as &Path, "/".to_string())).collect::<Vec<_>>());
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan of the roots {:?} failed: {}", paths, e))?;
    exact(cx, &out, &want, &c.cfg).map_err(|m| format!("roots {:?}: {}", used.iter().map(|u| B(u.clone())).collect::<Vec<_>>(), m))
}
fn st_nested(_: Tier) -> BoxedStrategy<Nested> {
    let o = TreeOpt { max: 24, top: 6, ..TREE };
    (gens::tree(o), prop::collection::vec(any::<u16>(), 1..6), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], gens::cfg())
        .prop_map(|(t, picks, links, cfg)| Nested { t, picks, links, cfg }).boxed()
}

/// Small exhaustive splits: two files, a shared directory, every assignment.
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let f = |n| Node::File(Content::new(n, 3), 0o644);
    let mut k = Tree::new();
    k.insert(B::s("x"), f(1));
    k.insert(B::s("y"), f(2));
    k.insert(B::s("z"), Node::Dir(k.clone(), 0o755));
    let mut t = Tree::new();
    t.insert(B::s("a"), f(3));
    t.insert(B::s("a.b"), Node::Dir(k.clone(), 0o755));
    t.insert(B::s("d"), Node::Dir(k, 0o755));
    t.insert(B::s("l"), Node::Link(B::s("a")));
    for seed in 0..60 {
        for h in crate::digest::ALL_H {
            v.push(Case { t: t.clone(), k: 1 + (seed % 3) as u8, seed, order: vec![], spell: 0, root: 0, cfg: Cfg { h, threads: (seed % 2 * 3) as u16, queue: None, progress: false } });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C22", level: "exploration",
        rule: "content in at least two roots (split); one root inside of another (nested); a file or symlink in at least two roots (dup); the prefix does not collide with the other root (prefix)",
        assumptions: &["different files or types under one path in several roots are not specified", "blake3 block hash values are left to C04"],
        parts: vec![part("split", [16_000, 200_000], st, fixed, check), part("dup", [5000, 50_000], st_dup, || vec![], check_dup), part("nested", [8000, 80_000], st_nested, || vec![], check_nested), part("prefix", [5000, 50_000], st_prefix, || vec![], check_prefix)],
    }
}
