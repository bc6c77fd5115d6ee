//! Auditing a directory against its signature finds exactly the changes.
use crate::digest::H;
use crate::docs::{bytes, real_ent};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{Content, Node, Tree, B};
use crate::props::c07::{apply, mutation, Mut};
use crate::refsig::{entries, Ent, Hasher, B3, BS};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::v1::{merge::MergedSignatures, Entry, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

type Paths = BTreeSet<B>;
fn map(v: &[Ent]) -> BTreeMap<B, Ent> { v.iter().map(|e| (e.path().clone(), e.clone())).collect() }
fn changed(a: &[Ent], b: &[Ent]) -> Paths {
    let (a, b) = (map(a), map(b));
    a.keys().chain(b.keys()).filter(|p| a.get(*p) != b.get(*p)).cloned().collect()
}

/// Verifies the files below `dir` against the signature, with the public interface only.
fn audit(dir: &Path, sig: &[u8]) -> Result<Paths, String> {
    let mut bad = Paths::new();
    let mut seen = Paths::new();
    let mut p = Parser::new(sig).map_err(|e| format!("parse: {}", e))?;
    for e in p.iter() {
        let e = e.map_err(|e| format!("parse: {}", e))?;
        let path = match &e { Entry::Dir(p) | Entry::Link(p, _) => p, Entry::File { path, .. } => path }.clone();
        let real = dir.join(path.strip_prefix("/").map_err(|_| format!("{:?} is not absolute", path))?);
        if !seen.insert(bytes(&path)) { return Err(format!("{:?} is in the signature twice", path)); }
        let ok = match std::fs::symlink_metadata(&real) {
            Err(_) => false,
            Ok(m) => match &e {
                Entry::Dir(_) => m.is_dir(),
                Entry::Link(_, t) => m.file_type().is_symlink() && bytes(&must(std::fs::read_link(&real), "readlink")) == bytes(t),
                Entry::File { exe, size, hashes, .. } => m.is_file() && {
                    let yes = hashes.check_file(must(std::fs::File::open(&real), "open")).map_err(|e| format!("check_file: {}", e))?;
                    // hashes alone tell a file of another length
                    if yes && m.len() != *size { return Err(format!("{:?} had {} bytes, now it has {} and check_file takes it for the same", path, size, m.len())); }
                    yes && m.len() == *size && (m.permissions().mode() & 0o100 != 0) == *exe
                },
            },
        };
        if !ok { bad.insert(bytes(&path)); }
    }
    fn list(d: &Path, at: &Path, seen: &Paths, bad: &mut Paths) {
        for e in must(std::fs::read_dir(d), "list") {
            let e = must(e, "list");
            let t = must(e.file_type(), "type");
            let p = at.join(e.file_name());
            if !(t.is_dir() || t.is_file() || t.is_symlink()) { continue; }
            if !seen.contains(&bytes(&p)) { bad.insert(bytes(&p)); }
            if t.is_dir() { list(&e.path(), &p, seen, bad); }
        }
    }
    list(dir, Path::new("/"), &seen, &mut bad);
    Ok(bad)
}
/// Compares two signatures by merging them.
fn compare(a: &[u8], b: &[u8]) -> Result<Paths, String> {
    let ps = vec![(0u8, Parser::new(a).map_err(|e| e.to_string())?), (1u8, Parser::new(b).map_err(|e| e.to_string())?)];
    let mut m = MergedSignatures::new(ps).map_err(|e| e.to_string())?;
    let mut bad = Paths::new();
    let mut it = m.iter();
    while let Some(v) = it.next() {
        let mut es = vec![];
        for (k, e) in v { es.push((*k, e.map_err(|e| format!("merge: {}", e))?)); }
        let same = es.len() == 2 && es[0].0 != es[1].0 && es[0].1 == es[1].1 && real_ent(&es[0].1) == real_ent(&es[1].1);
        if !same { bad.insert(real_ent(&es[0].1).path().clone()); }
    }
    Ok(bad)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, muts: Vec<Mut>, cfg: Cfg }
fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut t2 = c.t.clone();
    for m in &c.muts { apply(&mut t2, m); }
    let h = c.cfg.h;
    let (e1, e2) = (entries(&c.t, h, B3::Correct), entries(&t2, h, B3::Correct));
    let want = changed(&e1, &e2);
    cx.nontrivial(!want.is_empty());
    cx.class_if(want.is_empty(), "unchanged");
    cx.class_if(want.len() > 1, "several paths changed");
    cx.class_if(c.cfg.threaded(), "threaded scan");
    let (d1, d2) = (cx.fresh(), cx.fresh());
    crate::fsops::make_plain(&d1, &c.t);
    crate::fsops::make_plain(&d2, &t2);
    let r = (|| -> Result<(Paths, Paths, Paths, Paths), String> {
        let (s1, s2) = (scan_ok(&d1, &c.cfg)?, scan_ok(&d2, &c.cfg)?);
        Ok((audit(&d1, &s1)?, audit(&d2, &s1)?, compare(&s1, &s2)?, compare(&s1, &s1)?))
    })();
    cx.cleanup(&d1);
    cx.cleanup(&d2);
    let (own, got, merged, none) = r?;
    // what the listed finding gives instead
    let bad1 = entries(&c.t, h, c.cfg.bad_b3());
    let sim_audit = |t: &Tree| -> Paths {
        let cur = map(&entries(t, h, B3::PerFile));
        let orig = map(&bad1);
        orig.keys().chain(cur.keys()).filter(|p| orig.get(*p) != cur.get(*p)).cloned().collect()
    };
    let mut judge = |what: &str, got: &Paths, want: &Paths, sim: &dyn Fn() -> Paths| -> Res {
        if got == want { return Ok(()); }
        let m = format!("{} ({:?}): reported {:?}, {}", what, c.cfg, got,
            if want.is_empty() { "but nothing changed".into() } else { format!("changed are {:?}", want) });
        if h == H::B3 && *got == sim() { return cx.known("blake3-cumulative", &m); }
        Err(m)
    };
    let nothing = Paths::new();
    judge("audit of the unchanged directory", &own, &nothing, &|| sim_audit(&c.t))?;
    judge("audit after the changes", &got, &want, &|| sim_audit(&t2))?;
    judge("comparison of the two signatures", &merged, &want, &|| changed(&bad1, &entries(&t2, h, c.cfg.bad_b3())))?;
    judge("comparison of a signature with itself", &none, &nothing, &|| nothing.clone())?;
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, specials: true, max: 14, top: 6, many: gens::MANY, ..TREE };
    (gens::tree(o), prop::collection::vec(mutation(), 0..5), gens::cfg()).prop_map(|(t, muts, cfg)| Case { t, muts, cfg }).boxed()
}
/// Each byte class of multi-block files changed, with sizes kept.
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in [0, 2] {
            let mut t = Tree::new();
            for (i, n) in [0u32, 1, 32767, 32768, 32769, 98304].iter().enumerate() { t.insert(B::s(&format!("f{}", i)), Node::File(Content::new(*n, 3), 0o644)); }
            for pos in [0u32, 32767, 32768, 65535, 98303] {
                v.push(Case { t: t.clone(), muts: vec![Mut::Flip(5, pos, 1)], cfg: Cfg { h, threads, queue: None, progress: false } });
            }
            let mut t16 = t.clone();
            t16.insert(B::s("f9"), Node::File(Content::new(16 * 32768 - 7, 4), 0o644));
            for b in 0..16 { v.push(Case { t: t16.clone(), muts: vec![Mut::Flip(6, b * 32768 + 77, 1)], cfg: Cfg { h, threads, queue: None, progress: false } }); }
            for m in [Mut::Append(3, 0), Mut::Truncate(3, 32767), Mut::Truncate(5, 65536), Mut::Swap(1, 2), Mut::Exec(0), Mut::Append(0, 0)] {
                v.push(Case { t: t.clone(), muts: vec![m], cfg: Cfg { h, threads, queue: None, progress: false } });
            }
        }
    }
    v
}
/// The audit's own arithmetic is not what is checked: the simulation of the listed finding must agree with the block hasher.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Copies { a: Content, b: Content, n: u8, cfg: Cfg }
fn check_copies(c: &Copies, cx: &mut Cx) -> Res {
    // many files sharing blocks: what one file contains must not influence the verdict on another
    let mut t = Tree::new();
    for i in 0..c.n as u32 % 12 + 2 { t.insert(B::s(&format!("f{:02}", i)), Node::File(if i % 2 == 0 { c.a.clone() } else { c.b.clone() }, 0o644)); }
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &t);
    let r = scan_ok(&d, &c.cfg).and_then(|s| audit(&d, &s));
    cx.cleanup(&d);
    let got = r?;
    cx.nontrivial(c.a.len > 0 || c.b.len > 0);
    if got.is_empty() { return Ok(()); }
    let m = format!("nothing changed, but {:?} reported ({:?})", got, c.cfg);
    if c.cfg.h == H::B3 && !c.cfg.threaded() {
        let orig = map(&entries(&t, H::B3, B3::PerScan));
        let mut sim = Paths::new();
        for (p, e) in &orig {
            if let Ent::File { hashes, .. } = e {
                let data = match &t[&B(p.0[1..].to_vec())] { Node::File(ct, _) => ct.bytes(), _ => unreachable!() };
                if Hasher::new(H::B3, B3::PerFile).file(&data, BS) != *hashes { sim.insert(p.clone()); }
            }
        }
        if sim == got { return cx.known("blake3-cumulative", &m); }
    }
    Err(m)
}
fn st_copies(_: Tier) -> BoxedStrategy<Copies> {
    (gens::content(gens::edge_len()), gens::content(gens::edge_len()), any::<u8>(), gens::cfg()).prop_map(|(a, b, n, cfg)| Copies { a, b, n, cfg }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C24", level: "exploration", rule: "some path was changed, added or removed (audit); some file is not empty (copies)",
        assumptions: &["collision resistance of the digests", "special files are outside of signatures and of the audit"],
        parts: vec![part("audit", [12_000, 150_000], st, fixed, check), part("copies", [800, 6000], st_copies, || vec![], check_copies)],
    }
}
