//! Merging accepts exactly signatures of one hash type and block size.
use crate::digest::{hex, H, ALL_H};
use crate::docs::{doc_of, real_ent, Doc};
use crate::model::Tree;
use crate::props::c12::{edit, edits, Edit};
use crate::refsig::{read_header, Ent};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use dir_signature::v1::{merge::{FileMergeBuilder, MergeError, MergedSignatures}, Entry, EntryKind, ParseError, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufRead;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { heads: Vec<(H, u64)> }
fn text(h: H, bs: u64) -> Vec<u8> { format!("DIRSIGNATURE.v1 {} block_size={}\n/\n{}\n", h.name(), bs, hex(&[7; 32])).into_bytes() }

fn expect<T>(heads: &[(H, u64)], r: &Result<T, MergeError>) -> Res {
    let hs: Vec<_> = heads.iter().map(|x| x.0.real()).collect();
    let bs: Vec<_> = heads.iter().map(|x| x.1).collect();
    let same_h = hs.windows(2).all(|w| w[0] == w[1]);
    let same_b = bs.windows(2).all(|w| w[0] == w[1]);
    let ok = match r {
        Ok(_) => same_h && same_b,
        Err(MergeError::HashTypesMismatch(v)) => !same_h && *v == hs,
        Err(MergeError::BlockSizesMismatch(v)) => same_h && !same_b && *v == bs,
        Err(_) => false,
    };
    if ok { Ok(()) } else { Err(format!("merging headers {:?}: {:?}", heads, r.as_ref().map(|_| "accepted").map_err(|e| format!("{:?}", e)))) }
}
fn check(c: &Case, cx: &mut Cx) -> Res {
    let texts: Vec<Vec<u8>> = c.heads.iter().map(|x| text(x.0, x.1)).collect();
    let mut ps = vec![];
    for t in &texts { ps.push((0, Parser::new(&t[..]).map_err(|e| e.to_string())?)); }
    let r = MergedSignatures::new(ps);
    cx.nontrivial(c.heads.len() >= 2);
    cx.class(match &r { Ok(_) => "accepted", Err(MergeError::HashTypesMismatch(_)) => "hash types differ", _ => "block sizes differ" });
    expect(&c.heads, &r)
}
fn head() -> BoxedStrategy<(H, u64)> {
    (prop_oneof![3 => Just(H::Sha), 1 => prop::sample::select(ALL_H.to_vec())], prop_oneof![4 => Just(32768u64), 1 => prop::sample::select(vec![1u64, 32767, 32768 + (1 << 32), (1 << 32) - 1, 0x8000_0000_0000_8000, u64::MAX]), 1 => crate::dict::near(1, u64::MAX, 32768)]).boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> { prop_oneof![20 => prop::collection::vec(head(), 0..6), 1 => (prop_oneof![6usize..300, crate::dict::near(2, 2000, 1).prop_map(|n| n as usize)], head(), prop::option::of((any::<u16>(), head()))).prop_map(|(n, h, odd)| {
    let mut v = vec![h; n];
    if let Some((i, x)) = odd { v[i as usize % n] = x; }
    v
})].prop_map(|heads| Case { heads }).boxed() }
fn fixed() -> Vec<Case> {
    // all lists of up to three headers over all hash types and two block sizes
    let mut all = vec![];
    for h in ALL_H { for b in [32768u64, 32769] { all.push((h, b)); } }
    let mut v = vec![Case { heads: vec![] }];
    for a in &all { v.push(Case { heads: vec![*a] }); for b in &all { v.push(Case { heads: vec![*a, *b] }); for c in &all { v.push(Case { heads: vec![*a, *b, *c] }); } } }
    v
}

// ------------------------------------------------------------------------------------------ by path

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src { Doc(Doc), Edited(Doc, Vec<Edit>), Missing, Directory, Empty, Dangling,
    /// an earlier path again, under its own key or the earlier one
    Again(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Files { srcs: Vec<Src>, adv: Vec<(bool, u16)>,
    /// bases exist and hold other signatures of the same names; the paths are absolute (0, 1) or relative to the working directory
    #[serde(default)] place: u8 }

type Out = Vec<Vec<(PathBuf, Result<Ent, String>)>>;
fn conv(g: Vec<(&PathBuf, Result<Entry, ParseError>)>) -> Vec<(PathBuf, Result<Ent, String>)> {
    g.into_iter().map(|(k, e)| (k.clone(), e.map(|e| real_ent(&e)).map_err(|e| e.to_string()))).collect()
}
fn drain<R: BufRead>(m: &mut MergedSignatures<PathBuf, R>, c: &Files, limit: usize) -> Result<Out, String> {
    let mut v = vec![];
    let mut it = m.iter();
    for (next, i) in &c.adv {
        if *next { v.push(it.next().map(conv).unwrap_or_default()) } else {
            let p = ["/", "/a", "/b", "/a/b", "/a.", "/b/a"][*i as usize % 6];
            let k = if *i & 64 == 0 || p == "/" { EntryKind::Dir(Path::new(p)) } else { EntryKind::File(Path::new(p)) };
            v.push(conv(it.advance(&k)));
        }
    }
    while let Some(g) = it.next() { v.push(conv(g)); if v.len() > limit { return Err("merged iteration does not end".into()); } }
    Ok(v)
}

fn check_files(c: &Files, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    if c.place > 1 { must(std::env::set_current_dir(&d), "cd"); }
    let r = files(c, cx, &d);
    if c.place > 1 { must(std::env::set_current_dir("/"), "cd /"); }
    cx.cleanup(&d);
    r
}
fn files(c: &Files, cx: &mut Cx, d: &Path) -> Res {
    let mut b = FileMergeBuilder::new();
    let mut contents: Vec<Option<Vec<u8>>> = vec![];
    let mut bases: Vec<PathBuf> = vec![];
    let mut paths: Vec<PathBuf> = vec![];
    let mut srcs: Vec<&Src> = vec![];
    cx.class_if(c.place > 1, "relative paths");
    let base_of = |i: usize| {
        let n = format!("base/{}", i * 5 % 7);
        match c.place { 0 => PathBuf::from(format!("/{}", n)), 1 | 2 => d.join(n), _ => PathBuf::from(n) }
    };
    for (i, s) in c.srcs.iter().enumerate() {
        if let (Src::Again(j), true) = (s, i > 0) {
            cx.class("a path added twice");
            let n = *j as usize % i;
            let base = if *j < 128 { bases[n].clone() } else { base_of(i) };
            b.add(&base, &paths[n]);
            contents.push(contents[n].clone());
            bases.push(base);
            paths.push(paths[n].clone());
            srcs.push(srcs[n]);
            continue;
        }
        let n = format!("sig{}", i);
        let p = match c.place { 0 | 1 => d.join(n), 2 | 3 => PathBuf::from(n), _ => Path::new("./base/..").join(n) };
        paths.push(p.clone());
        srcs.push(s);
        let base = base_of(i);
        if c.place > 0 {
            // a decoy
            must(std::fs::create_dir_all(&base), "mkdir");
            must(std::fs::write(base.join(p.file_name().unwrap()), "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n/decoy\n"), "write");
        }
        let t = match s {
            Src::Doc(x) => Some(x.text()),
            Src::Edited(x, e) => { let mut t = x.text(); for e in e { edit(&mut t, e, x.bs); } Some(t) }
            Src::Empty | Src::Again(_) => Some(vec![]),
            _ => None,
        };
        match (s, &t) {
            (Src::Directory, _) => must(std::fs::create_dir(&p), "mkdir"),
            (Src::Dangling, _) => must(std::os::unix::fs::symlink("nowhere", &p), "symlink"),
            (_, Some(t)) => must(std::fs::write(&p, t), "write"),
            _ => {}
        }
        if i % 2 == 0 { b.add(&base, &p); } else { b.add(base.to_str().unwrap(), p.to_str().unwrap()); }
        contents.push(t);
        bases.push(base);
    }
    let r = b.finalize();
    // the first bad one, in order, decides
    let mut heads = vec![];
    for (i, t) in contents.iter().enumerate() {
        match (srcs[i], t) {
            (Src::Missing, _) | (Src::Dangling, _) => {
                cx.class("missing file");
                return match r { Err(MergeError::Io(..)) => Ok(()), r => Err(format!("signature {} is missing: {:?}", i, r.map(|_| "accepted"))) };
            }
            (Src::Directory, _) => {
                cx.class("directory instead of a file");
                return match r { Err(MergeError::Io(..)) | Err(MergeError::Parse(_)) => Ok(()), r => Err(format!("signature {} is a directory: {:?}", i, r.map(|_| "accepted"))) };
            }
            (_, Some(t)) => {
                let hd = t.iter().position(|&c| c == b'\n').ok_or(true).and_then(|n| read_header(&t[..n]));
                match hd {
                    Ok(h) => heads.push(h),
                    Err(true) => {
                        cx.class("invalid header");
                        return match r { Err(MergeError::Parse(_)) => Ok(()), r => Err(format!("signature {} has an invalid header: {:?}", i, r.map(|_| "accepted"))) };
                    }
                    Err(false) => { cx.class("header left open"); return Ok(()); }
                }
            }
            _ => unreachable!(),
        }
    }
    expect(&heads, &r)?;
    cx.class(if r.is_ok() { "merged by path" } else { "headers differ" });
    let mut byfile = match r { Ok(m) => m, Err(_) => return Ok(()) };
    let mut ps = vec![];
    for (base, t) in bases.iter().zip(&contents) { ps.push((base.clone(), Parser::new(&t.as_ref().unwrap()[..]).map_err(|e| e.to_string())?)); }
    let mut bytext = MergedSignatures::new(ps).map_err(|e| format!("merging the contents fails: {}", e))?;
    let limit = contents.iter().map(|t| t.as_ref().unwrap().len()).sum::<usize>() + 50;
    let (a, b) = (drain(&mut byfile, c, limit)?, drain(&mut bytext, c, limit)?);
    cx.nontrivial(c.srcs.len() >= 2 && b.iter().any(|g| g.len() >= 2));
    if a != b {
        let i = (0..).find(|&i| a.get(i) != b.get(i)).unwrap();
        return Err(format!("merging by path differs from merging the contents at step {}: {:?}, expected {:?}", i, a.get(i), b.get(i)));
    }
    Ok(())
}
fn st_files(_: Tier) -> BoxedStrategy<Files> {
    (super::c14::tree(), prop::collection::vec((prop_oneof![30 => Just(0u8), 4 => Just(1), 1 => Just(2), 1 => Just(3), 1 => Just(4), 1 => Just(5), 3 => 128u8..], doc_of(Just(Tree::new()).boxed()), prop::collection::vec(edits(), 1..2), prop::bool::weighted(0.03)), 0..5),
     crate::gens::any_h(), crate::docs::block_size(), prop::collection::vec((prop::bool::ANY, any::<u16>()), 0..6), prop_oneof![6 => Just(0u8), 2 => 1u8..5]).prop_map(|(t, v, h, bs, adv, place)| {
        let srcs = v.into_iter().map(|(k, mut d, e, odd)| {
            d.t = t.clone();
            if !odd { d.h = h; d.bs = bs; }
            match k { 0 => Src::Doc(d), 1 => Src::Edited(d, e), 2 => Src::Missing, 3 => Src::Directory, 4 => Src::Empty, 5 => Src::Dangling, j => Src::Again(j.wrapping_mul(77)) }
        }).collect();
        Files { srcs, adv, place }
    }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C17", level: "exploration", rule: "at least two signatures (headers); merged by path with groups of several entries (files)",
        assumptions: &["a directory given as a signature file may count as unopenable or as invalid"],
        parts: vec![part("headers", [100_000, 500_000], st, fixed, check), part("files", [40_000, 500_000], st_files, || vec![], check_files)],
    }
}
