//! The parser returns exactly the entries of a well-formed signature.
use crate::digest::H;
use crate::docs::{big_doc, doc, real_ent, Doc};
use crate::model::{Content, Node, Tree, B};
use crate::readers::{Chunky, Plan};
use crate::refsig::Ent;
use crate::runner::{part, Cx, Prop, Res, Tier};
use dir_signature::v1::{Entry, EntryKind, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Read, Seek, SeekFrom};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { d: Doc, plan: Plan, plan2: Plan }

fn accessors(e: &Entry, want: &Ent, d: &Doc) -> Res {
    let ctx = |m: String| Err(format!("{} for {:?}", m, want));
    if e.path() != want.path().path() { return ctx(format!("path() is {:?}", e.path())); }
    let k = e.kind();
    let good = match &k { EntryKind::Dir(p) => want.is_dir() && *p == e.path(), EntryKind::File(p) => !want.is_dir() && *p == e.path() };
    if !good { return ctx(format!("kind() is {:?}", k)); }
    if k.path() != e.path() || k.as_ref() != k || k.cloned().as_ref() != k { return ctx(format!("kind accessors disagree on {:?}", k)); }
    if let (Entry::File { hashes, size, .. }, Ent::File { hashes: w, .. }) = (e, want) {
        if hashes.len() != w.len() { return ctx(format!("len() is {}", hashes.len())); }
        let n = (*size / d.bs + (*size % d.bs != 0) as u64) as usize;
        if hashes.len() != n { return ctx(format!("len() is {} for {} bytes", hashes.len(), size)); }
        if hashes.block_size() != d.bs { return ctx(format!("block_size() is {}", hashes.block_size())); }
        if hashes.hash_type() != d.h.real() { return ctx(format!("hash_type() is {:?}", hashes.hash_type())); }
        for (i, x) in w.iter().enumerate() {
            if hashes.get(i) != Some(&x[..]) { return ctx(format!("get({}) is {:?}", i, hashes.get(i))); }
        }
        for i in [w.len(), w.len() + 1, w.len() * 32, usize::MAX / 32, usize::MAX / 32 + 1, usize::MAX - 1, usize::MAX, 1 << 59, 1 << 60] {
            if hashes.get(i).is_some() { return ctx(format!("get({}) is not None", i)); }
        }
        let mut it = hashes.iter();
        for (i, x) in w.iter().enumerate() {
            if it.next() != Some(&x[..]) { return ctx(format!("iteration differs at {}", i)); }
        }
        if it.next().is_some() || it.next().is_some() { return ctx("iteration goes on after the last hash".into()); }
    }
    Ok(())
}

fn parse<R: BufRead>(p: &mut Parser<R>, d: &Doc, ents: &[Ent]) -> Res {
    let h = p.get_header();
    if h.get_version() != "v1" || h.get_hash_type() != d.h.real() || h.get_block_size() != d.bs { return Err(format!("wrong header: {:?}", h)); }
    let mut it = p.iter();
    for (i, w) in ents.iter().enumerate() {
        match it.next() {
            Some(Ok(e)) => {
                let g = real_ent(&e);
                if g != *w { return Err(format!("entry {}: expected {:?}, got {:?}", i, w, g)); }
                accessors(&e, w, d)?;
            }
            Some(Err(e)) => return Err(format!("entry {} ({:?}): {}", i, w, e)),
            None => return Err(format!("ended before entry {} of {}", i, ents.len())),
        }
    }
    for k in 0..3 {
        if let Some(r) = it.next() { return Err(format!("item after the end (call {}): {:?}", k, r.map(|e| real_ent(&e)).map_err(|e| e.to_string()))); }
    }
    if it.advance(&EntryKind::Dir(Path::new("/"))).is_some() || it.advance(&EntryKind::File(Path::new("/zz/zz"))).is_some() { return Err("advance gives an item after the end".into()); }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let (text, ents) = (c.d.text(), c.d.ents());
    let nt = c.d.class(cx);
    cx.nontrivial(nt);
    cx.class_if(!c.plan.trivial() || c.plan.buf < 80, "reads split");
    let mut p = Parser::new(&text[..]).map_err(|e| format!("from a slice: {}", e))?;
    parse(&mut p, &c.d, &ents).map_err(|m| format!("from a slice: {}", m))?;
    if !p.into_reader().is_empty() { return Err("parser did not consume the whole signature".into()); }
    let ctx = |m: String| format!("reads as {:?}: {}", c.plan, m);
    let mut p = Parser::new(Chunky::new(text.clone(), &c.plan).buffered(&c.plan)).map_err(|e| ctx(e.to_string()))?;
    parse(&mut p, &c.d, &ents).map_err(ctx)?;
    // partly read, then taken back, rewound and read again
    let mut p = Parser::new(Chunky::new(text.clone(), &c.plan2).buffered(&c.plan2)).map_err(|e| format!("{:?}: {}", c.plan2, e))?;
    let n = c.d.salt as usize % (ents.len() + 1);
    for (w, e) in ents.iter().zip(p.iter()).take(n) {
        if e.as_ref().map(real_ent).ok().as_ref() != Some(w) { return Err(format!("{:?}: expected {:?}, got {:?}", c.plan2, w, e)); }
    }
    let mut r = p.into_reader();
    r.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
    let mut first = [0u8; 4];
    loop { match r.read_exact(&mut first) { Ok(()) => break, Err(e) if e.kind() == std::io::ErrorKind::Interrupted => r.seek(SeekFrom::Start(0)).map(drop).map_err(|e| e.to_string())?, Err(e) => return Err(e.to_string()) } }
    if &first != b"DIRS" { return Err("reader given back by into_reader is not the original one".into()); }
    r.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
    let mut p = Parser::new(r).map_err(|e| format!("second pass: {}", e))?;
    parse(&mut p, &c.d, &ents).map_err(|m| format!("second pass: {}", m))
}

fn st(_: Tier) -> BoxedStrategy<Case> {
    (big_doc(), crate::gens::plan(), crate::gens::plan()).prop_map(|(d, plan, plan2)| Case { d, plan, plan2 }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let base = |t: Tree, h: H, bs: u64| Doc { t, h, bs, attrs: vec![], salt: 7, mask: 0, empty: false };
    for h in crate::digest::ALL_H {
        // every byte in names and targets
        let mut t = Tree::new();
        for b in 1..=255u8 { if b != b'/' && b != b'.' {
            t.insert(B(vec![b]), Node::File(Content::new(b as u32, 2), 0o644));
            t.insert(B(vec![b'l', b]), Node::Link(B(vec![b])));
            let mut k = Tree::new();
            k.insert(B(vec![b, b]), Node::File(Content::new(1, 2), 0o755));
            t.insert(B(vec![b'd', b]), Node::Dir(k, 0o755));
        } }
        v.push(Case { d: base(t, h, 32768), plan: Plan { chunks: vec![3, 0, 1, 200], buf: 16 }, plan2: Plan { chunks: vec![], buf: 8192 } });
        for bs in [1u64, 2, 32768, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX] {
            let mut t = Tree::new();
            for n in 0..40u32 { t.insert(B::s(&format!("f{}", n)), Node::File(Content::new(n, 2), 0o644)); }
            v.push(Case { d: base(t, h, bs), plan: Plan { chunks: vec![1], buf: 1 }, plan2: Plan { chunks: vec![0, 5], buf: 7 } });
        }
    }
    // a file with very many hashes and a very long path
    let mut t = crate::gens::deep(40, 255, Node::dir());
    t.insert(B(vec![0xff; 255]), Node::Link(B(vec![b' '; 4000])));
    v.push(Case { d: base(t, H::B3, 1), plan: Plan { chunks: vec![4096], buf: 100 }, plan2: Plan { chunks: vec![], buf: 1 } });
    v
}
/// Lines and signatures of any length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase { l: crate::docs::Long, plan: Plan }
fn check_long(c: &LongCase, cx: &mut Cx) -> Res {
    let (text, ents) = (c.l.text(), c.l.ents());
    let nt = c.l.class(cx);
    cx.nontrivial(nt);
    let d = Doc { t: Tree::new(), h: c.l.h, bs: c.l.bs, attrs: vec![], salt: 0, mask: 0, empty: false };
    let mut p = Parser::new(&text[..]).map_err(|e| format!("from a slice: {}", e))?;
    parse(&mut p, &d, &ents).map_err(|m| format!("from a slice: {}", m))?;
    let mut p = Parser::new(Chunky::new(text, &c.plan).buffered(&c.plan)).map_err(|e| e.to_string())?;
    parse(&mut p, &d, &ents).map_err(|m| format!("reads as {:?}: {}", c.plan, m))
}
fn st_long(_: Tier) -> BoxedStrategy<LongCase> { (crate::docs::long(), crate::gens::plan()).prop_map(|(l, plan)| LongCase { l, plan }).boxed() }
fn fixed_long() -> Vec<LongCase> {
    crate::docs::long_fixed().into_iter().map(|l| LongCase { l, plan: Plan { chunks: vec![0, 7000, 300], buf: 4096 } }).collect()
}
pub fn prop() -> Prop {
    Prop {
        id: "C11", level: "exploration", rule: "the signature has at least two entries (doc); some length exceeds 1000 (long)",
        assumptions: &["block size 0 and header fields without '=' are left open by the format and not generated"],
        parts: vec![part("doc", [80_000, 1_500_000], st, fixed, check), part("long", [500, 8000], st_long, fixed_long, check_long)],
    }
}
