//! A scan lists exactly what is in the directory tree.
use crate::fsops;
use crate::gens::{self, TREE, TreeOpt};
use crate::interpose::Script;
use crate::model::{walk, Content, Node, Tree, B};
use crate::refsig::{read_strict, Ent};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_with, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, cfg: Cfg, unknown: bool, permute: u64 }

/// type, exact path, size, executable, target
type Row = (char, B, u64, bool, B);

fn want(t: &Tree) -> BTreeSet<Row> {
    let mut s = BTreeSet::new();
    walk(t, &mut |p, n| {
        let p = B(p.to_vec());
        match n {
            None | Some(Node::Dir(..)) => { s.insert(('d', p, 0, false, B::default())); }
            Some(Node::File(c, m)) => { s.insert(('f', p, c.len as u64, m & 0o100 != 0, B::default())); }
            Some(Node::Link(t)) => { s.insert(('l', p, 0, false, t.clone())); }
            _ => {}
        }
    });
    s
}

pub fn check_listing(out: &[u8], t: &Tree) -> Res {
    let doc = read_strict(out)?;
    let mut got = BTreeSet::new();
    for e in doc.ents {
        let r: Row = match e {
            Ent::Dir(p) => ('d', p, 0, false, B::default()),
            Ent::File { path, exe, size, .. } => ('f', path, size, exe, B::default()),
            Ent::Link(p, t) => ('l', p, 0, false, t),
        };
        if !got.insert(r.clone()) { return Err(format!("listed twice: {:?}", r)); }
    }
    let w = want(t);
    if let Some(x) = w.difference(&got).next() { return Err(format!("missing from the signature: {:?}; instead {:?}", x, got.difference(&w).next())); }
    if let Some(x) = got.difference(&w).next() { return Err(format!("not in the tree: {:?}", x)); }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let mut kinds = BTreeSet::new();
    let mut odd = false;
    let mut depth = 0;
    walk(&c.t, &mut |p, n| {
        depth = depth.max(p.len());
        if let Some(n) = n {
            kinds.insert(match n { Node::Dir(..) => "dir", Node::File(..) => "file", Node::Link(_) => "symlink", _ => "special" });
            odd |= p.iter().any(|&b| b <= 0x20 || b >= 0x7f || b == b'\\');
        }
    });
    cx.nontrivial(kinds.len() >= 2 || odd);
    for k in &kinds { cx.class(&format!("tree has {}", k)); }
    cx.class_if(odd, "names needing escapes");
    cx.class_if(c.unknown, "entry types hidden while listing");
    cx.class_if(c.permute != 0, "listing order permuted");
    cx.class_if(depth > 4096, "path longer than PATH_MAX");
    cx.class_if(c.cfg.threaded(), "threaded");
    let s = Script { unknown_types: c.unknown, permute: c.permute, ..Script::default() };
    let r = scan_with(&d, &c.cfg, &s);
    let out = r.map_err(|e| format!("scan failed: {}", e));
    let res = out.and_then(|o| check_listing(&o, &c.t));
    cx.cleanup(&d);
    res
}

fn st(tier: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { max: if tier.thorough() { 60 } else { 24 }, many: gens::MANY, ..TREE };
    (prop_oneof![20 => gens::tree(o), 1 => (17usize..40, 100usize..256, gens::tree(TreeOpt { max: 6, top: 5, ..TREE })).prop_map(|(n, l, t)| gens::deep(n, l, Node::Dir(t, 0o755)))],
     gens::cfg(), prop::bool::weighted(0.3), prop_oneof![Just(0u64), any::<u64>()])
        .prop_map(|(t, cfg, unknown, permute)| Case { t, cfg, unknown, permute }).boxed()
}

fn fixed() -> Vec<Case> {
    let mut v = vec![];
    // one file, directory or symlink for every byte a name can consist of
    for kind in 0..3 {
        for h in crate::digest::ALL_H {
            let mut t = Tree::new();
            for b in 1..=255u8 {
                if b == b'/' || b == b'.' { continue; }
                let n = B(vec![b]);
                t.insert(n.clone(), match kind { 0 => Node::File(Content::new(b as u32, 3), 0o644), 1 => Node::dir(), _ => Node::Link(n) });
            }
            for threads in [0, 4] {
                v.push(Case { t: t.clone(), cfg: Cfg { h, threads, queue: None, progress: false }, unknown: kind == 1, permute: 7 });
            }
        }
    }
    // every mode
    for base in (0..0o10000u16).step_by(512) {
        let t: Tree = (base..base + 512).map(|m| (B::s(&format!("m{:o}", m)), Node::File(Content::default(), m))).collect();
        v.push(Case { t, cfg: Cfg::plain(crate::digest::H::B2), unknown: false, permute: 0 });
    }
    // longer than PATH_MAX
    for n in [20, 60] {
        for threads in [1, 3] {
            v.push(Case { t: gens::deep(n, 255, Node::Link(B(vec![b'y'; 4000]))), cfg: Cfg { h: crate::digest::H::Sha, threads, queue: None, progress: false }, unknown: false, permute: 0 });
        }
    }
    // everything there is at the end of a path longer than PATH_MAX
    for threads in [0, 3] {
        let mut t = Tree::new();
        t.insert(B::s("a"), Node::Fifo);
        t.insert(B::s("b"), Node::Sock);
        t.insert(B::s("c"), Node::File(Content::new(40_000, 9), 0o755));
        t.insert(B::s("d"), Node::dir());
        t.insert(B::s("e"), Node::Link(B::s("c")));
        t.insert(B::s("f"), Node::Fifo);
        v.push(Case { t: gens::deep(23, 200, Node::Dir(t, 0o755)), cfg: Cfg { h: crate::digest::H::B2, threads, queue: None, progress: false }, unknown: threads == 0, permute: 0 });
    }
    // more entries than 16 bits count
    for (threads, n) in [(0, 66_000u32), (2, 5000)] {
        let mut t: Tree = (0..n).map(|i| (B::s(&format!("{}", i.wrapping_mul(0x9E37_79B1))), if i % 3 == 0 { Node::Link(B::s("x")) } else { Node::File(Content::new(0, 2), 0o644) })).collect();
        for i in 0..n / 20 { t.insert(B::s(&format!("d{}", i)), Node::dir()); }
        v.push(Case { t, cfg: Cfg { h: crate::digest::H::Sha, threads, queue: None, progress: false }, unknown: false, permute: 5 });
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C01", level: "exploration",
        rule: "tree has at least two kinds of entries or a name that needs escaping",
        assumptions: &["scratch trees on tmpfs stand for any file system", "entry types hidden and listing order permuted by interposing readdir"],
        parts: vec![part("tree", [30_000, 400_000], st, fixed, check)],
    }
}
