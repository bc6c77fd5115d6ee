//! Each part of a signature describes its part of the tree only.
use crate::digest::H;
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Node, Tree, B};
use crate::props::c07::{apply, mutation, Mut};
use crate::refsig::{self, Ent, B3};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, split, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Text below each directory line, by directory line; hashes left out if asked to.
fn sections(out: &[u8], hashes: bool) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let body = split(out).ok_or("no signature")?.1;
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for l in body.split_inclusive(|c| *c == b'\n') {
        if l.starts_with(b"/") { v.push((l[..l.len() - 1].to_vec(), vec![])); continue; }
        let s = &mut v.last_mut().ok_or("an entry before the first directory")?.1;
        if hashes { s.extend_from_slice(l); continue; }
        let f: Vec<&[u8]> = l[..l.len() - 1].split(|c| *c == b' ').collect();
        s.extend_from_slice(&f[..f.len().min(5)].join(&b' '));
        s.push(b'\n');
    }
    Ok(v)
}
/// The model's sections: entries directly in each directory.
fn own(t: &Tree) -> BTreeMap<Vec<u8>, Vec<Ent>> {
    let mut m: BTreeMap<Vec<u8>, Vec<Ent>> = BTreeMap::new();
    let mut cur = vec![];
    for e in refsig::entries(t, H::B2, B3::Correct) {
        if e.is_dir() { cur = e.path().0.clone(); m.entry(cur.clone()).or_default(); } else { m.get_mut(&cur).unwrap().push(e); }
    }
    m
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, pick: u16, muts: Vec<Mut>, a: Cfg, b: Cfg }
fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &c.t);
    let mut dirs: Vec<Vec<u8>> = vec![];
    walk(&c.t, &mut |p, n| if matches!(n, None | Some(Node::Dir(..))) { dirs.push(p.to_vec()) });
    let p = &dirs[c.pick as usize % dirs.len()];
    let sub = d.join(B(p[1..].to_vec()).path());
    let whole = scan_ok(&d, &c.a);
    let piece = scan_ok(&sub, &c.b);
    cx.cleanup(&d);
    let mut t2 = c.t.clone();
    for m in &c.muts { apply(&mut t2, m); }
    let d2 = cx.fresh();
    crate::fsops::make_plain(&d2, &t2);
    let changed = scan_ok(&d2, &c.b);
    cx.cleanup(&d2);
    let (whole, piece, changed) = (whole?, piece?, changed?);
    // blake3 block hashes depend on everything hashed before, which is a listed finding (C04)
    let full = c.a.h != H::B3 || c.a.threaded() && c.b.threaded();
    let show = |v: &[(Vec<u8>, Vec<u8>)]| refsig::show(&v.iter().flat_map(|s| [&s.0[..], b"\n", &s.1]).collect::<Vec<_>>().concat());
    // the part of the whole below the picked directory is the scan of that directory
    let w = sections(&whole, full)?;
    let top = refsig::esc(p).into_bytes();
    let below: Vec<(Vec<u8>, Vec<u8>)> = w.iter().filter_map(|(n, s)| {
        let rest = if top == b"/" { return Some((n.clone(), s.clone())) } else { n.strip_prefix(&top[..])? };
        if rest.is_empty() { Some((b"/".to_vec(), s.clone())) } else if rest[0] == b'/' { Some((rest.to_vec(), s.clone())) } else { None }
    }).collect();
    let got = sections(&piece, full)?;
    if got != below { return Err(format!("the signature of {:?} is {}, its part in the signature of the whole is {} ({:?}, {:?})", B(p.clone()), show(&got), show(&below), c.a, c.b)); }
    // changes show up where they were made and nowhere else
    let (o1, o2) = (own(&c.t), own(&t2));
    let x = sections(&changed, full)?;
    let find = |v: &[(Vec<u8>, Vec<u8>)], p: &[u8]| { let n = refsig::esc(p).into_bytes(); v.iter().find(|s| s.0 == n).map(|s| s.1.clone()) };
    let (mut same, mut other) = (0, 0);
    for (p, e) in &o1 {
        let (s1, s2) = (find(&w, p), find(&x, p));
        if s1.is_none() { return Err(format!("{:?} is missing in the signature", B(p.clone()))); }
        match o2.get(p) {
            None => { other += 1; if s2.is_some() { return Err(format!("{:?} is gone, but still in the signature", B(p.clone()))); } }
            Some(f) => {
                let eq = f == e;
                if eq { same += 1 } else { other += 1 }
                if eq && s1 != s2 { return Err(format!("nothing changed in {:?}, but its part of the signature did: {:?} and {:?} ({:?})", B(p.clone()), s1.map(|s| refsig::show(&s)), s2.map(|s| refsig::show(&s)), c.muts)); }
                if full && !eq && s1 == s2 { return Err(format!("something changed in {:?}, but its part of the signature did not ({:?})", B(p.clone()), c.muts)); }
            }
        }
    }
    cx.nontrivial(dirs.len() > 1 && same > 0 && (p.len() > 1 || other > 0));
    cx.class_if(p.len() > 1, "proper subdirectory");
    cx.class_if(same > 0 && other > 0, "changed and unchanged directories");
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (gens::tree(TreeOpt { max: 30, top: 8, big: true, many: gens::MANY, ..TREE }), any::<u16>(), prop::collection::vec(mutation(), 0..4), gens::cfg(), gens::cfg())
        .prop_map(|(t, pick, muts, mut a, mut b)| { b.h = a.h; a.progress = false; b.progress = false; Case { t, pick, muts, a, b } }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C29", level: "exploration", rule: "several directories, some of them unchanged, and a proper subdirectory picked or some directory changed",
        assumptions: &["blake3 block hashes are left out unless both scans are threaded, because of the listed finding of C04"],
        parts: vec![part("parts", [12_000, 150_000], st, || vec![], check)],
    }
}
