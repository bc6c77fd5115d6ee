//! Any change to the tree changes the signature.
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Content, Node, Tree, B};
use crate::refsig::{entries, read_strict, B3};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, split, Cfg};
use dir_signature::get_hash;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u16, u32, u8), Append(u16, u8), Truncate(u16, u32), Rename(u16, u8), Retarget(u16, B), Exec(u16),
    ToLink(u16), ToFile(u16), ToDir(u16), Move(u16, u16), Remove(u16), AddDir(u16, B), AddFile(u16, B, Content), Swap(u16, u16), Shift(u16, u16),
}

fn paths(t: &Tree) -> Vec<Vec<u8>> {
    let mut v = vec![];
    walk(t, &mut |p, n| if n.is_some() { v.push(p.to_vec()) });
    v
}
fn split_path(p: &[u8]) -> Vec<B> { p.split(|&c| c == b'/').filter(|x| !x.is_empty()).map(|x| B(x.to_vec())).collect() }
fn parent<'a>(t: &'a mut Tree, c: &[B]) -> Option<&'a mut Tree> {
    let mut t = t;
    for n in &c[..c.len() - 1] { match t.get_mut(n) { Some(Node::Dir(k, _)) => t = k, _ => return None } }
    Some(t)
}
/// names that look or sort alike, or could be confused by a careless escape
pub fn lookalike(n: &B, k: u8) -> B {
    let mut v = n.0.clone();
    match k % 12 {
        0 => v.push(b' '),
        1 => v.extend_from_slice(b"\\x20"),
        2 => v.extend_from_slice(b"\\"),
        3 => v.extend_from_slice(b"\\x5c"),
        4 => v = crate::refsig::esc(&n.0).into_bytes(),
        5 => if let Some(c) = v.last_mut() { *c ^= 0x20 },
        6 => if let Some(c) = v.last_mut() { *c ^= 0x80 },
        7 => v.push(b'\n'),
        8 => v.push(0xff),
        9 => v.insert(0, b' '),
        10 => { let c = v.pop().unwrap_or(b'a'); v.extend_from_slice(format!("\\x{:02x}", c).as_bytes()); }
        _ => { let c = v.pop().unwrap_or(b'a'); v.extend_from_slice(format!("\\x{:02X}", c).as_bytes()); }
    }
    gens::clean_name(v)
}

pub fn apply(t: &mut Tree, m: &Mut) {
    let ps = paths(t);
    let pick = |i: u16| ps.get(i as usize % ps.len().max(1)).map(|p| split_path(p));
    let file = |i: u16, t: &mut Tree, f: &mut dyn FnMut(&mut Content, &mut u16)| {
        let files: Vec<_> = { let mut v = vec![]; walk(t, &mut |p, n| if let Some(Node::File(..)) = n { v.push(split_path(p)) }); v };
        if files.is_empty() { return; }
        let c = &files[i as usize % files.len()];
        if let Some(Node::File(ct, m)) = parent(t, c).and_then(|p| p.get_mut(c.last().unwrap())) { f(ct, m) }
    };
    let replace = |i: u16, t: &mut Tree, x: Node| { if let Some(c) = pick(i) { if let Some(p) = parent(t, &c) { p.insert(c.last().unwrap().clone(), x); } } };
    // directories by index, 0 = root
    let into = |i: u16, t: &mut Tree, n: B, x: Node| {
        let mut dirs: Vec<Vec<B>> = vec![vec![]];
        walk(t, &mut |p, n| if let Some(Node::Dir(..)) = n { dirs.push(split_path(p)) });
        let mut c = dirs[i as usize % dirs.len()].clone();
        c.push(n.clone());
        if let Some(p) = parent(t, &c) { p.entry(n).or_insert(x); }
    };
    match m {
        Mut::Flip(i, pos, x) => file(*i, t, &mut |c, _| if c.len > 0 { c.xor.push((*pos % c.len, (*x).max(1))) }),
        Mut::Append(i, n) => file(*i, t, &mut |c, _| c.len += *n as u32 + 1),
        Mut::Truncate(i, n) => file(*i, t, &mut |c, _| if c.len > 0 { c.len = *n % c.len }),
        Mut::Exec(i) => file(*i, t, &mut |_, m| *m ^= 0o100),
        Mut::Rename(i, k) => if let Some(c) = pick(*i) {
            if let Some(p) = parent(t, &c) {
                let n = lookalike(c.last().unwrap(), *k);
                if !p.contains_key(&n) { let x = p.remove(c.last().unwrap()).unwrap(); p.insert(n, x); }
            }
        },
        Mut::Retarget(i, b) => {
            let links: Vec<_> = { let mut v = vec![]; walk(t, &mut |p, n| if let Some(Node::Link(_)) = n { v.push(split_path(p)) }); v };
            if !links.is_empty() {
                let c = &links[*i as usize % links.len()];
                if let Some(Node::Link(l)) = parent(t, c).and_then(|p| p.get_mut(c.last().unwrap())) {
                    *l = if *i % 3 == 0 { B(crate::refsig::esc(&l.0).into_bytes()) } else if *i % 3 == 1 { lookalike_t(l, *i as u8) } else { b.clone() };
                    l.0.truncate(4095); // the longest the system takes
                }
            }
        }
        Mut::ToLink(i) => if let Some(c) = pick(*i) { let tg = c.last().unwrap().clone(); replace(*i, t, Node::Link(tg)) },
        Mut::ToFile(i) => replace(*i, t, Node::File(Content::default(), 0o644)),
        Mut::ToDir(i) => replace(*i, t, Node::dir()),
        Mut::Move(i, j) => if let Some(c) = pick(*i) {
            let x = parent(t, &c).and_then(|p| p.remove(c.last().unwrap()));
            if let Some(x) = x { into(*j, t, c.last().unwrap().clone(), x); }
        },
        Mut::Remove(i) => if let Some(c) = pick(*i) { if let Some(p) = parent(t, &c) { p.remove(c.last().unwrap()); } },
        Mut::AddDir(i, n) => into(*i, t, n.clone(), Node::dir()),
        Mut::AddFile(i, n, c) => into(*i, t, n.clone(), Node::File(c.clone(), 0o644)),
        Mut::Swap(i, j) => {
            let mut a = None;
            file(*i, t, &mut |c, _| a = Some(c.clone()));
            let mut b = None;
            file(*j, t, &mut |c, _| b = Some(c.clone()));
            if let (Some(a), Some(b)) = (a, b) { file(*i, t, &mut |c, _| *c = b.clone()); file(*j, t, &mut |c, _| *c = a.clone()); }
        }
        // same total bytes: one byte moves from the end of one file to the next
        Mut::Shift(i, j) => {
            let mut ok = false;
            file(*i, t, &mut |c, _| if c.len > 0 { c.len -= 1; ok = true });
            if ok { file(*j, t, &mut |c, _| c.len += 1); }
        }
    }
}
fn lookalike_t(t: &B, k: u8) -> B {
    let mut v = t.0.clone();
    match k % 4 { 0 => v.push(b'/'), 1 => v.insert(0, b'/'), 2 => v.push(b' '), _ => { let i = v.len() / 2; v[i] ^= 0x80; if v[i] == 0 { v[i] = 1 } } }
    B(v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, muts: Vec<Mut>, cfg: Cfg, cfg2: Cfg }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut t2 = c.t.clone();
    for m in &c.muts { apply(&mut t2, m); }
    let h = c.cfg.h;
    let (e1, e2) = (entries(&c.t, h, B3::Correct), entries(&t2, h, B3::Correct));
    let differs = e1 != e2;
    cx.nontrivial(differs);
    if differs { for m in &c.muts { let s = format!("{:?}", m); cx.class(s.split('(').next().unwrap()); } }
    let (d1, d2) = (cx.fresh(), cx.fresh());
    fsops::make_plain(&d1, &c.t);
    fsops::make_plain(&d2, &t2);
    let r = scan_ok(&d1, &c.cfg).and_then(|a| scan_ok(&d2, &c.cfg).map(|b| (a, b)));
    cx.cleanup(&d1);
    cx.cleanup(&d2);
    let (a, b) = r?;
    read_strict(&a)?;
    read_strict(&b)?;
    let ga = get_hash(&mut Cursor::new(&a)).map_err(|e| format!("get_hash: {}", e))?;
    let gb = get_hash(&mut Cursor::new(&b)).map_err(|e| format!("get_hash: {}", e))?;
    let (sa, sb) = (split(&a).unwrap(), split(&b).unwrap());
    if !differs {
        if a != b { return Err("signatures differ for equal trees".into()); }
        return Ok(());
    }
    let first = e1.iter().zip(&e2).find(|(x, y)| x != y);
    if sa.1 == sb.1 { return Err(format!("the bodies are equal although the trees differ: {:?}", first)); }
    if sa.2 == sb.2 || ga == gb { return Err(format!("the final hashes are equal although the trees differ: {:?}", first)); }
    Ok(())
}

pub fn mutation() -> BoxedStrategy<Mut> {
    let i = || any::<u16>();
    prop_oneof![
        4 => (i(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Flip(a, b, c)),
        1 => (i(), 0u8..3).prop_map(|(a, b)| Mut::Append(a, b)), 1 => (i(), any::<u32>()).prop_map(|(a, b)| Mut::Truncate(a, b)),
        3 => (i(), any::<u8>()).prop_map(|(a, b)| Mut::Rename(a, b)), 2 => (i(), gens::target()).prop_map(|(a, b)| Mut::Retarget(a, b)),
        2 => i().prop_map(Mut::Exec), 1 => i().prop_map(Mut::ToLink), 1 => i().prop_map(Mut::ToFile), 1 => i().prop_map(Mut::ToDir),
        2 => (i(), i()).prop_map(|(a, b)| Mut::Move(a, b)), 1 => i().prop_map(Mut::Remove), 1 => (i(), gens::name()).prop_map(|(a, b)| Mut::AddDir(a, b)),
        1 => (i(), gens::name(), gens::content(gens::small_len())).prop_map(|(a, b, c)| Mut::AddFile(a, b, c)),
        1 => (i(), i()).prop_map(|(a, b)| Mut::Swap(a, b)), 1 => (i(), i()).prop_map(|(a, b)| Mut::Shift(a, b)),
    ].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, specials: false, max: 12, top: 5, many: gens::MANY, ..TREE };
    (gens::tree(o), prop::collection::vec(mutation(), 1..4), gens::cfg()).prop_map(|(t, muts, cfg)| Case { t, muts, cfg2: cfg.clone(), cfg }).boxed()
}
/// every position class of a multi-block file, flipped
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in [0, 3] {
            for len in [1u32, 2, 32767, 32768, 32769, 65536, 98305] {
                for pos in [0, 1, len / 2, len - 1, 32767 % len, 32768 % len, 65535 % len] {
                    for bit in [1u8, 0x80] {
                        let mut t = Tree::new();
                        t.insert(B::s("f"), Node::File(Content::new(len, 3), 0o644));
                        let cfg = Cfg { h, threads, queue: None, progress: false };
                        v.push(Case { t, muts: vec![Mut::Flip(0, pos, bit)], cfg2: cfg.clone(), cfg });
                    }
                }
            }
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C07", level: "exploration", rule: "the mutated tree differs from the original in path, type, content, size, owner-executable bit or target",
        assumptions: &["collision resistance of the digests"],
        parts: vec![part("mutate", [24_000, 300_000], st, fixed, check)],
    }
}
