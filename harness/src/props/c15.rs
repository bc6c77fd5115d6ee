//! Entry kinds are totally ordered as entries appear in files.
use crate::docs::{bytes, spell};
use crate::fsops;
use crate::gens;
use crate::model::{Tree, B};
use crate::refsig::{self, key, Key};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::v1::{EntryKind, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::ffi::{OsStr, OsString};
use std::fmt::Debug;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Kinds { v: Vec<(bool, Vec<B>)>, sp: Vec<u8> }

fn path_of(c: &[B]) -> Vec<u8> {
    let mut p = vec![];
    for x in c { p.push(b'/'); p.extend_from_slice(&x.0); }
    if p.is_empty() { p.push(b'/'); }
    p
}

fn agree<P: AsRef<Path> + Eq + Debug>(ty: &str, a: &EntryKind<P>, b: &EntryKind<P>, want: Ordering) -> Res {
    let got = a.cmp(b);
    if got != want { return Err(format!("{}: {:?} vs {:?}: expected {:?}, got {:?}", ty, a, b, want, got)); }
    if a.partial_cmp(b) != Some(want) { return Err(format!("{}: partial_cmp of {:?} and {:?} is {:?}", ty, a, b, a.partial_cmp(b))); }
    if (a == b) != (want == Ordering::Equal) { return Err(format!("{}: {:?} == {:?} is {}", ty, a, b, a == b)); }
    if (a < b) != (want == Ordering::Less) || (a > b) != (want == Ordering::Greater) || (a <= b) != (want != Ordering::Greater) || (a >= b) != (want != Ordering::Less) {
        return Err(format!("{}: comparison operators disagree on {:?} and {:?}", ty, a, b));
    }
    Ok(())
}

fn check(c: &Kinds, cx: &mut Cx) -> Res {
    let v: Vec<(bool, Vec<u8>, Key)> = c.v.iter().filter(|(d, c)| *d || !c.is_empty()).map(|(d, c)| { let p = path_of(c); let k = key(*d, &p); (*d, p, k) }).collect();
    let mut orders = std::collections::BTreeSet::new();
    macro_rules! kind { ($d:expr, $x:expr) => { if $d { EntryKind::Dir($x) } else { EntryKind::File($x) } } }
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            let want = a.2.cmp(&b.2);
            if i != j { orders.insert(want); }
            let s = |k: usize| c.sp.get(k % c.sp.len().max(1)).cloned().unwrap_or(0);
            // paths compare the same however they are spelled
            let (sa, sb) = (spell(&a.1, s(i)), spell(&b.1, s(j + 3)));
            let (oa, ob) = (OsStr::from_bytes(&sa), OsStr::from_bytes(&sb));
            agree("&Path", &kind!(a.0, Path::new(oa)), &kind!(b.0, Path::new(ob)), want)?;
            agree("PathBuf", &kind!(a.0, PathBuf::from(oa)), &kind!(b.0, PathBuf::from(ob)), want)?;
            // strings are equal only when spelled alike
            let (oa, ob) = (OsStr::from_bytes(&a.1), OsStr::from_bytes(&b.1));
            agree("&OsStr", &kind!(a.0, oa), &kind!(b.0, ob), want)?;
            agree("OsString", &kind!(a.0, OsString::from(oa)), &kind!(b.0, OsString::from(ob)), want)?;
            if let (Some(x), Some(y)) = (oa.to_str(), ob.to_str()) {
                agree("&str", &kind!(a.0, x), &kind!(b.0, y), want)?;
                agree("String", &kind!(a.0, x.to_string()), &kind!(b.0, y.to_string()), want)?;
            }
            let (ka, kb) = (kind!(a.0, PathBuf::from(oa)), kind!(b.0, PathBuf::from(ob)));
            agree("as_ref()", &ka.as_ref(), &kb.as_ref(), want)?;
            agree("cloned()", &ka.cloned(), &kb.cloned(), want)?;
        }
    }
    // sorting is what the model sorts
    let mut real: Vec<EntryKind<PathBuf>> = v.iter().map(|x| kind!(x.0, PathBuf::from(OsStr::from_bytes(&x.1)))).collect();
    real.sort();
    let mut m: Vec<Key> = v.iter().map(|x| x.2.clone()).collect();
    m.sort();
    let real: Vec<Key> = real.iter().map(|k| key(matches!(k, EntryKind::Dir(_)), &bytes(k.path()).0)).collect();
    if real != m { return Err(format!("sorting gives {:?}, expected {:?}", real, m)); }
    cx.nontrivial(orders.len() >= 2 && v.iter().any(|x| x.0) && v.iter().any(|x| !x.0));
    cx.class_if(orders.contains(&Ordering::Equal), "equal kinds compared");
    cx.evals((v.len() * v.len()) as u64);
    Ok(())
}
fn comp() -> BoxedStrategy<B> {
    prop_oneof![4 => prop::sample::select(vec!["a", "b", "a.", "a!", "aa", "\x01", "\x2e\x2e\x2e", "0", "A", "~", "é", "a b"]).prop_map(B::s), 1 => gens::name(),
        1 => prop::collection::vec(prop::sample::select(b"a.!0 \x01\x30\xff".to_vec()), 1..3).prop_map(gens::clean_name)].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Kinds> {
    (prop::collection::vec((any::<bool>(), prop::collection::vec(comp(), 0..4)), 2..7), prop::collection::vec(0u8..4, 1..4)).prop_map(|(mut v, sp)| {
        // make relations common: the second derives from the first
        if v.len() > 2 { let mut x = v[0].clone(); x.0 = !x.0; v.push(x); let mut y = v[1].clone(); y.1.push(v[0].1.first().cloned().unwrap_or(B::s("a"))); v.push(y); }
        Kinds { v, sp }
    }).boxed()
}
fn fixed() -> Vec<Kinds> {
    // all kinds over names around the separator, up to two components
    let names: Vec<B> = ["a", "a.", "a/", "a0", "aa", "b"].iter().map(|s| B(s.as_bytes().iter().map(|&c| if c == b'/' { 0x2f + 0x51 } else { c }).collect())).collect();
    let mut v = vec![(true, vec![])];
    for d in [true, false] {
        for a in &names { v.push((d, vec![a.clone()])); for b in &names { v.push((d, vec![a.clone(), b.clone()])); } }
    }
    let mut bytes1 = vec![];
    for b in 1..=255u8 { if b != b'/' && b != b'.' { bytes1.push((true, vec![B(vec![b'a', b])])); bytes1.push((false, vec![B(vec![b'a', b])])); } }
    bytes1.push((false, vec![B::s("a"), B::s("b")]));
    bytes1.push((true, vec![B::s("a")]));
    vec![Kinds { v: v.clone(), sp: vec![0] }, Kinds { v, sp: vec![0, 1, 2, 3, 1] }, Kinds { v: bytes1, sp: vec![0] }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scanned { t: Tree, cfg: Cfg }
fn check_scan(c: &Scanned, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let r = scan_ok(&d, &c.cfg);
    cx.cleanup(&d);
    let out = r?;
    let mut p = Parser::new(&out[..]).map_err(|e| e.to_string())?;
    let mut all = vec![];
    for e in p.iter() { all.push(e.map_err(|e| e.to_string())?); }
    cx.nontrivial(all.len() > 3);
    let lim = all.len().min(40);
    for i in 1..all.len() {
        let (a, b) = (all[i - 1].kind(), all[i].kind());
        agree("scan", &a, &b, Ordering::Less)?;
        agree("scan", &b, &a, Ordering::Greater)?;
    }
    for i in 0..lim { for j in 0..lim { agree("scan", &all[i].kind(), &all[j].kind(), i.cmp(&j))?; } }
    let want: Vec<Key> = refsig::entries(&c.t, c.cfg.h, refsig::B3::Correct).iter().map(|e| e.key()).collect();
    if want.len() != all.len() { return Err(format!("{} entries scanned, {} expected", all.len(), want.len())); }
    Ok(())
}
fn st_scan(_: Tier) -> BoxedStrategy<Scanned> {
    (prop_oneof![super::c14::tree(), gens::tree(gens::TREE)], gens::cfg()).prop_map(|(t, cfg)| Scanned { t, cfg }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C15", level: "exploration", rule: "compared kinds include a directory and a file and at least two different outcomes (kinds), scanned tree has more than three entries (scan)",
        assumptions: &["paths with '..' are not entries of a signature and are not compared"],
        parts: vec![part("kinds", [100_000, 2_000_000], st, fixed, check), part("scan", [8000, 100_000], st_scan, || vec![], check_scan)],
    }
}
