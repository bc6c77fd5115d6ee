//! Options mean the same whatever the order they are set in.
use crate::digest::{H, ALL_H};
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Script};
use crate::model::Tree;
use crate::props::{c21::Ahead, c25::quietly};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{exact, Cfg};
use dir_signature::{v1, Error, HashType, ScannerConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set { Hash(H), Named(H), Threads(u8), Auto, Queue(u64), Progress, Dir, /// scan with what is set so far
    Scan }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, roots: u8, ops: Vec<Set> }

struct Want { cfg: Cfg, auto: bool, dirs: usize }
fn one(conf: &ScannerConfig, w: &Want, parts: &[Tree], k: usize, cx: &mut Cx) -> Res {
    let what = format!("scan {} with {:?}{}, {} roots", k, w.cfg, if w.auto { " and automatic threads" } else { "" }, w.dirs);
    let log = cx.dir.join("stderr");
    let mut out = vec![];
    let r = quietly(&log, || {
        interpose::start(&Script::default());
        let r = v1::scan(conf, &mut out);
        interpose::stop();
        r
    });
    let text = must(std::fs::read(&log), "stderr");
    let others = interpose::other_openers();
    let threads = if w.auto { usize::MAX } else { w.cfg.threads as usize };
    if !interpose::quiesce() { return Err(format!("{}: threads still run 20 s after the end", what)); }
    if w.dirs == 0 {
        return match r { Err(Error::NoRootDirectory) => Ok(()), r => Err(format!("{}: {:?}", what, r.map_err(|e| e.to_string()))) };
    }
    r.map_err(|e| format!("{}: {}", what, e))?;
    let mut t = Tree::new();
    for p in &parts[..w.dirs] { for (n, x) in p { t.insert(n.clone(), x.clone()); } }
    let mut r = exact(cx, &out, &t, &w.cfg);
    if r.is_err() && w.auto { r = exact(cx, &out, &t, &Cfg { threads: 2, ..w.cfg.clone() }); }
    r.map_err(|m| format!("{}: {}", what, m))?;
    if others > threads { return Err(format!("{}: {} threads besides the calling one open files", what, others)); }
    if text.is_empty() == w.cfg.progress { return Err(format!("{}: standard error gets {:?}", what, String::from_utf8_lossy(&text))); }
    Ok(())
}
fn check(c: &Case, cx: &mut Cx) -> Res {
    let k = c.ops.iter().filter(|o| matches!(o, Set::Dir)).count();
    // the roots share nothing, so the union is simple
    let mut parts = vec![Tree::new(); k.max(1)];
    let n = parts.len();
    for (i, (name, x)) in c.t.iter().enumerate() { parts[(i + c.roots as usize) % n].insert(name.clone(), x.clone()); }
    let d = cx.fresh();
    let roots: Vec<PathBuf> = parts.iter().enumerate().map(|(i, t)| {
        let p = d.join(i.to_string());
        must(std::fs::create_dir(&p), "root");
        crate::fsops::make_plain(&p, t);
        p
    }).collect();
    let mut conf = ScannerConfig::new();
    let mut w = Want { cfg: Cfg::plain(H::Sha), auto: false, dirs: 0 };
    let mut scans = 0;
    let mut res = Ok(());
    for o in c.ops.iter().chain([&Set::Scan, &Set::Scan]) {
        match o {
            Set::Hash(h) => { conf.hash(h.real()); w.cfg.h = *h; }
            Set::Named(h) => {
                match h.name().parse::<HashType>() { Ok(x) => { conf.hash(x); } Err(e) => { res = Err(format!("{}: {}", h.name(), e)); break; } }
                w.cfg.h = *h;
            }
            Set::Threads(n) => { conf.threads(*n as usize); w.cfg.threads = *n as u16; w.auto = false; }
            Set::Auto => { conf.auto_threads(); w.cfg.threads = 0; w.auto = true; }
            Set::Queue(n) => { conf.queue_size(*n as usize); w.cfg.queue = Some((*n).min(9999) as u16); }
            Set::Progress => { conf.print_progress(); w.cfg.progress = true; }
            Set::Dir => { conf.add_dir(&roots[w.dirs], "/"); w.dirs += 1; }
            Set::Scan => { scans += 1; res = one(&conf, &w, &parts, scans, cx); if res.is_err() { break; } }
        }
    }
    cx.cleanup(&d);
    cx.evals(scans as u64);
    cx.nontrivial(!c.t.is_empty() && c.ops.len() > 2);
    cx.class_if(scans > 2, "configuration changed between scans");
    cx.class_if(k > 1, "several roots");
    cx.class_if(c.ops.iter().filter(|o| matches!(o, Set::Hash(_) | Set::Named(_))).count() > 1, "hash type set again");
    cx.class_if(c.ops.iter().filter(|o| matches!(o, Set::Threads(_) | Set::Auto)).count() > 1, "threads set again");
    res
}
fn set() -> BoxedStrategy<Set> {
    prop_oneof![
        3 => gens::any_h().prop_map(Set::Hash), 2 => gens::any_h().prop_map(Set::Named), 4 => (0u8..6).prop_map(Set::Threads), 1 => Just(Set::Auto),
        2 => prop_oneof![0u64..4, 4u64..100, Just(u32::MAX as u64), Just(u64::MAX)].prop_map(Set::Queue), 1 => Just(Set::Progress), 3 => Just(Set::Dir), 3 => Just(Set::Scan),
    ].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (gens::tree(TreeOpt { specials: false, max: 14, top: 8, many: gens::MANY, ..TREE }), any::<u8>(), prop::collection::vec(set(), 0..9)).prop_map(|(t, roots, ops)| Case { t, roots, ops }).boxed()
}

/// How far a scan runs ahead, its options set in any order and some of them before to something else.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AheadCase { a: Ahead, order: Vec<u8>, before: Vec<(u8, u8)> }
fn check_ahead(c: &AheadCase, cx: &mut Cx) -> Res {
    let w = &c.a.cfg;
    let conf = |d: &std::path::Path| {
        let mut s = ScannerConfig::new();
        for &(k, v) in &c.before {
            // the queue cannot be unset, so only where it is set later
            match k % 4 { 0 => { s.threads(v as usize); } 1 if w.queue.is_some() => { s.queue_size(v as usize * 37); } 2 => { s.auto_threads(); } _ => { s.hash(ALL_H[v as usize % 3].real()); } }
        }
        let mut todo: Vec<u8> = (0..5).collect();
        for k in 0..5 {
            let i = c.order.get(k).map_or(0, |&x| x as usize) % todo.len();
            match todo.remove(i) {
                0 => { s.hash(w.h.real()); }
                1 => { s.threads(w.threads as usize); }
                2 => if let Some(q) = w.queue { s.queue_size(q as usize); },
                3 => { s.add_dir(d, "/"); }
                _ => if w.progress { s.print_progress(); },
            }
        }
        s
    };
    let log = cx.dir.join("stderr");
    let r = quietly(&log, || crate::props::c21::ahead(&c.a, &conf, cx));
    cx.class_if(!c.before.is_empty(), "options set again");
    r.map_err(|m| format!("{}; options set in the order {:?} after {:?}", m, c.order, c.before))
}
fn st_ahead(t: Tier) -> BoxedStrategy<AheadCase> {
    (crate::props::c21::st_ahead(t), prop::collection::vec(any::<u8>(), 5), prop::collection::vec((any::<u8>(), 0u8..40), 0..3)).prop_map(|(a, order, before)| AheadCase { a, order, before }).boxed()
}

/// Names of hash types.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Name { s: String }
fn check_name(c: &Name, cx: &mut Cx) -> Res {
    cx.nontrivial(true);
    let want = ALL_H.iter().find(|h| h.name() == c.s);
    cx.class(if want.is_some() { "known name" } else { "unknown name" });
    match (c.s.parse::<HashType>(), want) {
        (Ok(x), Some(h)) => {
            if x != h.real() { return Err(format!("{:?} is taken for {}", c.s, x)); }
            if x.to_string() != c.s || format!("{:>20}", x).trim_start() != c.s { return Err(format!("{:?} is printed as {:?}", c.s, x.to_string())); }
            if x.output_bytes() != 32 { return Err(format!("{}: {} bytes", c.s, x.output_bytes())); }
            for o in ALL_H { if (o.real() == x) != (o == *h) { return Err(format!("{} == {}", x, o.real())); } }
            Ok(())
        }
        (Err(Error::UnsupportedHash), None) => Ok(()),
        (r, _) => Err(format!("{:?}: {:?}", c.s, r.map_err(|e| e.to_string()))),
    }
}
fn names() -> Vec<Name> {
    let mut v: Vec<String> = ["", " ", "sha512", "sha256", "sha512-256", "SHA512/256", "sha512/256 ", " sha512/256", "blake2/256", "blake2b", "blake2s/256", "BLAKE3/256", "blake3", "blake3/512", "sha512_256", "sha512/256\0", "blake2b/512"]
        .iter().map(|s| s.to_string()).collect();
    v.extend(ALL_H.iter().map(|h| h.name().to_string()));
    v.into_iter().map(|s| Name { s }).collect()
}
fn st_name(_: Tier) -> BoxedStrategy<Name> {
    let near = (gens::any_h(), any::<u8>(), 0u8..4, any::<char>()).prop_map(|(h, i, how, ch)| {
        let mut v: Vec<char> = h.name().chars().collect();
        let i = i as usize % v.len();
        match how { 0 => v[i] = ch, 1 => { v.remove(i); } 2 => v.insert(i, ch), _ => v.truncate(i) }
        v.into_iter().collect::<String>()
    });
    prop_oneof![3 => near, 1 => any::<String>()].prop_map(|s| Name { s }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C28", level: "exploration", rule: "the tree is not empty and more than two options are set (options); every name (names)",
        assumptions: &["automatic thread counts are judged by the signature only"],
        parts: vec![part("options", [12_000, 150_000], st, || vec![], check), part("ahead", [160, 1600], st_ahead, || vec![], check_ahead), part("names", [20_000, 200_000], st_name, names, check_name)],
    }
}
