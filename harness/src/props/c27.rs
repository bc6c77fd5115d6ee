//! Independent uses do not influence each other.
use crate::digest::H;
use crate::docs::{self, doc, real_ent, Doc};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{Content, Tree};
use crate::readers::{Chunky, Fault, Plan, Sink};
use crate::refsig::{self, Ent};
use crate::runner::{catch, part, Cx, Prop, Res, Tier};
use crate::scanlib::Cfg;
use dir_signature::v1::{self, merge::MergedSignatures, Emitter, Entry, Hashes, Parser};
use dir_signature::get_hash;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Scan(Tree, Cfg),
    /// the output fails after this part of the text
    ScanFull(Tree, Cfg, u16),
    ScanMissing(Cfg),
    /// the text cut at this part, if not whole
    Parse(Doc, Plan, Option<u16>),
    Merge(Doc, Doc, Option<u16>),
    Hash(Content, H, u16),
    HashFails(Content, H, u16, u16),
    /// checked against the same content with one byte changed
    Check(Content, H, u16, Option<u32>),
    Emit(Doc),
    EmitFull(Doc, u16),
    GetHash(Doc, Option<u16>),
    /// iterators abandoned after these steps (a new one every few steps)
    ParseSome(Doc, Plan, Vec<docs::Op>, u8),
    MergeSome(Doc, Doc, Vec<docs::Op>, u8),
}
fn cut(mut t: Vec<u8>, at: Option<u16>) -> Vec<u8> { if let Some(a) = at { let n = t.len() * a as usize / 65536; t.truncate(n); } t }
pub fn ents(d: &Doc) -> Result<Vec<Entry>, String> {
    let mut p = Parser::new(Cursor::new(d.text())).map_err(|e| e.to_string())?;
    let v: Result<Vec<_>, _> = p.iter().collect();
    v.map_err(|e| e.to_string())
}
pub fn emit_one(e: &mut Emitter, x: &Entry) -> std::io::Result<()> {
    match x {
        Entry::Dir(p) => e.start_dir(p),
        Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap_or_default(), *exe, *size, hashes),
        Entry::Link(p, t) => e.add_symlink(p.file_name().unwrap_or_default(), t),
    }
}
fn emit(d: &Doc, out: &mut dyn std::io::Write) -> Result<(), String> {
    let v = ents(d)?;
    let f = |e: std::io::Error| e.to_string();
    let mut e = Emitter::new(d.h.real(), d.bs, out).map_err(f)?;
    for x in &v { emit_one(&mut e, x).map_err(f)?; }
    e.finish().map_err(f)
}
fn block(bs: u16) -> u64 { bs as u64 + 1 }

/// Runs the operation; everything observable goes into the result.
pub fn perform(op: &Op, dir: &Path) -> String {
    let bytes = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
    let r = catch(|| match op {
        Op::Scan(_, c) => { let mut v = vec![]; format!("{:?} {}", v1::scan(&c.one(dir), &mut v).map_err(|e| e.to_string()), bytes(&v)) }
        Op::ScanFull(_, c, at) => {
            let mut s = Sink::new(&[]);
            s.fail_at = Some((*at as u64 % 600, Fault::Full));
            let r = v1::scan(&c.one(dir), &mut s);
            format!("{:?} {}", r.map_err(|e| e.to_string()), bytes(&s.data()))
        }
        Op::ScanMissing(c) => { let mut v = vec![]; format!("{:?}", v1::scan(&c.one(&dir.join("missing")), &mut v).map_err(|e| e.to_string())) }
        Op::Parse(d, plan, at) => {
            let mut s = String::new();
            match Parser::new(Chunky::new(cut(d.text(), *at), plan).buffered(plan)) {
                Err(e) => s = e.to_string(),
                Ok(mut p) => for (i, e) in p.iter().enumerate().take(10_000) {
                    s.push_str(&format!("{} {:?}\n", i, e.map(|e| real_ent(&e)).map_err(|e| e.to_string())));
                },
            }
            s
        }
        Op::Merge(a, b, at) => {
            let ps = (|| -> Result<_, String> {
                Ok(vec![(1, Parser::new(Cursor::new(a.text())).map_err(|e| e.to_string())?), (2, Parser::new(Cursor::new(cut(b.text(), *at))).map_err(|e| e.to_string())?)])
            })();
            let mut s = String::new();
            match ps.and_then(|ps| MergedSignatures::new(ps).map_err(|e| e.to_string())) {
                Err(e) => s = e,
                Ok(mut m) => for g in m.iter().take(10_000) {
                    s.push_str(&format!("{:?}\n", g.into_iter().map(|(k, e)| (*k, e.map(|e| real_ent(&e)).map_err(|e| e.to_string()))).collect::<Vec<_>>()));
                },
            }
            s
        }
        Op::Hash(c, h, bs) => format!("{:?}", Hashes::hash_file(h.real(), block(*bs), Cursor::new(c.bytes())).map_err(|e| e.to_string())),
        Op::HashFails(c, h, bs, at) => {
            let d = c.bytes();
            let at = d.len() as u64 * *at as u64 / 65536;
            format!("{:?}", Hashes::hash_file(h.real(), block(*bs), Chunky::new(d, &Plan { chunks: vec![], buf: 8192 }).failing(Some(at))).map_err(|e| e.to_string()))
        }
        Op::Check(c, h, bs, flip) => {
            let mut d = c.bytes();
            match Hashes::hash_file(h.real(), block(*bs), Cursor::new(d.clone())) {
                Err(e) => e.to_string(),
                Ok((n, hs)) => {
                    if let (Some(f), false) = (flip, d.is_empty()) { let k = *f as usize % d.len(); d[k] ^= 1; }
                    format!("{} {:?}", n, hs.check_file(Cursor::new(d)).map_err(|e| e.to_string()))
                }
            }
        }
        Op::Emit(d) => { let mut v = vec![]; format!("{:?} {}", emit(d, &mut v), bytes(&v)) }
        Op::EmitFull(d, at) => {
            let mut s = Sink::new(&[]);
            s.fail_at = Some((*at as u64 % 600, Fault::Full));
            format!("{:?} {}", emit(d, &mut s), bytes(&s.data()))
        }
        Op::GetHash(d, at) => format!("{:?}", get_hash(&mut Cursor::new(cut(d.text(), *at))).map_err(|e| e.to_string())),
        Op::ParseSome(d, plan, ops, every) => {
            let es = d.ents();
            let mut s = String::new();
            let mut p = match Parser::new(Chunky::new(d.text(), plan).buffered(plan)) { Ok(p) => p, Err(e) => return e.to_string() };
            for part in ops.chunks(*every as usize % 5 + 1) {
                let mut it = p.iter();
                for o in part {
                    let r = match o {
                        docs::Op::Next => it.next(),
                        docs::Op::Adv { i, how, sp } => { let (d, t) = docs::target(&es, *i, *how); docs::adv(&mut it, d, &t, *sp) }
                    };
                    s.push_str(&format!("{:?}\n", r.map(|e| e.map(|e| real_ent(&e)).map_err(|e| e.to_string()))));
                }
            }
            s
        }
        Op::MergeSome(a, b, ops, every) => {
            let mut es = a.ents();
            es.extend(b.ents());
            let ps = (|| -> Result<_, String> {
                Ok(vec![(1, Parser::new(Cursor::new(a.text())).map_err(|e| e.to_string())?), (2, Parser::new(Cursor::new(b.text())).map_err(|e| e.to_string())?)])
            })();
            let mut s = String::new();
            match ps.and_then(|ps| MergedSignatures::new(ps).map_err(|e| e.to_string())) {
                Err(e) => s = e,
                Ok(mut m) => for part in ops.chunks(*every as usize % 5 + 1) {
                    let mut it = m.iter();
                    for o in part {
                        let g = match o {
                            docs::Op::Next => it.next().unwrap_or_default(),
                            docs::Op::Adv { i, how, sp } => { let (d, t) = docs::target(&es, *i, *how); docs::adv_merged(&mut it, d, &t, *sp) }
                        };
                        s.push_str(&format!("{:?}\n", g.into_iter().map(|(k, e)| (*k, e.map(|e| real_ent(&e)).map_err(|e| e.to_string()))).collect::<Vec<_>>()));
                    }
                },
            }
            s
        }
    });
    r.unwrap_or_else(|e| format!("PANIC {}", e))
}
pub fn kind(op: &Op) -> &'static str {
    match op { Op::Scan(..) => "scan", Op::ScanFull(..) => "scan into a full sink", Op::ScanMissing(..) => "scan of nothing", Op::Parse(..) => "parse", Op::Merge(..) => "merge",
        Op::Hash(..) => "hash_file", Op::HashFails(..) => "hash_file with a failing reader", Op::Check(..) => "check_file", Op::Emit(..) => "emit", Op::EmitFull(..) => "emit into a full sink", Op::GetHash(..) => "get_hash",
        Op::ParseSome(..) => "part of a signature", Op::MergeSome(..) => "part of a merge" }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ops: Vec<Op>, threads: u8, order: Vec<u16> }
fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let dirs: Vec<PathBuf> = c.ops.iter().enumerate().map(|(i, o)| {
        let p = d.join(i.to_string());
        crate::runner::must(std::fs::create_dir(&p), "dir");
        if let Op::Scan(t, _) | Op::ScanFull(t, _, _) = o { crate::fsops::make_plain(&p, t); }
        p
    }).collect();
    // each on a thread of its own, one after the other
    let alone: Vec<String> = c.ops.iter().zip(&dirs).map(|(o, p)| std::thread::scope(|s| s.spawn(|| perform(o, p)).join().unwrap())).collect();
    let mut bad = None;
    let mut judge = |i: usize, how: &str, got: String| if got != alone[i] && bad.is_none() {
        bad = Some(format!("{}, operation {} ({}): alone {:?}, here {:?}; the operations: {:?}", how, i, kind(&c.ops[i]), clip(&alone[i], &got), clip(&got, &alone[i]), c.ops.iter().map(kind).collect::<Vec<_>>()));
    };
    // on one thread in any order, with repetitions
    let order: Vec<usize> = c.order.iter().map(|x| *x as usize % c.ops.len()).collect();
    for r in std::thread::scope(|s| s.spawn(|| order.iter().map(|&i| (i, perform(&c.ops[i], &dirs[i]))).collect::<Vec<_>>()).join().unwrap()) {
        judge(r.0, "after other operations on the same thread", r.1);
    }
    // at the same time
    let n = c.threads as usize % 7 + 2;
    let bar = std::sync::Barrier::new(n);
    let all: Vec<(usize, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| { let (bar, dirs, order) = (&bar, &dirs, &order); s.spawn(move || {
            bar.wait();
            let mut v = vec![];
            for j in 0..order.len() { let i = order[(j + k * 3) % order.len()]; v.push((i, perform(&c.ops[i], &dirs[i]))); }
            v
        }) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for (i, r) in all { judge(i, &format!("at the same time as others ({} threads)", n), r); }
    cx.cleanup(&d);
    let mut kinds: Vec<_> = c.ops.iter().map(kind).collect();
    kinds.sort();
    kinds.dedup();
    for k in &kinds { cx.class(k); }
    cx.nontrivial(kinds.len() > 1);
    cx.evals((order.len() * (n + 1)) as u64);
    match bad { Some(m) => Err(m), None => Ok(()) }
}
/// The part around the first difference.
fn clip(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let v: Vec<u8> = a.bytes().skip(i.saturating_sub(60)).take(160).collect();
    String::from_utf8_lossy(&v).into_owned()
}
pub fn op() -> BoxedStrategy<Op> {
    let tree = || gens::tree(TreeOpt { big: true, specials: false, max: 10, top: 5, ..TREE });
    let at = || prop::option::weighted(0.3, any::<u16>());
    let bs = || prop_oneof![3 => Just(32767u16), 1 => any::<u16>(), 1 => 20u16..200];
    prop_oneof![
        3 => (tree(), gens::cfg()).prop_map(|(t, mut c)| { c.progress = false; Op::Scan(t, c) }),
        1 => (tree(), gens::cfg(), any::<u16>()).prop_map(|(t, mut c, n)| { c.progress = false; Op::ScanFull(t, c, n) }),
        1 => gens::cfg().prop_map(|mut c| { c.progress = false; Op::ScanMissing(c) }),
        3 => (doc(), gens::plan(), at()).prop_map(|(d, p, a)| Op::Parse(d, p, a)),
        2 => (doc(), doc(), at(), prop::bool::weighted(0.8)).prop_map(|(a, mut b, at, same)| { if same { b.h = a.h; b.bs = a.bs; } Op::Merge(a, b, at) }),
        2 => (gens::content(gens::small_len()), gens::any_h(), bs()).prop_map(|(c, h, b)| Op::Hash(c, h, b)),
        1 => (gens::content(gens::edge_len()), gens::any_h(), bs(), any::<u16>()).prop_map(|(c, h, b, n)| Op::HashFails(c, h, b, n)),
        2 => (gens::content(gens::edge_len()), gens::any_h(), bs(), prop::option::of(any::<u32>())).prop_map(|(c, h, b, f)| Op::Check(c, h, b, f)),
        2 => doc().prop_map(Op::Emit),
        1 => (doc(), any::<u16>()).prop_map(|(d, n)| Op::EmitFull(d, n)),
        1 => (doc(), at()).prop_map(|(d, a)| Op::GetHash(d, a)),
        2 => (doc(), gens::plan(), prop::collection::vec(docs::op(1), 1..8), any::<u8>()).prop_map(|(d, p, o, n)| Op::ParseSome(d, p, o, n)),
        1 => (doc(), doc(), prop::collection::vec(docs::op(1), 1..8), any::<u8>()).prop_map(|(a, mut b, o, n)| { b.h = a.h; b.bs = a.bs; Op::MergeSome(a, b, o, n) }),
    ].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (prop::collection::vec(op(), 1..7), any::<u8>(), prop::collection::vec(any::<u16>(), 1..12)).prop_map(|(ops, threads, order)| Case { ops, threads, order }).boxed()
}

/// Several readers and emitters on one thread, advanced in turns.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Turns { docs: Vec<Doc>, order: Vec<u8>, plan: Plan }
fn check_turns(c: &Turns, cx: &mut Cx) -> Res {
    let want: Vec<Vec<Ent>> = c.docs.iter().map(|d| d.ents()).collect();
    let n = c.docs.len();
    let mut ps = vec![];
    for d in &c.docs { ps.push(Parser::new(Chunky::new(d.text(), &c.plan).buffered(&c.plan)).map_err(|e| e.to_string())?); }
    let mut its: Vec<_> = ps.iter_mut().map(|p| p.iter()).collect();
    let mut outs: Vec<Vec<u8>> = vec![vec![]; n];
    let mut ems = vec![];
    for (d, o) in c.docs.iter().zip(outs.iter_mut()) { ems.push(Emitter::new(d.h.real(), d.bs, o).map_err(|e| e.to_string())?); }
    let mut at = vec![0; n];
    let total: usize = want.iter().map(|w| w.len() + 1).sum();
    let mut turn = 0;
    // by the generated order first, then whoever is left
    for k in 0..c.order.len() * 4 + total * n {
        let i = if k < c.order.len() * 4 { c.order[k % c.order.len()] as usize % n } else { k % n };
        if at[i] > want[i].len() { continue; }
        turn += 1;
        // a request for something long past: nothing, and nothing is lost
        if at[i] > 0 && c.order[turn % c.order.len()] % 3 == 0 {
            if let Some(e) = docs::adv(&mut its[i], true, b"/", 0) { return Err(format!("turn {}: signature {} yields {:?} for its root after {} entries", turn, i, e.map(|e| real_ent(&e)), at[i])); }
        }
        match its[i].next() {
            None => {
                if at[i] < want[i].len() { return Err(format!("turn {}: signature {} ends after {} of {} entries", turn, i, at[i], want[i].len())); }
                ems[i].finish().map_err(|e| e.to_string())?;
            }
            Some(e) => {
                let e = e.map_err(|e| format!("turn {}: signature {}: {}", turn, i, e))?;
                if want[i].get(at[i]) != Some(&real_ent(&e)) { return Err(format!("turn {}: signature {} yields {:?}, expected {:?}", turn, i, real_ent(&e), want[i].get(at[i]))); }
                emit_one(&mut ems[i], &e).map_err(|e| e.to_string())?;
            }
        }
        at[i] += 1;
    }
    drop(its);
    drop(ems);
    for (i, d) in c.docs.iter().enumerate() {
        let w = refsig::text(d.h, d.bs, &want[i]);
        if outs[i] != w { return Err(format!("emitter {}: {}", i, refsig::diff(&w, &outs[i]))); }
    }
    cx.nontrivial(n > 1 && want.iter().filter(|w| w.len() > 1).count() > 1);
    cx.class(&format!("{} signatures", n));
    Ok(())
}
fn st_turns(_: Tier) -> BoxedStrategy<Turns> {
    (prop::collection::vec(doc(), 1..5), prop::collection::vec(any::<u8>(), 1..30), gens::plan()).prop_map(|(docs, order, plan)| Turns { docs, order, plan }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C27", level: "exploration", rule: "operations of at least two kinds (uses); at least two signatures of several entries (turns)",
        assumptions: &["interleavings of real threads are sampled, not enumerated"],
        parts: vec![part("uses", [4000, 60_000], st, || vec![], check), part("turns", [20_000, 300_000], st_turns, || vec![], check_turns)],
    }
}
