//! What an operation took it gives back.
use super::c27::{self, Op};
use crate::alloc::live;
use crate::docs::{big_doc, doc, Doc};
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Script};
use crate::model::Tree;
use crate::runner::{catch, must, part, Cx, Prop, Res, Tier};
use crate::scanlib::Cfg;
use dir_signature::v1::{self, merge::FileMergeBuilder, Emitter, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Use(Op),
    /// the n-th system call on the source fails
    ScanBroken(Tree, Cfg, u16, i32),
    /// files merged by path, left after so many groups; one of them may be missing
    Files(Vec<Doc>, u16, bool),
    /// a parser left after so many entries, its reader taken back or dropped
    Left(Doc, u16, bool),
    /// an emitter left without a footer
    Unfinished(Doc),
}
fn act(a: &Act, dir: &Path) {
    // results are C27's business; panics are those of other properties
    let _ = catch(|| match a {
        Act::Use(o) => { c27::perform(o, dir); }
        Act::ScanBroken(_, c, n, e) => {
            interpose::start(&Script { fail_at: Some((*n as u64, *e)), ..Script::default() });
            let r = v1::scan(&c.one(dir), &mut std::io::sink());
            interpose::stop();
            drop(r);
        }
        Act::Files(v, n, missing) => {
            let mut b = FileMergeBuilder::new();
            for i in 0..v.len() + *missing as usize { b.add(PathBuf::from(format!("/{}", i)), dir.join(i.to_string())); }
            if let Ok(mut m) = b.finalize() {
                let mut it = m.iter();
                for _ in 0..*n { if it.next().is_none() { break } }
            }
        }
        Act::Left(d, n, back) => {
            if let Ok(mut p) = Parser::new(Cursor::new(d.text())) {
                for _ in p.iter().take(*n as usize) {}
                if *back { drop(p.into_reader()); }
            }
        }
        Act::Unfinished(d) => {
            let mut v = vec![];
            if let Ok(mut e) = Emitter::new(d.h.real(), d.bs, &mut v) { for x in c27::ents(d).unwrap_or_default() { let _ = c27::emit_one(&mut e, &x); } }
        }
    });
}
fn kind(a: &Act) -> &'static str {
    match a { Act::Use(o) => c27::kind(o), Act::ScanBroken(..) => "scan of a failing source", Act::Files(..) => "merge by path, left", Act::Left(..) => "parser, left", Act::Unfinished(..) => "emitter, left" }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { acts: Vec<Act> }
fn tasks() -> usize { std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) }
fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let dirs: Vec<PathBuf> = c.acts.iter().enumerate().map(|(i, a)| {
        let p = d.join(i.to_string());
        must(std::fs::create_dir(&p), "dir");
        match a {
            Act::Use(Op::Scan(t, _)) | Act::Use(Op::ScanFull(t, _, _)) | Act::ScanBroken(t, ..) => crate::fsops::make_plain(&p, t),
            Act::Files(v, ..) => for (i, x) in v.iter().enumerate() { must(std::fs::write(p.join(i.to_string()), x.text()), "write") },
            _ => {}
        }
        p
    }).collect();
    let before = tasks();
    const ROUNDS: usize = 6;
    let (mut mem, mut fds) = ([0usize; ROUNDS], [0usize; ROUNDS]);
    for r in 0..ROUNDS {
        for (a, p) in c.acts.iter().zip(&dirs) { act(a, p); }
        if !interpose::quiesce_to(before) {
            cx.cleanup(&d);
            return Err(format!("{} threads run 10 s after the operations ended, {} before: {:?}", tasks(), before, c.acts.iter().map(kind).collect::<Vec<_>>()));
        }
        mem[r] = live();
        fds[r] = interpose::fd_count();
    }
    cx.cleanup(&d);
    let mut kinds: Vec<_> = c.acts.iter().map(kind).collect();
    kinds.sort();
    kinds.dedup();
    for k in &kinds { cx.class(k); }
    cx.nontrivial(c.acts.iter().any(|a| matches!(a, Act::Use(Op::Scan(t, _)) | Act::Use(Op::ScanFull(t, ..)) | Act::ScanBroken(t, ..) if !t.is_empty()) || matches!(a, Act::Use(Op::Parse(..)) | Act::Use(Op::Merge(..)) | Act::Files(..) | Act::Left(..))));
    cx.evals((ROUNDS * c.acts.len()) as u64);
    // the first rounds may fill caches
    let grows = |v: &[usize]| v.windows(2).skip(1).all(|w| w[1] > w[0]);
    if grows(&mem) { return Err(format!("the heap grows with every repetition: {:?} bytes; {:?}", mem, kinds)); }
    if grows(&fds) { return Err(format!("the number of open descriptors grows with every repetition: {:?}; {:?}", fds, kinds)); }
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let tree = || gens::tree(TreeOpt { big: true, specials: false, max: 10, top: 5, ..TREE });
    let quiet = |mut c: Cfg| { c.progress = false; c };
    let one = prop_oneof![
        4 => c27::op().prop_map(Act::Use),
        2 => (tree(), gens::cfg(), prop_oneof![0u16..10, 0u16..120], prop::sample::select(vec![libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOMEM, libc::EMFILE])).prop_map(move |(t, c, n, e)| Act::ScanBroken(t, quiet(c), n, e)),
        1 => (prop::collection::vec(doc(), 0..4), any::<bool>(), prop_oneof![0u16..12, Just(10_000)], prop::bool::weighted(0.3)).prop_map(|(mut v, same, n, m)| {
            if same { if let Some((h, bs)) = v.first().map(|d| (d.h, d.bs)) { for d in v.iter_mut() { d.h = h; d.bs = bs; } } }
            Act::Files(v, n, m)
        }),
        1 => (big_doc(), 0u16..12, any::<bool>()).prop_map(|(d, n, b)| Act::Left(d, n, b)),
        1 => doc().prop_map(Act::Unfinished),
    ];
    prop::collection::vec(one, 1..4).prop_map(|acts| Case { acts }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C31", level: "exploration", rule: "a scan of a tree that is not empty, or a parser or merge",
        assumptions: &["heap memory is measured by a counting allocator", "memory kept once, such as a cache filled by the first use, is not a leak: only growth with every repetition is"],
        parts: vec![part("rounds", [5000, 60_000], st, || vec![], check)],
    }
}
