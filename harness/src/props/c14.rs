//! next and advance behave like a cursor over the sorted entries.
use crate::docs::{adv, doc_of, op, real_ent, target, Cursor, Doc, Op, DOC_TREE};
use crate::gens::{self, TreeOpt};
use crate::model::{Content, Node, Tree, B};
use crate::readers::{Chunky, Plan};
use crate::refsig;
use crate::runner::{part, Cx, Prop, Res, Tier};
use dir_signature::v1::Parser;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { d: Doc, ops: Vec<Op>, plan: Plan }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let (text, ents) = (c.d.text(), c.d.ents());
    let mut cur = Cursor::new(&ents);
    if !cur.sorted() { crate::runner::infra("generated signature is not sorted"); }
    let mut p = Parser::new(Chunky::new(text, &c.plan).buffered(&c.plan)).map_err(|e| e.to_string())?;
    let mut it = p.iter();
    let (mut hits, mut misses, mut back) = (0, 0, 0);
    let tail = ents.len() + 2;
    let fin = Op::Next;
    for (i, o) in c.ops.iter().chain(std::iter::repeat(&fin).take(tail)).enumerate() {
        let before = cur.pos;
        let (want, got, what) = match o {
            Op::Next => (cur.next(), it.next(), "next()".to_string()),
            Op::Adv { i, how, sp } => {
                let (d, p) = target(&ents, *i, *how);
                let k = refsig::key(d, &p);
                if cur.head().map_or(false, |h| *h > k) { back += 1; }
                let w = cur.advance(&k);
                if w.is_some() { hits += 1 } else { misses += 1 }
                (w, adv(&mut it, d, &p, *sp), format!("advance({}, {:?})", if d { "Dir" } else { "File" }, B(p)))
            }
        };
        let got = match got { None => None, Some(Ok(e)) => Some(real_ent(&e)), Some(Err(e)) => return Err(format!("step {} {} with the cursor at {}: error {}", i, what, before, e)) };
        if got.as_ref() != want { return Err(format!("step {} {} with the cursor at {} of {}: expected {:?}, got {:?}", i, what, before, ents.len(), want, got)); }
    }
    cx.nontrivial(hits > 0 && misses > 0 && ents.len() > 2);
    cx.class_if(hits > 0, "advance finds");
    cx.class_if(misses > 0, "advance finds nothing");
    cx.class_if(back > 0, "target before the cursor");
    cx.evals(c.ops.len() as u64);
    Ok(())
}
fn narrow() -> BoxedStrategy<B> {
    prop::sample::select(vec!["a", "a.", "a!", "aa", "b", "a b", "\x01", "A", "é", "\\x61", "a\\"]).prop_map(B::s).boxed()
}
/// Trees whose names collide a lot with each other as files and directories.
pub fn tree() -> BoxedStrategy<Tree> {
    let o = TreeOpt { names: narrow, max: 20, top: 6, ..DOC_TREE };
    prop_oneof![3 => gens::tree(o), 1 => gens::tree(TreeOpt { many: gens::MANY, ..DOC_TREE })].boxed()
}
fn st(tier: Tier) -> BoxedStrategy<Case> {
    let n = if tier.thorough() { 40 } else { 16 };
    let ops = prop_oneof![
        3 => prop::collection::vec(op(3), 0..n),
        // mostly forward
        3 => prop::collection::vec(op(1), 1..8).prop_map(|mut v| { v.sort_by_key(|o| match o { Op::Next => 0, Op::Adv { i, .. } => *i }); v }),
    ];
    (doc_of(tree()), ops, prop_oneof![4 => Just(Plan { chunks: vec![], buf: 8192 }), 1 => gens::plan()]).prop_map(|(d, ops, plan)| Case { d, ops, plan }).boxed()
}
/// For a fixed signature, every pair of advance targets, with and without a next in between.
fn fixed() -> Vec<Case> {
    let f = || Node::File(Content::new(1, 2), 0o644);
    let mut inner = Tree::new();
    inner.insert(B::s("a"), f());
    inner.insert(B::s("b"), Node::Dir([(B::s("a"), f())].into_iter().collect(), 0o755));
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::Dir(inner.clone(), 0o755));
    t.insert(B::s("a."), Node::Dir(inner, 0o755));
    t.insert(B::s("b"), f());
    t.insert(B::s("a!"), Node::Link(B::s("x")));
    let d = Doc { t, h: crate::digest::H::Sha, bs: 32768, attrs: vec![], salt: 3, mask: 0, empty: false };
    let n = d.ents().len() as u32;
    let pos = |k: u32| (k * 65536 / n + 65536 / n / 2) as u16;
    let mut v = vec![];
    for a in 0..n { for b in 0..n { for how in [0u8, 4, 5, 6, 7, 8] { for skip in 0..3 {
        let mut ops = vec![Op::Next; skip];
        ops.push(Op::Adv { i: pos(a), how, sp: 0 });
        ops.push(Op::Adv { i: pos(b), how: 0, sp: (a % 256) as u8 });
        v.push(Case { d: d.clone(), ops, plan: Plan { chunks: vec![], buf: 8192 } });
    } } } }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C14", level: "exploration", rule: "at least one advance finds its target and at least one does not, on a signature of more than two entries",
        assumptions: &["order model: component-wise, a directory line before its files, files before subdirectories"],
        parts: vec![part("ops", [160_000, 4_000_000], st, fixed, check)],
    }
}
