//! Merged iteration is a lossless k-way merge.
use crate::docs::{adv_merged, block_size, op, real_ent, target, Cursor, Doc, Op};
use crate::digest::H;
use crate::model::Tree;
use crate::props::c12::{edit, edits, Edit};
use crate::readers::{Chunky, Plan};
use crate::refsig::{self, read, End, Ent, Key};
use crate::runner::{part, Cx, Prop, Res, Tier};
use dir_signature::v1::{merge::MergedSignatures, Entry, ParseError, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    t: Tree, h: H, bs: u64,
    /// (mask, salt, empty) of each signature
    docs: Vec<(u16, u16, bool)>,
    ops: Vec<Op>, plan: Plan,
    /// (which signature, what is done to its text)
    fault: Option<(u8, Vec<Edit>)>,
}

type Group = Vec<(u32, Ent)>;

struct Model<'a> { cur: Vec<Cursor<'a>>, keys: Vec<u32> }
impl<'a> Model<'a> {
    fn next(&mut self) -> Option<Group> {
        let min: Key = self.cur.iter().filter_map(|c| c.head()).min()?.clone();
        Some(self.advance(&min))
    }
    fn advance(&mut self, k: &Key) -> Group {
        let keys = &self.keys;
        self.cur.iter_mut().enumerate().filter_map(|(i, c)| c.advance(k).map(|e| (keys[i], e.clone()))).collect()
    }
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut texts = vec![];
    for &(mask, salt, empty) in &c.docs {
        let d = Doc { t: c.t.clone(), h: c.h, bs: c.bs, attrs: vec![], salt, mask, empty };
        texts.push(d.text());
    }
    // keys are not in order, one may occur twice
    let keys: Vec<u32> = (0..texts.len() as u32).map(|i| if texts.len() < 6 { (i * 7 + 3) % 5 } else { 100 + i * 7919 % 1009 }).collect();
    let mut bad = None;
    if let Some((i, es)) = &c.fault {
        if !texts.is_empty() {
            let i = *i as usize % texts.len();
            for e in es { edit(&mut texts[i], e, c.bs); }
            bad = Some(i);
        }
    }
    let mut ents = vec![];
    for (i, t) in texts.iter().enumerate() {
        match read(t) {
            Ok(d) if Some(i) != bad => ents.push(d.ents),
            Ok(d) if d.h == c.h && d.bs == c.bs => ents.push(d.ents),
            // the fault is in the header: nothing to merge
            _ => { cx.class("fault in the header"); return Ok(()); }
        }
    }
    let fault = bad.map(|i| read(&texts[i]).unwrap().end);
    if let Some(End::Unspec(_)) = fault { cx.class("left open by the format"); return Ok(()); }
    let mut m = Model { cur: ents.iter().map(|e| Cursor::new(e)).collect(), keys: keys.clone() };
    if let Some(i) = bad {
        // the changed text must still be sorted for the merge to be defined
        if !m.cur[i].sorted() { cx.class("fault breaks the order"); return Ok(()); }
    }
    // the faulty signature can be told apart by its key
    let mut keys = keys;
    if let Some(i) = bad { keys[i] = 99; m.keys[i] = 99; }
    let mut ps = vec![];
    for (i, t) in texts.iter().enumerate() {
        ps.push((keys[i], Parser::new(Chunky::new(t.clone(), &c.plan).buffered(&c.plan)).map_err(|e| format!("signature {}: {}", i, e))?));
    }
    let mut merged = MergedSignatures::new(ps).map_err(|e| format!("merging: {}", e))?;
    let mut it = merged.iter();
    let mut failed = false;
    let total: usize = texts.iter().map(|t| t.len()).sum();
    // results of the faulty signature from its first error on are not looked at
    let conv = |g: Vec<(&u32, Result<Entry, ParseError>)>, failed: &mut bool| -> Result<Group, String> {
        let mut v = vec![];
        for (k, r) in g {
            if *failed && *k == 99 { continue; }
            match r {
                Ok(e) => v.push((*k, real_ent(&e))),
                Err(e) if *k == 99 => { let _ = e; *failed = true; }
                Err(e) => return Err(format!("error under the key of an intact signature ({}): {}", k, e)),
            }
        }
        Ok(v)
    };
    let tail = ents.iter().map(|e| e.len()).sum::<usize>() + 3;
    let all: Vec<Ent> = { let mut v: Vec<Ent> = ents.iter().flatten().cloned().collect(); v.sort_by_key(|e| e.key()); v.dedup_by_key(|e| e.key()); v };
    let fin = Op::Next;
    let (mut shared, mut hits) = (0, 0);
    for (n, o) in c.ops.iter().chain(std::iter::repeat(&fin).take(tail)).enumerate() {
        let (want, got, what) = match o {
            Op::Next => {
                let w = m.next();
                let mut spins = 0;
                let g = loop {
                    match it.next() {
                        None => break None,
                        Some(g) => {
                            if g.is_empty() { return Err(format!("step {}: next() yields an empty group", n)); }
                            let v = conv(g, &mut failed)?;
                            if !v.is_empty() { break Some(v); }
                            spins += 1;
                            if spins > total + 10 { return Err("errors are reported forever".into()); }
                        }
                    }
                };
                (w, g, "next()".to_string())
            }
            Op::Adv { i, how, sp } => {
                let (d, p) = target(&all, *i, *how);
                let k = refsig::key(d, &p);
                let w = m.advance(&k);
                let g = conv(adv_merged(&mut it, d, &p, *sp), &mut failed)?;
                if !w.is_empty() { hits += 1; }
                // a cursor over the faulty signature alone would have run into the fault
                if let (Some(b), Some(End::Reject(_)) | Some(End::Extra(_))) = (bad, &fault) {
                    if !failed && m.cur[b].head().is_none() && !w.iter().any(|(k, _)| *k == 99) {
                        return Err(format!("step {} advance({:?}) passes all entries before the fault in signature {} but does not report it", n, k, b));
                    }
                }
                (Some(w), Some(g), format!("advance({:?})", k))
            }
        };
        if want.as_ref().map_or(false, |g| g.len() > 1) { shared += 1; }
        let show = |g: &Option<Group>| match g { None => "nothing".to_string(), Some(g) => format!("{:?}", g) };
        if want != got {
            return Err(format!("step {} {}: expected {}, got {} (keys {:?}, faulty {:?})", n, what, show(&want), show(&got), keys, bad));
        }
    }
    if let (Some(f), false) = (&fault, failed) {
        if matches!(f, End::Reject(_) | End::Extra(_)) { return Err(format!("the fault in signature {:?} ({:?}) is not reported", bad, f)); }
    }
    cx.nontrivial(texts.len() >= 2 && shared > 0 && ents.iter().any(|e| *e != ents[0]));
    cx.class(&if texts.len() < 6 { format!("{} signatures", texts.len()) } else { "many signatures".to_string() });
    cx.class_if(shared > 0, "groups of several entries");
    cx.class_if(hits > 0, "advance finds");
    cx.class_if(failed, "fault reported under its key");
    cx.evals(c.ops.len() as u64);
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let mask = prop_oneof![1 => Just(0u16), 3 => any::<u16>(), 2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a & b)];
    let one = (mask, prop_oneof![2 => Just(7u16), 1 => any::<u16>()], prop::bool::weighted(0.05)).boxed();
    (super::c14::tree(), crate::gens::any_h(), block_size(), prop_oneof![150 => prop::collection::vec(one.clone(), 0..5), 2 => prop::collection::vec(one.clone(), 5..20), 1 => prop::collection::vec(one.clone(), 20..80), 1 => crate::dict::near(1, 300, 1).prop_flat_map(move |n| prop::collection::vec(one.clone(), n as usize))],
     prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(op(2), 0..10)], prop_oneof![3 => Just(Plan { chunks: vec![], buf: 8192 }), 1 => crate::gens::plan()],
     prop::option::weighted(0.35, (any::<u8>(), prop::collection::vec(edits(), 1..3))))
        .prop_map(|(t, h, bs, docs, ops, plan, fault)| Case { t, h, bs, docs, ops, plan, fault }).boxed()
}
fn fixed() -> Vec<Case> {
    // more signatures than the bits of any machine word, or a byte, count
    let mut v = vec![];
    for n in [17u16, 33, 65, 129, 257, 300] {
        let mut t = Tree::new();
        for i in 0..16 { t.insert(crate::model::B::s(&format!("f{:02}", i)), crate::model::Node::Link(crate::model::B::s("x"))); }
        for k in 0..3u16 {
            let docs = (0..n).map(|i| (match k { 0 => 1 << (i % 16) << 1, 1 => !(2 << (i / 8 % 15)), _ => if i == n - 1 { 0 } else { 0xfffe } }, i, false)).collect();
            let ops = (0..12).map(|i| if i % 3 == 0 { Op::Next } else { Op::Adv { i: i * 5000, how: (i % 5) as u8, sp: 0 } }).collect();
            v.push(Case { t: t.clone(), h: H::Sha, bs: 32768, docs, ops, plan: Plan { chunks: vec![], buf: 8192 }, fault: if k == 1 { Some((200, vec![Edit::After { with: "  x".into() }])) } else { None } });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C16", level: "exploration", rule: "at least two differing signatures, with entries that occur in several of them",
        assumptions: &["each signature is sorted; what a signature yields after its first error is left open"],
        parts: vec![part("merge", [80_000, 2_000_000], st, fixed, check)],
    }
}
