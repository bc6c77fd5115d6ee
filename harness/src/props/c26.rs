//! Signatures are enough to synchronise directories.
use crate::digest::H;
use crate::docs::{bytes, real_ent};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Content, Node, Tree, B};
use crate::props::c07::{apply, mutation, Mut};
use crate::refsig::BS;
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::v1::{merge::FileMergeBuilder, Entry, EntryKind, Hashes, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// What synchronising can transport. Directories and other entries are apart, so that no order of creating and
/// removing matters. All work is done on this model, never on files.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Thing { File(Vec<u8>, bool), Link(Vec<u8>) }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Disk { dirs: BTreeSet<Vec<u8>>, things: BTreeMap<Vec<u8>, Thing> }
fn disk(t: &Tree) -> Disk {
    let mut d = Disk::default();
    walk(t, &mut |p, n| match n {
        None | Some(Node::Dir(..)) => { d.dirs.insert(p.to_vec()); }
        Some(Node::File(c, m)) => { d.things.insert(p.to_vec(), Thing::File(c.bytes(), m & 0o100 != 0)); }
        Some(Node::Link(t)) => { d.things.insert(p.to_vec(), Thing::Link(t.0.clone())); }
        _ => {}
    });
    d
}
fn block(data: &[u8], i: usize) -> &[u8] {
    let a = (i * BS as usize).min(data.len());
    &data[a..(a + BS as usize).min(data.len())]
}
/// Takes blocks with the same hash from the old files, asks the other side for the rest.
struct Peer<'a> { disk: &'a Disk, blocks: usize, requests: BTreeSet<Vec<u8>> }
impl<'a> Peer<'a> {
    fn block(&mut self, path: &[u8], i: usize) -> Result<&'a [u8], String> {
        self.blocks += 1;
        self.requests.insert(path.to_vec());
        match self.disk.things.get(path) { Some(Thing::File(d, _)) => Ok(block(d, i)), _ => Err(format!("a block of {:?} is needed, which is no file there", B(path.to_vec()))) }
    }
}
fn want_len(size: u64, i: usize) -> u64 { size.saturating_sub(i as u64 * BS).min(BS) }

/// Rebuilds a file from its hashes.
fn rebuild(p: &[u8], size: u64, hashes: &Hashes, old: Option<(&[u8], &Hashes)>, peer: &mut Peer) -> Result<Vec<u8>, String> {
    let mut data = vec![];
    for (i, h) in hashes.iter().enumerate() {
        if hashes.get(i) != Some(h) { return Err(format!("{:?}: get({}) is not the hash iter() yields", B(p.to_vec()), i)); }
        let have = old.and_then(|(d, o)| if o.get(i) == Some(h) && block(d, i).len() as u64 == want_len(size, i) { Some(block(d, i)) } else { None });
        data.extend_from_slice(match have { Some(b) => b, None => peer.block(p, i)? });
    }
    Ok(data)
}

/// One step: what both sides have at one position.
fn step(mine: Option<Entry>, theirs: Option<Entry>, cur: &mut Disk, base: &Disk, peer: &mut Peer) -> Res {
    let p = bytes(mine.as_ref().or(theirs.as_ref()).unwrap().path()).0;
    // paths compare equal when spelled differently (a, a/), so the entries are compared as bytes
    let same = match (&mine, &theirs) {
        // as a client does it
        (Some(Entry::File { path: p, exe: x, size: n, hashes: h }), Some(Entry::File { path: q, exe: y, size: m, hashes: g })) => bytes(p) == bytes(q) && x == y && n == m && h == g,
        _ => mine.as_ref().map(real_ent) == theirs.as_ref().map(real_ent),
    };
    if same { return Ok(()); }
    match (&mine, &theirs) {
        (Some(Entry::Dir(_)), None) => { cur.dirs.remove(&p); }
        (_, None) => { cur.things.remove(&p); }
        (_, Some(Entry::Dir(_))) => { cur.dirs.insert(p); }
        (_, Some(Entry::Link(_, t))) => { cur.things.insert(p, Thing::Link(bytes(t).0)); }
        (old, Some(Entry::File { exe, size, hashes, .. })) => {
            let old = match (old, base.things.get(&p)) { (Some(Entry::File { hashes, .. }), Some(Thing::File(d, _))) => Some((&d[..], hashes)), _ => None };
            let data = rebuild(&p, *size, hashes, old, peer)?;
            if data.len() as u64 != *size { return Err(format!("{:?}: {} bytes put together, its size is {}", B(p), data.len(), size)); }
            cur.things.insert(p, Thing::File(data, *exe));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Way {
    /// both signatures merged from files
    Merge,
    /// the target signature is walked, the own one is advanced to each of its entries
    Advance,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { a: Tree, muts: Vec<Mut>, /// an unrelated tree instead of the changed one
    other: Option<Tree>, h: H, ta: u16, tb: u16, way: Way }

fn sync(c: &Case, sa: &Path, sb: &Path, a: &Disk, b: &Disk) -> Result<(Disk, usize, BTreeSet<Vec<u8>>), String> {
    let mut cur = a.clone();
    let mut peer = Peer { disk: b, blocks: 0, requests: BTreeSet::new() };
    match c.way {
        Way::Merge => {
            let mut m = FileMergeBuilder::new();
            m.add("theirs", sb);
            m.add("mine", sa);
            let mut m = m.finalize().map_err(|e| format!("merging: {}", e))?;
            for g in m.iter() {
                let (mut mine, mut theirs) = (None, None);
                for (k, e) in g {
                    let e = e.map_err(|e| format!("merged signatures: {}", e))?;
                    let slot = if k == Path::new("mine") { &mut mine } else if k == Path::new("theirs") { &mut theirs } else { return Err(format!("unknown key {:?}", k)) };
                    if slot.is_some() { return Err(format!("two entries under the key {:?}", k)); }
                    *slot = Some(e);
                }
                if mine.is_none() && theirs.is_none() { return Err("empty group".into()); }
                step(mine, theirs, &mut cur, a, &mut peer)?;
            }
        }
        Way::Advance => {
            // what is new or changed, by advancing through the own signature
            let open = |p: &Path| Parser::new(std::io::BufReader::with_capacity(64, must(std::fs::File::open(p), "open"))).map_err(|e| e.to_string());
            let (mut pa, mut pb) = (open(sa)?, open(sb)?);
            let mut ia = pa.iter();
            let mut both: BTreeSet<(bool, PathBuf)> = BTreeSet::new();
            for e in pb.iter() {
                let e = e.map_err(|e| e.to_string())?;
                let mine = match ia.advance(&e.kind()) { None => None, Some(r) => Some(r.map_err(|e| e.to_string())?) };
                both.insert((matches!(e.kind(), EntryKind::Dir(_)), e.path().to_path_buf()));
                if let Some(m) = &mine { if m.kind() != e.kind() { return Err(format!("advance({:?}) gives {:?}", e.kind(), m.kind())); } }
                step(mine, Some(e), &mut cur, a, &mut peer)?;
            }
            // and what is gone
            let mut pa = open(sa)?;
            for e in pa.iter() {
                let e = e.map_err(|e| e.to_string())?;
                if !both.contains(&(matches!(e.kind(), EntryKind::Dir(_)), e.path().to_path_buf())) { step(Some(e), None, &mut cur, a, &mut peer)?; }
            }
        }
    }
    Ok((cur, peer.blocks, peer.requests))
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut b = c.other.clone().unwrap_or_else(|| c.a.clone());
    for m in &c.muts { apply(&mut b, m); }
    let (da, db) = (disk(&c.a), disk(&b));
    // blocks that cannot come from the file of the same path
    let (mut least, mut reused) = (0, 0);
    for (p, t) in &db.things {
        if let Thing::File(d, x) = t {
            let o = match da.things.get(p) { Some(Thing::File(o, y)) => { if o == d && x == y { continue; } Some(o) } _ => None };
            for i in 0..(d.len() as u64).div_ceil(BS) as usize { if o.map_or(false, |o| block(o, i) == block(d, i)) { reused += 1 } else { least += 1 } }
        }
    }
    let (fa, fb) = (cx.fresh(), cx.fresh());
    crate::fsops::make_plain(&fa, &c.a);
    crate::fsops::make_plain(&fb, &b);
    let conf = |threads| Cfg { h: c.h, threads, queue: None, progress: false };
    // the own signature is of the same kind of scan for blake3 (see C06)
    let ta = if c.h == H::B3 { c.tb } else { c.ta };
    let r = (|| {
        let (sa, sb) = (scan_ok(&fa, &conf(ta))?, scan_ok(&fb, &conf(c.tb))?);
        let (pa, pb) = (cx.dir.join("mine"), cx.dir.join("theirs"));
        must(std::fs::write(&pa, &sa), "write");
        must(std::fs::write(&pb, &sb), "write");
        sync(c, &pa, &pb, &da, &db)
    })();
    cx.cleanup(&fa);
    cx.cleanup(&fb);
    cx.nontrivial(da != db);
    cx.class(&format!("{:?}", c.way));
    cx.class_if(reused > 0, "blocks of changed files reused");
    cx.class_if(least > 1, "several blocks transferred");
    let (got, blocks, _) = r.map_err(|m| format!("{} ({:?})", m, c.way))?;
    if got != db {
        let p: Vec<_> = got.dirs.symmetric_difference(&db.dirs).map(|p| B(p.clone())).chain(
            got.things.keys().chain(db.things.keys()).filter(|p| got.things.get(*p) != db.things.get(*p)).map(|p| B(p.clone()))).take(3).collect();
        return Err(format!("after synchronising by {:?} ({}) these differ: {:?}", c.way, c.h.name(), p));
    }
    // with the listed finding about blake3 any earlier change makes all later hashes differ
    if c.h != H::B3 && blocks != least { return Err(format!("{} blocks were transferred, {} are new ({:?})", blocks, least, c.way)); }
    if da == db && blocks > 0 { return Err(format!("{} blocks were transferred between equal directories", blocks)); }
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, specials: true, max: 16, top: 7, many: gens::MANY, ..TREE };
    (gens::tree(o), prop::collection::vec(mutation(), 0..7), prop::option::weighted(0.2, gens::tree(o)), gens::any_h(), 0u16..4, 0u16..4, prop_oneof![Just(Way::Merge), Just(Way::Advance)])
        .prop_map(|(a, muts, other, h, ta, tb, way)| Case { a, muts, other, h, ta, tb, way }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let big = |n: u32| Node::File(Content::new(n, 7), 0o644);
    for way in [Way::Merge, Way::Advance] {
        for h in crate::digest::ALL_H {
            let mut a = Tree::new();
            a.insert(B::s("big"), big(20 * 32768 + 5));
            a.insert(B::s("even"), big(4 * 32768));
            a.insert(B::s("a"), Node::dir());
            a.insert(B::s("a.b"), big(3));
            for b in 0..21 { v.push(Case { a: a.clone(), muts: vec![Mut::Flip(2, b * 32768 + 3, 1)], other: None, h, ta: 0, tb: 0, way }); }
            for m in [vec![Mut::Append(2, 0)], vec![Mut::Append(1, 0)], vec![Mut::Truncate(2, 32768)], vec![Mut::Exec(2)], vec![Mut::ToDir(2)], vec![Mut::ToLink(3)]] {
                v.push(Case { a: a.clone(), muts: m, other: None, h, ta: 2, tb: 0, way });
            }
            v.push(Case { a: a.clone(), muts: vec![], other: Some(Tree::new()), h, ta: 0, tb: 3, way });
            v.push(Case { a: Tree::new(), muts: vec![], other: Some(a.clone()), h, ta: 0, tb: 3, way });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C26", level: "exploration", rule: "the two directories differ",
        assumptions: &["collision resistance of the digests", "the copying is done on a model of the directories, only the signatures come from the code"],
        parts: vec![part("sync", [12_000, 150_000], st, fixed, check)],
    }
}
