//! Entries and hashes are equal exactly when they say the same.
use crate::digest::{hex, ALL_H, H};
use crate::docs::{bytes, real_ent};
use crate::gens;
use crate::model::B;
use crate::refsig::{self, Ent};
use crate::runner::{part, Cx, Prop, Res, Tier};
use dir_signature::v1::{Entry, EntryKind, Hashes, Parser};
use dir_signature::HashType;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::ffi::OsStr;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

/// An entry with all that belongs to it, where a file has `n` hashes and the last block `tail` (1..) bytes.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct One { dir: Vec<B>, name: B, what: u8, exe: bool, tail: u64, hashes: Vec<(u16, u8)>, target: B, h: H, bs: u64 }
/// One thing that is different in another entry.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Twist { Same, Dir(B), DropDir, Name(B), What(u8), Exe, Tail(u64), Bit(u16, u8, u8), Swap(u16, u16), Push(u16), Pop, Repeat(u16), Target(B), TargetSlash, H(H), Bs(u64) }
const BIG: u64 = 1 << 40;

fn digest((a, b): (u16, u8)) -> [u8; 32] {
    let mut d = [0u8; 32];
    if a != 0 { for (i, x) in d.iter_mut().enumerate() { *x = (a as u32).wrapping_mul(0x9E37_79B1).wrapping_add((i as u32).wrapping_mul(0x85EB_CA6B)).rotate_left(i as u32) as u8; } }
    // of 256 bits one is turned
    d[b as usize / 8] ^= 1 << (b % 8);
    d
}
impl One {
    fn path(&self) -> Vec<u8> {
        let mut p = vec![];
        for c in &self.dir { p.push(b'/'); p.extend_from_slice(&c.0); }
        if self.what != 0 { p.push(b'/'); p.extend_from_slice(&self.name.0); }
        if p.is_empty() { p.push(b'/') }
        p
    }
    fn ent(&self) -> Ent {
        let p = B(self.path());
        match self.what {
            0 => Ent::Dir(p),
            1 => Ent::Link(p, self.target.clone()),
            _ => {
                let hashes: Vec<_> = self.hashes.iter().map(|&x| digest(x)).collect();
                let n = hashes.len() as u64;
                let size = if n == 0 { 0 } else { (n - 1) * self.bs + 1 + (self.tail % self.bs) };
                Ent::File { path: p, exe: self.exe, size, hashes }
            }
        }
    }
    /// The entry as the parser gives it.
    fn real(&self) -> Result<Entry, String> {
        let mut dir = vec![];
        for c in &self.dir { dir.push(b'/'); dir.extend_from_slice(&c.0); }
        if dir.is_empty() { dir.push(b'/') }
        let e = self.ent();
        let v = if self.what == 0 { vec![e.clone()] } else { vec![Ent::Dir(B(dir)), e.clone()] };
        let text = refsig::text(self.h, self.bs, &v);
        let mut p = Parser::new(&text[..]).map_err(|x| x.to_string())?;
        let got = p.iter().last().ok_or("no entry")?.map_err(|x| format!("{} in {:?}", x, e))?;
        if real_ent(&got) != e { return Err(format!("parsed as {:?}, expected {:?}", real_ent(&got), e)); }
        Ok(got)
    }
    fn twist(&mut self, t: &Twist) {
        let n = self.hashes.len();
        match t {
            Twist::Same => {}
            Twist::Dir(b) => { if self.dir.len() < 4 { self.dir.push(b.clone()) } else { self.dir[0] = b.clone() } }
            Twist::DropDir => { self.dir.pop(); }
            Twist::Name(b) => self.name = b.clone(),
            Twist::What(w) => self.what = w % 3,
            Twist::Exe => self.exe = !self.exe,
            Twist::Tail(x) => self.tail = *x,
            Twist::Bit(i, a, b) => if n > 0 { let x = &mut self.hashes[*i as usize * n / 65536]; if a % 2 == 0 { x.1 = *b } else { x.0 = x.0.wrapping_add(*a as u16 + 1) } },
            Twist::Swap(i, j) => if n > 0 { self.hashes.swap(*i as usize * n / 65536, *j as usize * n / 65536) },
            Twist::Push(a) => self.hashes.push((*a, 0)),
            Twist::Pop => { self.hashes.pop(); }
            Twist::Repeat(i) => if n > 0 { let x = self.hashes[*i as usize * n / 65536]; self.hashes.push(x) },
            Twist::Target(b) => self.target = b.clone(),
            Twist::TargetSlash => self.target.0.push(b'/'),
            Twist::H(h) => self.h = *h,
            Twist::Bs(b) => self.bs = *b,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { base: One, twists: Vec<Vec<Twist>> }

fn h64<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
/// Both directions, both operators, and the hash.
fn compare<T: PartialEq + Eq + Hash + std::fmt::Debug>(what: &str, a: &T, b: &T, want: bool) -> Res {
    if (a == b) != want || (b == a) != want { return Err(format!("{} {:?} == {:?} is {}, the other way round {}", what, a, b, a == b, b == a)); }
    if (a != b) == want { return Err(format!("{} {:?} != {:?} is {}", what, a, b, a != b)); }
    if want && h64(a) != h64(b) { return Err(format!("{} {:?} and {:?} are equal but hash differently", what, a, b)); }
    let set: HashSet<&T> = [a, b].into_iter().collect();
    if set.len() != if want { 1 } else { 2 } { return Err(format!("{} {:?} and {:?} make a set of {}", what, a, b, set.len())); }
    Ok(())
}
fn hashes(e: &Entry) -> Option<&Hashes> { if let Entry::File { hashes, .. } = e { Some(hashes) } else { None } }
fn accessors(o: &One, e: &Entry) -> Res {
    let p = o.path();
    let p = Path::new(OsStr::from_bytes(&p));
    if bytes(e.path()) != bytes(p) { return Err(format!("path() of {:?} is {:?}", o.ent(), e.path())); }
    let k = e.kind();
    let want = if o.what == 0 { EntryKind::Dir(p) } else { EntryKind::File(p) };
    let forms: [(&str, EntryKind<PathBuf>); 3] = [("kind()", k.cloned()), ("kind().as_ref()", k.as_ref().cloned()), ("kind().cloned().as_ref()", k.cloned().as_ref().cloned())];
    for (n, f) in &forms {
        if matches!(f, EntryKind::Dir(_)) != (o.what == 0) || bytes(f.path()) != bytes(p) || f.as_ref() != want { return Err(format!("{} of {:?} is {:?}", n, o.ent(), f)); }
    }
    if let Some(h) = hashes(e) {
        let c = h.clone();
        compare("a copy of hashes", h, &c, true)?;
        let want: Vec<[u8; 32]> = o.hashes.iter().map(|&x| digest(x)).collect();
        for h in [h, &c] {
            if h.len() != want.len() || h.block_size() != o.bs || h.hash_type() != o.h.real() { return Err(format!("{:?}: {} hashes of blocks of {}, {}", o.ent(), h.len(), h.block_size(), h.hash_type())); }
            if !h.iter().eq(want.iter().map(|d| &d[..])) { return Err(format!("{:?}: hashes are {:?}", o.ent(), h.iter().map(hex_any).collect::<Vec<_>>())); }
            // an iterator that was left, and one that has ended
            let mut i = h.iter();
            for (k, w) in want.iter().enumerate() { if i.next() != Some(&w[..]) || h.get(k) != Some(&w[..]) { return Err(format!("hash {} of {:?}", k, o.ent())); } }
            if i.next().is_some() || i.next().is_some() { return Err(format!("an iterator over the {} hashes of {:?} goes on", want.len(), o.ent())); }
        }
    }
    Ok(())
}
fn hex_any(b: &[u8]) -> String { let mut d = [0u8; 32]; for (x, y) in d.iter_mut().zip(b) { *x = *y } hex(&d) }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut all = vec![c.base.clone()];
    for t in &c.twists { let mut o = c.base.clone(); for x in t { o.twist(x) } all.push(o); }
    // keep the arithmetic in range
    for o in all.iter_mut() { o.bs = o.bs.clamp(1, BIG); }
    let real: Vec<Entry> = all.iter().map(|o| o.real()).collect::<Result<_, _>>()?;
    let (mut eq, mut ne) = (0, 0);
    for (o, e) in all.iter().zip(&real) { accessors(o, e)?; }
    for (i, (a, x)) in all.iter().zip(&real).enumerate() {
        for (j, (b, y)) in all.iter().zip(&real).enumerate() {
            let (ea, eb) = (a.ent(), b.ent());
            cx.evals(1);
            let list = |o: &One| o.hashes.iter().map(|&d| digest(d)).collect::<Vec<_>>();
            let same_hashes = list(a) == list(b) && a.h == b.h && a.bs == b.bs;
            if let (Some(g), Some(h)) = (hashes(x), hashes(y)) { compare("hashes", g, h, same_hashes)?; }
            // the standard library takes a and a/ for the same path; both answers are right then
            let (pa, pb) = (a.target.0.clone(), b.target.0.clone());
            if let (1, 1) = (a.what, b.what) { if pa != pb && Path::new(OsStr::from_bytes(&pa)) == Path::new(OsStr::from_bytes(&pb)) { cx.class("targets spelled differently"); continue } }
            let want = ea == eb && (a.what != 2 || same_hashes);
            compare("entries", x, y, want)?;
            if i != j { if want { eq += 1 } else { ne += 1 } }
        }
    }
    // paths spelled differently may be equal or not, but what is equal hashes equally
    let again = |e: &Entry, sp: u8| -> Entry {
        let p = |p: &Path, sp: u8| PathBuf::from(OsStr::from_bytes(&crate::docs::spell(&bytes(p).0, sp)));
        match e {
            Entry::Dir(a) => Entry::Dir(p(a, sp)),
            Entry::File { path, exe, size, hashes } => Entry::File { path: p(path, sp), exe: *exe, size: *size, hashes: hashes.clone() },
            // a target may be relative
            Entry::Link(a, t) => {
                let mut v = bytes(t).0;
                match sp % 3 { 0 => v.push(b'/'), 1 => v = v.iter().flat_map(|&c| if c == b'/' { b"/./".to_vec() } else { vec![c] }).collect(), _ => v = v.iter().flat_map(|&c| if c == b'/' { b"//".to_vec() } else { vec![c] }).collect() }
                Entry::Link(p(a, sp / 3), PathBuf::from(OsStr::from_bytes(&v)))
            }
        }
    };
    for (i, x) in real.iter().enumerate() {
        let other: Vec<Entry> = (0..9).map(|sp| again(x, sp + i as u8)).collect();
        for y in &other {
            for z in other.iter().chain([x]) {
                if (y == z) != (z == y) || (y == z) == (y != z) { return Err(format!("{:?} == {:?} is {}, the other way round {}, != is {}", y, z, y == z, z == y, y != z)); }
                if y == z && h64(y) != h64(z) { return Err(format!("{:?} and {:?} are equal but hash differently", y, z)); }
            }
        }
    }
    for a in ALL_H { for b in ALL_H { compare::<HashType>("hash types", &a.real(), &b.real(), a == b)?; } }
    cx.nontrivial(ne > 0);
    cx.class_if(eq > 0, "an equal pair");
    cx.class_if(all.iter().any(|o| o.what == 2 && o.hashes.len() > 2), "a file of several blocks");
    Ok(())
}

fn bs() -> BoxedStrategy<u64> { prop_oneof![3 => Just(32768u64), 2 => 1u64..10, 1 => prop::sample::select(vec![4096u64, 65536, 1 << 32, (1 << 32) + 32768, BIG]), 1 => crate::dict::near(1, BIG, 1024)].boxed() }
fn target() -> BoxedStrategy<B> { gens::target().prop_map(|mut b| { b.0.truncate(300); if b.0.is_empty() { b.0.push(b'a') } b }).boxed() }
fn one() -> BoxedStrategy<One> {
    let n = prop_oneof![20 => 0usize..8, 1 => crate::dict::near(1, 300, 1).prop_map(|n| n as usize)];
    let hs = n.prop_flat_map(|n| prop::collection::vec((prop_oneof![1 => Just(0u16), 4 => any::<u16>()], prop_oneof![1 => Just(0u8), 1 => any::<u8>()]), n));
    (prop::collection::vec(gens::name(), 0..3), gens::name(), prop_oneof![1 => Just(0u8), 1 => Just(1), 4 => Just(2)], any::<bool>(), any::<u64>(), hs, target(), gens::any_h(), bs())
        .prop_map(|(dir, name, what, exe, tail, hashes, target, h, bs)| One { dir, name, what, exe, tail, hashes, target, h, bs }).boxed()
}
fn twist() -> BoxedStrategy<Twist> {
    prop_oneof![
        2 => Just(Twist::Same), 1 => gens::name().prop_map(Twist::Dir), 1 => Just(Twist::DropDir), 2 => gens::name().prop_map(Twist::Name), 2 => (0u8..3).prop_map(Twist::What),
        2 => Just(Twist::Exe), 2 => prop_oneof![0u64..5, any::<u64>()].prop_map(Twist::Tail), 5 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Twist::Bit(a, b, c)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Twist::Swap(a, b)), 1 => any::<u16>().prop_map(Twist::Push), 1 => Just(Twist::Pop), 1 => any::<u16>().prop_map(Twist::Repeat),
        2 => target().prop_map(Twist::Target), 1 => Just(Twist::TargetSlash), 2 => gens::any_h().prop_map(Twist::H), 2 => bs().prop_map(Twist::Bs),
    ].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (one(), prop::collection::vec(prop_oneof![4 => prop::collection::vec(twist(), 1..2), 1 => prop::collection::vec(twist(), 2..4)], 1..6)).prop_map(|(base, twists)| Case { base, twists }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C32", level: "exploration", rule: "two entries of the case that say different things",
        assumptions: &["symlink targets that the standard library takes for the same path may compare either way"],
        parts: vec![part("pairs", [150_000, 1_500_000], st, || vec![], check)],
    }
}
