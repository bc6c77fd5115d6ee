//! Synthetic well-formed signatures, cursor model, and operation scripts for the readers.
use crate::digest::{hex, H};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Node, Tree, B};
use crate::refsig::{self, Ent, Key};
use dir_signature::v1::{merge::MergedEntriesIterator, Entry, EntryIterator, EntryKind, ParseError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsStr;
use std::io::BufRead;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub t: Tree, pub h: H, pub bs: u64, pub attrs: Vec<String>, pub salt: u16,
    /// entries left out: bit i%16 of the i-th entry, whole directories included (0: none)
    #[serde(default)]
    pub mask: u16,
    /// no entries at all
    #[serde(default)]
    pub empty: bool,
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 33; x = x.wrapping_mul(0xff51_afd7_ed55_8ccd); x ^= x >> 33; x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53); x ^ (x >> 33)
}
fn phash(p: &[u8]) -> u64 { p.iter().fold(0xcbf2_9ce4_8422_2325, |a, &b| (a ^ b as u64).wrapping_mul(0x100_0000_01b3)) }

impl Doc {
    /// Entries: the shape comes from the tree, sizes and hashes are a function of it and the salt.
    pub fn ents(&self) -> Vec<Ent> {
        let mut v = vec![];
        if self.empty { return v; }
        let mut i = 0u32;
        let mut skipped_dirs: Vec<Vec<u8>> = vec![];
        walk(&self.t, &mut |p, n| {
            let path = B(p.to_vec());
            let x = mix(phash(p) ^ ((self.salt as u64) << 40));
            let drop = self.mask >> (i % 16) & 1 == 1;
            i += 1;
            let parent = crate::refsig::comps(p);
            let is_dir = matches!(n, None | Some(Node::Dir(..)));
            let in_skipped = !is_dir && skipped_dirs.iter().any(|d| crate::refsig::comps(d)[..] == parent[..parent.len() - 1]);
            if drop || in_skipped { if is_dir { skipped_dirs.push(p.to_vec()); } return; }
            match n {
                None | Some(Node::Dir(..)) => v.push(Ent::Dir(path)),
                Some(Node::Link(t)) => v.push(Ent::Link(path, t.clone())),
                Some(Node::File(c, m)) => {
                    // number of hashes, capped so that the size fits
                    let (bs, max) = (self.bs as u128, u64::MAX as u128);
                    let most = (max + bs - 1) / bs;
                    let n = if c.len > MANY_HASHES { c.len - MANY_HASHES } else { c.len % 7 };
                    let n = (n as u128).min(most);
                    let size = if n == 0 { 0 } else {
                        let (lo, hi) = ((n - 1) * bs + 1, (n * bs).min(max));
                        match x % 4 { 0 => lo, 1 => hi, _ => lo + (mix(x) as u128) % (hi - lo + 1) }
                    };
                    let hashes = (0..n as u64).map(|k| {
                        let mut d = [0u8; 32];
                        for (j, b) in d.iter_mut().enumerate() { *b = mix(x.wrapping_add(k * 64 + j as u64)) as u8; }
                        match mix(x ^ k) % 9 { 0 => d = [0; 32], 1 => d = [0xff; 32], 2 => d[0] = 0, _ => {} }
                        d
                    }).collect();
                    v.push(Ent::File { path, exe: m & 0o100 != 0, size: size as u64, hashes });
                }
                _ => {}
            }
        });
        v
    }
    pub fn header(&self) -> String {
        let mut s = refsig::header(self.h, self.bs);
        s.pop();
        for a in &self.attrs { s.push(' '); s.push_str(a); }
        s.push('\n');
        s
    }
    pub fn footer(&self) -> [u8; 32] {
        let mut d = self.h.digest(refsig::body(&self.ents()).as_bytes());
        // any 64 hex digits are a footer to a reader
        match self.salt % 5 { 0 => d[0] = 0, 1 => d[31] = 0xff, _ => {} }
        d
    }
    pub fn text(&self) -> Vec<u8> {
        format!("{}{}{}\n", self.header(), refsig::body(&self.ents()), hex(&self.footer())).into_bytes()
    }
    pub fn class(&self, cx: &mut crate::runner::Cx) -> bool {
        let e = self.ents();
        let odd = e.iter().any(|e| refsig::line(e).contains("\\x"));
        let files = e.iter().filter(|e| matches!(e, Ent::File { .. })).count();
        let links = e.iter().filter(|e| matches!(e, Ent::Link(..))).count();
        let dirs = e.iter().filter(|e| e.is_dir()).count();
        cx.class_if(odd, "escaped names or targets");
        cx.class_if(files > 0, "has files");
        cx.class_if(links > 0, "has symlinks");
        cx.class_if(dirs > 1, "has subdirectories");
        cx.class_if(e.is_empty(), "no entries");
        cx.class_if(!self.attrs.is_empty(), "extra header fields");
        cx.class_if(self.bs > u32::MAX as u64, "block size over 32 bits");
        cx.class(self.h.name());
        e.len() > 1
    }
}

pub fn block_size() -> BoxedStrategy<u64> {
    prop_oneof![4 => Just(32768u64), 2 => prop::sample::select(vec![1u64, 2, 3, 7, 10, 4096, 65536, u32::MAX as u64, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX]),
        1 => 1u64..100_000, 1 => 1u64.., 1 => crate::dict::near(1, u64::MAX, 1024)].boxed()
}
fn attrs() -> BoxedStrategy<Vec<String>> {
    prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec("[a-z_]{1,6}=[!-~]{0,6}", 1..3)].boxed()
}
pub fn doc_of(t: BoxedStrategy<Tree>) -> BoxedStrategy<Doc> {
    (t, gens::any_h(), block_size(), attrs(), any::<u16>(), prop_oneof![4 => Just(0u16), 1 => any::<u16>()], prop::bool::weighted(0.03))
        .prop_map(|(t, h, bs, attrs, salt, mask, empty)| Doc { t, h, bs, attrs, salt, mask, empty }).boxed()
}
pub const DOC_TREE: TreeOpt = TreeOpt { specials: false, max: 14, top: 6, ..TREE };
pub fn doc() -> BoxedStrategy<Doc> { doc_of(hashes(gens::tree(DOC_TREE), 60)) }
/// The same with long lists and long lines now and then.
pub fn big_doc() -> BoxedStrategy<Doc> { doc_of(hashes(gens::tree(TreeOpt { many: gens::MANY, ..DOC_TREE }), 5000)) }
/// A file of more than this length stands for one with that many more hashes.
const MANY_HASHES: u32 = 200_000;
fn hashes(t: BoxedStrategy<Tree>, max: u64) -> BoxedStrategy<Tree> {
    (t, prop::option::weighted(0.02, (gens::name(), crate::dict::near(1, max, 1)))).prop_map(|(mut t, f)| {
        if let Some((name, n)) = f { t.insert(name, Node::File(crate::model::Content::new(MANY_HASHES + n as u32, 1), 0o644)); }
        t
    }).boxed()
}

pub fn bytes(p: &Path) -> B { B(p.as_os_str().as_bytes().to_vec()) }
pub fn real_ent(e: &Entry) -> Ent {
    match e {
        Entry::Dir(p) => Ent::Dir(bytes(p)),
        Entry::Link(p, t) => Ent::Link(bytes(p), bytes(t)),
        Entry::File { path, exe, size, hashes } => Ent::File {
            path: bytes(path), exe: *exe, size: *size,
            hashes: hashes.iter().map(|h| { let mut d = [0u8; 32]; if h.len() == 32 { d.copy_from_slice(h) } else { d = [0xEE; 32] } d }).collect(),
        },
    }
}

/// Line number named by an error.
pub fn err_line(e: &ParseError) -> Option<usize> {
    let s = e.to_string();
    let r = &s[s.find("at line ")? + 8..];
    r[..r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len())].parse().ok()
}

// ------------------------------------------------------------------------------------------ cursor

pub struct Cursor<'a> { pub ents: &'a [Ent], pub keys: Vec<Key>, pub pos: usize }
impl<'a> Cursor<'a> {
    pub fn new(ents: &'a [Ent]) -> Cursor<'a> { Cursor { ents, keys: ents.iter().map(|e| e.key()).collect(), pos: 0 } }
    pub fn head(&self) -> Option<&Key> { self.keys.get(self.pos) }
    pub fn next(&mut self) -> Option<&'a Ent> { let r = self.ents.get(self.pos); if r.is_some() { self.pos += 1 } r }
    pub fn advance(&mut self, k: &Key) -> Option<&'a Ent> {
        while self.pos < self.keys.len() && self.keys[self.pos] < *k { self.pos += 1; }
        if self.head() == Some(k) { self.next() } else { None }
    }
    pub fn done(&self) -> bool { self.pos >= self.ents.len() }
    pub fn sorted(&self) -> bool { self.keys.windows(2).all(|w| w[0] < w[1]) }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Next,
    /// target derived from entry `i` as `how` says, in path type and spelling `sp`
    Adv { i: u16, how: u8, sp: u8 },
}
pub fn op(next: u32) -> BoxedStrategy<Op> {
    prop_oneof![next => Just(Op::Next), 3 => (any::<u16>(), 0u8..12, any::<u8>()).prop_map(|(i, how, sp)| Op::Adv { i, how, sp })].boxed()
}

/// The advance target an operation means.
pub fn target(ents: &[Ent], i: u16, how: u8) -> (bool, Vec<u8>) {
    let root = Ent::Dir(B::s("/"));
    let e = if ents.is_empty() { &root } else { &ents[i as usize * ents.len() / 65536] };
    let (mut d, mut p) = (e.is_dir(), e.path().0.clone());
    let parent = |p: &[u8]| { let k = p.iter().rposition(|&c| c == b'/').unwrap_or(0).max(1); p[..k].to_vec() };
    match how {
        0..=3 => {}
        4 => d = !d,
        5 => { if p != b"/" { p.push([b'!', b'a', 0xff, b'.'][i as usize % 4]); } else { p = b"/\x01".to_vec(); } }
        6 => p = crate::model::join(&p, &[[b'a', 1, 0xfe, b'z'][i as usize % 4]]),
        7 => { p = parent(&p); d = true; }
        8 => { let l = p.len() - 1; if l > 0 { p[l] = match p[l].wrapping_add(if i % 2 == 0 { 1 } else { 255 }) { 0 | b'/' => b'0', c => c }; } }
        9 => { p = b"/".to_vec(); d = true; }
        10 => { p = vec![b'/', 0xff, 0xff, 0xff]; d = true; }
        _ => { p = parent(&p); d = false; }
    }
    let bad = |p: &Vec<u8>| p.split(|&c| c == b'/').any(|c| c == b"." || c == b"..");
    if bad(&p) { p.push(b'x'); }
    if !d && p == b"/" { p = b"/x".to_vec(); }
    (d, p)
}

/// The same path spelled differently.
pub fn spell(p: &[u8], sp: u8) -> Vec<u8> {
    let mut v = vec![];
    let cs = refsig::comps2(p);
    match sp % 4 {
        0 => return p.to_vec(),
        1 => { for c in &cs { v.extend_from_slice(b"//"); v.extend_from_slice(c); } if cs.is_empty() { v = b"//".to_vec(); } }
        2 => { for c in &cs { v.extend_from_slice(b"/./"); v.extend_from_slice(c); } if cs.is_empty() { v = b"/.".to_vec(); } }
        _ => { v = p.to_vec(); v.push(b'/'); }
    }
    v
}

macro_rules! with_kind {
    ($d:expr, $p:expr, $sp:expr, $k:ident => $e:expr) => {{
        let (d, p, sp): (bool, &[u8], u8) = ($d, $p, $sp);
        let v = spell(p, if (sp / 4) % 3 == 0 { sp } else { 0 });
        let os = OsStr::from_bytes(&v);
        macro_rules! kind { ($x:expr) => { if d { EntryKind::Dir($x) } else { EntryKind::File($x) } } }
        match (sp / 12) % 6 {
            0 => { let $k = kind!(Path::new(os)); $e }
            1 => { let $k = kind!(PathBuf::from(os)); $e }
            2 => { let $k = kind!(os); $e }
            3 => { let $k = kind!(os.to_os_string()); $e }
            4 => match os.to_str() { Some(s) => { let $k = kind!(s); $e } None => { let $k = kind!(os); $e } },
            _ => match os.to_str() { Some(s) => { let $k = kind!(s.to_string()); $e } None => { let $k = kind!(Path::new(os)); $e } },
        }
    }};
}

pub fn adv<R: BufRead>(it: &mut EntryIterator<'_, R>, d: bool, p: &[u8], sp: u8) -> Option<Result<Entry, ParseError>> {
    with_kind!(d, p, sp, k => it.advance(&k))
}
pub fn adv_merged<'a, K, R: BufRead>(it: &mut MergedEntriesIterator<'a, K, R>, d: bool, p: &[u8], sp: u8) -> Vec<(&'a K, Result<Entry, ParseError>)> {
    with_kind!(d, p, sp, k => it.advance(&k))
}

// ------------------------------------------------------------------------------------------ long ones

/// A signature with lines, or a number of lines, of any magnitude.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long { pub h: H, pub bs: u64, pub hashes: u32, pub lines: u32, pub name: u32, pub target: u32, pub depth: u32, pub salt: u16 }
impl Long {
    pub fn ents(&self) -> Vec<Ent> {
        let p = |s: String| B(s.into_bytes());
        let byte = |i: u32| match mix(i as u64 ^ self.salt as u64) % 40 { 0 => b' ', 1 => 0xff, 2 => b'\\', k => b'a' + (k % 26) as u8 };
        let long = |n: u32| (0..n).map(byte).collect::<Vec<u8>>();
        let hash = |i: u32| { let mut d = [0u8; 32]; for (j, b) in d.iter_mut().enumerate() { *b = mix((i as u64) << 8 | j as u64) as u8; } d };
        let mut v = vec![Ent::Dir(B::s("/"))];
        v.push(Ent::Link(B::s("/a"), B([b"t".to_vec(), long(self.target)].concat())));
        let size = (self.hashes as u128 * self.bs as u128).min(u64::MAX as u128) as u64;
        let n = size / self.bs + (size % self.bs != 0) as u64;
        v.push(Ent::File { path: B::s("/big"), exe: self.salt % 2 == 0, size, hashes: (0..n as u32).map(hash).collect() });
        for i in 0..self.lines {
            let path = p(format!("/l{:07}", i));
            v.push(if i % 5 == 0 { Ent::Link(path, B::s("x")) } else { Ent::File { path, exe: i % 3 == 0, size: 0, hashes: vec![] } });
        }
        let mut path = vec![];
        for i in 0..self.depth { path.extend_from_slice(b"/m"); path.push(byte(i)); }
        if self.depth > 0 { v.push(Ent::Dir(B(path.clone()))); }
        let mut path = b"/n".to_vec();
        path.extend(long(self.name));
        v.push(Ent::Dir(B(path.clone())));
        path.extend_from_slice(b"/n");
        path.extend(long(self.name));
        v.push(Ent::File { path: B(path), exe: false, size: 1, hashes: vec![hash(7)] });
        v
    }
    pub fn text(&self) -> Vec<u8> {
        let b = refsig::body(&self.ents());
        format!("{}{}{}\n", refsig::header(self.h, self.bs), b, hex(&self.h.digest(b.as_bytes()))).into_bytes()
    }
    pub fn class(&self, cx: &mut crate::runner::Cx) -> bool {
        cx.class_if(self.hashes > 1 << 14, "a line of more than a megabyte of hashes");
        cx.class_if(self.lines > 1 << 16, "more lines than 16 bits count");
        cx.class_if(self.name > 1 << 16, "a name of more than 64 KiB");
        cx.class_if(self.target > 1 << 16, "a target of more than 64 KiB");
        cx.class_if(self.depth > 1 << 12, "thousands of path components");
        self.hashes.max(self.lines).max(self.name).max(self.target).max(self.depth) > 1000
    }
}
pub fn long() -> BoxedStrategy<Long> {
    let small = || gens::log(6);
    (gens::any_h(), block_size(), (prop_oneof![2 => 0u8..5, 1 => 5u8..10], 8u32..18, any::<u32>(), crate::dict::near(1, 1 << 20, 1024)), (small(), small(), small(), small(), small()), any::<u16>()).prop_map(|(h, bs, (which, bits, x, near), s, salt)| {
        let mut l = Long { h, bs, hashes: s.0, lines: s.1, name: s.2, target: s.3, depth: s.4, salt };
        let n = if which >= 5 { near as u32 } else { (1 << bits) + x % (1 << bits) };
        match which { 0 => l.hashes = n / 2, 1 => l.lines = n / 2, 2 => l.name = n, 3 => l.target = n * 2, 4 => l.depth = n / 8,
            5 => l.hashes = n.min(100_000), 6 => l.lines = n.min(100_000), 7 => l.name = n, 8 => l.target = n, _ => l.depth = n.min(20_000) }
        l
    }).boxed()
}
pub fn long_fixed() -> Vec<Long> {
    let z = Long { h: H::B2, bs: 32768, hashes: 3, lines: 3, name: 3, target: 3, depth: 3, salt: 1 };
    vec![
        Long { hashes: 70_000, ..z.clone() }, Long { h: H::Sha, hashes: 2047, ..z.clone() }, Long { h: H::B3, hashes: 2048, bs: 1, ..z.clone() }, Long { hashes: 2049, ..z.clone() },
        Long { lines: 70_000, ..z.clone() }, Long { lines: 300, ..z.clone() }, Long { name: 70_000, ..z.clone() }, Long { target: 1_100_000, ..z.clone() }, Long { depth: 22_000, ..z.clone() },
    ]
}
