//! Model of a directory tree, and byte strings that serialise readably.
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct B(pub Vec<u8>);

impl B {
    pub fn s(x: &str) -> B { B(x.as_bytes().to_vec()) }
    pub fn os(&self) -> &std::ffi::OsStr { std::os::unix::ffi::OsStrExt::from_bytes(&self.0) }
    pub fn path(&self) -> &std::path::Path { std::path::Path::new(self.os()) }
}
impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "b\"{}\"", enc(&self.0)) }
}
fn enc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if c < 0x20 || c >= 0x7f || c == b'\\' { s.push_str(&format!("\\x{:02x}", c)) } else { s.push(c as char) }
    }
    s
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc(&self.0)) }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.as_bytes();
        let (mut v, mut i) = (vec![], 0);
        while i < b.len() {
            if b[i] == b'\\' {
                let h = s.get(i + 2..i + 4).and_then(|h| u8::from_str_radix(h, 16).ok());
                v.push(h.ok_or_else(|| de::Error::custom("bad escape"))?);
                i += 4;
            } else { v.push(b[i]); i += 1; }
        }
        Ok(B(v))
    }
}

/// File content, a function of a few numbers.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Content {
    pub len: u32,
    pub seed: u16,
    /// (position, xor) applied on top
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub xor: Vec<(u32, u8)>,
    /// what the content starts with
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub head: Vec<u8>,
}
impl Content {
    pub fn new(len: u32, seed: u16) -> Content { Content { len, seed, xor: vec![], head: vec![] } }
    /// seed 0: all zero; seed 1: period 32768 blocks all equal; otherwise pseudo-random
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut v = vec![0u8; n];
        if self.seed != 0 {
            let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ (self.seed as u64).wrapping_mul(0xD134_2543_DE82_EF95);
            for (i, c) in v.chunks_mut(8).enumerate() {
                if self.seed == 1 && i % 4096 == 0 { x = 0x1234_5678_9ABC_DEF1; }
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                let b = x.to_le_bytes();
                c.copy_from_slice(&b[..c.len()]);
            }
        }
        let h = self.head.len().min(n);
        v[..h].copy_from_slice(&self.head[..h]);
        for &(p, m) in &self.xor { if n > 0 { v[p as usize % n] ^= m; } }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Node {
    Dir(Tree, u16),
    File(Content, u16),
    Link(B),
    Fifo,
    Sock,
}
pub type Tree = BTreeMap<B, Node>;

impl Node {
    pub fn dir() -> Node { Node::Dir(Tree::new(), 0o755) }
    pub fn special(&self) -> bool { matches!(self, Node::Fifo | Node::Sock) }
}

pub fn join(dir: &[u8], name: &[u8]) -> Vec<u8> {
    let mut p = dir.to_vec();
    if p.last() != Some(&b'/') { p.push(b'/'); }
    p.extend_from_slice(name);
    p
}

/// Every node below the root with its absolute in-tree path, in signature order, root directory first
/// (as None). Special files included where their name sorts.
pub fn walk<'a>(t: &'a Tree, f: &mut dyn FnMut(&[u8], Option<&'a Node>)) {
    fn rec<'a>(path: &[u8], t: &'a Tree, f: &mut dyn FnMut(&[u8], Option<&'a Node>)) {
        for (n, x) in t { if !matches!(x, Node::Dir(..)) { f(&join(path, &n.0), Some(x)); } }
        for (n, x) in t {
            if let Node::Dir(k, _) = x {
                let p = join(path, &n.0);
                f(&p, Some(x));
                rec(&p, k, f);
            }
        }
    }
    f(b"/", None);
    rec(b"/", t, f);
}

pub fn count(t: &Tree) -> usize { let mut n = 0; walk(t, &mut |_, _| n += 1); n - 1 }
pub fn total_bytes(t: &Tree) -> u64 {
    let mut n = 0; walk(t, &mut |_, x| if let Some(Node::File(c, _)) = x { n += c.len as u64 }); n
}
