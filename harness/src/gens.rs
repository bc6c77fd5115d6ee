//! Generators.
use crate::dict::{near, word};
use crate::digest::{H, ALL_H};
use crate::fsops::How;
use crate::model::{Content, Node, Tree, B};
use crate::readers::Plan;
use crate::scanlib::Cfg;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub fn clean_name(mut v: Vec<u8>) -> B {
    for c in v.iter_mut() { if *c == 0 || *c == b'/' { *c = b'_'; } }
    if v.is_empty() || v == b"." || v == b".." { v = b"..x".to_vec(); }
    v.truncate(255);
    B(v)
}

pub const EDGE: &[u8] = &[1, 9, 10, 13, 0x1b, 0x1f, 0x20, 0x21, b'.', b'-', b'0', b'9', b'A', b'Z', 0x5b, 0x5c, 0x5d, b'a', b'f', b'x', 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xc3, 0xff];

pub fn name() -> BoxedStrategy<B> {
    let novel = crate::dict::dict().novel.clone();
    if novel.is_empty() { return usual_name() }
    prop_oneof![12 => usual_name(), 1 => prop::sample::select(novel).prop_map(clean_name)].boxed()
}
fn usual_name() -> BoxedStrategy<B> {
    prop_oneof![
        8 => prop::sample::select(vec!["a", "b", "c", "ab", "a.b", "a-b", "A", "a0", "aa", "x", "z", ".h", "a b", "0", "f", "s"]).prop_map(B::s),
        3 => prop::collection::vec(prop::sample::select(EDGE.to_vec()), 1..4).prop_map(clean_name),
        2 => prop::collection::vec(any::<u8>(), 1..5).prop_map(clean_name),
        2 => prop::sample::select(vec!["\\", "\\x", "\\x4", "\\x41", "\\x20", "x20", "\\x5cx20", "\\x5C", "\\\\", "a\\x0a", "\\x2f", "\\x2e",
            "..a", "...", "..x", "-", "-rf", "~", "*", "'", "\"", "é", "日本", "e\u{301}", "\u{feff}", " ", "  ", " f 0", "\n", "\n/x", "a\n  b f 0", "f", "x", "s", "DIRSIGNATURE.v1",
            "\t", "\r", "\x1b[2K", "\x7f", "a:b", "a=b", "a.", "a.a", "a!", "a~", "a\x01"]).prop_map(|s| clean_name(s.as_bytes().to_vec())),
        1 => (prop::sample::select(EDGE.to_vec()), 200usize..256).prop_map(|(c, n)| clean_name(vec![c; n])),
        // lengths, bytes and words that the code mentions
        1 => prop_oneof![
            (prop::sample::select(EDGE.to_vec()), near(1, 255, 1)).prop_map(|(c, n)| clean_name(vec![c; n as usize])),
            (near(1, 255, 1), 0u8..3).prop_map(|(c, k)| { let c = c as u8; clean_name(match k { 0 => vec![c], 1 => vec![c, b'a'], _ => vec![b'a', c, b'b'] }) }),
            (word(), 0u8..6).prop_map(|(mut w, k)| { match k { 0 => w.insert(0, b'a'), 1 => w.push(b'a'), 2 => w.insert(0, b'.'), 3 => { w.pop(); } _ => {} } clean_name(w) }),
        ],
        // names that tools treat specially
        2 => prop::sample::select(vec![".git", ".gitignore", ".svn", "CVS", ".DS_Store", "Thumbs.db", "lost+found", "node_modules", ".nfs0001", "core", "a~", "#a#", ".#a", "a.swp", ".a.swp", "a.bak", "a.tmp", "a.pyc",
            ".wh.a", ".wh..wh..opq", "CON", "index", "proc", "dev", "tmp", "target", "%00", "a:", "a;b", "a&b", "$a", "`a`", "a|b", "(a)", "[a]", "{a}", "a,b", "@", "+", "=", "!", "?", "^", "<a>"]).prop_map(B::s),
    ].boxed()
}
/// Names without bytes that need escaping or confuse a shell script's line handling.
pub fn plain_name() -> BoxedStrategy<B> {
    "[A-Za-z0-9_.,:=+@%~-]{1,6}".prop_map(|s| clean_name(s.into_bytes())).boxed()
}

pub fn target() -> BoxedStrategy<B> {
    prop_oneof![
        4 => prop::sample::select(vec!["a", "../a", "/", "/etc/passwd", ".", "..", "./a", "a/b", "a//b", "/a/", "../../..", "a b", "\\x41", "\\", "x f 0", "\n", "a\nb", "/dev/null", "é", " "]).prop_map(B::s),
        2 => prop::collection::vec(any::<u8>(), 1..8).prop_map(|mut v| { for c in v.iter_mut() { if *c == 0 { *c = 1 } } B(v) }),
        1 => (1usize..16).prop_map(|n| B(b"../abc/".iter().cycle().take(n * 250).cloned().collect())),
        1 => prop_oneof![
            near(1, 4095, 1).prop_map(|n| B(b"x/../".iter().cycle().take(n as usize).cloned().collect())),
            (word(), 0u8..3).prop_map(|(mut w, k)| { match k { 0 => w.insert(0, b'/'), 1 => w.push(b'/'), _ => {} } w.retain(|&c| c != 0); B(w) }),
        ],
    ].boxed()
}

pub fn small_len() -> BoxedStrategy<u32> { prop_oneof![12 => Just(0u32), 12 => Just(1), 36 => 0u32..200, 1 => near(0, 40_000, 1).prop_map(|n| n as u32)].boxed() }
/// Sizes around block boundaries
pub fn edge_len() -> BoxedStrategy<u32> {
    prop_oneof![
        20 => Just(0u32), 20 => 1u32..300,
        40 => (1u32..4, -2i32..3).prop_map(|(b, d)| (b as i32 * 32768 + d) as u32),
        20 => 0u32..110_000,
        10 => (4u32..20, -2i32..3).prop_map(|(b, d)| (b as i32 * 32768 + d) as u32),
        10 => prop::sample::select(vec![4096u32, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072]),
        8 => near(0, 1 << 20, 32768).prop_map(|n| n as u32),
        2 => near(1 << 20, 5 << 20, 32768).prop_map(|n| n as u32),
    ].boxed()
}
pub fn content(len: BoxedStrategy<u32>) -> BoxedStrategy<Content> {
    (len, seed(), xors(), head()).prop_map(|(len, seed, xor, head)| Content { len, seed, xor, head }).boxed()
}
/// What contents start with: words of the code, and magic numbers of kinds of files
pub fn head() -> BoxedStrategy<Vec<u8>> {
    const MAGIC: &[&[u8]] = &[b"#!/bin/sh\n", b"\x7fELF", b"PK\x03\x04", b"\x1f\x8b", b"\xef\xbb\xbf", b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n", b"\r\n\r\n", b"Signature: 8a477f597d28d172789f06886806bc55"];
    prop_oneof![12 => Just(vec![]), 1 => word(), 1 => prop::sample::select(MAGIC.to_vec()).prop_map(|m| m.to_vec())].boxed()
}
/// Seeds of contents, some likely to repeat
pub fn seed() -> BoxedStrategy<u16> { prop_oneof![2 => 0u16..2, 1 => 2u16..4, 5 => 2u16..500].boxed() }
/// Bytes changed in a content, so that blocks and files are equal but for some bytes
pub fn xors() -> BoxedStrategy<Vec<(u32, u8)>> {
    let pos = prop_oneof![2 => any::<u32>(), 1 => 0u32..200_000];
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((pos, 1u8..=255), 1..4)].boxed()
}
pub fn mode() -> BoxedStrategy<u16> {
    prop_oneof![3 => Just(0o644u16), 3 => Just(0o755), 1 => Just(0o600), 1 => Just(0o011), 1 => Just(0o100), 1 => Just(0o677), 2 => 0u16..0o10000, 1 => near(0, 0o7777, 1).prop_map(|n| n as u16)].boxed()
}
pub fn file(big: bool) -> BoxedStrategy<Node> {
    let len = if big { prop_oneof![4 => small_len(), 1 => edge_len()].boxed() } else { small_len() };
    (content(len), mode()).prop_map(|(c, m)| Node::File(c, m)).boxed()
}

#[derive(Clone, Copy)]
pub struct TreeOpt { pub names: fn() -> BoxedStrategy<B>, pub specials: bool, pub links: bool, pub big: bool, pub max: u32, pub top: usize, pub many: u64 }
pub const TREE: TreeOpt = TreeOpt { names: name, specials: true, links: true, big: false, max: 24, top: 8, many: 40 };
pub const MANY: u64 = 1200;

pub fn kids(v: Vec<(B, Node)>) -> Tree {
    let mut t = Tree::new();
    for (n, x) in v { t.entry(n).or_insert(x); }
    t
}
pub fn tree(o: TreeOpt) -> BoxedStrategy<Tree> {
    let leaf = prop_oneof![
        12 => file(o.big),
        if o.links { 4 } else { 0 } + u32::from(!o.links) => if o.links { target().prop_map(Node::Link).boxed() } else { file(o.big) },
        1 => if o.specials { prop_oneof![Just(Node::Fifo), Just(Node::Sock)].boxed() } else { file(o.big) },
        2 => Just(Node::dir()),
    ];
    let names = o.names;
    let node = leaf.prop_recursive(5, o.max, 5, move |inner| {
        (prop::collection::vec((names(), inner), 0..6), mode()).prop_map(|(v, m)| Node::Dir(kids(v), m | 0o500))
    });
    let any = prop::collection::vec((names(), node), 0..=o.top).prop_map(kids);
    prop_oneof![
        300 => any,
        // as many entries, or as deep, as some number the code mentions
        1 => (near(1, o.many, 1), 0u8..7, names()).prop_map(move |(n, k, name)| many(n as usize, if k == 2 && !o.links || k == 6 && !o.specials { 0 } else { k }, name)),
        1 => (near(1, 60, 1), file(o.big)).prop_map(|(n, x)| deep(n as usize, 1, x)),
    ].boxed()
}
/// Many entries of one kind in one directory, beside something else.
pub fn many(n: usize, kind: u8, other: B) -> Tree {
    let mut t: Tree = (0..n).map(|i| (B(format!("{:04}", i).into_bytes()), match kind {
        0 | 1 => Node::File(Content::new(i as u32 % 3, 2 + i as u16), 0o644),
        2 => Node::Link(B::s("a")),
        3 => Node::dir(),
        6 => Node::Fifo,
        _ => { let mut s = Tree::new(); s.insert(B::s("f"), Node::File(Content::new(1, 3), 0o644)); Node::Dir(s, 0o755) }
    })).collect();
    if kind == 1 || kind == 5 {
        let mut s = Tree::new();
        s.insert(other, Node::Dir(t, 0o755));
        s.insert(B::s("z"), Node::File(Content::new(7, 3), 0o644));
        return s;
    }
    t.entry(other).or_insert(Node::File(Content::new(5, 5), 0o755));
    t
}

/// A chain of directories deeper than PATH_MAX, with something at the end.
pub fn deep(n: usize, name_len: usize, end: Node) -> Tree {
    let mut x = end;
    for i in 0..n {
        let mut t = Tree::new();
        t.insert(B(vec![b'a' + (i % 26) as u8; name_len]), x);
        if i % 3 == 0 { t.insert(B::s("f"), Node::File(Content::new(i as u32, 9), 0o644)); }
        x = Node::Dir(t, 0o755);
    }
    match x { Node::Dir(t, _) => t, _ => unreachable!() }
}

pub fn any_h() -> BoxedStrategy<H> { prop::sample::select(ALL_H.to_vec()).boxed() }
pub fn cfg() -> BoxedStrategy<Cfg> {
    (any_h(), prop_oneof![80 => 0u16..2, 60 => 2u16..6, 20 => 6u16..17, 1 => prop::sample::select(vec![17u16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]), 1 => near(2, 300, 1).prop_map(|n| n as u16)], prop::option::weighted(0.3, prop_oneof![6 => 1u16..4, 6 => 4u16..100, 1 => near(0, 60_000, 1).prop_map(|n| n as u16)]), prop::bool::weighted(0.3))
        .prop_map(|(h, threads, queue, progress)| Cfg { h, threads, queue, progress }).boxed()
}
/// Any magnitude up to `bits` bits.
pub fn log(bits: u32) -> BoxedStrategy<u32> { (0..bits, any::<u32>()).prop_map(|(b, x)| (1 << b) - 1 + x % (1 << b)).boxed() }
pub fn how() -> BoxedStrategy<How> {
    (0u32..1000, any::<bool>(), prop_oneof![Just(0u16), 0u16..0o10000], prop_oneof![3 => Just(0u32), 1 => 1000u32..1003], prop::option::weighted(0.3, 0u32..1003), any::<bool>(), any::<bool>())
        .prop_map(|(order, times, m, owner, group, hardlinks, sparse)| How { order, times, mode_xor: m & 0o7677, owner, group, hardlinks, sparse }).boxed()
}

pub fn plan() -> BoxedStrategy<Plan> {
    (prop_oneof![
        2 => Just(vec![]), 2 => Just(vec![1u16]), 1 => Just(vec![0u16, 1]),
        4 => prop::collection::vec(prop_oneof![2 => Just(0u16), 3 => 1u16..8, 2 => 8u16..300, 1 => 300u16..9000, 1 => near(0, 65535, 1).prop_map(|n| n as u16)], 1..6),
    ], prop_oneof![2 => Just(8192u16), 2 => 1u16..80, 1 => 80u16..5000, 1 => near(1, 65535, 1).prop_map(|n| n as u16)]).prop_map(|(chunks, buf)| Plan { chunks, buf }).boxed()
}
pub fn chunks() -> BoxedStrategy<Vec<u16>> { plan().prop_map(|p| p.chunks).boxed() }
