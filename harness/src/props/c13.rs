//! Untrusted bytes never crash, hang or blow up the readers.
use crate::alloc::measure;
use crate::docs::{big_doc, adv, adv_merged, doc, op, target, Doc, Op};
use crate::model::B;
use crate::props::c12::{edit, edits, word, Edit};
use crate::readers::{Chunky, Plan};
use crate::refsig::{read, Ent};
use crate::runner::{catch, part, Cx, Prop, Res, Tier};
use dir_signature::get_hash;
use dir_signature::v1::{merge::MergedSignatures, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A piece of text.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tok { T(B), Hash(u8), Rep(B, u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Raw(B),
    /// a header (or what comes close) followed by tokens
    Soup { header: u8, toks: Vec<Tok> },
    Edited(Doc, Vec<Edit>),
}
const HEADERS: &[&str] = &["DIRSIGNATURE.v1 sha512/256 block_size=32768\n", "DIRSIGNATURE.v1 blake2b/256 block_size=1\n", "DIRSIGNATURE.v1 blake3/256 block_size=1\n",
    "DIRSIGNATURE.v1 blake3/256 block_size=18446744073709551615\n", "DIRSIGNATURE.v1 sha512/256 block_size=0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1", "",
    "DIRSIGNATURE.v1 sha512/256 block_size=1 x=y\n", "DIRSIGNATURE.v1 sha512/256\n", "DIRSIGNATURE.v1\n", "\n", "DIRSIGNATURE.v1 sha512/256 block_size=32768 \r\n", "DIRSIGNATURE.v1 blake3/256 block_size=7\n/\n", "DIRSIGNATURE.v1 blake2b/256 block_size=9223372036854775808\n/a\n"];
impl Input {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Raw(b) => b.0.clone(),
            Input::Soup { header, toks } => {
                let mut v = HEADERS[*header as usize % HEADERS.len()].as_bytes().to_vec();
                for t in toks {
                    match t {
                        Tok::T(b) => v.extend_from_slice(&b.0),
                        Tok::Hash(n) => v.extend_from_slice(crate::digest::hex(&vec![*n; 32]).as_bytes()),
                        Tok::Rep(b, n) => for _ in 0..*n { v.extend_from_slice(&b.0) },
                    }
                }
                v
            }
            Input::Edited(d, e) => { let mut t = d.text(); for e in e { edit(&mut t, e, d.bs); } t }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { ins: Vec<Input>, ops: Vec<Op>, plan: Plan }

fn longest(t: &[u8]) -> usize { t.split(|&c| c == b'\n').map(|l| l.len() + 1).max().unwrap_or(0) }
fn limit(t: &[u8]) -> usize { 40 * longest(t) + (128 << 10) }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let texts: Vec<Vec<u8>> = c.ins.iter().map(|i| i.bytes()).collect();
    let mut opened = 0;
    // Targets are taken from what a plain reading of the text finds.
    let mut ents: Vec<Ent> = texts.iter().filter_map(|t| read(t).ok()).flat_map(|d| d.ents).take(200).collect();
    if ents.is_empty() { ents = vec![Ent::Dir(B::s("/")), Ent::Link(B::s("/a"), B::s("b"))]; }
    ents.retain(|e| e.is_dir() || e.path().0.len() > 1);
    let targets: Vec<(bool, Vec<u8>, u8)> = c.ops.iter().map(|o| match o { Op::Next => (false, vec![], 0), Op::Adv { i, how, sp } => { let t = target(&ents, *i, *how); (t.0, t.1, *sp) } }).collect();
    let tmem: usize = targets.iter().map(|t| t.1.len()).sum();

    for t in &texts {
        let ctx = |m: &str| format!("{} on {:?}", m, crate::refsig::show(t));
        let budget = t.iter().filter(|&&b| b == b'\n').count() + 5;
        let mk = || Chunky::new(t.clone(), &c.plan).buffered(&c.plan);
        // next only
        let r = mk();
        let (res, peak) = measure(|| catch(|| -> Result<usize, String> {
            let mut p = match Parser::new(r) { Ok(p) => p, Err(e) => { let _ = (format!("{} {:?}", e, e).len(), e); return Ok(0) } };
            let mut n = 0;
            let mut it = p.iter();
            while let Some(x) = it.next() {
                if let Err(e) = x { let _ = format!("{}", e).len(); }
                n += 1;
                if n > budget { return Err("next yields more items than the text has lines".into()); }
            }
            for _ in 0..3 { if it.next().is_some() { return Err("an item after the end".into()); } }
            Ok(n + 1)
        }));
        match res { Ok(Ok(n)) => { if n > 0 { opened += 1; } cx.class_if(n > 1, "yields items"); } Ok(Err(m)) | Err(m) => return Err(ctx(&format!("iterating: {}", m))) }
        if peak > limit(t) { return Err(ctx(&format!("iterating took {} bytes of memory, longest line is {}", peak, longest(t)))); }
        // with advance
        let r = mk();
        let (res, peak) = measure(|| catch(|| -> Res {
            let mut p = match Parser::new(r) { Ok(p) => p, Err(_) => return Ok(()) };
            let mut it = p.iter();
            for t in &targets { if t.1.is_empty() { it.next(); } else { adv(&mut it, t.0, &t.1, t.2); } }
            let mut n = 0;
            while it.next().is_some() { n += 1; if n > budget { return Err("yields more items than the text has lines".into()); } }
            Ok(())
        }));
        let far: &[u8] = b"/\xff\xff\xff";
        if let Ok(Err(m)) | Err(m) = catch(|| -> Res {
            // advance alone gets to the end as well
            let mut p = match Parser::new(&t[..]) { Ok(p) => p, Err(_) => return Ok(()) };
            let (mut it, mut n) = (p.iter(), 0);
            while adv(&mut it, true, far, 0).is_some() { n += 1; if n > budget { return Err("repeated advance yields more items than the text has lines".into()); } }
            Ok(())
        }) { return Err(ctx(&format!("advancing: {}", m))); }
        if let Ok(Err(m)) | Err(m) = res { return Err(ctx(&format!("advancing: {}", m))); }
        if peak > limit(t) + 40 * tmem { return Err(ctx(&format!("advancing took {} bytes of memory, longest line is {}", peak, longest(t)))); }
        // the hash
        let (mut a, mut b) = (Chunky::new(t.clone(), &c.plan), std::io::Cursor::new(t.clone()));
        let (res, peak) = measure(|| catch(|| { let _ = get_hash(&mut a); get_hash(&mut b).map(|h| h.len()).unwrap_or(32) }));
        match res { Ok(32) => {} Ok(n) => return Err(ctx(&format!("get_hash returns {} bytes", n))), Err(m) => return Err(ctx(&format!("get_hash: {}", m))) }
        if peak > 65536 { return Err(ctx(&format!("get_hash took {} bytes of memory", peak))); }
    }
    // merged
    let far: &[u8] = b"/\xff\xff\xff";
    if let Ok(Err(m)) | Err(m) = catch(|| -> Res {
        let ps: Vec<_> = texts.iter().filter_map(|r| Parser::new(&r[..]).ok()).enumerate().collect();
        let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(_) => return Ok(()) };
        let (mut it, mut n) = (m.iter(), 0);
        while !adv_merged(&mut it, true, far, 0).is_empty() { n += 1; if n > texts.iter().map(|t| t.len() + 5).sum::<usize>() { return Err("repeated advance never ends".into()); } }
        Ok(())
    }) { return Err(format!("merging: {} on {:?}", m, texts.iter().map(|t| crate::refsig::show(t)).collect::<Vec<_>>())); }
    let parsers: Vec<_> = texts.iter().map(|t| Chunky::new(t.clone(), &c.plan).buffered(&c.plan)).collect();
    let total: usize = texts.iter().map(|t| t.iter().filter(|&&b| b == b'\n').count() + 5).sum();
    let lim: usize = texts.iter().map(|t| limit(t)).sum::<usize>() * 2 + 40 * tmem;
    let (res, peak) = measure(|| catch(|| -> Res {
        let ps: Vec<_> = parsers.into_iter().filter_map(|r| Parser::new(r).ok()).enumerate().collect();
        let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(e) => { let _ = format!("{} {:?}", e, e); return Ok(()) } };
        let mut it = m.iter();
        for t in &targets { if t.1.is_empty() { it.next(); } else { adv_merged(&mut it, t.0, &t.1, t.2); } }
        let mut n = 0;
        while let Some(g) = it.next() {
            if g.is_empty() { return Err("an empty group".into()); }
            n += g.len();
            if n > total { return Err("yields more items than the texts have lines".into()); }
        }
        Ok(())
    }));
    let ctx = |m: String| format!("merging: {} on {:?}", m, texts.iter().map(|t| crate::refsig::show(t)).collect::<Vec<_>>());
    if let Ok(Err(m)) | Err(m) = res { return Err(ctx(m)); }
    if peak > lim { return Err(ctx(format!("took {} bytes of memory", peak))); }
    cx.nontrivial(opened > 0);
    cx.class_if(opened > 0, "header accepted");
    cx.class_if(opened > 1, "several opened");
    cx.class(match c.ins[0] { Input::Raw(_) => "raw bytes", Input::Soup { .. } => "token soup", Input::Edited(..) => "edited signature" });
    Ok(())
}

fn tok() -> BoxedStrategy<Tok> {
    prop_oneof![
        10 => prop::sample::select(vec!["\n", "\n", "\n", "\n/", "\n  ", " f ", " x ", " s ", " f 0\n", " f 1 ", "  a f 1", "  ", " ", "/", "/a", "/b", "a", "b", "  / f 0\n", "  .. f 0\n", "  . s a\n", "  ../.. f 0\n", "  /x f 0\n", "  a/b f 0\n",
            "  \\x2f f 0\n", "  \\x00 f 0\n", "  .\\x2f s /\n", "//\n", "/.\n", "/..\n", "/a/..\n", "/a/../b\n", " 18446744073709551615", " 18446744073709551614", " 9223372036854775807", " 9223372036854775808", " 4294967296", " 99999999999999999999", " 1000000000000", "\\x", "\\xf", "\\", "\\x2e\\x2e", "\r", "\0", "\t", "é", "\u{fffd}",
            "  a s \n", "  a s\n", "  f 0\n", "  a f\n", "  a\n", "  \n", " \n", "\n\n"]).prop_map(|s| Tok::T(B::s(s))),
        3 => any::<u8>().prop_map(Tok::Hash), 1 => word().prop_map(|s| Tok::T(B::s(&s))),
        1 => prop::collection::vec(any::<u8>(), 1..6).prop_map(|v| Tok::T(B(v))),
        1 => (prop::sample::select(vec!["a", "/a", "\n", "/", " ", "\\x41", "  a f 0\n", "/a\n", "0", " 0000000000000000000000000000000000000000000000000000000000000000"]), prop_oneof![5 => 1u16..40, 1 => 40u16..5000]).prop_map(|(s, n)| Tok::Rep(B::s(s), n)),
    ].boxed()
}
fn input() -> BoxedStrategy<Input> {
    prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(|v| Input::Raw(B(v))),
        6 => (any::<u8>(), prop::collection::vec(tok(), 0..40)).prop_map(|(header, toks)| Input::Soup { header, toks }),
        5 => (doc(), prop::collection::vec(edits(), 0..4)).prop_map(|(d, e)| Input::Edited(d, e)),
        1 => (big_doc(), prop::collection::vec(edits(), 0..4)).prop_map(|(d, e)| Input::Edited(d, e)),
    ].boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (prop::collection::vec(input(), 1..4), prop::collection::vec(op(2), 0..10), crate::gens::plan()).prop_map(|(mut ins, ops, plan)| {
        // merging needs equal headers: let the later ones follow the first
        if let Input::Soup { header, .. } = ins[0] { for i in ins.iter_mut() { if let Input::Soup { header: h, .. } = i { *h = header } } }
        if let Input::Edited(d, _) = &ins[0] { let (h, bs) = (d.h, d.bs); for i in ins.iter_mut() { if let Input::Edited(d, _) = i { d.h = h; d.bs = bs } } }
        Case { ins, ops, plan }
    }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let bad = ["  a f 0\n", "  a s b\n", "/\n  / f 0\n", "/\n  .. f 0\n", "/\n  . f 0\n", "/a\n  .. f 0\n", "/\n  \\x2f f 0\n", "/..\n  .. s x\n", "/\n  a f 18446744073709551615\n", "  /a f 0\n", "/\n", "", "/\n  a f 1000000000000000 00\n", "\n", "\n\n\n"];
    for b in bad {
        for h in 0..HEADERS.len() as u8 {
            for ops in [vec![], vec![Op::Adv { i: 65535, how: 0, sp: 0 }, Op::Adv { i: 65535, how: 10, sp: 0 }], vec![Op::Next, Op::Adv { i: 65535, how: 7, sp: 1 }]] {
                let one = |t: &str| Input::Soup { header: h, toks: vec![Tok::T(B::s(t)), Tok::Hash(0x11), Tok::T(B::s("\n"))] };
                v.push(Case { ins: vec![one(b), one("/\n  a f 0\n/b\n")], ops, plan: Plan::default() });
            }
        }
    }
    // characters of several bytes, or half of one, at any place
    let sig = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a\\x20 x 3 1111111111111111111111111111111111111111111111111111111111111111\n  l s ../\\x5c\n/d\n1111111111111111111111111111111111111111111111111111111111111111\n";
    for k in 0..sig.len() {
        let ins = ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{ff10}"].iter().flat_map(|c| [&c.as_bytes()[..], &c.as_bytes()[..1]]).flat_map(|w| {
            (0..3).map(move |op| {
                let mut t = sig.to_vec();
                let end = (k + match op { 0 => w.len(), 1 => 1, _ => 0 }).min(t.len());
                t.splice(k..end, w.iter().cloned());
                Input::Raw(B(t))
            })
        }).collect();
        v.push(Case { ins, ops: vec![Op::Adv { i: 65535, how: 0, sp: 0 }], plan: Plan::default() });
    }
    v
}
/// Very many lines, passed in one call or one by one, on a thread with a stack of the usual size.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { lines: u32, shape: u8, k: u8, way: u8 }
fn check_many(c: &Many, cx: &mut Cx) -> Res {
    cx.long_case();
    let (n, k) = (c.lines as usize, c.k as usize % 4 + 1);
    let mut t = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n".to_vec();
    let mut deep = b"/d".to_vec();
    for i in 0..n {
    cx.long_case();
        match c.shape % 9 {
            0 => t.extend_from_slice(format!("  f{:08} f 0\n", i).as_bytes()),
            1 => t.extend_from_slice(format!("/d{:08}\n", i).as_bytes()),
            2 => t.extend_from_slice(format!("/d{:08}\n  l s x\n", i).as_bytes()),
            // the same line again and again
            3 => t.extend_from_slice(b"  l s x\n"),
            4 => t.extend_from_slice(b"/\n"),
            // faults
            5 => t.extend_from_slice(b"  a z\n"),
            6 => t.extend_from_slice(b"\n"),
            // one long line
            7 => { if i == 0 { t.extend_from_slice(b"  l s x"); } t.extend_from_slice(b"\\x41/") }
            _ => deep.extend_from_slice(b"/a"),
        }
    }
    match c.shape % 9 { 7 => t.push(b'\n'), 8 => { t.extend_from_slice(&deep); t.extend_from_slice(b"\n  f f 0\n") } _ => {} }
    t.extend_from_slice(&[b'1'; 64]);
    t.push(b'\n');
    cx.nontrivial(n > 10_000);
    cx.class(["files", "directories", "a symlink in each directory", "the same symlink", "the root", "bad entries", "empty lines", "a long target", "a deep path"][c.shape as usize % 9]);
    cx.class(["iteration", "advance", "merged iteration", "merged advance", "advance to each line", "advance to the deepest"][c.way as usize % 6]);
    let budget = t.iter().filter(|&&b| b == b'\n').count() + 5;
    let way = c.way % 6;
    let (t, cx_deep) = (std::sync::Arc::new(t), deep);
    let job = move || catch(|| -> Res {
        let far: &[u8] = b"/\xff\xff\xff";
        let mut m = 0;
        if way == 2 || way == 3 {
            let ps: Vec<_> = (0..k).map(|i| (i, Parser::new(&t[..]).unwrap())).collect();
            let mut ms = MergedSignatures::new(ps).map_err(|e| e.to_string())?;
            let mut it = ms.iter();
            if way == 3 { while !adv_merged(&mut it, true, far, 0).is_empty() { m += 1; if m > k * budget { return Err("never ends".into()); } } }
            while it.next().is_some() { m += 1; if m > 2 * k * budget { return Err("never ends".into()); } }
        } else {
            let mut p = Parser::new(&t[..]).map_err(|e| e.to_string())?;
            let mut it = p.iter();
            if way == 4 { let mut i = 0; while adv(&mut it, i % 2 == 0, format!("/{}{:08}", if i % 2 == 0 { 'd' } else { 'f' }, i).as_bytes(), 0).is_some() { i += 1; if i > budget { return Err("never ends".into()); } } }
            if way == 5 { let mut i = 0; while adv(&mut it, true, &cx_deep, 0).is_some() { i += 1; if i > budget { return Err("never ends".into()); } } }
            if way != 0 { while adv(&mut it, true, far, 0).is_some() { m += 1; if m > budget { return Err("never ends".into()); } } }
            while it.next().is_some() { m += 1; if m > 2 * budget { return Err("never ends".into()); } }
        }
        let _ = get_hash(&mut std::io::Cursor::new(&t[..]));
        Ok(())
    });
    let th = std::thread::Builder::new().stack_size(2 << 20).spawn(job).unwrap_or_else(|e| crate::runner::infra(&format!("thread: {}", e)));
    match th.join() { Ok(Ok(r)) => r, Ok(Err(m)) => Err(m), Err(_) => Err("panicked".into()) }
}
fn st_many(tier: Tier) -> BoxedStrategy<Many> {
    let most = if tier.thorough() { 500_000u32 } else { 60_000 };
    (1000..most, any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(lines, shape, k, way)| Many { lines, shape, k, way }).boxed()
}
fn fixed_many() -> Vec<Many> { (0..9).flat_map(|shape| (0..6).map(move |way| Many { lines: 300_000, shape, k: 1, way })).collect() }
pub fn prop() -> Prop {
    Prop {
        id: "C13", level: "exploration", rule: "at least one of the inputs is accepted as a signature header, so that entries are read (bytes); more than 10000 lines, or components of one line (many)",
        assumptions: &["memory limit used: 40 times the longest line plus 128 KB"],
        parts: vec![part("bytes", [60_000, 1_500_000], st, fixed, check), part("many", [100, 2000], st_many, fixed_many, check_many)],
    }
}
