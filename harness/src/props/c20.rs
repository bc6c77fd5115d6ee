//! What the emitter writes is what the parser reads.
use crate::digest::{hex, H, ALL_H};
use crate::docs::{doc, real_ent, Doc};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{Content, Tree, B};
use crate::readers::{Chunky, Fault, Plan, Sink};
use crate::refsig::{self, Ent, Hasher, B3};
use crate::runner::{catch, part, Cx, Prop, Res, Tier};
use crate::scanlib::{footer_ok, scan_ok, Cfg};
use dir_signature::v1::{Emitter, Entry, Hashes, Parser};
use dir_signature::HashType;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, BufWriter, Write};
use std::path::Path;

fn parse(text: &[u8]) -> Result<(HashType, u64, Vec<Entry>), String> {
    let mut p = Parser::new(text).map_err(|e| format!("parse: {}", e))?;
    let (h, bs) = { let hd = p.get_header(); (hd.get_hash_type(), hd.get_block_size()) };
    let mut v = vec![];
    for e in p.iter() { v.push(e.map_err(|e| format!("parse: {}", e))?); }
    Ok((h, bs, v))
}
/// One emitter call after the other; the result of each is checked by `after`.
fn emit(h: HashType, bs: u64, v: &[Entry], out: &mut dyn Write, after: &dyn Fn(&str, &io::Result<()>) -> Res) -> Result<bool, String> {
    let mut e = match Emitter::new(h, bs, out) {
        Ok(e) => { after("new", &Ok(()))?; e }
        Err(x) => { after("new", &Err(x))?; return Ok(false); }
    };
    for x in v {
        let (what, r) = match x {
            Entry::Dir(p) => ("start_dir", e.start_dir(p)),
            Entry::File { path, exe, size, hashes } => ("add_file", e.add_file(path.file_name().unwrap_or_default(), *exe, *size, hashes)),
            Entry::Link(p, t) => ("add_symlink", e.add_symlink(p.file_name().unwrap_or_default(), t)),
        };
        after(what, &r)?;
        if r.is_err() { return Ok(false); }
    }
    let r = e.finish();
    after("finish", &r)?;
    Ok(r.is_ok())
}
fn ok_calls(what: &str, r: &io::Result<()>) -> Res { r.as_ref().map_err(|e| format!("{} failed: {}", what, e)).map(|_| ()) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { d: Doc, chunks: Vec<u16>, cap: u16, fault: Fault, at: Vec<u16>, rel: String }

fn same_text(got: &[u8], want_head: &str, want_body: &str, h: H, how: &str) -> Res {
    let pre = [want_head.as_bytes(), want_body.as_bytes()].concat();
    if !got.starts_with(&pre) { return Err(format!("{}: {}", how, refsig::diff(&pre, &got[..got.len().min(pre.len())]))); }
    if got.len() != pre.len() + 65 { return Err(format!("{}: footer is {:?}", how, refsig::show(&got[pre.len()..]))); }
    footer_ok(got, h).map_err(|m| format!("{}: {}", how, m))
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let nt = c.d.class(cx);
    cx.nontrivial(nt);
    let ents = c.d.ents();
    let h = c.d.h;
    // entries for the emitter come from the parser (hashes cannot be made otherwise)
    let (ht, bs, v) = parse(&c.d.text())?;
    if v.iter().map(real_ent).collect::<Vec<_>>() != ents || bs != c.d.bs || ht != h.real() { return Err("the parser does not return the entries of the document".into()); }
    let (head, body) = (refsig::header(h, c.d.bs), refsig::body(&ents));
    let mut out = vec![];
    emit(ht, bs, &v, &mut out, &ok_calls)?;
    same_text(&out, &head, &body, h, "emitted text")?;
    // and back
    let (h2, bs2, v2) = parse(&out).map_err(|e| format!("emitted text: {}", e))?;
    if h2 != ht || bs2 != bs || v2 != v { return Err("parsing the emitted text gives something else".into()); }
    let mut out2 = vec![];
    emit(h2, bs2, &v2, &mut out2, &ok_calls)?;
    if out2 != out { return Err(format!("emitting again: {}", refsig::diff(&out, &out2))); }
    // any sink
    let mut s = Sink::new(&c.chunks);
    emit(ht, bs, &v, &mut s, &ok_calls).map_err(|m| format!("{} (writes split as {:?})", m, c.chunks))?;
    if s.data() != out { return Err(format!("writes split as {:?}: {}", c.chunks, refsig::diff(&out, &s.data()))); }
    let s = Sink::new(&c.chunks);
    let st = s.state();
    let mut b = BufWriter::with_capacity(c.cap as usize, s);
    emit(ht, bs, &v, &mut b, &ok_calls)?;
    b.flush().map_err(|e| format!("flush: {}", e))?;
    drop(b);
    let got = st.lock().unwrap().data.clone();
    if got != out { return Err(format!("behind a buffer of {}: {}", c.cap, refsig::diff(&out, &got))); }
    // a fault at each byte
    let n = out.len();
    let step = (n / 60).max(1);
    let mut at: Vec<usize> = (0..n).step_by(step).chain(c.at.iter().map(|a| *a as usize % n)).chain(n.saturating_sub(67)..n).collect();
    at.sort();
    at.dedup();
    cx.evals(at.len() as u64);
    for k in at {
        let mut s = Sink::new(&c.chunks);
        s.fail_at = Some((k as u64, c.fault));
        let st = s.state();
        let st2 = st.clone();
        let finished = emit(ht, bs, &v, &mut s, &|what, r| {
            let failed = st2.lock().unwrap().failed;
            match r {
                Ok(()) if failed => Err(format!("{} succeeds although writing failed ({:?}) at byte {} of {}", what, c.fault, k, n)),
                Err(e) if !failed => Err(format!("{} fails although the sink did not: {}", what, e)),
                _ => Ok(()),
            }
        })?;
        let g = st.lock().unwrap();
        if finished { return Err(format!("everything succeeds although the sink takes {} of {} bytes", k, n)); }
        if g.data != out[..k] { return Err(format!("failing at byte {}: what was written is not a prefix", k)); }
    }
    // documented panic
    let rel = Path::new(&c.rel);
    if !rel.is_absolute() {
        let mut buf = vec![];
        let mut e = Emitter::new(ht, bs, &mut buf).map_err(|e| e.to_string())?;
        if let Ok(r) = catch(|| e.start_dir(rel)) { return Err(format!("start_dir({:?}) returns {:?} instead of panicking", rel, r)); }
        drop(e);
        if buf != head.as_bytes() { return Err(format!("start_dir({:?}) panicked after writing", rel)); }
    }
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    (doc(), gens::chunks(), prop_oneof![0u16..100, 100u16..5000], crate::props::c08::fault(), prop::collection::vec(any::<u16>(), 0..8),
     prop::sample::select(vec!["", "a", "a/b", ".", "./a", "..", " /a", "~", "-", "\\x2fa"]).prop_map(String::from))
        .prop_map(|(d, chunks, cap, fault, at, rel)| Case { d, chunks, cap, fault, at, rel }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in ALL_H {
        for fault in [Fault::Error, Fault::Zero, Fault::Full, Fault::WouldBlock, Fault::Kind(2), Fault::Kind(5), Fault::Kind(8)] {
            for empty in [false, true] {
                let mut t = Tree::new();
                t.insert(B(b"a \x01\\\xff".to_vec()), crate::model::Node::File(Content::new(3, 3), 0o755));
                t.insert(B::s("l"), crate::model::Node::Link(B(b"x y\n".to_vec())));
                t.insert(B(b"d \\".to_vec()), crate::model::Node::dir());
                v.push(Case { d: Doc { t, h, bs: 10, attrs: vec![], salt: 7, mask: 0, empty }, chunks: vec![1, 0], cap: 10, fault, at: (0..600).collect(), rel: "a".into() });
            }
        }
    }
    v
}

/// Every single byte in names, directories and targets, and hashes made by hash_file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Made { h: H, bs: u64, dirs: Vec<(B, Vec<(B, Content, bool)>)>, plan: Plan }
fn check_made(c: &Made, cx: &mut Cx) -> Res {
    let mut v = vec![];
    let mut ents = vec![];
    let mut dirs = c.dirs.clone();
    dirs.sort_by_key(|d| crate::refsig::comps(&d.0.0));
    dirs.dedup_by(|a, b| a.0 == b.0);
    for (d, files) in &dirs {
        v.push(Entry::Dir(d.path().to_path_buf()));
        ents.push(Ent::Dir(d.clone()));
        let mut files = files.clone();
        files.sort_by(|a, b| a.0.cmp(&b.0));
        files.dedup_by(|a, b| a.0 == b.0);
        for (n, ct, exe) in files {
            let data = ct.bytes();
            let path = B(crate::model::join(&d.0, &n.0));
            let (size, hashes) = Hashes::hash_file(c.h.real(), c.bs, Chunky::new(data.clone(), &c.plan)).map_err(|e| e.to_string())?;
            // block hash values are not this property's subject
            let good = Hasher::new(c.h, B3::Correct).file(&data, c.bs);
            let hs: Vec<[u8; 32]> = hashes.iter().map(|x| { let mut d = [0xEE; 32]; if x.len() == 32 { d.copy_from_slice(x) } d }).collect();
            if size != data.len() as u64 || hs.len() != good.len() { return Err(format!("hash_file: {} bytes, {} hashes of {}, {}", size, hs.len(), data.len(), good.len())); }
            ents.push(Ent::File { path: path.clone(), exe, size, hashes: hs });
            v.push(Entry::File { path: path.path().to_path_buf(), exe, size, hashes });
        }
    }
    cx.nontrivial(v.len() > 1);
    let mut out = vec![];
    emit(c.h.real(), c.bs, &v, &mut out, &ok_calls)?;
    same_text(&out, &refsig::header(c.h, c.bs), &refsig::body(&ents), c.h, "emitted text")?;
    let (h2, bs2, v2) = parse(&out).map_err(|e| format!("emitted text: {}", e))?;
    if h2 != c.h.real() || bs2 != c.bs || v2 != v { return Err("parsing the emitted text gives something else".into()); }
    let g = dir_signature::get_hash(&mut io::Cursor::new(&out)).map_err(|e| format!("get_hash of the emitted text: {}", e))?;
    if hex(&g).as_bytes() != &out[out.len() - 65..out.len() - 1] { return Err("get_hash differs from the footer".into()); }
    Ok(())
}
fn abs_dir() -> BoxedStrategy<B> {
    prop::collection::vec(gens::name(), 0..4).prop_map(|v| { let mut p = b"/".to_vec(); for n in v { p = crate::model::join(&p, &n.0); } B(p) }).boxed()
}
fn st_made(_: Tier) -> BoxedStrategy<Made> {
    let file = (gens::name(), gens::content(gens::small_len()), any::<bool>());
    (gens::any_h(), prop_oneof![8 => 1u64..300, 1 => crate::dict::near(1, u64::MAX, 1024)], prop::collection::vec((abs_dir(), prop::collection::vec(file, 0..4)), 0..5), gens::plan())
        .prop_map(|(h, bs, dirs, plan)| Made { h, bs, dirs, plan }).boxed()
}
fn fixed_made() -> Vec<Made> {
    let mut v = vec![];
    for b in 1u8..=255 {
        if b == b'/' { continue; }
        let n = if b == b'.' { B(b"..x".to_vec()) } else { B(vec![b]) };
        let d = B(crate::model::join(b"/", &n.0));
        v.push(Made { h: ALL_H[b as usize % 3], bs: 3, dirs: vec![(B::s("/"), vec![(n.clone(), Content::new(b as u32, 3), b % 2 == 0)]), (d, vec![(n, Content::new(0, 3), true)])], plan: Plan::default() });
    }
    v
}

/// A scanned signature, parsed and emitted again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scanned { t: Tree, cfg: Cfg }
fn check_scan(c: &Scanned, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &c.t);
    let r = scan_ok(&d, &c.cfg);
    cx.cleanup(&d);
    let out = r?;
    let (h, bs, v) = parse(&out)?;
    cx.nontrivial(v.len() > 1);
    let mut out2 = vec![];
    emit(h, bs, &v, &mut out2, &ok_calls)?;
    if out2 != out { return Err(format!("emitting the entries of a scan again: {}", refsig::diff(&out, &out2))); }
    Ok(())
}
fn st_scan(_: Tier) -> BoxedStrategy<Scanned> {
    let o = TreeOpt { big: true, max: 14, top: 6, many: gens::MANY, ..TREE };
    (gens::tree(o), gens::cfg()).prop_map(|(t, cfg)| Scanned { t, cfg }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C20", level: "exploration", rule: "more than one entry is emitted",
        assumptions: &["entries come in format order, as the emitter requires of its caller", "the footer may or may not cover the header line (see C03)"],
        parts: vec![part("doc", [7000, 250_000], st, fixed, check), part("made", [40_000, 300_000], st_made, fixed_made, check_made), part("scan", [10_000, 60_000], st_scan, || vec![], check_scan)],
    }
}
