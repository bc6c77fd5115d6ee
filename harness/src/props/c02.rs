//! Scan output is canonical v1 text.
use crate::digest::H;
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::Script;
use crate::model::{Content, Node, Tree, B};
use crate::refsig::{self, body, entries, header, read_strict, show, B3};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, scan_with, split, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, cfg: Cfg, permute: u64 }

/// Replaces well-formed hash fields of file lines, so that only the text around them is compared.
pub fn mask(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for l in b.split_inclusive(|&c| c == b'\n') {
        let (core, nl) = match l.strip_suffix(b"\n") { Some(c) => (c, &b"\n"[..]), None => (l, &b""[..]) };
        let f: Vec<&[u8]> = core.split(|&c| c == b' ').collect();
        if l.starts_with(b"  ") && f.len() > 5 && (f[3] == b"f" || f[3] == b"x") {
            let mut v: Vec<Vec<u8>> = f.iter().map(|x| x.to_vec()).collect();
            for x in v[5..].iter_mut() {
                if x.len() == 64 && x.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c)) { *x = b"HASH".to_vec(); }
            }
            out.extend_from_slice(&v.join(&b' '));
        } else { out.extend_from_slice(core); }
        out.extend_from_slice(nl);
    }
    out
}

pub fn canonical(out: &[u8], t: &Tree, h: H) -> Res {
    if let Some(p) = out.iter().position(|&c| c != b'\n' && !(0x20..0x7f).contains(&c)) {
        return Err(format!("byte {:#x} at offset {} of the output", out[p], p));
    }
    let (hd, b, f) = split(out).ok_or_else(|| format!("not a signature: {:?}", show(out)))?;
    if hd != header(h, refsig::BS).as_bytes() { return Err(format!("header is {:?}, expected {:?}", show(hd), header(h, refsig::BS))); }
    if f.len() != 65 || !f[..64].iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c)) { return Err(format!("footer line is {:?}", show(f))); }
    let doc = read_strict(out)?;
    for w in doc.ents.windows(2) {
        if w[0].key() >= w[1].key() { return Err(format!("out of order: {:?} before {:?}", w[0], w[1])); }
    }
    let want = mask(body(&entries(t, h, B3::Correct)).as_bytes());
    let got = mask(b);
    if want != got { return Err(format!("body differs from the canonical text: {}", refsig::diff(&want, &got))); }
    Ok(())
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let (mut escapes, mut delicate) = (0, false);
    crate::model::walk(&c.t, &mut |p, _| if p.iter().any(|&b| b <= 0x20 || b >= 0x7f || b == b'\\') { escapes += 1 });
    let v = entries(&c.t, c.cfg.h, B3::Correct);
    // order by raw path bytes differs from the order in use, or escaped order differs
    for w in v.windows(2) { delicate |= w[0].path().0 > w[1].path().0 || refsig::esc(&w[0].path().0) > refsig::esc(&w[1].path().0); }
    cx.nontrivial(escapes > 0 || delicate);
    cx.class_if(escapes > 0, "escaped names");
    cx.class_if(delicate, "component order differs from byte order of whole or escaped paths");
    let r = scan_with(&d, &c.cfg, &Script { permute: c.permute, ..Script::default() });
    let res = r.map_err(|e| format!("scan failed: {}", e)).and_then(|o| canonical(&o, &c.t, c.cfg.h));
    cx.cleanup(&d);
    res
}
fn st(tier: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: if tier.thorough() { 60 } else { 24 }, many: gens::MANY, ..TREE };
    (gens::tree(o), gens::cfg(), any::<u64>()).prop_map(|(t, cfg, permute)| Case { t, cfg, permute }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    // sibling sets around the separator: a, a<b>, a<b>b and a/b for every byte b
    for dirs in [false, true] {
        for h in crate::digest::ALL_H {
            let mut t = Tree::new();
            let leaf = |i: u32| if dirs { let mut k = Tree::new(); k.insert(B::s("b"), Node::dir()); k.insert(B::s("c"), Node::File(Content::default(), 0o644)); Node::Dir(k, 0o755) } else { Node::File(Content::new(i, 2), 0o644) };
            t.insert(B::s("a"), leaf(1));
            for b in 1..=255u8 { if b != b'/' { t.insert(B(vec![b'a', b]), leaf(2)); t.insert(B(vec![b'a', b, b'b']), leaf(3)); } }
            for threads in [0, 5] { v.push(Case { t: t.clone(), cfg: Cfg { h, threads, queue: None, progress: false }, permute: 5 }); }
        }
    }
    v
}

// ---- differential against hash.sh

const HASH_SH: &str = include_str!("../../hash.sh.ref");

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShCase { t: Tree, threads: u16 }
fn check_sh(c: &ShCase, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let sh = cx.dir.join("hash.sh");
    must(std::fs::write(&sh, HASH_SH), "hash.sh");
    fsops::make_plain(&d, &c.t);
    cx.nontrivial(crate::model::count(&c.t) > 1);
    let outp = cx.dir.join("sh.out");
    let f = must(std::fs::File::create(&outp), "sh.out");
    let st = must(std::process::Command::new("bash").arg(&sh).arg(&d).stdout(f).stderr(std::process::Stdio::null()).status(), "bash");
    if !st.success() { crate::runner::infra("hash.sh failed"); }
    let want = must(std::fs::read(&outp), "sh.out");
    let cfg = Cfg { h: H::Sha, threads: c.threads, queue: None, progress: false };
    let r = scan_ok(&d, &cfg);
    cx.cleanup(&d);
    let got = r?;
    if got == want { return Ok(()); }
    // the footer's scope is C03's business
    let (wb, gb) = (split(&want).map(|x| (x.0, x.1)), split(&got).map(|x| (x.0, x.1)));
    if wb == gb && wb.is_some() { return crate::scanlib::footer_ok(&got, H::Sha); }
    Err(format!("differs from hash.sh: {}", refsig::diff(&want, &got)))
}
fn st_sh(_: Tier) -> BoxedStrategy<ShCase> {
    fn plain(n: &mut Node) {
        match n { Node::File(_, m) => *m = if *m & 0o100 != 0 { 0o755 } else { 0o644 }, Node::Dir(t, m) => { *m = 0o755; t.values_mut().for_each(plain) }
            Node::Link(t) => { if t.0.iter().any(|&c| c <= 0x20 || c >= 0x7f || c == b'\\') { *t = B::s("../t") } } _ => {} }
    }
    let o = TreeOpt { names: gens::plain_name, big: true, max: 8, top: 4, ..TREE };
    (gens::tree(o), prop_oneof![Just(0u16), Just(3)]).prop_map(|(mut t, threads)| { t.values_mut().for_each(plain); ShCase { t, threads } }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C02", level: "exploration",
        rule: "tree has names needing escapes or whose order differs from plain byte order (part tree); more than one entry (part sh)",
        assumptions: &["order is component-wise as in hash.sh (FORMAT.v1.rst only says 'binary strings')", "hash.sh needs bash and shasum, present in the sandbox"],
        parts: vec![part("tree", [40_000, 600_000], st, fixed, check), part("sh", [160, 2000], st_sh, || vec![], check_sh)],
    }
}
