//! The footer is the digest of the signature's own text.
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::model::Tree;
use crate::readers::Sink;
use crate::refsig::{footer, show};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{split, Cfg};
use dir_signature::v1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, cfg: Cfg, chunks: Vec<u16>, buffered: bool }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let mut sink = Sink::new(&c.chunks);
    let cfg = c.cfg.one(&d);
    let r = if c.buffered { v1::scan(&cfg, &mut std::io::BufWriter::with_capacity(100, &mut sink)) } else { v1::scan(&cfg, &mut sink) };
    cx.cleanup(&d);
    r.map_err(|e| format!("scan failed: {}", e))?;
    let out = sink.data();
    cx.nontrivial(crate::model::count(&c.t) > 0);
    cx.class_if(c.cfg.progress, "progress on");
    cx.class_if(c.cfg.threaded(), "threaded");
    cx.class_if(!c.chunks.is_empty(), "sink splits or interrupts writes");
    let (hd, b, f) = split(&out).ok_or_else(|| format!("not a signature: {:?}", show(&out)))?;
    let hds = String::from_utf8_lossy(hd).into_owned();
    let h = c.cfg.h;
    if !hds.contains(h.name()) { return Err(format!("header {:?} does not name {}", hds, h.name())); }
    if f == footer(h, &hds, b, true).as_bytes() { return Ok(()); }
    let d = format!("footer {:?} instead of {:?}", show(f), footer(h, &hds, b, true));
    if f == footer(h, &hds, b, false).as_bytes() { return cx.known("footer-excludes-header", &d); }
    Err(format!("{} ({:?})", d, c.cfg))
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: 16, top: 6, many: gens::MANY, ..TREE };
    (prop_oneof![1 => Just(Tree::new()), 8 => gens::tree(o)], gens::cfg(), gens::chunks(), any::<bool>(), any::<bool>())
        .prop_map(|(t, mut cfg, chunks, buffered, p)| { cfg.progress |= p; Case { t, cfg, chunks, buffered } }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C03", level: "exploration", rule: "the scanned tree is not empty",
        assumptions: &["the digest crates are correct (known-answer tests at start)"],
        parts: vec![part("footer", [40_000, 600_000], st, || vec![], check)],
    }
}
