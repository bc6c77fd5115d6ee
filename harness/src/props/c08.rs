//! A scan never reports success unless the whole signature was stored.
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{Content, Node, Tree, B};
use crate::readers::{Fault, Sink};
use crate::refsig::diff;
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_ok, Cfg};
use dir_signature::{v1, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufWriter, LineWriter, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    t: Tree, cfg: Cfg, fault: Fault, chunks: Vec<u16>,
    /// 0 direct, 1 line-buffered, otherwise BufWriter of this capacity
    buf: u16,
    /// positions as fractions of the length (of 65535); None: every byte
    at: Option<Vec<u16>>,
}

fn run(c: &Case, cfg: &dir_signature::ScannerConfig, sink: Sink) -> (Result<(), Error>, Sink) {
    // the buffered writer is leaked into its parts so that no write happens behind the result's back
    match c.buf {
        0 => { let mut s = sink; let r = v1::scan(cfg, &mut s); (r, s) }
        1 => { let mut w = LineWriter::new(sink); let r = v1::scan(cfg, &mut w); let s = unline(w); (r, s) }
        n => { let mut w = BufWriter::with_capacity(n as usize, sink); let r = v1::scan(cfg, &mut w); (r, w.into_parts().0) }
    }
}
fn unline(w: LineWriter<Sink>) -> Sink {
    let st = w.get_ref().state();
    std::mem::forget(w);
    let mut s = Sink::new(&[]);
    s.st = st;
    s
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let r = inner(c, cx, &d);
    cx.cleanup(&d);
    r
}
fn inner(c: &Case, cx: &mut Cx, d: &std::path::Path) -> Res {
    let want = scan_ok(d, &c.cfg)?;
    let cfg = c.cfg.one(d);
    // no fault: everything stored and flushed, however writes are split
    let (r, s) = run(c, &cfg, Sink::new(&c.chunks));
    r.map_err(|e| format!("scan into a splitting sink failed: {}", e))?;
    {
        let st = s.st.lock().unwrap();
        if st.data != want { return Err(format!("success, but the sink holds different bytes ({} of {}; buffer {}): {}", st.data.len(), want.len(), c.buf, diff(&want, &st.data))); }
        if st.flushed_to != want.len() { return Err(format!("success, but only {} of {} bytes were flushed", st.flushed_to, want.len())); }
    }
    let len = want.len() as u64;
    let at: Vec<u64> = match &c.at {
        None => (0..len).collect(),
        Some(v) => v.iter().map(|&f| f as u64 * len / 65536).chain([0, 1, len - 1, len - 64, len - 65, len - 66]).collect(),
    };
    cx.nontrivial(crate::model::count(&c.t) > 0);
    cx.class(&format!("fault {:?}", c.fault));
    cx.class(match c.buf { 0 => "direct sink", 1 => "line-buffered sink", _ => "buffered sink" });
    cx.class_if(c.cfg.threaded(), "threaded");
    cx.class_if(c.cfg.progress, "progress on");
    cx.class_if(c.at.is_none(), "every byte position");
    cx.evals(at.len() as u64 + 1);
    for p in at {
        let mut s = Sink::new(&c.chunks);
        s.fail_at = Some((p, c.fault));
        // either the sink stays broken, or only one write fails
        s.once = p % 2 == 1;
        let once = s.once;
        let (r, s) = run(c, &cfg, s);
        let st = s.st.lock().unwrap();
        let ctx = format!("sink failing{} ({:?}) after {} of {} bytes, buffer {}, {:?}", if once { " once" } else { "" }, c.fault, p, len, c.buf, c.cfg);
        match r {
            Err(Error::WriteError(_)) => {}
            // trying again would do as well
            Ok(()) if once && st.data == want && st.flushed_to == want.len() => {}
            Ok(()) => return Err(format!("{}: scan reports success", ctx)),
            Err(e) => return Err(format!("{}: not reported as a write error: {}", ctx, e)),
        }
        if !want.starts_with(&st.data) { return Err(format!("{}: what arrived is not a prefix of the signature: {}", ctx, diff(&want, &st.data))); }
    }
    // a flush that fails
    let mut s = Sink::new(&c.chunks);
    s.fail_flush = true;
    let (r, s) = run(c, &cfg, s);
    match r {
        Err(Error::WriteError(_)) => {}
        Ok(()) => return Err("the sink's flush fails but scan reports success".into()),
        Err(e) => return Err(format!("failing flush not reported as a write error: {}", e)),
    }
    let st = s.st.lock().unwrap();
    if !want.starts_with(&st.data) { return Err("what arrived before the failing flush is not a prefix".into()); }
    Ok(())
}
pub fn fault() -> BoxedStrategy<Fault> { prop_oneof![2 => prop::sample::select(vec![Fault::Error, Fault::Zero, Fault::Full, Fault::WouldBlock]), 2 => (0u8..14).prop_map(Fault::Kind)].boxed() }
fn st(tier: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: 10, top: 5, ..TREE };
    let n = if tier.thorough() { 60 } else { 12 };
    (gens::tree(o), gens::cfg(), fault(), gens::chunks(), prop_oneof![3 => Just(0u16), 1 => Just(1u16), 2 => 2u16..300, 2 => Just(8192u16)], prop::collection::vec(any::<u16>(), n))
        .prop_map(|(t, cfg, fault, chunks, buf, at)| Case { t, cfg, fault, chunks, buf, at: Some(at) }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut sub = Tree::new();
    sub.insert(B::s("in ner"), Node::File(Content::new(3, 2), 0o755));
    sub.insert(B::s("l"), Node::Link(B::s("../a")));
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::File(Content::new(32770, 2), 0o644));
    t.insert(B::s("d"), Node::Dir(sub, 0o755));
    t.insert(B::s("e"), Node::dir());
    t.insert(B::s("z"), Node::File(Content::new(0, 0), 0o644));
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in [0u16, 3] {
            for progress in [false, true] {
                for fault in [Fault::Error, Fault::Zero, Fault::Full, Fault::Kind(2), Fault::Kind(5), Fault::Kind(8)] {
                    for buf in [0u16, 1, 64, 8192] {
                        v.push(Case { t: t.clone(), cfg: Cfg { h, threads, queue: None, progress }, fault, chunks: vec![], buf, at: None });
                    }
                }
            }
        }
    }
    v
}
pub fn prop() -> Prop {
    let _ = |w: &mut dyn Write| w.flush();
    Prop {
        id: "C08", level: "fault_enumeration", rule: "the scanned tree is not empty (each case tries many fault positions)",
        assumptions: &["a faulty sink either stays broken or fails one write"],
        parts: vec![part("sink", [2500, 40_000], st, fixed, check)],
    }
}
