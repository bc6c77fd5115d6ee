//! Threads never change the result, under any schedule.
use crate::digest::H;
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Script};
use crate::model::{Content, Node, Tree, B};
use crate::readers::Sink;
use crate::refsig::{self, body, diff, entries, B3};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{footer_ok, scan_ok, split, Cfg};
use dir_signature::v1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    t: Tree,
    /// extra files in a directory `m`, so that the queue fills
    extra: u16,
    cfg: Cfg,
    gate: Vec<u16>,
    reads: Vec<u16>,
    /// the sink pauses at every n-th write
    slow_sink: u8,
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let mut t = c.t.clone();
    if c.extra > 0 {
        let mut k = Tree::new();
        for i in 0..c.extra {
            let n = B::s(&format!("{}{}", (b'a' + (i * 7 % 26) as u8) as char, i));
            k.insert(n, if i % 11 == 5 { Node::Link(B::s(&format!("../{}", i))) } else { Node::File(Content::new((i as u32 * 37) % 90, i), 0o644) });
        }
        t.insert(B::s("m"), Node::Dir(k, 0o755));
    }
    fsops::make_plain(&d, &t);
    let want = scan_ok(&d, &Cfg { threads: 0, queue: None, progress: false, ..c.cfg.clone() });
    let mut sink = Sink::new(&[]);
    if c.slow_sink > 0 {
        let (mut i, n) = (0u32, c.slow_sink as u32);
        sink.hook = Some(Box::new(move |_| { i += 1; if i % n == 0 { std::thread::sleep(std::time::Duration::from_micros(60)); } }));
    }
    let scfg = c.cfg.one(&d);
    interpose::start(&Script { gate: c.gate.clone(), reads: c.reads.clone(), ..Script::default() });
    let r = v1::scan(&scfg, &mut sink);
    interpose::stop();
    cx.cleanup(&d);
    let want = want?;
    r.map_err(|e| format!("scan with {} threads failed: {}", c.cfg.threads, e))?;
    let got = sink.data();
    let n = crate::model::count(&t);
    let limit = c.cfg.queue.map(|q| q as usize).unwrap_or(c.cfg.threads as usize * 16);
    cx.nontrivial(c.cfg.threaded() && n >= 3);
    cx.class_if(n > limit + 1, "more entries than the queue holds");
    cx.class_if(!c.gate.is_empty(), "jobs held back");
    cx.class_if(c.cfg.queue.is_some(), "explicit queue size");
    cx.class_if(limit <= 1, "queue size 0 or 1");
    if got == want { return Ok(()); }
    let msg = format!("{} threads, queue {:?}: {}", c.cfg.threads, c.cfg.queue, diff(&want, &got));
    if c.cfg.h == H::B3 {
        // listed: sequential scans chain blake3 over the whole scan, threaded ones over each file
        let (s, p) = (split(&want), split(&got));
        if let (Some(s), Some(p)) = (s, p) {
            if s.0 == p.0 && s.1 == body(&entries(&t, H::B3, B3::PerScan)).as_bytes() && p.1 == body(&entries(&t, H::B3, B3::PerFile)).as_bytes() {
                footer_ok(&got, H::B3)?;
                return cx.known("blake3-cumulative", &msg);
            }
        }
    }
    let _ = refsig::BS;
    Err(msg)
}
fn gate() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        1 => Just(vec![]),
        2 => prop::collection::vec(prop_oneof![3 => Just(0u16), 2 => 1u16..4, 1 => 4u16..40], 1..12),
        // first file slow, everything else immediate
        2 => (0usize..5, 20usize..200).prop_map(|(i, n)| { let mut v = vec![0u16; n]; v[i] = 5000; v }),
        1 => (2usize..9).prop_map(|n| (0..n).map(|i| (n - 1 - i) as u16).collect()),
    ].boxed()
}
fn st(tier: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: if tier.thorough() { 64 } else { 32 }, top: 12, many: gens::MANY, ..TREE };
    (gens::tree(o), prop_oneof![2 => Just(0u16), 2 => 1u16..40, 1 => 40u16..300], gens::any_h(),
     prop_oneof![16 => 2u16..5, 8 => 5u16..17, 1 => 17u16..600], prop::option::of(prop_oneof![2 => 0u16..3, 2 => 3u16..40, 1 => Just(1000u16)]),
     any::<bool>(), gate(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![1 => Just(0u16), 3 => 500u16..9000], 1..4)],
     prop_oneof![2 => Just(0u8), 1 => 1u8..9])
        .prop_map(|(t, extra, h, threads, queue, progress, gate, reads, slow_sink)| Case { t, extra, cfg: Cfg { h, threads, queue, progress }, gate, reads, slow_sink }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in 2..17 {
            for queue in [None, Some(0), Some(1), Some(2), Some(threads), Some(200)] {
                let mut g = vec![0; 60];
                g[0] = 5000;
                g[20] = 5000;
                v.push(Case { t: Tree::new(), extra: 300, cfg: Cfg { h, threads, queue, progress: false }, gate: g, reads: vec![], slow_sink: 0 });
            }
        }
    }
    // many more threads than a byte holds, or than there is work for
    for h in crate::digest::ALL_H {
        for (threads, queue) in [(255, None), (256, None), (257, None), (256, Some(1)), (511, None), (512, Some(0)), (1024, None)] {
            v.push(Case { t: Tree::new(), extra: 300, cfg: Cfg { h, threads, queue, progress: false }, gate: vec![], reads: vec![], slow_sink: 0 });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C06", level: "exploration", rule: "threaded scan of at least three entries",
        assumptions: &["schedules are steered by holding back file opens, splitting reads and pausing the sink; not every interleaving is enumerated"],
        parts: vec![part("schedule", [5000, 100_000], st, fixed, check)],
    }
}
