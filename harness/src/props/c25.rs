//! Progress reports are true and never change the outcome.
use crate::digest::H;
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::Script;
use crate::model::{Content, Node, Tree, B};
use crate::readers::{Fault, Sink};
use crate::refsig::{self, read_strict, Ent};
use crate::runner::{infra, must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan, split, Cfg};
use dir_signature::v1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::Path;

/// Where standard error goes.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Err2 { File, Full, ClosedPipe }

/// Runs `f` with descriptor 2 replaced.
fn with_stderr<T>(to: &File, f: impl FnOnce() -> T) -> T {
    struct Back(i32);
    impl Drop for Back { fn drop(&mut self) { unsafe { libc::dup2(self.0, 2); libc::close(self.0); } } }
    let b = unsafe {
        let saved = libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10);
        if saved < 0 { infra("dup") }
        if libc::dup2(to.as_raw_fd(), 2) < 0 { infra("dup2") }
        Back(saved)
    };
    let r = f();
    drop(b);
    r
}
fn target(e: &Err2, p: &Path) -> File {
    match e {
        Err2::File => must(File::create(p), "stderr file"),
        Err2::Full => must(std::fs::OpenOptions::new().write(true).open("/dev/full"), "/dev/full"),
        Err2::ClosedPipe => unsafe {
            let mut fds = [0i32; 2];
            if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 { infra("pipe") }
            libc::close(fds[0]);
            File::from_raw_fd(fds[1])
        },
    }
}

/// Runs `f` with standard error written to this file.
pub fn quietly<T>(log: &Path, f: impl FnOnce() -> T) -> T { with_stderr(&target(&Err2::File, log), f) }

type Counts = [u64; 3];
/// The numbers in front of `dirs`, `files` and `symlinks`.
fn counts(s: &str) -> Option<Counts> {
    let w: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == ',').filter(|w| !w.is_empty()).collect();
    let get = |what: &str| (1..w.len()).find(|&i| w[i].trim_end_matches('.') == what).and_then(|i| w[i - 1].parse().ok());
    Some([get("dirs")?, get("files")?, get("symlinks")?])
}
pub fn totals(out: &[u8]) -> Result<Counts, String> {
    let mut c = [0; 3];
    for e in read_strict(out)?.ents { c[match e { Ent::Dir(_) => 0, Ent::File { .. } => 1, Ent::Link(..) => 2 }] += 1; }
    Ok(c)
}
/// Judges what was reported. `out`: the signature if the scan succeeded.
pub fn judge(text: &[u8], out: Option<&[u8]>, max: Counts) -> Result<u32, String> {
    let text = std::str::from_utf8(text).map_err(|_| format!("not text: {:?}", refsig::show(text)))?;
    let bad = |m: &str| format!("{}: {:?}", m, text);
    let (body, done) = match text.rfind("Done") { Some(i) => (&text[..i], Some(&text[i..])), None => (text, None) };
    let mut last = [0; 3];
    let mut lines = 0;
    for l in body.split(|c| c == '\r' || c == '\n').filter(|l| !l.trim().is_empty()) {
        let c = counts(l).ok_or_else(|| bad("line without counts"))?;
        for k in 0..3 {
            if c[k] < last[k] { return Err(bad("counts go down")); }
            if c[k] > max[k] { return Err(bad(&format!("reports {:?} of at most {:?} entries", c, max))); }
        }
        last = c;
        lines += 1;
    }
    match (out, done) {
        (None, None) => {}
        (None, Some(_)) => return Err(bad("the scan failed, but it is reported as done")),
        (Some(_), None) => return Err(bad("the scan succeeded, but its end is not reported")),
        (Some(o), Some(d)) => {
            if !d.ends_with('\n') || d[..d.len() - 1].contains('\n') { return Err(bad("the last report is not one line")); }
            let t = totals(o)?;
            if counts(d) != Some(t) { return Err(bad(&format!("the signature has {:?} directories, files and symlinks", t))); }
            let f = split(o).map(|s| String::from_utf8_lossy(s.2).trim_end().to_string()).unwrap_or_default();
            let hash = d[4..].split_whitespace().next().unwrap_or("").trim_end_matches('.').to_string();
            if hash.len() < 8 || !f.starts_with(&hash) { return Err(bad(&format!("the footer of the signature is {}", f))); }
            let secs = d.split_whitespace().collect::<Vec<_>>().windows(2).find(|w| w[1].starts_with("sec")).and_then(|w| w[0].parse::<f64>().ok());
            match secs { Some(s) if s >= 0.0 && s < 600.0 => {}, _ => return Err(bad("no plausible duration")) }
        }
    }
    Ok(lines)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad { No, Sink(u16), Source(u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, cfg: Cfg, bad: Bad, err: Err2, /// the sink pauses before these writes, long enough for a report
    pause: Vec<u16> }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let quiet = scan(&d, &Cfg { progress: false, ..c.cfg.clone() }).map_err(|e| format!("scan failed: {}", e))?;
    let mut sink = Sink::new(&[]);
    let st = sink.state();
    if let Bad::Sink(at) = c.bad { sink.fail_at = Some((at as u64 * quiet.len() as u64 / 65536, Fault::Error)); }
    if !c.pause.is_empty() {
        let (mut i, p) = (0u16, c.pause.clone());
        sink.hook = Some(Box::new(move |_| { i = i.wrapping_add(1); if p.contains(&i) { std::thread::sleep(std::time::Duration::from_millis(105)); } }));
    }
    let log = cx.dir.join("progress");
    let file = target(&c.err, &log);
    let cfg = c.cfg.one(&d);
    let s = Script { fail_at: match c.bad { Bad::Source(n) => Some((n as u64, libc::EIO)), _ => None }, ..Script::default() };
    crate::interpose::start(&s);
    let r = with_stderr(&file, || v1::scan(&cfg, &mut sink));
    crate::interpose::stop();
    if c.cfg.threaded() && !crate::interpose::quiesce() { crate::runner::oracle_panic("hashing threads still run 20 s after the scan returned".into()); }
    drop(file);
    cx.cleanup(&d);
    let got = sink.data();
    let text = if c.err == Err2::File { must(std::fs::read(&log), "progress") } else { vec![] };
    let failed = st.lock().unwrap().failed;
    cx.nontrivial(c.cfg.progress && !c.t.is_empty());
    cx.class_if(r.is_err(), "scan fails");
    cx.class_if(c.err != Err2::File, "standard error cannot be written");
    cx.class_if(c.cfg.threaded(), "threaded");
    cx.class_if(!c.cfg.progress, "no progress");
    match &r {
        Ok(()) => {
            if failed { return Err("the output failed, but the scan succeeded".into()); }
            if got != quiet { return Err(format!("progress output changes the signature ({:?}): {}", c.cfg, refsig::diff(&quiet, &got))); }
        }
        Err(e) => if matches!(c.bad, Bad::No) { return Err(format!("a scan with {:?} as standard error fails: {}", c.err, e)); },
    }
    if c.err != Err2::File { return Ok(()); }
    if !c.cfg.progress {
        if !text.is_empty() { return Err(format!("progress is off, but standard error gets {:?}", refsig::show(&text))); }
        return Ok(());
    }
    let n = judge(&text, r.as_ref().ok().map(|_| &got[..]), totals(&quiet)?)?;
    cx.class_if(n > 0, "intermediate reports");
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: 20, top: 8, many: gens::MANY, ..TREE };
    (gens::tree(o), gens::cfg(), prop_oneof![4 => Just(Bad::No), 1 => any::<u16>().prop_map(Bad::Sink), 1 => (1u16..60).prop_map(Bad::Source)],
     prop_oneof![6 => Just(Err2::File), 1 => Just(Err2::Full), 1 => Just(Err2::ClosedPipe)], prop::bool::weighted(0.9),
     prop_oneof![300 => Just(vec![]), 1 => prop::collection::vec(1u16..60, 1..4)])
        .prop_map(|(t, mut cfg, bad, err, p, pause)| { cfg.progress = p; Case { t, cfg, bad, err, pause } }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in [0u16, 2, 5] {
            for (nf, nl, nd) in [(0, 0, 0), (1, 2, 3), (3, 1, 2), (40, 30, 20)] {
                let mut t = Tree::new();
                for i in 0..nf { t.insert(B::s(&format!("f{}", i)), Node::File(Content::new(i * 7, 3), 0o644)); }
                for i in 0..nl { t.insert(B::s(&format!("l{}", i)), Node::Link(B::s("x"))); }
                for i in 0..nd { t.insert(B::s(&format!("d{}", i)), Node::dir()); }
                for err in [Err2::File, Err2::Full, Err2::ClosedPipe] {
                    v.push(Case { t: t.clone(), cfg: Cfg { h, threads, queue: None, progress: true }, bad: Bad::No, err, pause: vec![2, 5, 9] });
                }
            }
        }
    }
    v
}

/// The command's -q, --no-progress and --progress.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd { t: Tree, h: H, flags: Vec<u8>, bin: bool, threads: u8, file: bool, missing: bool }
fn check_cmd(c: &Cmd, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let root = d.join("r");
    must(std::fs::create_dir(&root), "root");
    fsops::make_plain(&root, &c.t);
    let file = d.join("out.idx");
    let mut args: Vec<OsString> = vec![format!("--hash={}", c.h.name()).into(), format!("--threads={}", c.threads).into()];
    for f in &c.flags { args.push(["-q", "--no-progress", "--progress"][*f as usize % 3].into()); }
    if c.file { args.push("-o".into()); args.push(file.clone().into()); }
    args.push(root.clone().into());
    if c.missing { args.push(d.join("none").into()); }
    let r = super::c23::run_plain(cx, c.bin, &args);
    let out = if c.file { std::fs::read(&file).unwrap_or_default() } else { r.1.clone() };
    cx.cleanup(&d);
    let quiet = c.flags.last().map_or(false, |f| f % 3 != 2);
    cx.nontrivial(!c.t.is_empty());
    cx.class(if quiet { "quiet" } else { "progress" });
    let what = format!("index {:?}", args);
    if (r.0 == Some(0)) == c.missing { return Err(format!("{}: exit {:?}", what, r.0)); }
    let text = String::from_utf8_lossy(&r.2).into_owned();
    if c.missing {
        if text.contains("Done ") { return Err(format!("{}: reported as done: {:?}", what, text)); }
        return Ok(());
    }
    if quiet {
        if !text.is_empty() { return Err(format!("{}: standard error gets {:?}", what, text)); }
        return Ok(());
    }
    judge(&r.2, Some(&out), totals(&out)?).map_err(|m| format!("{}: {}", what, m))?;
    Ok(())
}
fn st_cmd(_: Tier) -> BoxedStrategy<Cmd> {
    let o = TreeOpt { specials: false, max: 14, top: 6, ..TREE };
    (gens::tree(o), gens::any_h(), prop::collection::vec(any::<u8>(), 0..4), any::<bool>(), 0u8..5, any::<bool>(), prop::bool::weighted(0.1))
        .prop_map(|(t, h, flags, bin, threads, file, missing)| Cmd { t, h, flags, bin, threads, file, missing }).boxed()
}

/// More entries than 16 bits count.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { kind: u8, n: u32, cfg: Cfg }
fn check_many(c: &Many, cx: &mut Cx) -> Res {
    cx.long_case();
    let d = cx.fresh();
    for i in 0..c.n {
    cx.long_case();
        let p = d.join(format!("{:x}", i));
        match c.kind % 3 { 0 => must(std::fs::File::create(&p).map(|_| ()), "file"), 1 => must(std::fs::create_dir(&p), "dir"), _ => must(std::os::unix::fs::symlink("x", &p), "link") }
    }
    let log = cx.dir.join("progress");
    let file = target(&Err2::File, &log);
    let cfg = c.cfg.one(&d);
    let mut out = vec![];
    let r = with_stderr(&file, || v1::scan(&cfg, &mut out));
    drop(file);
    let quiet = r.map_err(|e| format!("scan failed: {}", e)).and_then(|_| scan(&d, &Cfg { progress: false, ..c.cfg.clone() }).map_err(|e| format!("scan failed: {}", e)));
    cx.cleanup(&d);
    let text = must(std::fs::read(&log), "progress");
    cx.nontrivial(c.n > 65_536);
    cx.class(["files", "directories", "symlinks"][c.kind as usize % 3]);
    if out != quiet? { return Err("progress output changes the signature".into()); }
    let mut max = [1, 0, 0];
    max[[1, 0, 2][c.kind as usize % 3]] += c.n as u64;
    judge(&text, Some(&out), max).map(|_| ()).map_err(|e| e.chars().take(2000).collect())
}
fn st_many(_: Tier) -> BoxedStrategy<Many> { (any::<u8>(), 0u32..3000, gens::cfg()).prop_map(|(kind, n, cfg)| Many { kind, n, cfg: Cfg { progress: true, ..cfg } }).boxed() }
fn fixed_many() -> Vec<Many> { (0..3).map(|kind| Many { kind, n: 65_600 + 17 * kind as u32, cfg: Cfg { h: crate::digest::H::B2, threads: if kind == 0 { 3 } else { 0 }, queue: None, progress: true } }).collect() }
pub fn prop() -> Prop {
    Prop {
        id: "C25", level: "exploration", rule: "progress is on and the tree is not empty (scan); the tree is not empty (command); more than 65536 entries of a kind (many)",
        assumptions: &["the wording of the reports is free, but for the counts, the hash and the word Done"],
        parts: vec![part("scan", [30_000, 400_000], st, fixed, check), part("command", [3000, 30_000], st_cmd, || vec![], check_cmd),
            part("many", [20, 200], st_many, fixed_many, check_many)],
    }
}
