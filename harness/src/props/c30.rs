//! Whatever a scan leaves out is reported.
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Script};
use crate::model::{walk, Content, Node, Tree, B};
use crate::readers::Sink;
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::Cfg;
use dir_signature::v1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static LOG: Mutex<Vec<(log::Level, String)>> = Mutex::new(vec![]);
struct Keep;
impl log::Log for Keep {
    fn enabled(&self, m: &log::Metadata) -> bool { m.target().starts_with("dir_signature") }
    fn log(&self, r: &log::Record) { if self.enabled(r.metadata()) { LOG.lock().unwrap_or_else(|e| e.into_inner()).push((r.level(), r.args().to_string())) } }
    fn flush(&self) {}
}
static KEEP: Keep = Keep;

/// Every message names one of the paths, every path is named once.
fn judge(msgs: &[String], paths: &[PathBuf]) -> Res {
    let mut left: Vec<&String> = msgs.iter().collect();
    let mut ps: Vec<&PathBuf> = paths.iter().collect();
    ps.sort_by_key(|p| (p.as_os_str().len() > 3900, std::cmp::Reverse(p.as_os_str().len())));
    for p in ps {
        let long = p.as_os_str().len() > 3900;
        let name = Path::new(p.file_name().unwrap());
        let (a, b) = if long { (format!("/{}", &format!("{:?}", name)[1..]), format!("/{}", name.display())) } else { (format!("{:?}", p), p.display().to_string()) };
        match left.iter().position(|m| m.contains(&a)).or_else(|| left.iter().position(|m| m.contains(&b))) {
            Some(i) => { left.remove(i); }
            None => return Err(format!("{:?} is left out without a warning that names it; warnings: {:?}", p, msgs.iter().take(8).collect::<Vec<_>>())),
        }
    }
    match left.first() { None => Ok(()), Some(m) => Err(format!("a warning about nothing that was left out: {:?}", m)) }
}
/// Puts special files at the picked directories.
fn add(t: &mut Tree, extra: &[(u16, B, bool)]) {
    for (i, n, sock) in extra {
        let mut dirs: Vec<Vec<u8>> = vec![];
        walk(t, &mut |p, x| if matches!(x, None | Some(Node::Dir(..))) { dirs.push(p.to_vec()) });
        let p = dirs[*i as usize * dirs.len() / 65536].clone();
        let mut at = &mut *t;
        for c in p.split(|&c| c == b'/').filter(|c| !c.is_empty()) { match at.get_mut(&B(c.to_vec())) { Some(Node::Dir(k, _)) => at = k, _ => unreachable!() } }
        at.entry(n.clone()).or_insert(if *sock { Node::Sock } else { Node::Fifo });
    }
}
fn specials(root: &Path, t: &Tree) -> Vec<PathBuf> {
    let mut v = vec![];
    walk(t, &mut |p, n| if n.map_or(false, |n| n.special()) { v.push(root.join(B(p[1..].to_vec()).path())) });
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, extra: Vec<(u16, B, bool)>, second: Option<Tree>, cfg: Cfg, unknown: bool, link: bool, level: u8 }
fn check(c: &Case, cx: &mut Cx) -> Res {
    let _ = log::set_logger(&KEEP);
    let mut t = c.t.clone();
    add(&mut t, &c.extra);
    let d = cx.fresh();
    let mut trees = vec![t];
    trees.extend(c.second.iter().cloned());
    let (mut conf, mut paths, mut ents) = (c.cfg.build(), vec![], 0);
    for (i, t) in trees.iter().enumerate() {
        let root = d.join(format!("r{}", i));
        must(std::fs::create_dir(&root), "root");
        fsops::make_plain(&root, t);
        paths.extend(specials(&root, t));
        ents += crate::model::count(t);
        if c.link { let l = d.join(format!("l{}", i)); must(std::os::unix::fs::symlink(&root, &l), "link"); conf.add_dir(l, "/"); } else { conf.add_dir(root, "/"); }
    }
    let run = |cx: &Cx, level: log::LevelFilter| {
        LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let mut s = Sink::new(&[]);
        log::set_max_level(level);
        interpose::start(&Script { unknown_types: c.unknown, ..Script::default() });
        let r = super::c25::quietly(&cx.dir.join("log"), || v1::scan(&conf, &mut s));
        interpose::stop();
        interpose::quiesce();
        log::set_max_level(log::LevelFilter::Off);
        let l = std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()));
        (r.map(|_| s.data()).map_err(|e| e.to_string()), l)
    };
    use log::LevelFilter::*;
    let level = [Warn, Info, Debug, Trace][c.level as usize % 4];
    let (r, msgs) = run(cx, level);
    let (silent, none) = run(cx, Off);
    cx.cleanup(&d);
    let out = r.map_err(|e| format!("scan failed: {}", e))?;
    if silent.as_ref().map_err(|e| format!("scan failed with logging off: {}", e))? != &out { return Err(format!("the level of logging changes the signature: {}", crate::refsig::diff(&out, &silent.unwrap()))); }
    if !none.is_empty() { return Err(format!("logged although logging is off: {:?}", none)); }
    cx.nontrivial(!paths.is_empty() && ents > paths.len());
    cx.class(match paths.len() { 0 => "nothing left out", 1 => "one entry left out", _ => "several entries left out" });
    cx.class_if(c.unknown, "entry types hidden while listing");
    cx.class_if(c.second.is_some(), "two roots");
    let warnings: Vec<String> = msgs.into_iter().filter(|m| m.0 <= log::Level::Warn).map(|m| m.1).collect();
    judge(&warnings, &paths)
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { max: 16, top: 6, many: gens::MANY, ..TREE };
    (prop_oneof![40 => gens::tree(o), 1 => (17usize..30, 100usize..256).prop_map(|(n, l)| gens::deep(n, l, Node::dir()))],
     prop::collection::vec((any::<u16>(), gens::name(), any::<bool>()), 0..5), prop::option::weighted(0.2, gens::tree(o)), gens::cfg(), prop::bool::weighted(0.3), prop::bool::weighted(0.2), any::<u8>())
        .prop_map(|(t, extra, second, cfg, unknown, link, level)| Case { t, extra, second, cfg, unknown, link, level }).boxed()
}

/// The command with its logging as it is by default.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd { t: Tree, extra: Vec<(u16, B, bool)>, threads: Option<u8>, bin: bool }
fn check_cmd(c: &Cmd, cx: &mut Cx) -> Res {
    let mut t = c.t.clone();
    add(&mut t, &c.extra);
    let d = cx.fresh();
    fsops::make_plain(&d, &t);
    let paths = specials(&d, &t);
    let mut args: Vec<OsString> = vec!["-q".into()];
    if let Some(n) = c.threads { args.push("-t".into()); args.push(n.to_string().into()); }
    args.push(d.clone().into_os_string());
    let (code, _, err) = super::c23::run_plain(cx, c.bin, &args);
    cx.cleanup(&d);
    if code != Some(0) { return Err(format!("index {:?}: exit {:?}", args, code)); }
    let err = String::from_utf8_lossy(&err).into_owned();
    cx.nontrivial(!paths.is_empty());
    cx.class(if paths.is_empty() { "nothing left out" } else { "something left out" });
    let msgs: Vec<String> = err.lines().map(|l| l.to_string()).collect();
    judge(&msgs, &paths).map_err(|m| format!("index {:?}: {}", args, m))
}
fn st_cmd(_: Tier) -> BoxedStrategy<Cmd> {
    let o = TreeOpt { max: 10, top: 5, ..TREE };
    (gens::tree(o), prop::collection::vec((any::<u16>(), gens::name(), any::<bool>()), 0..4), prop::option::of(0u8..5), prop::bool::weighted(0.7))
        .prop_map(|(t, extra, threads, bin)| Cmd { t, extra, threads, bin }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for threads in [0, 3] {
        for unknown in [false, true] {
            // a special file for every byte a name can consist of, and in each of many directories
            let mut t = Tree::new();
            for b in 1..=255u8 { if b != b'/' && b != b'.' { t.insert(B(vec![b'x', b]), if b % 2 == 0 { Node::Fifo } else { Node::Sock }); } }
            for i in 0..40 {
                let mut k = Tree::new();
                k.insert(B::s("same"), Node::Fifo);
                k.insert(B::s("file"), Node::File(Content::new(i, 2), 0o644));
                t.insert(B::s(&format!("d{}", i)), Node::Dir(k, 0o755));
            }
            v.push(Case { t, extra: vec![], second: None, cfg: Cfg { h: crate::digest::H::B2, threads, queue: None, progress: threads > 0 }, unknown, link: false, level: 0 });
            v.push(Case { t: gens::deep(23, 200, Node::dir()), extra: (0..30).map(|i| (i * 2200, B::s("pipe"), false)).collect(), second: None, cfg: Cfg::plain(crate::digest::H::Sha), unknown, link: false, level: 3 });
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C30", level: "exploration", rule: "something is left out and something is not",
        assumptions: &["FIFOs and sockets stand for device files, which can not be made here", "what is logged below the level of a warning is left open", "where the path on disk is longer than the system can tell (PATH_MAX) naming the entry is enough"],
        parts: vec![part("lib", [12_000, 150_000], st, fixed, check), part("cmd", [2500, 25_000], st_cmd, || vec![], check_cmd)],
    }
}
