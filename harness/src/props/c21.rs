//! Producing and reading signatures uses bounded resources.
use crate::alloc::measure;
use crate::digest::{hex, H};
use crate::gens;
use crate::interpose::{self, Script};
use crate::model::{Content, Node, Tree, B};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::Cfg;
use dir_signature::v1::{self, merge::MergedSignatures, Entry, EntryKind, Parser};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, BufReader, Read, Write};
use std::path::PathBuf;

// ------------------------------------------------------------------------------------------ reading

/// A signature of any length, made line by line while it is read. One line in `dir_every` is a directory.
struct Long { h: H, lines: u64, dir_every: u64, i: u64, cur: Vec<u8>, pos: usize, dir: u64, long: usize, hashes: usize, salt: u64 }
impl Long {
    fn new(h: H, lines: u64, dir_every: u64, long: usize, hashes: usize, salt: u64) -> Long {
        Long { h, lines, dir_every, i: 0, cur: Vec::with_capacity(8192), pos: 0, dir: 0, long, hashes, salt }
    }
    fn fill(&mut self) {
        self.cur.clear();
        self.pos = 0;
        let c = &mut self.cur;
        let i = self.i;
        if i == 0 { writeln!(c, "DIRSIGNATURE.v1 {} block_size=32768", self.h.name()).unwrap(); }
        else if i == 1 { c.extend_from_slice(b"/\n"); }
        else if i <= self.lines {
            if i % self.dir_every == 0 { self.dir += 1; write!(c, "/d{:012}", self.dir).unwrap(); c.extend(std::iter::repeat(b'x').take(self.long)); c.push(b'\n'); }
            else if i % 5 == self.salt % 5 { write!(c, "  n{:012}", i).unwrap(); c.extend(std::iter::repeat(b'x').take(self.long)); c.extend_from_slice(b" s target\n"); }
            else {
                write!(c, "  n{:012}", i).unwrap();
                c.extend(std::iter::repeat(b'x').take(self.long));
                write!(c, " f {}", self.hashes as u64 * 32768).unwrap();
                for k in 0..self.hashes { write!(c, " {:064x}", (i + self.salt).wrapping_mul(k as u64 + 1)).unwrap(); }
                c.push(b'\n');
            }
        } else if i == self.lines + 1 { c.extend_from_slice(hex(&[self.salt as u8; 32]).as_bytes()); c.push(b'\n'); }
        self.i += 1;
    }
}
impl Read for Long {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos == self.cur.len() { self.fill(); }
        let n = b.len().min(self.cur.len() - self.pos);
        b[..n].copy_from_slice(&self.cur[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Way { Next, Skip, SkipSteps, Merge(u8), MergeSkip(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase { h: H, way: Way, dir_every: u64, long: usize, hashes: usize, small: u64, big: u64 }

fn dir_target(k: u64, long: usize) -> PathBuf { PathBuf::from(format!("/d{:012}{}", k, "x".repeat(long))) }
/// Reads everything; returns the number of items seen.
fn consume(c: &ReadCase, lines: u64) -> Result<u64, String> {
    let mk = |salt| BufReader::with_capacity(1024, Long::new(c.h, lines, c.dir_every, c.long, c.hashes, salt));
    let last = EntryKind::Dir(PathBuf::from("/~"));
    match c.way {
        Way::Next | Way::Skip | Way::SkipSteps => {
            let mut p = Parser::new(mk(1)).map_err(|e| e.to_string())?;
            let mut n = 0;
            let mut it = p.iter();
            match c.way {
                Way::Next => for e in &mut it { match e { Ok(Entry::Dir(_)) | Ok(Entry::File { .. }) | Ok(Entry::Link(..)) => n += 1, Err(e) => return Err(e.to_string()) } },
                Way::Skip => { if let Some(r) = it.advance(&last) { return Err(format!("unexpected {:?}", r.map(|_| ()))); } n = 1; }
                _ => {
                    let dirs = lines / c.dir_every;
                    let step = (dirs / 50).max(1);
                    let mut k = step;
                    while k <= dirs {
                        match it.advance(&EntryKind::Dir(dir_target(k, c.long))) { Some(Ok(_)) => n += 1, x => return Err(format!("directory {} not found: {:?}", k, x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))) }
                        k += step;
                    }
                }
            }
            Ok(n)
        }
        Way::Merge(k) | Way::MergeSkip(k) => {
            let ps: Result<Vec<_>, String> = (0..k as u64).map(|i| Parser::new(mk(i)).map(|p| (i, p)).map_err(|e| e.to_string())).collect();
            let mut m = MergedSignatures::new(ps?).map_err(|e| e.to_string())?;
            let mut n = 0;
            let mut it = m.iter();
            if let Way::Merge(_) = c.way {
                while let Some(v) = it.next() { for (_, e) in v { e.map_err(|e| e.to_string())?; n += 1; } }
            } else {
                let v = it.advance(&last);
                if !v.is_empty() { return Err("unexpected entries".into()); }
                n = 1;
            }
            Ok(n)
        }
    }
}
fn check_read(c: &ReadCase, cx: &mut Cx) -> Res {
    let (n0, _) = measure(|| consume(c, c.small));
    n0?;
    let (n1, small) = measure(|| consume(c, c.small));
    let n1 = n1?;
    let (n2, big) = measure(|| consume(c, c.big));
    let n2 = n2?;
    let k = match c.way { Way::Merge(k) | Way::MergeSkip(k) => k as u64, _ => 1 };
    if matches!(c.way, Way::Next | Way::Merge(_)) && (n1 != c.small * k || n2 != c.big * k) { return Err(format!("{} and {} entries instead of {} and {}", n1, n2, c.small * k, c.big * k)); }
    cx.nontrivial(c.big >= 10 * c.small);
    cx.class(match c.way { Way::Next => "iteration", Way::Skip => "advance to the end", Way::SkipSteps => "repeated advance", Way::Merge(_) => "merge", Way::MergeSkip(_) => "merge advance" });
    let line = 100 + c.long + 65 * c.hashes;
    // growth must stay below a few lines per merged signature
    let allowed = small + 8 * line * k as usize + 4096;
    if big > allowed { return Err(format!("reading {} entries takes {} bytes at peak, reading {} takes {} ({:?})", c.small, small, c.big, big, c.way)); }
    Ok(())
}
fn st_read(tier: Tier) -> BoxedStrategy<ReadCase> {
    let big = if tier.thorough() { 60_000u64 } else { 12_000 };
    let way = prop_oneof![3 => Just(Way::Next), 1 => Just(Way::Skip), 2 => Just(Way::SkipSteps), 2 => (1u8..6).prop_map(Way::Merge), 1 => (1u8..6).prop_map(Way::MergeSkip)];
    (gens::any_h(), way, prop_oneof![Just(3u64), Just(50), Just(1000), Just(1 << 40), 3u64..400], prop_oneof![2 => Just(0usize), 1 => 0usize..100, 1 => 100usize..3000], prop_oneof![2 => 0usize..4, 1 => 0usize..30], 300u64..600)
        .prop_map(move |(h, way, dir_every, long, hashes, small)| {
            let weight = 50 + long as u64 + 65 * hashes as u64;
            let k = match way { Way::Merge(k) | Way::MergeSkip(k) => k as u64, _ => 1 };
            ReadCase { h, way, dir_every, long, hashes, small, big: (big * 100 / weight / k).max(small * 10) }
        }).boxed()
}

// ------------------------------------------------------------------------------------------ scanning

/// Takes everything, keeps only counts.
#[derive(Default)]
struct Null { bytes: u64, lines: u64 }
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.bytes += b.len() as u64; self.lines += b.iter().filter(|&&c| c == b'\n').count() as u64; Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScanCase { cfg: Cfg, dirs: u8, files: u8, links: u8, depth: u8, name: u8 }
fn regular(c: &ScanCase, depth: u8) -> Tree {
    let mut t = Tree::new();
    let pad = "n".repeat(c.name as usize);
    for i in 0..c.files { t.insert(B::s(&format!("f{}{}", pad, i)), Node::File(Content::new(i as u32, 3), 0o644)); }
    for i in 0..c.links { t.insert(B::s(&format!("l{}{}", pad, i)), Node::Link(B::s("target"))); }
    if depth > 0 { for i in 0..c.dirs { t.insert(B::s(&format!("d{}{}", pad, i)), Node::Dir(regular(c, depth - 1), 0o755)); } }
    t
}
fn limit(c: &Cfg) -> usize { if !c.threaded() { 0 } else { c.queue.map_or(64 * c.threads as usize, |q| q as usize) } }
fn check_scan(c: &ScanCase, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let t = regular(c, c.depth);
    crate::fsops::make_plain(&d, &t);
    let entries = crate::model::count(&t) as u64 + 1;
    let conf = c.cfg.one(&d);
    // a single directory of the same kind: whatever buffers are used are used there as well
    let d0 = cx.fresh();
    crate::fsops::make_plain(&d0, &regular(c, 0));
    let conf0 = c.cfg.one(&d0);
    let once = || { let r = measure(|| v1::scan(&conf0, &mut Null::default())); interpose::quiesce(); r };
    once().0.map_err(|e| format!("scan failed: {}", e))?;
    let base_peak = once().1;
    cx.cleanup(&d0);
    let run = || -> Result<usize, String> {
        let mut s = Null::default();
        let (r, peak) = measure(|| v1::scan(&conf, &mut s));
        interpose::quiesce();
        r.map_err(|e| format!("scan failed: {}", e))?;
        if s.lines != entries + 2 { return Err(format!("{} lines for {} entries", s.lines, entries)); }
        Ok(peak)
    };
    let peak = run().and_then(|_| run());
    let base = interpose::fd_count();
    interpose::start(&Script { fds: true, ..Script::default() });
    let r = v1::scan(&conf, &mut Null::default());
    interpose::stop();
    interpose::quiesce();
    let fds = interpose::fds_max().saturating_sub(base);
    cx.cleanup(&d);
    let peak = peak?;
    r.map_err(|e| format!("scan failed: {}", e))?;
    let q = limit(&c.cfg);
    // entries that may have to be held: those of the directories along one path, and those in flight
    let held = (c.depth as usize + 1) * (c.dirs as usize + 1) + c.files as usize + c.links as usize + q.min(entries as usize) + c.cfg.threads as usize;
    cx.nontrivial(entries as usize > 5 * held);
    cx.class_if(c.cfg.threaded(), "threaded");
    cx.class_if(entries as usize > 20 * held, "over twenty times more entries than held");
    let path = (c.depth as usize + 1) * (c.name as usize + 6);
    let allowed = 32 * 1024 + base_peak * (1 + c.cfg.threads as usize) + held * (400 + 3 * path) + c.cfg.threads as usize * 16 * 1024;
    if peak > allowed { return Err(format!("scanning {} entries takes {} bytes at peak although only {} need be held (allowed {}; {:?})", entries, peak, held, allowed, c.cfg)); }
    let fd_limit = c.depth as usize + 2 + q.min(entries as usize) + 2 * c.cfg.threads as usize + 6;
    if fds > fd_limit { return Err(format!("{} descriptors open at once while scanning a tree of depth {} (allowed {}; {:?})", fds, c.depth, fd_limit, c.cfg)); }
    Ok(())
}
fn st_scan(tier: Tier) -> BoxedStrategy<ScanCase> {
    let most = if tier.thorough() { 20_000f64 } else { 4000.0 };
    (gens::any_h(), prop_oneof![3 => Just(0u16), 2 => 2u16..5], prop::option::weighted(0.7, 1u16..12), any::<bool>(), 1u8..12, 0u8..4, 0u8..4, prop_oneof![2 => Just(0u8), 1 => 0u8..60])
        .prop_map(move |(h, threads, queue, progress, dirs, files, links, name)| {
            let mut depth = 1u8;
            while depth < 60 && (1..=depth as i32 + 1).map(|k| (dirs as f64).powi(k)).sum::<f64>() * (1.0 + files as f64 + links as f64) < most { depth += 1; }
            ScanCase { cfg: Cfg { h, threads, queue, progress }, dirs, files, links, depth, name }
        }).boxed()
}

fn fixed_scan() -> Vec<ScanCase> {
    vec![
        ScanCase { cfg: Cfg { h: H::B2, threads: 0, queue: None, progress: false }, dirs: 3, files: 2, links: 1, depth: 8, name: 0 },
        ScanCase { cfg: Cfg { h: H::Sha, threads: 3, queue: Some(4), progress: true }, dirs: 3, files: 2, links: 1, depth: 7, name: 0 },
        ScanCase { cfg: Cfg { h: H::Sha, threads: 0, queue: None, progress: true }, dirs: 9, files: 0, links: 0, depth: 4, name: 40 },
    ]
}

/// One large file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big { cfg: Cfg, mb: u32, extra: u16, n: u8 }
fn check_big(c: &Big, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let size = c.mb as u64 * 1024 * 1024 + c.extra as u64;
    for i in 0..c.n {
        let f = crate::runner::must(std::fs::File::create(d.join(format!("f{}", i))), "create");
        crate::runner::must(f.set_len(size), "truncate");
    }
    let conf = c.cfg.one(&d);
    let run = || { let mut s = Null::default(); let r = measure(|| v1::scan(&conf, &mut s)); interpose::quiesce(); (r, s) };
    let ((r, peak), s) = run();
    cx.cleanup(&d);
    r.map_err(|e| format!("scan failed: {}", e))?;
    let blocks = (size + 32767) / 32768;
    if s.bytes < blocks * 65 * c.n as u64 { return Err(format!("only {} bytes written for {} blocks", s.bytes, blocks * c.n as u64)); }
    cx.nontrivial(c.mb >= 4);
    let flight = if c.cfg.threaded() { c.n as u64 } else { 1 };
    let allowed = 512 * 1024 + flight * blocks * 65 * 4 + c.cfg.threads as u64 * 256 * 1024;
    if peak as u64 > allowed { return Err(format!("scanning {} files of {} bytes takes {} bytes at peak (allowed {}; {:?})", c.n, size, peak, allowed, c.cfg)); }
    // hashing and checking a stream
    struct Zeros(u64);
    impl Read for Zeros { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = (b.len() as u64).min(self.0) as usize; b[..n].fill(0); self.0 -= n as u64; Ok(n) } }
    let (r, peak) = measure(|| -> io::Result<(u64, bool)> {
        let (n, h) = v1::Hashes::hash_file(c.cfg.h.real(), 32768, Zeros(size))?;
        Ok((n, h.check_file(Zeros(size))?))
    });
    let (n, _) = r.map_err(|e| e.to_string())?;
    if n != size { return Err(format!("hash_file returns {} for {} bytes", n, size)); }
    let allowed = 512 * 1024 + blocks * 32 * 6;
    if peak as u64 > allowed { return Err(format!("hashing and checking {} bytes takes {} bytes at peak (allowed {})", size, peak, allowed)); }
    Ok(())
}
fn st_big(tier: Tier) -> BoxedStrategy<Big> {
    let most = if tier.thorough() { 64u32 } else { 12 };
    (gens::any_h(), prop_oneof![1 => Just(0u16), 1 => 2u16..4], 4u32..most, any::<u16>(), 1u8..3)
        .prop_map(|(h, threads, mb, extra, n)| Big { cfg: Cfg { h, threads, queue: None, progress: false }, mb, extra, n }).boxed()
}

// ------------------------------------------------------------------------------------------ in flight

/// The first file is slow: how far does the scan run ahead?
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ahead { pub cfg: Cfg, pub shape: u8, pub over: u8 }
struct Watch { files: u64, lines: u64, dirs: u64, max: u64, max_dirs: u64, start: bool, in_file: bool }
impl Write for Watch {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // opened but not yet written
        self.max = self.max.max(interpose::opened_files().saturating_sub(self.files));
        if self.start { self.max_dirs = self.max_dirs.max((interpose::opened_dirs() as u64).saturating_sub(self.dirs)); }
        for &c in b {
            if self.start { self.in_file = c == b' '; if c == b'/' { self.dirs += 1; } self.start = false; }
            if c == b'\n' { self.lines += 1; self.start = true; if self.in_file { self.files += 1; } self.in_file = false; }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn check_ahead(c: &Ahead, cx: &mut Cx) -> Res { ahead(c, &|d| c.cfg.one(d), cx) }
/// With the configuration, however it was arrived at, that means `c.cfg`.
pub fn ahead(c: &Ahead, conf: &dyn Fn(&std::path::Path) -> dir_signature::ScannerConfig, cx: &mut Cx) -> Res {
    let q = limit(&c.cfg);
    let n = q * 2 + c.over as usize + 30;
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::File(Content::new(10, 3), 0o644));
    for i in 0..n {
        let name = B::s(&format!("b{:05}", i));
        let f = Node::File(Content::new(i as u32 % 50, 3), 0o644);
        match c.shape % 4 {
            // files, directories, a file in each directory, mixed with symlinks
            0 => { t.insert(name, f); }
            1 => { t.insert(name, Node::dir()); }
            2 => { let mut k = Tree::new(); k.insert(B::s("f"), f); t.insert(name, Node::Dir(k, 0o755)); }
            _ => { t.insert(name, match i % 3 { 0 => f, 1 => Node::Link(B::s("x")), _ => Node::dir() }); }
        }
    }
    let d = cx.fresh();
    crate::fsops::make_plain(&d, &t);
    let base = interpose::fd_count();
    let mut gate = vec![0u16; n + 10];
    gate[0] = u16::MAX;
    let mut s = Watch { files: 0, lines: 0, dirs: 0, max: 0, max_dirs: 0, start: false, in_file: false };
    interpose::start(&Script { gate, gate_us: 60_000, record: true, fds: true, ..Script::default() });
    let r = v1::scan(&conf(&d), &mut s);
    interpose::stop();
    interpose::quiesce();
    let fds = interpose::fds_max().saturating_sub(base);
    cx.cleanup(&d);
    r.map_err(|e| format!("scan failed: {}", e))?;
    cx.nontrivial(n > q);
    cx.class(["files", "directories", "a file in each directory", "mixed"][c.shape as usize % 4]);
    cx.class_if(c.cfg.queue.is_none(), "default queue size");
    let slack = c.cfg.threads as u64 + 4;
    let what = if c.cfg.queue.is_some() { "queue size" } else { "64 per thread" };
    if s.max > q as u64 + slack { return Err(format!("{} files were opened and not yet written, {} is {} ({:?})", s.max, what, q, c.cfg)); }
    if s.max_dirs > q as u64 + slack { return Err(format!("{} directories were opened and not yet written, {} is {} ({:?})", s.max_dirs, what, q, c.cfg)); }
    if fds > q + 3 * c.cfg.threads as usize + 12 { return Err(format!("{} descriptors open at once, {} is {} ({:?})", fds, what, q, c.cfg)); }
    Ok(())
}
pub fn st_ahead(_: Tier) -> BoxedStrategy<Ahead> {
    let tq = prop_oneof![4 => (2u16..6, prop_oneof![Just(0u16), 1u16..40].prop_map(Some)), 1 => (2u16..4, Just(None))];
    (gens::any_h(), tq, any::<bool>(), 0u8..4, any::<u8>())
        .prop_map(|(h, (threads, queue), progress, shape, over)| Ahead { cfg: Cfg { h, threads, queue, progress }, shape, over }).boxed()
}
fn fixed_ahead() -> Vec<Ahead> {
    (0..4).flat_map(|shape| [None, Some(0), Some(1), Some(5)].into_iter().map(move |queue| Ahead { cfg: Cfg { h: H::B2, threads: 3, queue, progress: false }, shape, over: 99 })).collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "C21", level: "exploration",
        rule: "the long signature has at least ten times the lines of the short one (read); the tree has over five times the entries that need be held (scan); at least 4 MB (big); more entries than the queue holds behind a slow first file (ahead)",
        assumptions: &["heap memory is measured by a counting allocator, thread stacks are not included", "with threads the hash text of the files in flight (65 bytes per block) is held", "the default queue is proportional to the threads: 64 per thread is accepted (the code uses 16)"],
        parts: vec![part("read", [400, 4000], st_read, || vec![], check_read), part("scan", [160, 1200], st_scan, fixed_scan, check_scan),
            part("big", [60, 300], st_big, || vec![], check_big), part("ahead", [200, 2000], st_ahead, fixed_ahead, check_ahead)],
    }
}
