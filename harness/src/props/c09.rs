//! A scan never hides a source error.
use crate::fsops::{self, How};
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Call, Script};
use crate::model::{count, join, walk, Content, Node, Tree, B};
use crate::refsig::{self, read_strict, Ent};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{exact, finished, scan_into, Cfg};
use dir_signature::Error;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::mpsc;
use std::time::Duration;

pub fn split_path(p: &[u8]) -> Vec<B> { p.split(|&c| c == b'/').filter(|x| !x.is_empty()).map(|x| B(x.to_vec())).collect() }
pub fn parent<'a>(t: &'a mut Tree, c: &[B]) -> &'a mut Tree {
    let mut t = t;
    for n in &c[..c.len() - 1] { match t.get_mut(n) { Some(Node::Dir(k, _)) => t = k, _ => unreachable!() } }
    t
}
fn on_disk(root: &Path, c: &[B]) -> PathBuf { let mut p = root.to_path_buf(); for n in c { p.push(n.os()); } p }

fn kind_ok(call: Call, e: &Error) -> bool {
    match call {
        Call::OpenRoot => matches!(e, Error::OpenDir(_)),
        Call::OpenDir => matches!(e, Error::OpenDir(_) | Error::ListDir(_)),
        Call::Readdir => matches!(e, Error::ListDir(_)),
        Call::OpenFile | Call::Read | Call::Readlink => matches!(e, Error::ReadFile(_)),
        Call::Stat => matches!(e, Error::ReadFile(_) | Error::ListDir(_)),
        Call::None => false,
    }
}

// ------------------------------------------------------------- failing system calls

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail { t: Tree, cfg: Cfg, errno: i32, unknown: bool, reads: Vec<u16> }

fn check_fail(c: &Fail, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    fsops::make_plain(&d, &c.t);
    let r = inner_fail(c, cx, &d);
    cx.cleanup(&d);
    r
}
fn inner_fail(c: &Fail, cx: &mut Cx, d: &Path) -> Res {
    let s = Script { unknown_types: c.unknown, reads: c.reads.clone(), ..Script::default() };
    let (r, out) = scan_into(d, &c.cfg, &s, || {});
    r.map_err(|e| format!("scan without faults failed: {}", e))?;
    exact(cx, &out, &c.t, &c.cfg)?;
    let n = interpose::calls();
    cx.nontrivial(n > 4);
    cx.evals(n);
    let step = (n / 400).max(1);
    for k in (0..n).step_by(step as usize) {
        let s = Script { fail_at: Some((k, c.errno)), ..s.clone() };
        let (r, out) = scan_into(d, &c.cfg, &s, || {});
        let call = interpose::fired();
        let ctx = || format!("{:?} (source call {} of {}) failing with errno {}, {:?}", call, k, n, c.errno, c.cfg);
        if call == Call::None {
            // the number of calls is the same every time, unless a thread is ahead of an interrupted read
            r.map_err(|e| format!("scan failed although no fault was injected: {}", e))?;
            exact(cx, &out, &c.t, &c.cfg)?;
            continue;
        }
        cx.class(&format!("failing {:?}{}", call, if c.cfg.threaded() { ", threaded" } else { "" }));
        match r {
            Ok(()) => return Err(format!("{}: scan succeeded", ctx())),
            Err(e) => if !kind_ok(call, &e) { return Err(format!("{}: reported as {:?}", ctx(), e)); }
        }
        if finished(&out, c.cfg.h) { return Err(format!("{}: a finished signature was written", ctx())); }
    }
    Ok(())
}
fn st_fail(_: Tier) -> BoxedStrategy<Fail> {
    let o = TreeOpt { max: 8, top: 5, big: true, ..TREE };
    (gens::tree(o), gens::cfg(), prop::sample::select(vec![libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOMEM, libc::EMFILE, libc::ELOOP, libc::ENOTDIR, libc::EISDIR, libc::ESTALE, libc::EPERM, libc::ENXIO, libc::EOVERFLOW, libc::ETIMEDOUT, libc::ENODEV, libc::EBUSY, libc::ENAMETOOLONG, libc::ENOTCONN, libc::EAGAIN]),
        any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![Just(0u16), 4000u16..30000], 1..4).prop_map(|mut v| { v.push(9000); v })])
        .prop_map(|(t, mut cfg, errno, unknown, reads)| { cfg.progress = false; Fail { t, cfg, errno, unknown, reads } }).boxed()
}
fn rich() -> Tree {
    let mut sub = Tree::new();
    sub.insert(B::s("g"), Node::File(Content::new(70_000, 7), 0o644));
    sub.insert(B::s("k"), Node::Link(B::s("../a")));
    sub.insert(B::s("sub"), Node::dir());
    sub.insert(B::s("zero"), Node::File(Content::new(0, 0), 0o755));
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::File(Content::new(32768, 2), 0o755));
    t.insert(B::s("d"), Node::Dir(sub, 0o755));
    t.insert(B::s("empty"), Node::dir());
    t.insert(B::s("fifo"), Node::Fifo);
    t.insert(B::s("l"), Node::Link(B::s("nowhere")));
    t.insert(B::s("z"), Node::File(Content::new(5, 3), 0o644));
    t
}
fn fixed_fail() -> Vec<Fail> {
    let mut v = vec![];
    for h in crate::digest::ALL_H {
        for threads in [0u16, 2, 5] {
            for unknown in [false, true] {
                for errno in [libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOMEM, libc::EMFILE, libc::EAGAIN, libc::ENOTDIR, libc::EINVAL] {
                    for queue in [None, Some(1)] {
                        v.push(Fail { t: rich(), cfg: Cfg { h, threads, queue, progress: threads == 2 }, errno, unknown, reads: vec![] });
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------- entries changing under a scan

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Swap { Remove, File, Dir, FullDir, Link, LinkToDir, Fifo, Sock }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Change {
    t: Tree, cfg: Cfg, victim: u16, swap: Swap, unknown: bool,
    /// before which calls, as fractions; None: each
    at: Option<Vec<u16>>,
}
fn replacement(s: Swap, outside: &Path) -> Option<Node> {
    Some(match s {
        Swap::Remove => return None,
        Swap::File => Node::File(Content::new(40_000, 77), 0o755),
        Swap::Dir => Node::dir(),
        Swap::FullDir => { let mut t = Tree::new(); t.insert(B::s("new"), Node::File(Content::new(9, 8), 0o644)); Node::Dir(t, 0o755) }
        Swap::Link => Node::Link(B(join(std::os::unix::ffi::OsStrExt::as_bytes(outside.as_os_str()), b"of"))),
        Swap::LinkToDir => Node::Link(B(std::os::unix::ffi::OsStrExt::as_bytes(outside.as_os_str()).to_vec())),
        Swap::Fifo => Node::Fifo,
        Swap::Sock => Node::Sock,
    })
}
fn same_type(a: &Node, b: &Node) -> bool { std::mem::discriminant(a) == std::mem::discriminant(b) }

fn check_change(c: &Change, cx: &mut Cx) -> Res {
    let base = cx.fresh();
    let r = inner_change(c, cx, &base);
    cx.cleanup(&base);
    r
}
fn inner_change(c: &Change, cx: &mut Cx, base: &Path) -> Res {
    let mut t = c.t.clone();
    let mut ps = vec![];
    walk(&t, &mut |p, n| if n.map_or(false, |n| !n.special()) { ps.push(p.to_vec()) });
    if ps.is_empty() { return Ok(()); }
    let mut path = split_path(&ps[c.victim as usize % ps.len()]);
    let node = parent(&mut t, &path).remove(path.last().unwrap()).unwrap();
    // a name of its own, so that it can be recognised in listings
    let mut name = path.pop().unwrap().0;
    name.truncate(240);
    name.extend_from_slice(b"~Vic");
    path.push(B(name.clone()));
    parent(&mut t, &path).insert(B(name.clone()), node.clone());
    // a FIFO in place of a file blocks open(2): a part of its own
    if c.swap == Swap::Fifo && matches!(node, Node::File(..)) { return Ok(()); }
    let outside = base.join("outside");
    std::fs::create_dir(&outside).unwrap();
    std::fs::write(outside.join("of"), b"outside file").unwrap();
    let rep = replacement(c.swap, &outside);
    let removed = { let mut x = t.clone(); parent(&mut x, &path).remove(path.last().unwrap()); x };
    let new = match &rep { None => removed.clone(), Some(r) => { let mut x = removed.clone(); parent(&mut x, &path).insert(path.last().unwrap().clone(), r.clone()); x } };
    let s = Script { unknown_types: c.unknown, ..Script::default() };
    let live = base.join("t");
    let aside = base.join("aside");
    std::fs::create_dir(&live).unwrap();
    std::fs::create_dir(&aside).unwrap();
    fsops::make_plain(&live, &t);
    let disk = on_disk(&live, &path);
    let (r, out) = scan_into(&live, &c.cfg, &s, || {});
    r.map_err(|e| format!("scan failed: {}", e))?;
    exact(cx, &out, &t, &c.cfg)?;
    let n = interpose::calls();
    let at: Vec<u64> = match &c.at { None => (0..n).collect(), Some(v) => v.iter().map(|&f| f as u64 * n / 65536).collect() };
    cx.evals(at.len() as u64);
    cx.class(&format!("{} -> {:?}", match node { Node::Dir(..) => "dir", Node::Link(_) => "link", _ => "file" }, c.swap));
    let strict = rep.as_ref().map_or(true, |r| !same_type(r, &node));
    for k in at {
        let (disk2, aside2, has_new) = (disk.clone(), aside.clone(), rep.is_some());
        if let Some(x) = &rep { let mut m = Tree::new(); m.insert(B::s("new"), x.clone()); fsops::make_plain(&aside, &m); }
        let hook = Box::new(move || {
            std::fs::rename(&disk2, aside2.join("old")).unwrap_or_else(|e| crate::runner::infra(&format!("swap: {}", e)));
            if has_new { std::fs::rename(aside2.join("new"), &disk2).unwrap_or_else(|e| crate::runner::infra(&format!("swap: {}", e))); }
        });
        let (r, out) = scan_into(&live, &c.cfg, &s, || { interpose::watch(&name); interpose::hook_at(k, hook); });
        let ran = interpose::hook_ran();
        let listed = interpose::listed_at_hook();
        let reexamined = interpose::stat_after_hook();
        let ctx = || format!("{:?} ({:?}) swapped for {:?} before source call {} ({:?}), listed before: {}, {:?}", B(ps_show(&path)), node_kind(&node), c.swap, k, ran, listed, c.cfg);
        if ran != Call::None { cx.nontrivial(listed); cx.class_if(listed && strict, "vanished or changed type after being listed"); }
        match r {
            Err(Error::WriteError(_)) | Err(Error::NoRootDirectory) | Err(Error::UnsupportedHash) => return Err(format!("{}: wrong kind of error", ctx())),
            Err(_) => if finished(&out, c.cfg.h) { return Err(format!("{}: error, but a finished signature was written", ctx())); },
            Ok(()) => {
                let old = exact(cx, &out, &t, &c.cfg).is_ok();
                let is_new = !old && exact(cx, &out, &new, &c.cfg).is_ok();
                let gone = !old && !is_new && exact(cx, &out, &removed, &c.cfg).is_ok();
                if !old && !is_new && !gone {
                    return Err(format!("{}: the output describes neither the old nor the new tree: {}", ctx(), exact(cx, &out, &t, &c.cfg).unwrap_err()));
                }
                if !old && strict && listed && !(rep.is_some() && is_new && reexamined) {
                    return Err(format!("{}: a listed entry {} and the scan succeeded without it", ctx(), if rep.is_some() { "changed type" } else { "vanished" }));
                }
                if gone && listed { return Err(format!("{}: a listed entry was dropped", ctx())); }
            }
        }
        // restore
        let del = |p: &Path| if p.symlink_metadata().unwrap().is_dir() { fsops::remove_tree(p) } else { std::fs::remove_file(p).unwrap() };
        if ran == Call::None && rep.is_some() { del(&aside.join("new")); }
        if ran != Call::None {
            if rep.is_some() {
                std::fs::rename(&disk, aside.join("trash")).unwrap();
                del(&aside.join("trash"));
            }
            std::fs::rename(aside.join("old"), &disk).unwrap();
        }
    }
    Ok(())
}
fn ps_show(p: &[B]) -> Vec<u8> { let mut v = vec![]; for n in p { v.push(b'/'); v.extend_from_slice(&n.0); } v }
fn node_kind(n: &Node) -> &'static str { match n { Node::Dir(..) => "dir", Node::File(..) => "file", Node::Link(_) => "link", Node::Fifo => "fifo", Node::Sock => "sock" } }

const SWAPS: [Swap; 8] = [Swap::Remove, Swap::File, Swap::Dir, Swap::FullDir, Swap::Link, Swap::LinkToDir, Swap::Fifo, Swap::Sock];
fn st_change(_: Tier) -> BoxedStrategy<Change> {
    let o = TreeOpt { max: 8, top: 5, big: false, ..TREE };
    (gens::tree(o), gens::cfg(), any::<u16>(), prop::sample::select(SWAPS.to_vec()), prop::bool::weighted(0.25), prop::collection::vec(any::<u16>(), 8))
        .prop_map(|(t, mut cfg, victim, swap, unknown, at)| { cfg.progress = false; Change { t, cfg, victim, swap, unknown, at: Some(at) } }).boxed()
}
fn fixed_change() -> Vec<Change> {
    let mut v = vec![];
    let n = count(&rich()) as u16;
    for (h, threads, queue) in [(crate::digest::H::Sha, 0u16, None), (crate::digest::H::B2, 4, None), (crate::digest::H::B2, 2, Some(0))] {
        for swap in SWAPS {
            for victim in 0..n - 1 {
                for unknown in [false, true] {
                    v.push(Change { t: rich(), cfg: Cfg { h, threads, queue, progress: false }, victim, swap, unknown, at: None });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------- files changing size

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resize { t: Tree, cfg: Cfg, victim: u16, from: u32, to: u32, at: Option<Vec<u16>> }
fn check_resize(c: &Resize, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let r = inner_resize(c, cx, &d);
    cx.cleanup(&d);
    r
}
fn inner_resize(c: &Resize, cx: &mut Cx, d: &Path) -> Res {
    let mut t = c.t.clone();
    let mut files = vec![];
    walk(&t, &mut |p, n| if let Some(Node::File(..)) = n { files.push(p.to_vec()) });
    if files.is_empty() { return Ok(()); }
    let vp = files[c.victim as usize % files.len()].clone();
    let path = split_path(&vp);
    let mode = 0o644;
    let (old, new) = (Content::new(c.from, 5), Content::new(c.to, 5));
    parent(&mut t, &path).insert(path.last().unwrap().clone(), Node::File(old.clone(), mode));
    fsops::make_plain(d, &t);
    let disk = on_disk(d, &path);
    let s = Script { reads: vec![3000, 9000], ..Script::default() };
    let (r, _) = scan_into(d, &c.cfg, &s, || {});
    r.map_err(|e| format!("scan failed: {}", e))?;
    let n = interpose::calls();
    let at: Vec<u64> = match &c.at { None => (0..n).collect(), Some(v) => v.iter().map(|&f| f as u64 * n / 65536).collect() };
    let want = refsig::entries(&t, c.cfg.h, refsig::B3::Correct);
    cx.nontrivial(c.from != c.to);
    cx.class(if c.to < c.from { "shrinks" } else if c.to > c.from { "grows" } else { "same size" });
    cx.evals(at.len() as u64);
    let newb = new.bytes();
    for k in at {
        std::fs::write(&disk, old.bytes()).unwrap();
        let (disk2, newb2) = (disk.clone(), newb.clone());
        let hook = Box::new(move || {
            // in place: same inode, prefix kept
            let f = std::fs::OpenOptions::new().write(true).open(&disk2).unwrap_or_else(|e| crate::runner::infra(&format!("resize: {}", e)));
            f.set_len(newb2.len() as u64).unwrap();
            std::os::unix::fs::FileExt::write_all_at(&f, &newb2, 0).unwrap();
        });
        let (r, out) = scan_into(d, &c.cfg, &s, || interpose::hook_at(k, hook));
        let ctx = || format!("{:?} resized {} -> {} before source call {} ({:?}), {:?}", B(vp.clone()), c.from, c.to, k, interpose::hook_ran(), c.cfg);
        match r {
            Err(Error::ReadFile(_)) => if finished(&out, c.cfg.h) { return Err(format!("{}: error, but a finished signature was written", ctx())); },
            Err(e) => return Err(format!("{}: unexpected error {}", ctx(), e)),
            Ok(()) => {
                let doc = read_strict(&out).map_err(|e| format!("{}: {}", ctx(), e))?;
                crate::scanlib::footer_ok(&out, c.cfg.h).map_err(|e| format!("{}: {}", ctx(), e))?;
                if doc.ents.len() != want.len() { return Err(format!("{}: {} entries instead of {}", ctx(), doc.ents.len(), want.len())); }
                for (g, w) in doc.ents.iter().zip(&want) {
                    if g.path().0 == vp {
                        match g {
                            Ent::File { size, exe: false, .. } if *size == c.from as u64 || *size == c.to as u64 => {}
                            _ => return Err(format!("{}: entry {:?}", ctx(), g)),
                        }
                    } else if g != w && c.cfg.h != crate::digest::H::B3 { return Err(format!("{}: another entry changed: {:?} instead of {:?}", ctx(), g, w)); }
                }
            }
        }
    }
    Ok(())
}
fn sizes() -> BoxedStrategy<u32> { prop_oneof![2 => gens::edge_len(), 1 => gens::small_len()].boxed() }
fn st_resize(_: Tier) -> BoxedStrategy<Resize> {
    let o = TreeOpt { max: 6, top: 4, big: false, specials: false, ..TREE };
    (gens::tree(o), gens::cfg(), any::<u16>(), sizes(), sizes(), prop::collection::vec(any::<u16>(), 8))
        .prop_map(|(t, mut cfg, victim, from, to, at)| { cfg.progress = false; Resize { t, cfg, victim, from, to, at: Some(at) } }).boxed()
}
fn fixed_resize() -> Vec<Resize> {
    let mut v = vec![];
    for (h, threads) in [(crate::digest::H::Sha, 0u16), (crate::digest::H::B2, 4), (crate::digest::H::B3, 0)] {
        for (from, to) in [(0u32, 1u32), (1, 0), (32768, 32769), (32769, 32768), (32768, 0), (100_000, 10), (10, 100_000), (65536, 32768), (65537, 65536)] {
            v.push(Resize { t: rich(), cfg: Cfg { h, threads, queue: None, progress: false }, victim: 1, from, to, at: None });
        }
    }
    v
}

// ------------------------------------------------------------- real permissions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Perm { t: Tree, cfg: Cfg, owner: bool }
fn check_perm(c: &Perm, cx: &mut Cx) -> Res {
    const UID: u32 = 65534;
    let mut ok = true;
    // scanned by an unprivileged user who either owns everything or nothing
    let shift = if c.owner { 6 } else { 0 };
    walk(&c.t, &mut |_, n| match n {
        Some(Node::Dir(_, m)) => ok &= (m >> shift) & 5 == 5,
        Some(Node::File(_, m)) => ok &= (m >> shift) & 4 == 4,
        _ => {}
    });
    let d = cx.fresh();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
    fsops::make(&d, &c.t, &How { owner: if c.owner { UID } else { 0 }, ..How::default() });
    let dropped = unsafe {
        let gs = libc::setgroups(0, std::ptr::null()) == 0;
        gs && libc::setegid(UID) == 0 && libc::seteuid(UID) == 0
    };
    if !dropped {
        unsafe { libc::seteuid(0); libc::setegid(0); }
        cx.class("cannot change user here");
        cx.cleanup(&d);
        return Ok(());
    }
    let (r, out) = scan_into(&d, &c.cfg, &Script::default(), || {});
    if unsafe { libc::seteuid(0) != 0 || libc::setegid(0) != 0 } { crate::runner::infra("cannot become root again"); }
    cx.cleanup(&d);
    cx.nontrivial(!ok);
    cx.class(if ok { "all readable" } else { "something unreadable" });
    match (ok, r) {
        (true, Ok(())) => exact(cx, &out, &c.t, &c.cfg),
        (true, Err(e)) => Err(format!("scan failed although everything is readable: {}", e)),
        (false, Ok(())) => Err("a file or directory is unreadable but the scan succeeded".into()),
        (false, Err(Error::ListDir(_))) | (false, Err(Error::ReadFile(_))) | (false, Err(Error::OpenDir(_))) => {
            if finished(&out, c.cfg.h) { Err("error, but a finished signature was written".into()) } else { Ok(()) }
        }
        (false, Err(e)) => Err(format!("wrong kind of error: {}", e)),
    }
}
fn perm_mode() -> BoxedStrategy<u16> { prop_oneof![8 => Just(0o777u16), 2 => 0u16..0o1000].boxed() }
fn remode(t: &mut Tree, m: &mut dyn Iterator<Item = u16>) {
    for x in t.values_mut() {
        match x {
            Node::Dir(k, o) => { *o = m.next().unwrap(); remode(k, m) }
            Node::File(_, o) => *o = m.next().unwrap(),
            _ => {}
        }
    }
}
fn st_perm(_: Tier) -> BoxedStrategy<Perm> {
    let o = TreeOpt { max: 8, top: 5, ..TREE };
    (gens::tree(o), gens::cfg(), any::<bool>(), prop::collection::vec(perm_mode(), 40)).prop_map(|(mut t, mut cfg, owner, m)| {
        cfg.progress = false;
        remode(&mut t, &mut m.into_iter().cycle());
        Perm { t, cfg, owner }
    }).boxed()
}
fn fixed_perm() -> Vec<Perm> {
    let mut v = vec![];
    for mode in 0..0o10u16 {
        for threads in [0u16, 3] {
            for owner in [false, true] {
                let m = if owner { mode << 6 } else { mode };
                for k in 0..3 {
                    let mut t = Tree::new();
                    let mut s = Tree::new();
                    s.insert(B::s("in"), Node::File(Content::new(3, 3), if k == 2 { m } else { 0o777 }));
                    if k != 2 { s.clear(); }
                    t.insert(B::s("x"), if k == 0 { Node::File(Content::new(10, 2), m) } else { Node::Dir(s, if k == 1 { m } else { 0o777 }) });
                    v.push(Perm { t, cfg: Cfg { h: crate::digest::H::Sha, threads, queue: None, progress: false }, owner });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------- a file replaced by a FIFO

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FifoSwap { threads: u16 }
fn check_fifo(c: &FifoSwap, cx: &mut Cx) -> Res {
    let d = cx.fresh();
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::File(Content::new(10, 4), 0o644));
    t.insert(B::s("b~Vic"), Node::File(Content::new(10, 4), 0o644));
    t.insert(B::s("c"), Node::File(Content::new(10, 4), 0o644));
    fsops::make_plain(&d, &t);
    let cfg = Cfg { h: crate::digest::H::Sha, threads: c.threads, queue: None, progress: false };
    let p = d.join("b~Vic");
    let p2 = p.clone();
    cx.nontrivial(true);
    // swap before the first file is opened
    let mut first_open = 0;
    let (_, _) = scan_into(&d, &cfg, &Script::default(), || {});
    for k in 0..interpose::calls() {
        scan_into(&d, &cfg, &Script { fail_at: Some((k, libc::EIO)), ..Script::default() }, || {}).0.ok();
        if interpose::fired() == Call::OpenFile { first_open = k; break; }
    }
    let hook = Box::new(move || {
        std::fs::remove_file(&p2).unwrap();
        let mut m = Tree::new();
        m.insert(B::s("b~Vic"), Node::Fifo);
        fsops::make_plain(p2.parent().unwrap(), &m);
    });
    // a rescuer opens the FIFO for writing once the scan is stuck in it
    let (tx, rx) = mpsc::channel::<()>();
    let p3 = p.clone();
    let rescue = std::thread::spawn(move || {
        if rx.recv_timeout(Duration::from_millis(2500)) != Err(mpsc::RecvTimeoutError::Timeout) { return false; }
        let mut woke = false;
        loop {
            // succeeds only when somebody waits in open for reading
            let cp = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(p3.as_os_str())).unwrap();
            let fd = interpose::outside(|| unsafe { libc::open(cp.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC) });
            if fd >= 0 { woke = true; unsafe { libc::close(fd); } }
            if rx.recv_timeout(Duration::from_millis(50)) != Err(mpsc::RecvTimeoutError::Timeout) { return woke; }
        }
    });
    let mut v = Vec::new();
    interpose::start(&Script::default());
    interpose::hook_at(first_open, hook);
    let r = dir_signature::v1::scan(&cfg.one(&d), &mut v);
    interpose::stop();
    let _ = tx.send(());
    let stuck = rescue.join().unwrap();
    let fin = finished(&v, cfg.h);
    cx.cleanup(&d);
    if stuck { return cx.known("fifo-swap-blocks", "the scan blocks in open of a listed file that became a FIFO"); }
    // with threads the file may have been open already
    if r.is_ok() && exact(cx, &v, &t, &cfg).is_ok() { return Ok(()); }
    if r.is_ok() || fin { return Err("a listed file became a FIFO and the scan succeeded".into()); }
    Ok(())
}
fn st_fifo(_: Tier) -> BoxedStrategy<FifoSwap> { (0u16..6).prop_map(|threads| FifoSwap { threads }).boxed() }
fn fixed_fifo() -> Vec<FifoSwap> { vec![FifoSwap { threads: 0 }, FifoSwap { threads: 3 }] }

pub fn prop() -> Prop {
    Prop {
        id: "C09", level: "fault_enumeration",
        rule: "fault: the scan makes more than 4 source calls, all of which are failed in turn; change: the entry had been listed when it was swapped; resize: the size really changes; permissions: something is unreadable",
        assumptions: &["system calls made through libc (open, openat, readdir, readlinkat, fstatat, fstat, statx, read) are the ones a scan uses", "the injected errno is not EINTR"],
        parts: vec![
            part("fault", [900, 30_000], st_fail, fixed_fail, check_fail),
            part("change", [1500, 60_000], st_change, fixed_change, check_change),
            part("resize", [800, 30_000], st_resize, fixed_resize, check_resize),
            part("permission", [3000, 60_000], st_perm, fixed_perm, check_perm),
            part("fifo", [0, 0], st_fifo, fixed_fifo, check_fifo),
        ],
    }
}
