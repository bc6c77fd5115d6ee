//! A scan is read-only and never leaves the directory.
use super::c09::{parent, split_path};
use crate::fsops;
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::{self, Call, Script};
use crate::model::{walk, Content, Node, Tree, B};
use crate::runner::{part, Cx, Prop, Res, Tier};
use crate::scanlib::{exact, scan_into, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// link targets may contain @OUT (the outside directory) and @ROOT
    t: Tree, cfg: Cfg, unknown: bool, how: u8,
    /// victim, kind of link, before which calls
    swap: Option<(u16, u8, Vec<u16>)>,
    /// fail these calls
    fail: Vec<u16>,
}

fn subst(t: &mut Tree, out: &Path, root: &Path) {
    for x in t.values_mut() {
        match x {
            Node::Dir(k, _) => subst(k, out, root),
            Node::Link(l) => {
                for (k, p) in [(&b"@OUT"[..], out), (&b"@ROOT"[..], root)] {
                    if l.0.starts_with(k) { l.0 = [p.as_os_str().as_bytes(), &l.0[k.len()..]].concat(); }
                }
            }
            _ => {}
        }
    }
}

struct Inotify(i32);
impl Inotify {
    fn new(paths: &[&Path]) -> Inotify {
        unsafe {
            let fd = libc::inotify_init1(libc::IN_NONBLOCK | libc::IN_CLOEXEC);
            if fd < 0 { crate::runner::infra("inotify"); }
            for p in paths {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                let m = libc::IN_OPEN | libc::IN_ACCESS | libc::IN_MODIFY | libc::IN_ATTRIB | libc::IN_CREATE | libc::IN_DELETE | libc::IN_MOVE;
                if libc::inotify_add_watch(fd, c.as_ptr(), m) < 0 { crate::runner::infra("inotify watch"); }
            }
            Inotify(fd)
        }
    }
    /// number of bytes of events since the last call
    fn events(&self) -> isize {
        let mut b = [0u8; 4096];
        let mut n = 0;
        loop {
            let r = unsafe { libc::syscall(libc::SYS_read, self.0, b.as_mut_ptr(), b.len()) as isize };
            if r <= 0 { return n; }
            n += r;
        }
    }
}
impl Drop for Inotify { fn drop(&mut self) { unsafe { libc::close(self.0); } } }

fn check(c: &Case, cx: &mut Cx) -> Res {
    let base = cx.fresh();
    let r = inner(c, cx, &base);
    cx.cleanup(&base);
    r
}

fn inner(c: &Case, cx: &mut Cx, base: &Path) -> Res {
    let (live, out, aside) = (base.join("live"), base.join("out"), base.join("aside"));
    for p in [&live, &out, &aside, &out.join("d")] { std::fs::create_dir(p).unwrap(); }
    for p in [out.join("f"), out.join("d/g")] { std::fs::write(p, b"secret").unwrap(); }
    std::os::unix::fs::symlink("../live", out.join("back")).unwrap();
    let mut t = c.t.clone();
    subst(&mut t, &out, &live);
    fsops::make_plain(&live, &t);
    let links = { let mut n = 0; walk(&t, &mut |_, x| if let Some(Node::Link(_)) = x { n += 1 }); n };
    let before = fsops::snapshot(base);
    let ino = Inotify::new(&[&out, &out.join("d"), &out.join("f"), &out.join("d/g")]);
    ino.events();
    let fds0 = open_fds();
    let s = Script { unknown_types: c.unknown, record: true, ..Script::default() };
    // the scanned directory may itself be given in different ways
    let link = base.join("rootlink");
    let given = match c.how % 3 {
        0 => live.clone(),
        1 => { std::os::unix::fs::symlink("live", &link).unwrap(); link.clone() }
        _ => base.join("live/../live/."),
    };
    ino.events();
    let verdict = |what: &dyn Fn() -> String, inside: &[&Path]| -> Res {
        for (call, p) in interpose::opened_paths() {
            // the thread pool asks for the number of processors
            if p.starts_with("/proc") || p.starts_with("/sys/fs/cgroup") || p.starts_with("/sys/devices/system/cpu") { continue; }
            if !inside.iter().any(|d| p.starts_with(d)) { return Err(format!("{}: {:?} opened {:?}, outside the scanned directory", what(), call, p)); }
        }
        let left = fsops::fds_under(base);
        let n = open_fds();
        if !left.is_empty() { return Err(format!("{}: descriptors left open: {:?}", what(), left)); }
        if n > fds0 { return Err(format!("{}: {} descriptors open afterwards, {} before", what(), n, fds0)); }
        Ok(())
    };
    let (r, o) = scan_into(&given, &c.cfg, &s, || {});
    let n = interpose::calls();
    let touched = ino.events();
    r.map_err(|e| format!("scan failed: {}", e))?;
    exact(cx, &o, &t, &c.cfg)?;
    verdict(&|| format!("scan of {:?}", given), &[&live])?;
    // going through live/.. opens the base directory's entries by path only, which raises no events
    if touched != 0 { return Err("the scan opened or changed something outside the scanned directory (inotify)".into()); }
    if c.how % 3 == 1 { std::fs::remove_file(&link).unwrap(); }
    if c.swap.is_none() {
        let after = fsops::snapshot(base);
        if before != after {
            let d = before.iter().find(|(k, v)| after.get(k) != Some(v)).map(|(k, _)| k.clone()).or(after.keys().find(|k| !before.contains_key(k)).cloned());
            return Err(format!("the scan changed the file system: {:?}", d));
        }
    }
    cx.nontrivial(links > 0);
    cx.class_if(links > 0, "tree with symlinks");
    cx.class_if(c.cfg.threaded(), "threaded");
    for f in &c.fail {
        let k = *f as u64 * n / 65536;
        let (_, _) = scan_into(&live, &c.cfg, &Script { fail_at: Some((k, libc::EIO)), ..s.clone() }, || {});
        let fired = interpose::fired();
        verdict(&|| format!("scan failing in call {} ({:?}), {:?}", k, fired, c.cfg), &[&live])?;
        cx.class_if(fired != Call::None, "failed scan leaves nothing open");
        cx.evals(1);
    }
    if let Some((v, kind, at)) = &c.swap {
        let mut ps = vec![];
        walk(&t, &mut |p, n| if matches!(n, Some(Node::Dir(..)) | Some(Node::File(..))) { ps.push(p.to_vec()) });
        if ps.is_empty() { return Ok(()); }
        let path = split_path(&ps[*v as usize % ps.len()]);
        let is_dir = matches!(parent(&mut t, &path)[path.last().unwrap()], Node::Dir(..));
        let mut disk = live.clone();
        for n in &path { disk.push(n.os()); }
        let target = match (kind % 3, is_dir) { (0, true) => out.join("d"), (0, false) => out.join("f"), (1, _) => out.clone(), _ => Path::new("..").to_path_buf() };
        for f in at {
            let k = *f as u64 * n / 65536;
            let (d2, a2, t2) = (disk.clone(), aside.join("old"), target.clone());
            ino.events();
            let hook = Box::new(move || {
                let r = std::fs::rename(&d2, &a2).and_then(|_| std::os::unix::fs::symlink(&t2, &d2));
                if let Err(e) = r { crate::runner::infra(&format!("swap: {}", e)); }
            });
            let (_, _) = scan_into(&live, &c.cfg, &s, || interpose::hook_at(k, hook));
            let ran = interpose::hook_ran();
            let touched = ino.events();
            verdict(&|| format!("{:?} replaced by a symlink to {:?} before call {} ({:?}), {:?}", disk, target, k, ran, c.cfg), &[&live, &aside])?;
            if touched != 0 && *kind % 3 != 2 { return Err(format!("{:?} replaced by a symlink before call {} ({:?}): something outside was opened (inotify)", disk, k, ran)); }
            if ran != Call::None {
                std::fs::remove_file(&disk).unwrap();
                std::fs::rename(aside.join("old"), &disk).unwrap();
                cx.class(if is_dir { "directory swapped for a symlink" } else { "file swapped for a symlink" });
                cx.nontrivial(true);
            }
            cx.evals(1);
        }
    }
    Ok(())
}
fn open_fds() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }

fn relink(t: &mut Tree, it: &mut dyn Iterator<Item = B>) {
    for x in t.values_mut() {
        match x { Node::Dir(k, _) => relink(k, it), Node::Link(l) => *l = it.next().unwrap(), _ => {} }
    }
}
fn targets() -> BoxedStrategy<B> {
    prop::sample::select(vec!["@OUT", "@OUT/d", "@OUT/f", "@OUT/d/g", "@OUT/back", "@ROOT", "@ROOT/a", "../../out", "../../../out/d", "../out/f", "../out", "..", ".", "/", "../..", "a", "b", "./a/../a", "x/y", "/dev/null", "nowhere", "../live"])
        .prop_map(B::s).boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { max: 12, top: 6, many: gens::MANY, ..TREE };
    (gens::tree(o), prop::collection::vec(targets(), 20), gens::cfg(), prop::bool::weighted(0.3), any::<u8>(),
        prop::option::weighted(0.6, (any::<u16>(), any::<u8>(), prop::collection::vec(any::<u16>(), 4))), prop::collection::vec(any::<u16>(), 0..3))
        .prop_map(|(mut t, tg, mut cfg, unknown, how, swap, fail)| {
            cfg.progress = false;
            relink(&mut t, &mut tg.into_iter().cycle());
            // links at the top, where they are most likely to be followed
            for (i, s) in ["@OUT", "@OUT/f", ".."].iter().enumerate() {
                if (how as usize >> (i + 2)) & 1 == 1 { t.insert(B::s(["a", "zz", "m"][i]), Node::Link(B::s(s))); }
            }
            Case { t, cfg, unknown, how, swap, fail }
        }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let mut s = Tree::new();
    s.insert(B::s("up"), Node::Link(B::s("..")));
    s.insert(B::s("self"), Node::Link(B::s("self")));
    s.insert(B::s("in"), Node::File(Content::new(5, 5), 0o644));
    s.insert(B::s("dd"), Node::dir());
    let mut t = Tree::new();
    t.insert(B::s("a"), Node::Link(B::s("@OUT")));
    t.insert(B::s("b"), Node::Link(B::s("@OUT/f")));
    t.insert(B::s("d"), Node::Dir(s, 0o755));
    t.insert(B::s("loop1"), Node::Link(B::s("loop2")));
    t.insert(B::s("loop2"), Node::Link(B::s("loop1")));
    t.insert(B::s("root"), Node::Link(B::s("@ROOT")));
    t.insert(B::s("z"), Node::File(Content::new(70_000, 5), 0o755));
    let every: Vec<u16> = (0..80u32).map(|i| (i * 65536 / 80) as u16).collect();
    for (threads, queue) in [(0u16, None), (3, None), (3, Some(0))] {
        for unknown in [false, true] {
            for how in 0..3u8 {
                for victim in 0..4u16 {
                    for kind in 0..3u8 {
                        v.push(Case { t: t.clone(), cfg: Cfg { h: crate::digest::H::B2, threads, queue, progress: false }, unknown, how,
                            swap: Some((victim, kind, every.clone())), fail: if kind == 0 { every.clone() } else { vec![] } });
                    }
                }
            }
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C10", level: "exploration",
        rule: "the tree has symlinks, or a directory or file was replaced by a symlink while the scan ran",
        assumptions: &["opens go through libc (inotify watches on the outside directory cover other ways)", "the hashing threads of a scan are given time to stop before descriptors are counted"],
        parts: vec![part("contain", [5000, 150_000], st, fixed, check)],
    }
}
