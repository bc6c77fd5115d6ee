//! The index command writes what the library scans and tells the truth.
use crate::digest::{H, ALL_H};
use crate::gens::{self, TreeOpt, TREE};
use crate::model::{walk, Content, Node, Tree, B};
use crate::refsig;
use crate::runner::{infra, must, part, verif_dir, Cx, Prop, Res, Tier};
use crate::scanlib::{exact, finished, scan_ok, split, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::fs::File;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Ran { code: Option<i32>, out: Vec<u8>, err: Vec<u8> }
#[derive(Clone, Debug)]
enum To { File, Null, Full, ClosedPipe }

fn bin(threads: bool) -> PathBuf {
    let p = verif_dir().join("target-cli/bin").join(if threads { "index-threads" } else { "index-plain" });
    if !p.exists() { infra(&format!("{} is not built", p.display())); }
    p
}
/// Runs the command with stdout as given; `fsize`: no file may grow beyond this; `user`: run unprivileged.
fn run(cx: &mut Cx, threads: bool, args: &[OsString], cwd: &Path, to: To, fsize: Option<u64>, user: bool) -> Ran {
    let (o, e) = (cx.dir.join("stdout"), cx.dir.join("stderr"));
    let exe = if user {
        let p = cx.dir.join(if threads { "index-t" } else { "index-p" });
        if !p.exists() { must(std::fs::copy(bin(threads), &p), "copy"); must(std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)), "chmod"); }
        p
    } else { bin(threads) };
    let out = match to {
        To::File => Stdio::from(must(File::create(&o), "stdout")),
        To::Null => Stdio::null(),
        To::Full => Stdio::from(must(std::fs::OpenOptions::new().write(true).open("/dev/full"), "/dev/full")),
        To::ClosedPipe => {
            let mut fds = [0i32; 2];
            if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { infra("pipe"); }
            unsafe { libc::close(fds[0]); Stdio::from(<File as std::os::fd::FromRawFd>::from_raw_fd(fds[1])) }
        }
    };
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
    // what else is in the environment does not matter: varied with the arguments
    let x = args.iter().filter(|a| !a.to_string_lossy().contains("vp-")).flat_map(|a| a.as_bytes()).fold(args.len() as u32, |a, b| a.wrapping_mul(31).wrapping_add(*b as u32));
    match x % 4 { 0 => { c.env("LC_ALL", "C"); } 1 => { c.env("LC_ALL", "tr_TR.UTF-8").env("TMPDIR", "/nonexistent"); } 2 => { c.env_clear(); } _ => {} }
    c.stdin(Stdio::null()).stdout(out).stderr(Stdio::from(must(File::create(&e), "stderr")));
    if user { c.uid(65534).gid(65534); }
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 { return Err(std::io::Error::last_os_error()); }
            }
            Ok(())
        });
    }
    let st = must(must(c.spawn(), "spawn index").wait(), "wait");
    Ran { code: st.code(), out: std::fs::read(&o).unwrap_or_default(), err: must(std::fs::read(&e), "stderr") }
}
fn fresh(cx: &mut Cx) -> PathBuf { let _ = std::fs::remove_file(cx.dir.join("stdout")); cx.fresh() }
fn show_err(r: &Ran) -> String { format!("exit {:?}, stderr {:?}", r.code, refsig::show(&r.err)) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts { h: Option<H>, threads: Option<u8>, quiet: Option<bool>, file: bool, order: u8, bin: bool, long: bool }
fn opts() -> BoxedStrategy<Opts> {
    (prop::option::weighted(0.7, gens::any_h()), prop::option::weighted(0.6, prop_oneof![3 => 0u8..6, 1 => Just(40)]), prop::option::weighted(0.6, any::<bool>()), any::<bool>(), any::<u8>(), prop::bool::weighted(0.7), any::<bool>())
        .prop_map(|(h, threads, quiet, file, order, bin, long)| Opts { h, threads, quiet, file, order, bin, long }).boxed()
}
impl Opts {
    fn hash(&self) -> H { self.h.unwrap_or(H::Sha) }
    /// The command line for these directories.
    fn args(&self, dirs: &[OsString], file: &Path) -> Vec<OsString> {
        let mut groups: Vec<Vec<OsString>> = vec![];
        if let Some(h) = self.h { groups.push(if self.long { vec![format!("--hash={}", h.name()).into()] } else { vec!["--hash".into(), h.name().into()] }); }
        if let Some(t) = self.threads { groups.push(if self.long { vec![format!("--threads={}", t).into()] } else { vec!["-t".into(), t.to_string().into()] }); }
        if let Some(q) = self.quiet { groups.push(vec![if q { if self.long { "--no-progress" } else { "-q" } } else { "--progress" }.into()]); }
        if self.file {
            let mut v = vec![OsString::from(if self.long { "--write-index" } else { "-o" })];
            v.push(file.as_os_str().into());
            groups.push(v);
        }
        for d in dirs { groups.push(vec![d.clone()]); }
        // options and directories in any order, the directories among themselves as they are
        let n = groups.len();
        let nd = dirs.len();
        let k = self.order as usize % (n - nd + 1);
        let ds: Vec<_> = groups.drain(n - nd..).collect();
        let rot = if groups.is_empty() { 0 } else { self.order as usize / 7 % groups.len() };
        groups.rotate_left(rot);
        let tail = groups.split_off(k.min(groups.len()));
        groups.into_iter().chain(ds).chain(tail).flatten().collect()
    }
    /// The library configurations whose output this command may print: all equal but for blake3 (see C06).
    fn lib(&self) -> Vec<Cfg> {
        let c = |threads| Cfg { h: self.hash(), threads, queue: None, progress: false };
        if self.hash() == H::B3 && self.bin { vec![c(0), c(3)] } else { vec![c(0)] }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, o: Opts, spell: u8, name: B, old: u16, #[serde(default)] out: Option<B>, #[serde(default)] rel: bool }

fn spelled(d: &Path, spell: u8, name: &B) -> (OsString, PathBuf) {
    // argument, working directory
    let n = name.0.clone();
    let dot = [b"./".to_vec(), n.clone()].concat();
    let abs = d.join(name.path());
    match spell % 7 {
        6 if !n.starts_with(b"-") => (OsString::from_vec(n), d.to_path_buf()),
        0 => (abs.into_os_string(), PathBuf::from("/")),
        1 => (OsString::from_vec(dot), d.to_path_buf()),
        2 => (OsString::from("."), abs),
        3 => (OsString::from_vec([dot, b"/".to_vec()].concat()), d.to_path_buf()),
        4 => (OsString::from_vec([abs.as_os_str().as_bytes(), b"//."].concat()), PathBuf::from("/")),
        _ => { let l = d.join("link"); must(std::os::unix::fs::symlink(name.os(), &l), "link"); (OsString::from("link"), d.to_path_buf()) }
    }
}
fn check(c: &Case, cx: &mut Cx) -> Res {
    let d = fresh(cx);
    let root = d.join(c.name.path());
    must(std::fs::create_dir(&root), "root");
    crate::fsops::make_plain(&root, &c.t);
    let (arg, cwd) = spelled(&d, c.spell, &c.name);
    let out = c.out.as_ref().map_or(PathBuf::from("out.idx"), |o| o.path().to_path_buf());
    let file = d.join(&out);
    // given as a plain name where that names the same file
    let given = if c.rel && cwd == d { out } else { file.clone() };
    if c.old > 0 { must(std::fs::write(&file, vec![b'x'; c.old as usize]), "old"); }
    let want: Result<Vec<_>, _> = c.o.lib().iter().map(|l| scan_ok(&root, l)).collect();
    let want = want?;
    let args = c.o.args(&[arg.clone()], &given);
    let r = run(cx, c.o.bin, &args, &cwd, To::File, None, false);
    let got = if c.o.file { std::fs::read(&file).unwrap_or_default() } else { r.out.clone() };
    cx.cleanup(&d);
    cx.nontrivial(!c.t.is_empty());
    cx.class(if c.o.bin { "threads compiled in" } else { "no thread support" });
    cx.class(if c.o.file { "output file" } else { "standard output" });
    cx.class_if(c.o.file && c.old > 0, "output file existed");
    let what = || format!("index {:?}: ", args);
    if arg.to_str().is_none() {
        // a name that is no text: refusing it is fine, a wrong signature is not
        if r.code != Some(0) && !r.err.is_empty() && !finished(&got, c.o.hash()) { cx.class("directory argument is not UTF-8"); return Ok(()); }
    }
    if r.code != Some(0) { return Err(format!("{}{}", what(), show_err(&r))); }
    for (l, w) in c.o.lib().iter().zip(&want) { exact(cx, w, &c.t, l)?; }
    if !want.contains(&got) { return Err(format!("{}the output is not the signature the library computes: {}", what(), refsig::diff(&want[0], &got))); }
    if c.o.file && !r.out.is_empty() { return Err(format!("{}writes to a file, but also prints {:?}", what(), refsig::show(&r.out))); }
    let mut special = false;
    walk(&c.t, &mut |_, n| if n.map_or(false, |n| n.special()) { special = true });
    if c.o.quiet == Some(true) && !special && !r.err.is_empty() { return Err(format!("{}prints something else than errors: {:?}", what(), refsig::show(&r.err))); }
    Ok(())
}
fn arg_name() -> BoxedStrategy<B> {
    // a colon would be a prefix
    prop_oneof![4 => gens::plain_name(), 1 => gens::name()].prop_map(|n| B(n.0.into_iter().map(|c| if c == b':' { b';' } else { c }).collect()))
        .prop_filter("in use", |n| ![b"out.idx".to_vec(), b"link".to_vec()].contains(&n.0)).boxed()
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: 14, top: 6, ..TREE };
    let out = arg_name().prop_filter("text", |n| std::str::from_utf8(&n.0).is_ok() && !n.0.starts_with(b"-"));
    let out = prop::option::of(prop_oneof![6 => out, 1 => Just(B::s("-"))]);
    (gens::tree(o), opts(), any::<u8>(), arg_name(), prop_oneof![2 => Just(0u16), 1 => 1u16..10_000], out, any::<bool>())
        .prop_map(|(t, o, spell, name, old, out, rel)| { let out = out.filter(|n| *n != name); Case { t, o, spell, name, old, out, rel } }).boxed()
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let mut t = Tree::new();
    for n in [0u32, 1, 32768, 70_000] { t.insert(B::s(&format!("f{}", n)), Node::File(Content::new(n, 4), 0o755)); }
    t.insert(B::s("d"), Node::dir());
    t.insert(B::s("l"), Node::Link(B::s("f0")));
    for h in [None, Some(H::Sha), Some(H::B2), Some(H::B3)] {
        for threads in [None, Some(0), Some(1), Some(3)] {
            for quiet in [None, Some(true), Some(false)] {
                for (file, bin) in [(false, true), (true, true), (false, false), (true, false)] {
                    v.push(Case { t: t.clone(), o: Opts { h, threads, quiet, file, order: threads.unwrap_or(9), bin, long: file }, spell: 0, name: B::s("r"), old: if threads.is_none() { 5000 } else { 0 }, out: None, rel: false });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ outputs that fail

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Out { FullStdout, FullFile, ClosedPipe, NoDir, IsDir, Limit(u16), ReadOnly, FileIsUnder }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutCase { t: Tree, o: Opts, out: Out }
fn check_out(c: &OutCase, cx: &mut Cx) -> Res {
    let d = fresh(cx);
    let root = d.join("r");
    must(std::fs::create_dir(&root), "root");
    crate::fsops::make_plain(&root, &c.t);
    let want: Result<Vec<_>, _> = c.o.lib().iter().map(|l| scan_ok(&root, l)).collect();
    let want = want?;
    let mut o = c.o.clone();
    let (mut to, mut file, mut limit, mut user) = (To::File, d.join("out.idx"), None, false);
    match &c.out {
        Out::FullStdout => { to = To::Full; o.file = false }
        Out::ClosedPipe => { to = To::ClosedPipe; o.file = false }
        Out::FullFile => { file = PathBuf::from("/dev/full"); o.file = true }
        Out::NoDir => { file = d.join("none/out.idx"); o.file = true }
        Out::IsDir => { file = d.clone(); o.file = true }
        Out::FileIsUnder => { must(std::fs::write(d.join("plain"), "x"), "file"); file = d.join("plain/out.idx"); o.file = true }
        // a disk that takes this many bytes of the signature
        Out::Limit(n) => limit = Some(*n as u64 * (want[0].len() as u64 + 2) / 65536),
        Out::ReadOnly => {
            // an existing index the user may not write
            must(std::fs::write(&file, "old"), "old");
            must(std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o444)), "chmod");
            let mut all = true;
            walk(&c.t, &mut |_, n| match n { Some(Node::File(_, m)) | Some(Node::Dir(_, m)) if m & 0o5 != 0o5 => all = false, _ => {} });
            let _ = all;
            user = true;
            o.file = true;
        }
    }
    let args = o.args(&[root.clone().into_os_string()], &file);
    let r = run(cx, o.bin, &args, Path::new("/"), to, limit, user);
    let stored = if o.file { if file.is_file() { std::fs::read(&file).unwrap_or_default() } else { vec![] } } else { r.out.clone() };
    cx.cleanup(&d);
    let what = format!("index {:?} with {:?}", args, c.out);
    cx.nontrivial(true);
    let name = format!("{:?}", c.out);
    cx.class(name.split('(').next().unwrap());
    if let Some(n) = limit {
        if n >= want.iter().map(|w| w.len() as u64).max().unwrap() {
            // progress and warnings go to a file as well, but their failure is not one of the signature
            if r.code == Some(0) && !want.contains(&stored) { return Err(format!("{}: exit 0, but stored {:?}", what, refsig::show(&stored))); }
            return Ok(());
        }
        if r.code == Some(0) { return Err(format!("{}: exit 0 although only {} of {} bytes could be written", what, stored.len(), want[0].len())); }
        // whole lines may be written at a time: the stored part is a prefix
        if !want.iter().any(|w| w.starts_with(&stored)) { return Err(format!("{}: what was stored is not a prefix of the signature: {}", what, refsig::diff(&want[0], &stored))); }
        if n > 200 && r.err.is_empty() { return Err(format!("{}: no message ({})", what, show_err(&r))); }
        return Ok(());
    }
    if r.code == Some(0) { return Err(format!("{}: exit 0", what)); }
    if r.err.is_empty() { return Err(format!("{}: exit {:?} without a message", what, r.code)); }
    if c.out_is_readonly() && stored != b"old" { return Err(format!("{}: the index was replaced by {:?}", what, refsig::show(&stored))); }
    Ok(())
}
impl OutCase { fn out_is_readonly(&self) -> bool { matches!(self.out, Out::ReadOnly) } }
fn st_out(_: Tier) -> BoxedStrategy<OutCase> {
    let out = prop_oneof![2 => Just(Out::FullStdout), 2 => Just(Out::FullFile), 1 => Just(Out::ClosedPipe), 1 => Just(Out::NoDir), 1 => Just(Out::IsDir), 1 => Just(Out::FileIsUnder), 1 => Just(Out::ReadOnly), 8 => any::<u16>().prop_map(Out::Limit)];
    let o = TreeOpt { big: true, max: 14, top: 6, ..TREE };
    (gens::tree(o), opts(), out).prop_map(|(t, o, out)| OutCase { t, o, out }).boxed()
}
fn fixed_out() -> Vec<OutCase> {
    let mut v = vec![];
    for h in ALL_H {
        for bin in [true, false] {
            for threads in [0u8, 2] {
                for quiet in [true, false] {
                    for out in [Out::FullStdout, Out::FullFile, Out::ClosedPipe, Out::NoDir, Out::IsDir, Out::ReadOnly, Out::Limit(65000), Out::Limit(65535), Out::Limit(30000), Out::Limit(0)] {
                        for many in [0, 300] {
                            let mut t = Tree::new();
                            for i in 0..many { t.insert(B::s(&format!("file{:04}", i)), Node::File(Content::new(i % 9, 3), 0o644)); }
                            v.push(OutCase { t, o: Opts { h: Some(h), threads: Some(threads), quiet: Some(quiet), file: threads == 2, order: 0, bin, long: false }, out: out.clone() });
                        }
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ sources and options that are bad

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad { Missing, File, Dangling, Loop, Empty, NoDirs, Hash(String), Threads(String), Unknown(String), NoValue(String), UnreadableFile(u16), UnreadableDir(u16), SecondMissing, RelPrefix }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase { t: Tree, o: Opts, bad: Bad }
fn unpick(t: &Tree, i: u16, dir: bool) -> Option<Vec<u8>> {
    let mut v = vec![];
    walk(t, &mut |p, n| match n { Some(Node::File(..)) if !dir => v.push(p.to_vec()), Some(Node::Dir(..)) if dir => v.push(p.to_vec()), _ => {} });
    if v.is_empty() { None } else { Some(v.swap_remove(i as usize % v.len())) }
}
/// Everything readable by everybody, except the chosen entry.
fn open_up(p: &Path, t: &Tree) {
    for (n, x) in t {
        let q = p.join(n.path());
        match x {
            Node::Dir(k, _) => { must(std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o755)), "chmod"); open_up(&q, k) }
            Node::File(..) => must(std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o644)), "chmod"),
            _ => {}
        }
    }
}
fn check_bad(c: &BadCase, cx: &mut Cx) -> Res {
    let d = fresh(cx);
    let root = d.join("r");
    must(std::fs::create_dir(&root), "root");
    crate::fsops::make_plain(&root, &c.t);
    let file = d.join("out.idx");
    let mut o = c.o.clone();
    let mut user = false;
    let mut dirs: Vec<OsString> = vec![root.clone().into_os_string()];
    let mut extra: Vec<OsString> = vec![];
    let mut usage = false;
    match &c.bad {
        Bad::Missing => dirs = vec![d.join("gone").into_os_string()],
        Bad::SecondMissing => dirs.push(d.join("gone").into_os_string()),
        Bad::File => { must(std::fs::write(d.join("plain"), "x"), "file"); dirs = vec![d.join("plain").into_os_string()] }
        Bad::Dangling => { must(std::os::unix::fs::symlink("nowhere", d.join("l")), "link"); dirs = vec![d.join("l").into_os_string()] }
        Bad::Loop => { must(std::os::unix::fs::symlink("l", d.join("l")), "link"); dirs = vec![d.join("l").into_os_string()] }
        Bad::Empty => dirs = vec!["".into()],
        Bad::NoDirs => dirs = vec![],
        Bad::Hash(s) => { o.h = None; extra = vec![format!("--hash={}", s).into()]; usage = true }
        Bad::Threads(s) => { o.threads = None; extra = vec![format!("--threads={}", s).into()]; usage = true }
        Bad::Unknown(s) => { extra = vec![s.into()]; usage = true }
        Bad::NoValue(s) => { extra = vec![s.into()]; usage = true }
        Bad::RelPrefix => { dirs.push("a/b:c".into()) }
        Bad::UnreadableFile(i) | Bad::UnreadableDir(i) => {
            let p = match unpick(&c.t, *i, matches!(c.bad, Bad::UnreadableDir(_))) { Some(p) => p, None => { cx.cleanup(&d); return Ok(()) } };
            open_up(&root, &c.t);
            let q = root.join(B(p[1..].to_vec()).path());
            must(std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0)), "chmod");
            user = true;
            must(std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777)), "chmod");
        }
    }
    let mut args = o.args(&dirs, &file);
    args.extend(extra);
    let r = run(cx, o.bin, &args, &d, To::File, None, user);
    let stored = if o.file { std::fs::read(&file).unwrap_or_default() } else { r.out.clone() };
    cx.cleanup(&d);
    cx.nontrivial(true);
    let name = format!("{:?}", c.bad);
    cx.class(name.split('(').next().unwrap());
    let what = format!("index {:?} ({:?})", args, c.bad);
    if r.code == Some(0) { return Err(format!("{}: exit 0, {:?}", what, refsig::show(&stored))); }
    if r.err.is_empty() { return Err(format!("{}: exit {:?} without a message", what, r.code)); }
    if finished(&stored, o.hash()) { return Err(format!("{}: exit {:?}, but a complete signature was written", what, r.code)); }
    if usage && (!r.out.is_empty() || !stored.is_empty()) { return Err(format!("{}: something was written: {:?}", what, refsig::show(if r.out.is_empty() { &stored } else { &r.out }))); }
    Ok(())
}
fn st_bad(_: Tier) -> BoxedStrategy<BadCase> {
    let s = |v: Vec<&'static str>| prop::sample::select(v).prop_map(String::from);
    let bad = prop_oneof![
        1 => Just(Bad::Missing), 1 => Just(Bad::SecondMissing), 1 => Just(Bad::File), 1 => Just(Bad::Dangling), 1 => Just(Bad::Loop), 1 => Just(Bad::Empty), 1 => Just(Bad::NoDirs), 1 => Just(Bad::RelPrefix),
        2 => s(vec!["sha256", "SHA512/256", "sha512", "blake2b", "blake2b/512", "blake3", "", " ", "sha512/256 ", "md5", "blake3/25"]).prop_map(Bad::Hash),
        2 => s(vec!["-1", "x", "", "1.5", "1x", "99999999999999999999999", "0x4"]).prop_map(Bad::Threads),
        1 => s(vec!["--nope", "-z", "--hashes", "--quiet", "--output=x", "-j2"]).prop_map(Bad::Unknown),
        1 => s(vec!["-o", "--write-index", "--hash", "-t", "--threads"]).prop_map(Bad::NoValue),
        3 => any::<u16>().prop_map(Bad::UnreadableFile), 3 => any::<u16>().prop_map(Bad::UnreadableDir),
    ];
    (gens::tree(TreeOpt { max: 12, top: 6, ..TREE }), opts(), bad).prop_map(|(t, o, bad)| BadCase { t, o, bad }).boxed()
}

/// Several directories, with and without prefix.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { t: Tree, sub: Tree, prefix: Option<Vec<B>>, first: bool, o: Opts }
fn check_many(c: &Many, cx: &mut Cx) -> Res {
    let mut full = c.t.clone();
    let mut pre = vec![];
    {
        let mut at = &mut full;
        for n in c.prefix.iter().flatten() {
            pre.push(b'/');
            pre.extend_from_slice(&n.0);
            match at.entry(n.clone()).or_insert_with(Node::dir) { Node::Dir(k, _) => at = k, _ => return Ok(()) }
        }
        for (n, x) in &c.sub { if at.contains_key(n) { return Ok(()); } at.insert(n.clone(), x.clone()); }
    }
    let d = fresh(cx);
    for (n, t) in [("r", &c.t), ("s", &c.sub)] {
        must(std::fs::create_dir(d.join(n)), "root");
        crate::fsops::make_plain(&d.join(n), t);
    }
    let s = d.join("s").into_os_string();
    let s = if c.prefix.is_some() { OsString::from_vec([&pre[..], b":", s.as_bytes()].concat()) } else { s };
    let mut dirs = vec![d.join("r").into_os_string(), s];
    if c.first { dirs.reverse(); }
    let file = d.join("out.idx");
    let args = c.o.args(&dirs, &file);
    let r = run(cx, c.o.bin, &args, &d, To::File, None, false);
    let got = if c.o.file { std::fs::read(&file).unwrap_or_default() } else { r.out.clone() };
    cx.cleanup(&d);
    cx.nontrivial(!c.t.is_empty() && !c.sub.is_empty());
    cx.class(if c.prefix.is_some() { "prefix" } else { "two roots" });
    let what = format!("index {:?}", args);
    let good = r.code == Some(0) && c.o.lib().iter().any(|l| exact(cx, &got, &full, l).is_ok());
    if good { return Ok(()); }
    let m = format!("{}: {}, output {:?}", what, show_err(&r), refsig::show(&got));
    // the whole argument is taken for a directory, which does not exist
    if c.prefix.is_some() && r.code == Some(1) && !r.err.is_empty() && split(&got).map_or(true, |_| !finished(&got, c.o.hash())) { return cx.known("prefix-not-split", &m); }
    Err(m)
}
fn st_many(_: Tier) -> BoxedStrategy<Many> {
    let o = TreeOpt { max: 8, top: 4, ..TREE };
    (gens::tree(o), gens::tree(o), prop::option::weighted(0.4, prop::collection::vec(gens::plain_name(), 1..3)), any::<bool>(), opts())
        .prop_map(|(t, sub, mut prefix, first, o)| {
            for n in prefix.iter_mut().flatten() { for c in n.0.iter_mut() { if *c == b':' { *c = b';' } } }
            Many { t, sub, prefix, first, o }
        }).boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C23", level: "exploration",
        rule: "the tree is not empty (scan); every generated failing output (out) and bad source or option (bad); both roots have content (many)",
        assumptions: &["blake3/256 output may be the library's single- or multi-threaded one (see C06)", "a directory argument that is not UTF-8 may be refused", "disk full is simulated with RLIMIT_FSIZE and /dev/full"],
        parts: vec![part("scan", [6000, 60_000], st, fixed, check), part("out", [3000, 40_000], st_out, fixed_out, check_out),
            part("bad", [3000, 30_000], st_bad, || vec![], check_bad), part("many", [1500, 20_000], st_many, || vec![], check_many)],
    }
}
/// Runs the command from / with standard output and error collected: exit code, output, errors.
pub fn run_plain(cx: &mut Cx, threads: bool, args: &[OsString]) -> (Option<i32>, Vec<u8>, Vec<u8>) {
    let _ = std::fs::remove_file(cx.dir.join("stdout"));
    let r = run(cx, threads, args, Path::new("/"), To::File, None, false);
    (r.code, r.out, r.err)
}
