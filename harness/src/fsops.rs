//! Builds, snapshots and removes trees through directory descriptors (paths longer than PATH_MAX work).
use crate::model::{Node, Tree, B};
use crate::runner::{infra, must};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

fn c(b: &[u8]) -> CString { must(CString::new(b.to_vec()), "name with NUL") }
fn chk(r: i32, what: &str, name: &[u8]) -> i32 {
    if r < 0 { infra(&format!("{} {:?}: {}", what, B(name.to_vec()), std::io::Error::last_os_error())) }
    r
}
const DF: i32 = libc::O_RDONLY | libc::O_DIRECTORY | libc::O_NOFOLLOW | libc::O_CLOEXEC;

/// How a tree is put on disk.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct How {
    /// creation order: 0 sorted, 1 reversed, other: shuffled by this seed
    pub order: u32,
    /// set odd timestamps
    pub times: bool,
    /// xor applied to mode bits other than the owner x bit of files (0o7677 at most)
    pub mode_xor: u16,
    /// owner uid/gid given to everything
    pub owner: u32,
    /// another group
    #[serde(default)]
    pub group: Option<u32>,
    /// hard-link files of equal content and mode to each other
    pub hardlinks: bool,
    /// write file content in two steps and leave a hole where the content is zero
    pub sparse: bool,
}

fn shuffle<T>(v: &mut Vec<T>, seed: u32) {
    match seed {
        0 => {}
        1 => v.reverse(),
        s => {
            let mut x = (s as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for i in (1..v.len()).rev() {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                v.swap(i, (x % (i as u64 + 1)) as usize);
            }
        }
    }
}

struct Maker<'a> { how: &'a How, links: BTreeMap<(Vec<u8>, u16), (i32, CString)>, keep: Vec<i32> }

impl<'a> Maker<'a> {
    unsafe fn tree(&mut self, fd: i32, t: &Tree) {
        let mut v: Vec<(&B, &Node)> = t.iter().collect();
        shuffle(&mut v, self.how.order);
        for (n, x) in v {
            self.node(fd, n, x);
        }
    }
    unsafe fn node(&mut self, fd: i32, n: &B, x: &Node) {
        let cn = c(&n.0);
        match x {
            Node::Dir(t, m) => {
                chk(libc::mkdirat(fd, cn.as_ptr(), 0o700), "mkdir", &n.0);
                let d = chk(libc::openat(fd, cn.as_ptr(), DF), "open dir", &n.0);
                self.tree(d, t);
                self.attrs(d, *m ^ self.how.mode_xor, &n.0);
                libc::close(d);
            }
            Node::File(ct, m) => {
                let data = ct.bytes();
                let mode = *m ^ (self.how.mode_xor & !0o100);
                if self.how.hardlinks {
                    let k = (data.clone(), mode);
                    if let Some((d, o)) = self.links.get(&k) {
                        chk(libc::linkat(*d, o.as_ptr(), fd, cn.as_ptr(), 0), "link", &n.0);
                        return;
                    }
                    let keep = chk(libc::dup(fd), "dup", &n.0);
                    self.keep.push(keep);
                    self.links.insert(k, (keep, cn.clone()));
                }
                let f = chk(libc::openat(fd, cn.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_EXCL | libc::O_CLOEXEC, 0o600), "create", &n.0);
                if self.how.sparse && ct.seed == 0 && ct.xor.is_empty() && ct.head.is_empty() {
                    chk(libc::ftruncate(f, data.len() as i64), "truncate", &n.0);
                } else { write_all(f, &data); }
                self.attrs(f, mode, &n.0);
                libc::close(f);
            }
            Node::Link(t) => {
                let ct = c(&t.0);
                chk(libc::symlinkat(ct.as_ptr(), fd, cn.as_ptr()), "symlink", &n.0);
            }
            Node::Fifo => { chk(libc::mknodat(fd, cn.as_ptr(), libc::S_IFIFO | 0o644, 0), "mkfifo", &n.0); }
            Node::Sock => { chk(libc::mknodat(fd, cn.as_ptr(), libc::S_IFSOCK | 0o644, 0), "mksock", &n.0); }
        }
    }
    unsafe fn attrs(&self, fd: i32, mode: u16, n: &[u8]) {
        let group = self.how.group.unwrap_or(self.how.owner);
        if self.how.owner != 0 || group != 0 { chk(libc::fchown(fd, self.how.owner, group), "chown", n); }
        chk(libc::fchmod(fd, (mode & 0o7777) as libc::mode_t), "chmod", n);
        if self.how.times {
            // in the future, at and before the epoch, beyond 32 bits
            let sec = [86400 * 365 * 60, 0, -1, (1 << 31) + 5, 1 << 33][self.how.order as usize % 5];
            let t = libc::timespec { tv_sec: sec, tv_nsec: 1 };
            let ts = [t, t];
            chk(libc::futimens(fd, ts.as_ptr()), "utimes", n);
        }
    }
}

fn write_all(fd: i32, data: &[u8]) {
    let mut o = 0;
    while o < data.len() {
        let n = unsafe { libc::write(fd, data[o..].as_ptr() as *const _, data.len() - o) };
        if n <= 0 { infra(&format!("write: {}", std::io::Error::last_os_error())); }
        o += n as usize;
    }
}

pub fn open_dir(p: &Path) -> i32 {
    let cp = c(p.as_os_str().as_bytes());
    chk(unsafe { libc::open(cp.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) }, "open", p.as_os_str().as_bytes())
}

/// Fills the existing directory `at`.
pub fn make(at: &Path, t: &Tree, how: &How) {
    unsafe {
        let fd = open_dir(at);
        let mut m = Maker { how, links: BTreeMap::new(), keep: vec![] };
        m.tree(fd, t);
        for k in &m.keep { libc::close(*k); }
        libc::close(fd);
    }
}
/// As it comes; half of the trees have the same time everywhere (decided by the number of entries).
pub fn make_plain(at: &Path, t: &Tree) { make(at, t, &How { times: crate::model::count(t) % 2 == 1, ..How::default() }) }

unsafe fn names(fd: i32) -> Vec<Vec<u8>> {
    let d2 = libc::openat(fd, b".\0".as_ptr() as *const _, DF);
    if d2 < 0 { infra("reopen dir"); }
    let d = libc::fdopendir(d2);
    let mut v = vec![];
    loop {
        let e = libc::readdir(d);
        if e.is_null() { break; }
        let n = std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes().to_vec();
        if n != b"." && n != b".." { v.push(n); }
    }
    libc::closedir(d);
    v.sort();
    v
}

/// Everything observable about a tree except access times: one string per node.
pub fn snapshot(p: &Path) -> BTreeMap<B, String> {
    unsafe fn rec(fd: i32, path: &[u8], out: &mut BTreeMap<B, String>) {
        for n in names(fd) {
            let cn = c(&n);
            let p = crate::model::join(path, &n);
            let mut st: libc::stat = std::mem::zeroed();
            chk(libc::fstatat(fd, cn.as_ptr(), &mut st, libc::AT_SYMLINK_NOFOLLOW), "stat", &n);
            let mut s = format!("{:o} {} {} {} {} {}.{} {}.{}", st.st_mode, st.st_uid, st.st_gid, st.st_ino, st.st_size,
                st.st_mtime, st.st_mtime_nsec, st.st_ctime, st.st_ctime_nsec);
            match st.st_mode & libc::S_IFMT {
                libc::S_IFDIR => {
                    let d = chk(libc::openat(fd, cn.as_ptr(), DF), "open", &n);
                    rec(d, &p, out);
                    libc::close(d);
                }
                libc::S_IFREG => {
                    let f = chk(libc::openat(fd, cn.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC | libc::O_NOFOLLOW), "open", &n);
                    let mut buf = vec![0u8; st.st_size as usize + 1];
                    let mut o = 0;
                    loop {
                        let r = libc::read(f, buf[o..].as_mut_ptr() as *mut _, buf.len() - o);
                        if r <= 0 { break; }
                        o += r as usize;
                    }
                    libc::close(f);
                    s.push_str(&format!(" {}", crate::digest::hex(&crate::digest::H::B3.digest(&buf[..o]))));
                }
                libc::S_IFLNK => {
                    let mut b = [0u8; 5000];
                    let r = libc::readlinkat(fd, cn.as_ptr(), b.as_mut_ptr() as *mut _, b.len());
                    s.push_str(&format!(" -> {:?}", B(b[..r.max(0) as usize].to_vec())));
                }
                _ => {}
            }
            out.insert(B(p), s);
        }
    }
    let mut m = BTreeMap::new();
    unsafe { let fd = open_dir(p); rec(fd, b"/", &mut m); libc::close(fd); }
    m
}

/// Removes a tree of any depth and any permissions (only ever called on scratch paths).
pub fn remove_tree(p: &Path) {
    unsafe fn rec(fd: i32) {
        for n in names(fd) {
            let cn = c(&n);
            if libc::unlinkat(fd, cn.as_ptr(), 0) == 0 { continue; }
            let d = libc::openat(fd, cn.as_ptr(), DF);
            if d >= 0 { rec(d); libc::close(d); }
            chk(libc::unlinkat(fd, cn.as_ptr(), libc::AT_REMOVEDIR), "rmdir", &n);
        }
    }
    let b = p.as_os_str().as_bytes();
    assert!(b.starts_with(b"/dev/shm/vp-") || b.starts_with(b"/tmp/vp-"), "remove_tree outside scratch");
    unsafe {
        let fd = open_dir(p);
        rec(fd);
        libc::close(fd);
        let cp = c(b);
        chk(libc::rmdir(cp.as_ptr()), "rmdir", b);
    }
}

/// Descriptors of this process that point at or below `p`.
pub fn fds_under(p: &Path) -> Vec<String> {
    let mut v = vec![];
    for e in must(std::fs::read_dir("/proc/self/fd"), "fd list") {
        let e = must(e, "fd entry");
        if let Ok(t) = std::fs::read_link(e.path()) {
            if t.starts_with(p) { v.push(t.display().to_string()); }
        }
    }
    v
}
