//! Wrappers for the libc calls a scan makes on its source. The executable's own definitions win over libc's, so
//! std and openat call them; while inactive they only pass the call on. While active they can number the calls,
//! fail one of them, run a callback before one of them, shorten or interrupt reads, permute directory listings,
//! hide entry types, delay file opens, and record what was opened.
use libc::{c_char, c_int, c_uint, c_void, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Call { None = 0, OpenRoot, OpenDir, OpenFile, Readdir, Readlink, Read, Stat }
fn call(n: u8) -> Call { [Call::None, Call::OpenRoot, Call::OpenDir, Call::OpenFile, Call::Readdir, Call::Readlink, Call::Read, Call::Stat][n as usize] }

static ACTIVE: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static FAIL_ERRNO: AtomicI64 = AtomicI64::new(libc::EIO as i64);
static FIRED: AtomicU8 = AtomicU8::new(0);
static HOOK_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static HOOK_RAN: AtomicU8 = AtomicU8::new(0);
static UNKNOWN: AtomicBool = AtomicBool::new(false);
static PERMUTE: AtomicU64 = AtomicU64::new(0);
static OPENED: AtomicU64 = AtomicU64::new(0);
static RECORD: AtomicBool = AtomicBool::new(false);
static GATE_I: AtomicUsize = AtomicUsize::new(0);
static READ_I: AtomicUsize = AtomicUsize::new(0);
static SHORT: AtomicU64 = AtomicU64::new(0);
static TRACK: [AtomicU8; 4096] = [const { AtomicU8::new(0) }; 4096];
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static READ_PLAN: Mutex<Vec<u16>> = Mutex::new(vec![]);
static GATE: Mutex<Vec<u16>> = Mutex::new(vec![]);
static HOOK: Mutex<Option<Box<dyn FnOnce() + Send>>> = Mutex::new(None);
static OPEN_PATHS: Mutex<Vec<(Call, PathBuf)>> = Mutex::new(vec![]);
static LISTS: Mutex<Option<HashMap<usize, (Vec<libc::dirent64>, usize)>>> = Mutex::new(None);

static FDS: AtomicBool = AtomicBool::new(false);
static FDS_MAX: AtomicUsize = AtomicUsize::new(0);
static WATCH: Mutex<Option<Vec<u8>>> = Mutex::new(None);
static W_LISTED: AtomicBool = AtomicBool::new(false);
static W_LISTED_AT_HOOK: AtomicBool = AtomicBool::new(false);
static W_STAT_AFTER: AtomicBool = AtomicBool::new(false);
static STARTER: AtomicI64 = AtomicI64::new(0);
static OTHERS: Mutex<Vec<i64>> = Mutex::new(vec![]);
static GATE_US: AtomicU64 = AtomicU64::new(0);

thread_local! { static INSIDE: Cell<bool> = const { Cell::new(false) }; }

fn lock<T>(m: &'static Mutex<T>) -> std::sync::MutexGuard<'static, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

/// What to do with the calls of one scan.
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub fail_at: Option<(u64, i32)>,
    pub unknown_types: bool,
    pub permute: u64,
    /// most bytes of successive file reads, 0 = interrupted
    pub reads: Vec<u16>,
    /// hold the i-th file open until this many further opens arrived (or a short timeout)
    pub gate: Vec<u16>,
    pub record: bool,
    /// longest time a file open is held, in microseconds (0: a short default)
    pub gate_us: u64,
    /// count the descriptors of the process after each open
    pub fds: bool,
}

/// Watch for this entry name in listings and stats.
pub fn watch(name: &[u8]) { *lock(&WATCH) = Some(name.to_vec()); }
/// The watched name had been returned by a listing when the hook ran.
pub fn listed_at_hook() -> bool { W_LISTED_AT_HOOK.load(SeqCst) }
/// The watched name was examined by name after the hook ran.
pub fn stat_after_hook() -> bool { W_STAT_AFTER.load(SeqCst) }

/// Waits until at most `n` threads run.
pub fn quiesce_to(n: usize) -> bool {
    let t = std::time::Instant::now();
    while std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) > n {
        if t.elapsed().as_secs() >= 10 { return false; }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
    true
}
/// Waits for the threads a scan left behind (they stop on their own).
pub fn quiesce() -> bool {
    let t = std::time::Instant::now();
    loop {
        let n = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
        if n <= BASE_THREADS.load(SeqCst) { return true; }
        if t.elapsed().as_secs() >= 20 { return false; }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}
static BASE_THREADS: AtomicUsize = AtomicUsize::new(2);
pub fn set_base_threads(n: usize) { BASE_THREADS.store(n, SeqCst); }

pub fn reset() {
    ACTIVE.store(false, SeqCst);
    COUNT.store(0, SeqCst);
    FAIL_AT.store(u64::MAX, SeqCst);
    FIRED.store(0, SeqCst);
    HOOK_AT.store(u64::MAX, SeqCst);
    HOOK_RAN.store(0, SeqCst);
    UNKNOWN.store(false, SeqCst);
    PERMUTE.store(0, SeqCst);
    OPENED.store(0, SeqCst);
    RECORD.store(false, SeqCst);
    GATE_I.store(0, SeqCst);
    READ_I.store(0, SeqCst);
    SHORT.store(0, SeqCst);
    ARRIVED.store(0, SeqCst);
    for t in TRACK.iter() { t.store(0, SeqCst); }
    lock(&READ_PLAN).clear();
    lock(&OTHERS).clear();
    lock(&GATE).clear();
    *lock(&HOOK) = None;
    lock(&OPEN_PATHS).clear();
    *lock(&LISTS) = None;
    *lock(&WATCH) = None;
    W_LISTED.store(false, SeqCst);
    W_LISTED_AT_HOOK.store(false, SeqCst);
    W_STAT_AFTER.store(false, SeqCst);
    GATE_US.store(0, SeqCst);
    FDS.store(false, SeqCst);
    FDS_MAX.store(0, SeqCst);
}

pub fn start(s: &Script) {
    reset();
    if let Some((n, e)) = s.fail_at { FAIL_AT.store(n, SeqCst); FAIL_ERRNO.store(e as i64, SeqCst); }
    UNKNOWN.store(s.unknown_types, SeqCst);
    PERMUTE.store(s.permute, SeqCst);
    let mut r = s.reads.clone();
    if !r.is_empty() && r.iter().all(|&c| c == 0) { r.push(1); }
    *lock(&READ_PLAN) = r;
    *lock(&GATE) = s.gate.clone();
    RECORD.store(s.record, SeqCst);
    GATE_US.store(s.gate_us, SeqCst);
    FDS.store(s.fds, SeqCst);
    STARTER.store(unsafe { libc::syscall(libc::SYS_gettid) }, SeqCst);
    ACTIVE.store(true, SeqCst);
}
/// Number of threads other than the one that called `start` that opened files.
pub fn other_openers() -> usize { lock(&OTHERS).len() }
/// Runs `f` just before source call number `n` of the scan started next (call after `start`).
pub fn hook_at(n: u64, f: Box<dyn FnOnce() + Send>) { *lock(&HOOK) = Some(f); HOOK_AT.store(n, SeqCst); }
pub fn stop() { ACTIVE.store(false, SeqCst); ARRIVED.fetch_add(1 << 20, SeqCst); }
pub fn calls() -> u64 { COUNT.load(SeqCst) }
pub fn fired() -> Call { call(FIRED.load(SeqCst)) }
/// The kind of call before which the hook ran.
pub fn hook_ran() -> Call { call(HOOK_RAN.load(SeqCst)) }
pub fn opened_files() -> u64 { OPENED.load(SeqCst) }
/// Number of different directories opened so far (needs `record`).
pub fn opened_dirs() -> usize {
    let g = lock(&OPEN_PATHS);
    g.iter().filter(|x| matches!(x.0, Call::OpenDir | Call::OpenRoot)).map(|x| &x.1).collect::<std::collections::HashSet<_>>().len()
}
pub fn fd_count() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }
pub fn fds_max() -> usize { FDS_MAX.load(SeqCst) }
pub fn split_reads() -> u64 { SHORT.load(SeqCst) }
pub fn opened_paths() -> Vec<(Call, PathBuf)> { lock(&OPEN_PATHS).clone() }

/// Runs harness code in the middle of a scan without its calls being counted.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let old = INSIDE.with(|i| i.replace(true));
    let r = f();
    INSIDE.with(|i| i.set(old));
    r
}

fn active() -> bool { ACTIVE.load(SeqCst) && !INSIDE.with(|i| i.get()) }
unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }

/// true: this call has to fail (errno is set)
unsafe fn enter(c: Call) -> bool {
    let n = COUNT.fetch_add(1, SeqCst);
    if n == HOOK_AT.load(SeqCst) {
        if let Some(h) = lock(&HOOK).take() { HOOK_RAN.store(c as u8, SeqCst); W_LISTED_AT_HOOK.store(W_LISTED.load(SeqCst), SeqCst); outside(h); }
    }
    if n == FAIL_AT.load(SeqCst) {
        FIRED.store(c as u8, SeqCst);
        set_errno(FAIL_ERRNO.load(SeqCst) as i32);
        return true;
    }
    false
}

unsafe fn after_open(fd: c_int, c: Call) {
    if fd >= 0 {
        if c == Call::OpenFile {
            OPENED.fetch_add(1, SeqCst);
            let t = libc::syscall(libc::SYS_gettid);
            if t != STARTER.load(SeqCst) { let mut g = lock(&OTHERS); if !g.contains(&t) { g.push(t); } }
            if (fd as usize) < TRACK.len() { TRACK[fd as usize].store(1, SeqCst); }
        } else if (fd as usize) < TRACK.len() { TRACK[fd as usize].store(0, SeqCst); }
        if FDS.load(SeqCst) { outside(|| { FDS_MAX.fetch_max(fd_count(), SeqCst); }); }
        if RECORD.load(SeqCst) {
            outside(|| {
                if let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{}", fd)) { lock(&OPEN_PATHS).push((c, p)); }
            });
        }
    }
}

fn gate() {
    let hold = {
        let g = lock(&GATE);
        if g.is_empty() { return; }
        g[GATE_I.fetch_add(1, SeqCst) % g.len()]
    };
    let now = ARRIVED.fetch_add(1, SeqCst) + 1;
    if hold == 0 { return; }
    let t = std::time::Instant::now();
    let limit = std::time::Duration::from_micros(match GATE_US.load(SeqCst) { 0 => if hold > 1000 { 2500 } else { 400 }, n => n });
    while ARRIVED.load(SeqCst) < now + hold as u32 && t.elapsed() < limit { std::thread::yield_now(); }
}

unsafe fn do_openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint, root: bool) -> c_int {
    if !active() { return libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int; }
    let c = if flags & (libc::O_PATH | libc::O_DIRECTORY) != 0 { if root { Call::OpenRoot } else { Call::OpenDir } } else { Call::OpenFile };
    if c == Call::OpenFile { gate(); }
    if enter(c) { return -1; }
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int;
    let e = *libc::__errno_location();
    after_open(fd, c);
    set_errno(e);
    fd
}

#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_openat(libc::AT_FDCWD, p, flags, mode, true) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_openat(libc::AT_FDCWD, p, flags, mode, true) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_openat(d, p, flags, mode, false) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_openat(d, p, flags, mode, false) }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if active() && fd >= 0 && (fd as usize) < TRACK.len() && TRACK[fd as usize].load(SeqCst) == 1 {
        if enter(Call::Read) { return -1; }
        let p = lock(&READ_PLAN);
        if !p.is_empty() {
            let c = p[READ_I.fetch_add(1, SeqCst) % p.len()];
            drop(p);
            if c == 0 { SHORT.fetch_add(1, SeqCst); set_errno(libc::EINTR); return -1; }
            if (c as usize) < n { n = c as usize; SHORT.fetch_add(1, SeqCst); }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if active() && fd >= 0 && (fd as usize) < TRACK.len() && TRACK[fd as usize].load(SeqCst) == 1 && enter(Call::Read) { return -1; }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t { do_pread(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t { do_pread(fd, b, n, o) }
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() && enter(Call::Readlink) { return -1; }
    libc::syscall(libc::SYS_readlinkat, d, p, buf, n) as ssize_t
}

/// Called after the real call: a call that ended after the hook may have seen what the hook did.
unsafe fn watch_stat(p: *const c_char) {
    let errno = *libc::__errno_location();
    watch_stat_(p);
    *libc::__errno_location() = errno;
}
unsafe fn watch_stat_(p: *const c_char) {
    if HOOK_RAN.load(SeqCst) == 0 { return; }
    if let Some(w) = lock(&WATCH).as_ref() {
        if std::ffi::CStr::from_ptr(p).to_bytes().ends_with(w) { W_STAT_AFTER.store(true, SeqCst); }
    }
}
unsafe fn do_fstatat(d: c_int, p: *const c_char, st: *mut c_void, flags: c_int) -> c_int {
    if !active() { return libc::syscall(libc::SYS_newfstatat, d, p, st, flags) as c_int; }
    if enter(Call::Stat) { return -1; }
    let r = libc::syscall(libc::SYS_newfstatat, d, p, st, flags) as c_int;
    watch_stat(p);
    r
}
#[no_mangle] pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut c_void, f: c_int) -> c_int { do_fstatat(d, p, st, f) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut c_void, f: c_int) -> c_int { do_fstatat(d, p, st, f) }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int { do_fstatat(fd, b"\0".as_ptr() as *const c_char, st, libc::AT_EMPTY_PATH) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int { do_fstatat(fd, b"\0".as_ptr() as *const c_char, st, libc::AT_EMPTY_PATH) }
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    // std probes for statx with null pointers
    let on = active() && !p.is_null();
    if on && enter(Call::Stat) { return -1; }
    let r = libc::syscall(libc::SYS_statx, d, p, flags, mask, st) as c_int;
    if on { watch_stat(p); }
    r
}

type Rd = unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64;
fn real(name: &'static [u8], cell: &AtomicUsize) -> usize {
    let mut p = cell.load(SeqCst);
    if p == 0 {
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize };
        if p == 0 { crate::runner::infra("dlsym failed"); }
        cell.store(p, SeqCst);
    }
    p
}
static REAL_READDIR: AtomicUsize = AtomicUsize::new(0);
static REAL_CLOSEDIR: AtomicUsize = AtomicUsize::new(0);

unsafe fn do_readdir(d: *mut c_void) -> *mut libc::dirent64 {
    let f: Rd = std::mem::transmute(real(b"readdir64\0", &REAL_READDIR));
    if !active() { return f(d); }
    if enter(Call::Readdir) { return std::ptr::null_mut(); }
    let seed = PERMUTE.load(SeqCst);
    let e = if seed != 0 {
        let mut g = lock(&LISTS);
        let (v, i) = g.get_or_insert_with(HashMap::new).entry(d as usize).or_insert_with(|| {
            let mut v = vec![];
            loop {
                let e = f(d);
                if e.is_null() { break; }
                let mut c: libc::dirent64 = std::mem::zeroed();
                std::ptr::copy_nonoverlapping(e as *const u8, &mut c as *mut _ as *mut u8, ((*e).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>()));
                v.push(c);
            }
            let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for i in (1..v.len()).rev() {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                v.swap(i, (x % (i as u64 + 1)) as usize);
            }
            (v, 0)
        });
        if *i >= v.len() { return std::ptr::null_mut(); }
        *i += 1;
        &mut v[*i - 1] as *mut libc::dirent64
    } else { f(d) };
    if !e.is_null() {
        if let Some(w) = lock(&WATCH).as_ref() {
            if std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes() == &w[..] { W_LISTED.store(true, SeqCst); }
        }
    }
    if !e.is_null() && UNKNOWN.load(SeqCst) { (*e).d_type = libc::DT_UNKNOWN; }
    e
}
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 { do_readdir(d) }
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 { do_readdir(d) }
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real(b"closedir\0", &REAL_CLOSEDIR));
    if PERMUTE.load(SeqCst) != 0 { if let Some(m) = lock(&LISTS).as_mut() { m.remove(&(d as usize)); } }
    f(d)
}

/// The wrappers must really be in the path of std and openat, otherwise every fault check would be vacuous.
pub fn self_test(dir: &std::path::Path) {
    let p = dir.join("probe");
    crate::runner::must(std::fs::create_dir(&p), "probe");
    crate::runner::must(std::fs::write(p.join("f"), b"x"), "probe");
    crate::runner::must(std::os::unix::fs::symlink("f", p.join("l")), "probe");
    // the thread pool looks at the number of processors once per process
    let mut cfg = dir_signature::ScannerConfig::new();
    cfg.add_dir(&p, "/").threads(2);
    let _ = dir_signature::v1::scan(&cfg, &mut Vec::new());
    quiesce();
    let mut seen = vec![];
    for n in 0..100 {
        start(&Script { fail_at: Some((n, libc::EIO)), ..Script::default() });
        let mut cfg = dir_signature::ScannerConfig::new();
        cfg.add_dir(&p, "/");
        let _ = dir_signature::v1::scan(&cfg, &mut Vec::new());
        stop();
        if fired() == Call::None { break; }
        seen.push(fired());
    }
    reset();
    for c in [Call::OpenDir, Call::OpenFile, Call::Readdir, Call::Readlink, Call::Read, Call::Stat] {
        if !seen.contains(&c) {
            eprintln!("DEBUG interposition: no {:?} call seen (saw {:?})", c, seen);
        }
    }
    if seen.is_empty() { crate::runner::infra("system call interposition does not work"); }
    crate::fsops::remove_tree(&p);
}
