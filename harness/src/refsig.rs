//! Reference writer and strict reference reader of the v1 format, written from FORMAT.v1.rst.
use crate::digest::{hex, H};
use crate::model::{join, walk, Node, Tree, B};
use serde::{Deserialize, Serialize};

pub const BS: u64 = 32768;

#[derive(Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ent {
    Dir(B),
    File { path: B, exe: bool, size: u64, hashes: Vec<[u8; 32]> },
    Link(B, B),
}
impl std::fmt::Debug for Ent {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ent::Dir(p) => write!(f, "Dir({:?})", p),
            Ent::Link(p, t) => write!(f, "Link({:?} -> {:?})", p, t),
            Ent::File { path, exe, size, hashes } => {
                write!(f, "File({:?} {} {}", path, if *exe { "x" } else { "f" }, size)?;
                for h in hashes.iter().take(3) { write!(f, " {}..", &hex(h)[..8])?; }
                write!(f, " [{}])", hashes.len())
            }
        }
    }
}
impl Ent {
    pub fn path(&self) -> &B { match self { Ent::Dir(p) | Ent::Link(p, _) => p, Ent::File { path, .. } => path } }
    pub fn is_dir(&self) -> bool { matches!(self, Ent::Dir(_)) }
    pub fn key(&self) -> Key { key(self.is_dir(), &self.path().0) }
}

/// Position in a signature: components of the containing directory, then the directory line itself,
/// then its files by name; deeper directories come after.
pub type Key = (Vec<Vec<u8>>, u8, Vec<u8>);
pub fn comps(p: &[u8]) -> Vec<Vec<u8>> {
    p.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect()
}
/// Components as the path type sees them (all of `p` is plain here).
pub fn comps2(p: &[u8]) -> Vec<&[u8]> { p.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect() }
pub fn key(is_dir: bool, path: &[u8]) -> Key {
    let mut c = comps(path);
    if is_dir { (c, 0, vec![]) } else { let n = c.pop().unwrap_or_default(); (c, 1, n) }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if c <= 0x20 || c >= 0x7f || c == b'\\' { s.push_str(&format!("\\x{:02x}", c)) } else { s.push(c as char) }
    }
    s
}

/// How blake3 block hashes are computed: as specified, or as the two listed wrong ways.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B3 { Correct, PerFile, PerScan }

pub struct Hasher { h: H, mode: B3, acc: blake3::Hasher }
impl Hasher {
    pub fn new(h: H, mode: B3) -> Hasher { Hasher { h, mode, acc: blake3::Hasher::new() } }
    pub fn file(&mut self, data: &[u8], bs: u64) -> Vec<[u8; 32]> {
        if self.mode == B3::PerFile { self.acc = blake3::Hasher::new(); }
        let bs = bs.min(usize::MAX as u64 / 2) as usize;
        data.chunks(bs).map(|b| {
            if self.h == H::B3 && self.mode != B3::Correct {
                self.acc.update(b);
                *self.acc.finalize().as_bytes()
            } else { self.h.digest(b) }
        }).collect()
    }
}

/// Zeros with a few other bytes, longer than what fits into memory.
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Huge { pub len: u64, pub marks: Vec<(u64, u8)> }
impl Huge {
    pub fn fill(&self, pos: u64, buf: &mut [u8]) -> usize {
        let n = self.len.saturating_sub(pos).min(buf.len() as u64) as usize;
        for b in &mut buf[..n] { *b = 0; }
        for (p, x) in &self.marks { if *p >= pos && *p < pos + n as u64 { buf[(*p - pos) as usize] = *x; } }
        n
    }
    /// The hashes of its blocks; `mode` as for `Hasher`, for a file hashed alone.
    pub fn hashes(&self, h: H, bs: u64, mode: B3) -> Vec<[u8; 32]> {
        let mut v = vec![];
        let mut buf = vec![0u8; bs as usize];
        let mut hs = Hasher::new(h, mode);
        if mode != B3::Correct { hs.mode = B3::PerScan; }
        let zero = h.digest(&buf);
        let mut pos = 0;
        while pos < self.len {
            let n = self.fill(pos, &mut buf);
            let plain = n as u64 == bs && !self.marks.iter().any(|(p, _)| *p >= pos && *p < pos + bs);
            if plain && !(h == H::B3 && mode != B3::Correct) { v.push(zero) } else { v.extend(hs.file(&buf[..n], bs)) }
            pos += n as u64;
        }
        v
    }
}

/// Entries of a tree, in signature order.
pub fn entries(t: &Tree, h: H, mode: B3) -> Vec<Ent> {
    let mut hs = Hasher::new(h, mode);
    let mut v = vec![];
    walk(t, &mut |p, n| {
        let path = B(p.to_vec());
        match n {
            None | Some(Node::Dir(..)) => v.push(Ent::Dir(path)),
            Some(Node::File(c, m)) => {
                let data = c.bytes();
                v.push(Ent::File { path, exe: m & 0o100 != 0, size: data.len() as u64, hashes: hs.file(&data, BS) });
            }
            Some(Node::Link(t)) => v.push(Ent::Link(path, t.clone())),
            Some(Node::Fifo) | Some(Node::Sock) => {}
        }
    });
    v
}

pub fn header(h: H, bs: u64) -> String { format!("DIRSIGNATURE.v1 {} block_size={}\n", h.name(), bs) }

pub fn line(e: &Ent) -> String {
    fn name(p: &B) -> String { esc(p.0.rsplit(|&c| c == b'/').next().unwrap()) }
    match e {
        Ent::Dir(p) => format!("{}\n", esc(&p.0)),
        Ent::Link(p, t) => format!("  {} s {}\n", name(p), esc(&t.0)),
        Ent::File { path, exe, size, hashes } => {
            let mut s = format!("  {} {} {}", name(path), if *exe { "x" } else { "f" }, size);
            for h in hashes { s.push(' '); s.push_str(&hex(h)); }
            s.push('\n');
            s
        }
    }
}
pub fn body(v: &[Ent]) -> String { v.iter().map(line).collect() }

/// Footer scopes: what FORMAT.v1.rst says, and what hash.sh and the tests pin (known finding).
pub fn footer(h: H, head: &str, body: &[u8], with_header: bool) -> String {
    let mut d = vec![];
    if with_header { d.extend_from_slice(head.as_bytes()); }
    d.extend_from_slice(body);
    format!("{}\n", hex(&h.digest(&d)))
}

/// The full text with the footer scope in use.
pub fn text(h: H, bs: u64, v: &[Ent]) -> Vec<u8> {
    let (hd, b) = (header(h, bs), body(v));
    let f = footer(h, &hd, b.as_bytes(), false);
    [hd.into_bytes(), b.into_bytes(), f.into_bytes()].concat()
}

// ------------------------------------------------------------------------------------------ reader

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// footer read, nothing after it
    Clean,
    /// definitely malformed, first at this line
    Reject(usize),
    /// the line of the footer, which is followed by more data
    Extra(usize),
    /// the format says nothing about this line (or what follows it)
    Unspec(usize),
}
#[derive(Clone, Debug)]
pub struct Doc { pub h: H, pub bs: u64, pub ents: Vec<Ent>, pub end: End, pub footer: Vec<u8> }

/// Err(definite): the header line is definitely (true) or perhaps (false) malformed.
pub fn read_header(l: &[u8]) -> Result<(H, u64), bool> {
    let s = std::str::from_utf8(l).map_err(|_| true)?;
    let mut sure = true;
    if s.bytes().any(|c| c < 0x20 || c >= 0x7f) || s.starts_with(' ') || s.ends_with(' ') || s.contains("  ") { sure = false; }
    let f: Vec<&str> = s.split_whitespace().collect();
    let get = |i: usize| f.get(i).cloned();
    if get(0) != Some("DIRSIGNATURE.v1") { return Err(true); }
    let h = H::parse(get(1).ok_or(true)?).ok_or(true)?;
    let v = get(2).ok_or(true)?.strip_prefix("block_size=").ok_or(true)?;
    if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) { return Err(v.starts_with('+') == false); }
    let n: u64 = v.parse().map_err(|_| true)?;
    if v.len() > 1 && v.starts_with('0') { sure = false; }
    if n == 0 { sure = false; }
    for a in f.iter().skip(3) { if !a.contains('=') { sure = false; } }
    if sure { Ok((h, n)) } else { Err(false) }
}

pub enum L { Ent(Ent), Footer(Vec<u8>), Bad, Unspec }

fn unhex(c: u8) -> Option<u8> { (c as char).to_digit(16).map(|d| d as u8) }
/// None: written in a way the format does not define
pub fn unesc(b: &[u8]) -> Option<Vec<u8>> {
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        let c = b[i];
        if c == b'\\' {
            if i + 3 >= b.len() || b[i + 1] != b'x' { return None; }
            let (a, d) = (unhex(b[i + 2])?, unhex(b[i + 3])?);
            if b[i + 2].is_ascii_uppercase() || b[i + 3].is_ascii_uppercase() { return None; }
            v.push(a << 4 | d);
            i += 4;
        } else {
            if c <= 0x20 || c >= 0x7f { return None; }
            v.push(c);
            i += 1;
        }
    }
    if v.contains(&0) { return None; }
    Some(v)
}

fn plain_dir(p: &[u8]) -> bool {
    p == b"/" || (p.starts_with(b"/") && p[1..].split(|&c| c == b'/').all(|c| !c.is_empty() && c != b"." && c != b".."))
}

pub fn read_line(l: &[u8], dir: Option<&[u8]>, bs: u64) -> L {
    if l.starts_with(b"/") {
        if l[..l.len() - 1].contains(&b' ') { return L::Bad; }
        return match unesc(l) { Some(p) if plain_dir(&p) => L::Ent(Ent::Dir(B(p))), _ => L::Unspec };
    }
    if l.starts_with(b"  ") {
        let f: Vec<&[u8]> = l[2..].split(|&c| c == b' ').collect();
        // A doubled space or a missing field; a trailing space is left open.
        let inner = &f[..f.len() - 1];
        if inner.iter().any(|x| x.is_empty()) { return L::Bad; }
        if f.len() < 3 { return L::Bad; }
        if f.last().unwrap().is_empty() {
            return L::Unspec;
        }
        let dirb = match dir { Some(d) => d, None => return L::Unspec };
        let name = unesc(f[0]);
        let name_ok = name.as_ref().map_or(false, |n| !n.is_empty() && !n.contains(&b'/') && n != b"." && n != b"..");
        let r = match f[1] {
            b"s" => {
                if f.len() != 3 { return L::Bad; }
                match unesc(f[2]) { Some(t) if name_ok => Ent::Link(B(join(dirb, &name.unwrap())), B(t)), _ => return L::Unspec }
            }
            b"f" | b"x" => {
                let s = f[2];
                if !s.iter().all(|c| c.is_ascii_digit()) { return if s[0] == b'+' { L::Unspec } else { L::Bad }; }
                let size: u64 = match std::str::from_utf8(s).unwrap().parse() { Ok(n) => n, Err(_) => return L::Bad };
                if bs == 0 { return L::Unspec; }
                let n = size / bs + (size % bs != 0) as u64;
                if (f.len() - 3) as u64 != n { return L::Bad; }
                let mut hashes = vec![];
                let mut upper = false;
                for x in &f[3..] {
                    if x.len() != 64 || !x.iter().all(|c| unhex(*c).is_some()) { return L::Bad; }
                    upper |= x.iter().any(|c| c.is_ascii_uppercase());
                    let mut d = [0u8; 32];
                    for i in 0..32 { d[i] = unhex(x[2 * i]).unwrap() << 4 | unhex(x[2 * i + 1]).unwrap(); }
                    hashes.push(d);
                }
                if upper || !name_ok || (s.len() > 1 && s[0] == b'0') { return L::Unspec; }
                Ent::File { path: B(join(dirb, &name.unwrap())), exe: f[1] == b"x", size, hashes }
            }
            _ => return L::Bad,
        };
        return L::Ent(r);
    }
    // anything else must be the footer
    if l.len() == 65 && l[64] == b' ' { return L::Unspec; }
    if l.len() != 64 || !l.iter().all(|c| unhex(*c).is_some()) { return L::Bad; }
    if l.iter().any(|c| c.is_ascii_uppercase()) { return L::Unspec; }
    L::Footer((0..32).map(|i| unhex(l[2 * i]).unwrap() << 4 | unhex(l[2 * i + 1]).unwrap()).collect())
}

/// Reads a whole signature. Err(definite) for a bad header. Does not check order or the footer's value.
pub fn read(data: &[u8]) -> Result<Doc, bool> {
    let nl = data.iter().position(|&c| c == b'\n').ok_or(true)?;
    let (h, bs) = read_header(&data[..nl])?;
    let mut doc = Doc { h, bs, ents: vec![], end: End::Clean, footer: vec![] };
    let (mut pos, mut no, mut dir) = (nl + 1, 1, None::<Vec<u8>>);
    loop {
        no += 1;
        let rest = &data[pos..];
        let n = match rest.iter().position(|&c| c == b'\n') { Some(n) => n, None => { doc.end = End::Reject(no); return Ok(doc); } };
        match read_line(&rest[..n], dir.as_deref(), bs) {
            L::Ent(e) => {
                if let Ent::Dir(p) = &e { dir = Some(p.0.clone()); }
                doc.ents.push(e);
            }
            L::Footer(d) => {
                if pos + n + 1 != data.len() { doc.end = End::Extra(no); }
                doc.footer = d;
                return Ok(doc);
            }
            L::Bad => { doc.end = End::Reject(no); return Ok(doc); }
            L::Unspec => { doc.end = End::Unspec(no); return Ok(doc); }
        }
        pos += n + 1;
    }
}

/// For scan output: everything must be defined and canonical.
pub fn read_strict(data: &[u8]) -> Result<Doc, String> {
    let d = read(data).map_err(|_| format!("bad header: {:?}", show(data)))?;
    match d.end {
        End::Clean => Ok(d),
        End::Reject(n) | End::Extra(n) | End::Unspec(n) => Err(format!("line {} of the output is not v1 grammar: {:?}", n,
            data.split(|&c| c == b'\n').nth(n - 1).map(show).unwrap_or_default())),
    }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    if b.len() > 400 { format!("{}...", s) } else { s }
}

/// First difference of two texts, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let (mut la, mut lb) = (a.split(|&c| c == b'\n'), b.split(|&c| c == b'\n'));
    let mut n = 1;
    loop {
        match (la.next(), lb.next()) {
            (Some(x), Some(y)) if x == y => n += 1,
            (None, None) => return "equal".into(),
            (x, y) => return format!("line {}: expected {:?}, got {:?}", n, x.map(show), y.map(show)),
        }
    }
}
