//! Running the scanner.
use crate::digest::H;
use crate::interpose::{self, Script};
use crate::model::Tree;
use crate::refsig::{self, B3};
use crate::runner::{Cx, Res};
use dir_signature::{v1, Error, ScannerConfig};
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    pub h: H,
    pub threads: u16,
    pub queue: Option<u16>,
    pub progress: bool,
}
impl Cfg {
    pub fn plain(h: H) -> Cfg { Cfg { h, threads: 0, queue: None, progress: false } }
    pub fn build(&self) -> ScannerConfig {
        let mut c = ScannerConfig::new();
        c.hash(self.h.real()).threads(self.threads as usize);
        if let Some(q) = self.queue { c.queue_size(q as usize); }
        if self.progress { c.print_progress(); }
        c
    }
    pub fn one(&self, dir: &Path) -> ScannerConfig { let mut c = self.build(); c.add_dir(dir, "/"); c }
    pub fn threaded(&self) -> bool { self.threads > 1 && cfg!(feature = "threads") }
    /// The listed wrong blake3 mode this configuration would show.
    pub fn bad_b3(&self) -> B3 { if self.threaded() { B3::PerFile } else { B3::PerScan } }
}

pub fn scan(dir: &Path, c: &Cfg) -> Result<Vec<u8>, Error> {
    let mut v = Vec::new();
    v1::scan(&c.one(dir), &mut v).map(|_| v)
}
pub fn scan_ok(dir: &Path, c: &Cfg) -> Result<Vec<u8>, String> {
    scan(dir, c).map_err(|e| format!("scan failed: {} ({:?})", e, c))
}
pub fn scan_with(dir: &Path, c: &Cfg, s: &Script) -> Result<Vec<u8>, Error> {
    interpose::start(s);
    let r = scan(dir, c);
    interpose::stop();
    if c.threaded() && !interpose::quiesce() { crate::runner::oracle_panic("hashing threads still run 20 s after the scan returned".into()); }
    r
}
/// Like scan_with, into a sink that keeps what arrived before an error.
pub fn scan_into(dir: &Path, c: &Cfg, s: &Script, setup: impl FnOnce()) -> (Result<(), Error>, Vec<u8>) {
    let mut v = Vec::new();
    interpose::start(s);
    setup();
    let r = v1::scan(&c.one(dir), &mut v);
    interpose::stop();
    if c.threaded() && !interpose::quiesce() { crate::runner::oracle_panic("hashing threads still run 20 s after the scan returned".into()); }
    (r, v)
}
/// A complete signature with a footer that matches.
pub fn finished(out: &[u8], h: H) -> bool {
    split(out).map_or(false, |(_, _, f)| f.len() == 65 && f[..64].iter().all(|c| c.is_ascii_hexdigit())) && footer_ok(out, h).is_ok()
}

/// Splits a signature into header, body, footer lines.
pub fn split(out: &[u8]) -> Option<(&[u8], &[u8], &[u8])> {
    let a = out.iter().position(|&c| c == b'\n')? + 1;
    if out.last() != Some(&b'\n') { return None; }
    let f = out[..out.len() - 1].iter().rposition(|&c| c == b'\n')? + 1;
    if f < a { return None; }
    Some((&out[..a], &out[a..f], &out[f..]))
}

/// Footer check used by everything but C03: either scope is accepted.
pub fn footer_ok(out: &[u8], h: H) -> Result<(), String> {
    let (hd, b, f) = split(out).ok_or_else(|| format!("not a signature: {:?}", refsig::show(out)))?;
    let hd = String::from_utf8_lossy(hd).into_owned();
    for scope in [false, true] {
        if refsig::footer(h, &hd, b, scope).as_bytes() == f { return Ok(()); }
    }
    Err(format!("footer {:?} is not the digest of the text", refsig::show(f)))
}

/// The output must be exactly the signature of this tree. blake3 block hashes may instead be wrong in exactly the
/// listed way when `cx` lists it for its property.
pub fn exact(cx: &mut Cx, out: &[u8], t: &Tree, c: &Cfg) -> Res {
    let good = refsig::body(&refsig::entries(t, c.h, B3::Correct));
    exact_text(cx, out, c, &good, || refsig::body(&refsig::entries(t, c.h, c.bad_b3())))
}
pub fn exact_text(cx: &mut Cx, out: &[u8], c: &Cfg, good: &str, bad: impl FnOnce() -> String) -> Res {
    let (hd, b, _) = split(out).ok_or_else(|| format!("not a signature: {:?}", refsig::show(out)))?;
    if hd != refsig::header(c.h, refsig::BS).as_bytes() { return Err(format!("wrong header {:?} for {:?}", refsig::show(hd), c)); }
    if b != good.as_bytes() {
        let ok = c.h == H::B3 && b == bad().as_bytes();
        let d = refsig::diff(good.as_bytes(), b);
        if !ok { return Err(format!("wrong signature text for {:?}: body {}", c, d)); }
        // block hash values are the subject of these properties only; elsewhere the listed deviation is not theirs
        if matches!(cx.prop.as_str(), "C04" | "C06" | "C19" | "C24") { cx.known("blake3-cumulative", &d)?; }
    }
    footer_ok(out, c.h)
}
