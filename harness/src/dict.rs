//! A dictionary of the literals in the sources under test (as fuzzers build one), so that generated lengths, counts,
//! sizes and names also fall on whatever limits and words the code mentions. It only biases what is generated; no
//! oracle reads it.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// Integers mentioned by the code anyway; others are drawn more often.
const USUAL: &[u64] = &[0, 1, 2, 3, 4, 8, 9, 10, 15, 16, 32, 33, 46, 48, 57, 58, 61, 64, 65, 70, 92, 97, 100, 102, 126, 127, 32768, 1_000_000_000];
/// Widths of integer types and usual buffer sizes.
const ALWAYS: &[u64] = &[255, 256, 4096, 8192, 65535, 65536, 1 << 31, 1 << 32];

pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<Vec<u8>>,
    /// words that were not there when this was written: drawn more often, like unusual numbers
    pub novel: Vec<Vec<u8>> }

fn literals(text: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let b = text.as_bytes();
    let (mut i, n) = (0, b.len());
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
    // the last number and what stands between it and here, to fold products and shifts
    let mut last: Option<(u64, usize)> = None;
    while i < n {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => { while i < n && b[i] != b'\n' { i += 1 } }
            b'/' if b.get(i + 1) == Some(&b'*') => { i += 2; while i + 1 < n && !(b[i] == b'*' && b[i + 1] == b'/') { i += 1 } i += 2; }
            b'"' => {
                let mut s = vec![];
                i += 1;
                while i < n && b[i] != b'"' {
                    if b[i] == b'\\' && i + 1 < n {
                        i += 1;
                        match b[i] {
                            b'n' => s.push(b'\n'), b't' => s.push(b'\t'), b'r' => s.push(b'\r'), b'0' => s.push(0),
                            b'x' if i + 2 < n => { if let Some(v) = text.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) { s.push(v) } i += 2; }
                            b'\n' => {}
                            c => s.push(c),
                        }
                    } else { s.push(b[i]); }
                    i += 1;
                }
                i += 1;
                if !s.is_empty() && s.len() <= 64 { strs.insert(s); }
            }
            b'\'' => {
                // a character, or a lifetime
                if b.get(i + 1) == Some(&b'\\') {
                    let v = match b.get(i + 2) {
                        Some(b'n') => 10, Some(b't') => 9, Some(b'r') => 13, Some(b'0') => 0,
                        Some(b'x') => text.get(i + 3..i + 5).and_then(|h| u64::from_str_radix(h, 16).ok()).unwrap_or(0),
                        Some(&c) => c as u64, None => 0,
                    };
                    ints.insert(v);
                    i += 3;
                    while i < n && b[i] != b'\'' { i += 1 }
                    i += 1;
                } else if b.get(i + 2) == Some(&b'\'') { ints.insert(b[i + 1] as u64); i += 3; }
                else { i += 1 }
            }
            c if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) => {
                let st = i;
                while i < n && ident(b[i]) { i += 1 }
                let t: String = text[st..i].chars().filter(|&c| c != '_').collect();
                let v = if let Some(h) = t.strip_prefix("0x") { num(h, 16) } else if let Some(o) = t.strip_prefix("0o") { num(o, 8) }
                    else if let Some(o) = t.strip_prefix("0b") { num(o, 2) } else { num(&t, 10) };
                if let Some(v) = v {
                    ints.insert(v);
                    let mut now = v;
                    if let Some((l, end)) = last {
                        match text.get(end..st).map(|s| s.trim()) {
                            Some("*") => if let Some(p) = l.checked_mul(v) { ints.insert(p); now = p },
                            Some("<<") => if v < 63 && l < 1 << 20 { let p = l.checked_shl(v as u32).unwrap_or(0); ints.insert(p); now = p },
                            _ => {}
                        }
                    }
                    last = Some((now, i));
                }
            }
            _ => i += 1,
        }
    }
}
/// A number with an optional type suffix.
fn num(t: &str, radix: u32) -> Option<u64> {
    let t = ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(t);
    u64::from_str_radix(t, radix).ok()
}

fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() { files(&p, out) } else if p.extension().map_or(false, |x| x == "rs") { out.push(p) }
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut fs = vec![];
        files(std::path::Path::new("/repo/src"), &mut fs);
        fs.sort();
        let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
        for f in fs {
            let t = match std::fs::read(&f) { Ok(t) => String::from_utf8_lossy(&t).into_owned(), Err(_) => continue };
            let t = t.split("#[cfg(test)]").next().unwrap_or("");
            literals(t, &mut ints, &mut strs);
        }
        ints.extend(ALWAYS);
        let mut v: Vec<u64> = vec![];
        for &x in &ints { v.extend(std::iter::repeat(x).take(if USUAL.contains(&x) || ALWAYS.contains(&x) { 1 } else { 8 })); }
        let usual: BTreeSet<&str> = include_str!("usual_words.txt").lines().collect();
        // of format strings, what stands between the placeholders
        let fixed = |s: Vec<u8>| -> Vec<Vec<u8>> {
            if !s.contains(&b'{') { return vec![s] }
            s.split(|&c| c == b'{' || c == b'}').step_by(2).map(|p| p.trim_ascii().to_vec()).filter(|p| !p.is_empty()).collect()
        };
        let strs: BTreeSet<Vec<u8>> = strs.into_iter().flat_map(fixed).collect();
        let novel = strs.iter().filter(|s| !usual.contains(&*String::from_utf8_lossy(s).escape_debug().to_string())).cloned().collect();
        Dict { ints: v, strs: strs.into_iter().filter(|s| s.len() > 1).collect(), novel }
    })
}

/// A number within `lo..=hi` at, just below or just above one the code mentions, or that many times `unit`.
pub fn near(lo: u64, hi: u64, unit: u64) -> BoxedStrategy<u64> {
    let mut v = vec![];
    for &x in &dict().ints {
        for y in [x.checked_sub(1), Some(x), x.checked_add(1), x.checked_mul(unit).and_then(|y| y.checked_sub(1)), x.checked_mul(unit), x.checked_mul(unit).and_then(|y| y.checked_add(1))] {
            if let Some(y) = y { if lo <= y && y <= hi { v.push(y) } }
        }
    }
    if v.is_empty() { v.push(lo) }
    prop::sample::select(v).boxed()
}
/// A word the code mentions.
pub fn word() -> BoxedStrategy<Vec<u8>> {
    let mut v = vec![];
    for s in &dict().strs { v.extend(std::iter::repeat(s.clone()).take(if s.len() < 16 && !s.contains(&b' ') { 4 } else { 1 })); }
    if v.is_empty() { v.push(b"a".to_vec()) }
    let all = prop::sample::select(v);
    if dict().novel.is_empty() { all.boxed() } else { prop_oneof![2 => prop::sample::select(dict().novel.clone()), 1 => all].boxed() }
}
