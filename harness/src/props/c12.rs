//! Malformed and truncated signatures are rejected with the line number.
use crate::docs::{adv, doc, err_line, op, real_ent, target, Cursor, Doc, Op};
use crate::readers::{Chunky, Plan};
use crate::refsig::{self, read, End, Ent};
use crate::runner::{part, Cx, Prop, Res, Tier};
use dir_signature::v1::Parser;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Reads `text` and compares with what the reference reader makes of it.
pub fn judge(text: &[u8], ops: &[Op], plan: &Plan) -> Result<&'static str, String> {
    let want = read(text);
    let budget = text.iter().filter(|&&c| c == b'\n').count() + 6;
    let parser = Parser::new(Chunky::new(text.to_vec(), plan).buffered(plan));
    let want = match (want, parser.as_ref().err()) {
        (Err(true), None) => return Err("the header line is malformed but the parser accepts it".into()),
        (Err(true), Some(e)) => return if err_line(e) == Some(1) { Ok("header rejected") } else { Err(format!("error in the header does not name line 1: {}", e)) },
        (Err(false), _) => return Ok("header left open"),
        (Ok(_), Some(e)) => return Err(format!("the header line is fine but the parser says: {}", e)),
        (Ok(w), None) => w,
    };
    let mut parser = parser.map_err(|e| e.to_string())?;
    let mut cur = Cursor::new(&want.ents);
    let ops = if cur.sorted() { ops } else { &[] };
    let mut it = parser.iter();
    let mut i = 0;
    let mut err = None;
    loop {
        let o = ops.get(i).unwrap_or(&Op::Next);
        i += 1;
        if i > ops.len() + budget { return Err("iteration does not end".into()); }
        let (model, real, what) = match o {
            Op::Next => (cur.next().cloned(), it.next(), "next".to_string()),
            Op::Adv { i, how, sp } => {
                let (d, p) = target(&want.ents, *i, *how);
                let k = refsig::key(d, &p);
                let m = cur.advance(&k).cloned();
                let stopped = m.is_none() && !cur.done();
                let r = adv(&mut it, d, &p, *sp);
                if stopped {
                    match r {
                        None => continue,
                        Some(r) => return Err(format!("advance to {:?} returns {:?}, expected nothing", k, r)),
                    }
                }
                (m, r, format!("advance to {:?}", k))
            }
        };
        match (model, real) {
            (Some(m), Some(Ok(e))) => { let g = real_ent(&e); if g != m { return Err(format!("{}: expected {:?}, got {:?}", what, m, g)); } }
            (Some(m), Some(Err(e))) => return Err(format!("{}: expected {:?}, got the error {}", what, m, e)),
            (Some(m), None) => return Err(format!("{}: expected {:?}, got nothing", what, m)),
            (None, r) => {
                // the entries before the fault (or the end) are used up
                match (&want.end, r) {
                    (End::Clean, None) => { if i < ops.len() { continue } return Ok("clean"); }
                    (End::Clean, Some(r)) => return Err(format!("{}: item after the end: {:?}", what, r.map(|e| real_ent(&e)).map_err(|e| e.to_string()))),
                    (End::Unspec(_), r) => {
                        // anything, but finitely much
                        if r.is_none() { return Ok("left open by the format"); }
                        for _ in 0..budget { if it.next().is_none() { return Ok("left open by the format"); } }
                        return Err("iteration does not end".into());
                    }
                    (End::Reject(n), Some(Err(e))) => {
                        if err_line(&e) != Some(*n) { return Err(format!("{}: the faulty line is {}, but the error is: {}", what, n, e)); }
                        err = Some(*n);
                    }
                    (End::Extra(n), Some(Err(e))) => {
                        let l = err_line(&e);
                        if l != Some(*n) && l != Some(*n + 1) { return Err(format!("{}: there is data after the footer (line {}), but the error is: {}", what, n, e)); }
                        err = Some(*n);
                    }
                    (End::Reject(n), Some(Ok(e))) => return Err(format!("{}: line {} is malformed but was returned as {:?}", what, n, real_ent(&e))),
                    (End::Reject(n), None) => return Err(format!("{}: line {} is malformed but iteration ends cleanly", what, n)),
                    (End::Extra(n), r) => return Err(format!("{}: data after the footer (line {}) is not an error: {:?}", what, n, r.is_some())),
                }
            }
        }
        if err.is_some() { break; }
    }
    // a fault is reported once: whatever follows, the same way or another, is further down
    let mut seen = err.unwrap_or(0);
    let mut again = match ops.get(i - 1) { Some(Op::Adv { i, how, sp }) => Some((target(&want.ents, *i, *how), *sp)), _ => None };
    for _ in 0..2 * budget + 2 {
        let r = match &again { Some(((d, p), sp)) => adv(&mut it, *d, p, *sp), None => it.next() };
        match r {
            None if again.is_some() => again = None,
            None => return Ok("rejected"),
            Some(Err(e)) => if let Some(n) = err_line(&e) {
                if n <= seen { return Err(format!("after the error at line {} the error at line {} is reported: {}", seen, n, e)); }
                seen = n;
            },
            Some(Ok(_)) => {}
        }
    }
    Err("iteration does not end after an error".into())
}

// ------------------------------------------------------------------------------------------ truncation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trunc { d: Doc, ops: Vec<Op>, plan: Plan }
fn check_trunc(c: &Trunc, cx: &mut Cx) -> Res {
    let text = c.d.text();
    cx.nontrivial(c.d.ents().len() > 1);
    cx.evals(text.len() as u64);
    let step = (text.len() / 1500).max(1);
    for n in (0..text.len()).step_by(step).chain(text.len().saturating_sub(70)..text.len()) {
        let plan = if n % 3 == 0 { c.plan.clone() } else { Plan { chunks: vec![], buf: 8192 } };
        match judge(&text[..n], if n % 2 == 0 { &c.ops } else { &[] }, &plan) {
            Ok("clean") => crate::runner::infra("a proper prefix read as clean by the reference"),
            Ok(_) => {}
            Err(m) => return Err(format!("truncated to {} of {} bytes: {}", n, text.len(), m)),
        }
    }
    cx.class("truncated at every byte");
    Ok(())
}
fn st_trunc(_: Tier) -> BoxedStrategy<Trunc> {
    (doc(), prop::collection::vec(op(1), 0..6), crate::gens::plan()).prop_map(|(d, ops, plan)| Trunc { d, ops, plan }).boxed()
}

// ------------------------------------------------------------------------------------------ mutation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// replace field `f` of line `l` (fields of entry lines: name, type, size or target, hashes)
    Field { l: u16, f: u8, with: String },
    DropField { l: u16, f: u8 },
    AddField { l: u16, f: u8, with: String },
    DoubleSpace { l: u16, f: u8 },
    /// number of leading spaces and whether a tab
    Indent { l: u16, with: String },
    Trail { l: u16, with: String },
    Insert { l: u16, with: String },
    Remove { l: u16 },
    Dup { l: u16 },
    SwapLines { l: u16, m: u16 },
    /// one more, one less, shorter, longer, non-hex hash
    Hash { l: u16, how: u8 },
    /// size field off by this many bytes (or blocks)
    Size { l: u16, how: u8 },
    Footer { how: u8 },
    After { with: String },
    Byte { at: u32, op: u8, b: u8 },
    /// a character of several bytes put in, or in place of bytes, in the header (op & 4) or anywhere
    Char { at: u32, op: u8, c: char },
    Crlf { l: u16 },
}

pub fn lines(t: &[u8]) -> Vec<Vec<u8>> { t.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect() }
/// leading spaces, fields, had newline
fn fields(l: &[u8]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let core = l.strip_suffix(b"\n").unwrap_or(l);
    let n = core.iter().take_while(|&&c| c == b' ').count();
    (core[..n].to_vec(), core[n..].split(|&c| c == b' ').map(|f| f.to_vec()).collect())
}
fn unfields(lead: &[u8], f: &[Vec<u8>]) -> Vec<u8> { [lead, &f.join(&b' '), b"\n"].concat() }

pub fn edit(t: &mut Vec<u8>, e: &Edit, bs: u64) {
    if t.is_empty() { return; }
    let mut ls = lines(t);
    let n = ls.len();
    let at = |l: u16| l as usize * n / 65536;
    let file_line = |l: u16, ls: &Vec<Vec<u8>>| {
        let k: Vec<usize> = (0..n).filter(|&i| { let (p, f) = fields(&ls[i]); p.len() == 2 && f.len() > 2 && f[1] != b"s" }).collect();
        if k.is_empty() { at(l) } else { k[l as usize * k.len() / 65536] }
    };
    match e {
        Edit::Field { l, f, with } => { let i = at(*l); let (p, mut v) = fields(&ls[i]); let k = *f as usize % v.len(); v[k] = with.clone().into_bytes(); ls[i] = unfields(&p, &v); }
        Edit::DropField { l, f } => { let i = at(*l); let (p, mut v) = fields(&ls[i]); let k = *f as usize % v.len(); v.remove(k); ls[i] = unfields(&p, &v); }
        Edit::AddField { l, f, with } => { let i = at(*l); let (p, mut v) = fields(&ls[i]); let k = *f as usize % (v.len() + 1); v.insert(k, with.clone().into_bytes()); ls[i] = unfields(&p, &v); }
        Edit::DoubleSpace { l, f } => { let i = at(*l); let (p, mut v) = fields(&ls[i]); let k = 1 + *f as usize % v.len(); v.insert(k.min(v.len()), vec![]); ls[i] = unfields(&p, &v); }
        Edit::Indent { l, with } => { let i = at(*l); let (_, v) = fields(&ls[i]); ls[i] = unfields(with.as_bytes(), &v); }
        Edit::Trail { l, with } => { let i = at(*l); ls[i].pop(); ls[i].extend_from_slice(with.as_bytes()); ls[i].push(b'\n'); }
        Edit::Insert { l, with } => { let mut x = with.clone().into_bytes(); x.push(b'\n'); ls.insert(at(*l) + 1, x); }
        Edit::Remove { l } => { ls.remove(at(*l)); }
        Edit::Dup { l } => { let x = ls[at(*l)].clone(); ls.insert(at(*l), x); }
        Edit::SwapLines { l, m } => { let (a, b) = (at(*l), at(*m)); ls.swap(a, b); }
        Edit::Hash { l, how } => {
            let i = file_line(*l, &ls);
            let (p, mut v) = fields(&ls[i]);
            let h = vec![b'a'; 64];
            let last = v.len() - 1;
            let last = v.len() - 1;
            let has = v.len() > 3 && v[3].len() == 64 && v[last].len() == 64;
            match how % 10 {
                0 => v.push(h),
                1 => { if has { v.pop(); } else { v.push(h); } }
                2 => if has { v[last].pop(); },
                3 => if has { v[last].push(b'0'); },
                4 => if has { v[last].truncate(62); },
                5 => if has { v[last].extend_from_slice(b"00"); },
                6 => if has { let k = *l as usize % 64; v[last][k % 32] = b'g'; },
                7 => if has { v[3][63] = [b'G', b'-', b'/', b':', b'@', b'`', 0xff, b'\t'][*l as usize % 8]; },
                8 => if has { let x = v[last].clone(); v[last] = x[..32].to_vec(); v.push(x[32..].to_vec()); },
                _ => if v.len() > 4 { let x = v.remove(4); v[3].extend_from_slice(&x); } else { v.push(h.clone()); v.push(h) },
            }
            ls[i] = unfields(&p, &v);
        }
        Edit::Size { l, how } => {
            let i = file_line(*l, &ls);
            let (p, mut v) = fields(&ls[i]);
            if v.len() > 2 {
                let s: u64 = std::str::from_utf8(&v[2]).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
                v[2] = match how % 12 {
                    0 => s.wrapping_add(bs).to_string(), 1 => s.saturating_sub(bs).to_string(), 2 => (s as u128 + (1u128 << 64)).to_string(),
                    3 => "18446744073709551615".into(), 4 => "18446744073709551616".into(), 5 => format!("-{}", s), 6 => format!("{}x", s),
                    7 => format!("0x{:x}", s), 8 => "".into(), 9 => "9223372036854775808".into(), 10 => format!("{}.0", s), _ => format!("{}", s as u128 + (bs as u128) * 1_000_000),
                }.into_bytes();
            }
            ls[i] = unfields(&p, &v);
        }
        Edit::Footer { how } => {
            let x = ls.last_mut().unwrap();
            match how % 12 {
                0 => { ls.pop(); } 1 => { let x = ls.last().unwrap().clone(); ls.push(x); } 2 => { x.remove(0); } 3 => x.insert(0, b'0'), 4 => { let k = 2.min(x.len()); x.drain(..k); }
                5 => { x.pop(); x.extend_from_slice(b"00\n"); } 6 => { let k = 5.min(x.len() - 1); x[k] = b'g' } 7 => x.insert(0, b' '), 8 => { x.pop(); x.extend_from_slice(b" x\n"); } 9 => { x.insert(0, b' '); x.insert(0, b' '); }
                10 => { x.pop(); x.push(b' '); x.extend_from_slice(&[b'a'; 64]); x.push(b'\n'); } _ => { let n = x.len() / 2; x.insert(n, b' '); }
            }
        }
        Edit::After { with } => ls.push(with.clone().into_bytes()),
        Edit::Crlf { l } => { let i = at(*l); ls[i].pop(); ls[i].extend_from_slice(b"\r\n"); }
        Edit::Char { at, op, c } => {
            let n = if op & 4 != 0 { ls[0].len() } else { ls.iter().map(|l| l.len()).sum() };
            let mut x = ls.concat();
            let k = *at as usize % n.max(1);
            let w = c.to_string().into_bytes();
            let end = (k + match op % 4 { 0 => w.len(), 1 => 1, _ => 0 }).min(x.len());
            x.splice(k..end, w);
            *t = x;
            return;
        }
        Edit::Byte { at, op, b } => {
            let mut x = ls.concat();
            let k = *at as usize % x.len();
            match op % 4 { 0 => x[k] ^= (*b).max(1), 1 => x[k] = *b, 2 => x.insert(k, *b), _ => { x.remove(k); } }
            *t = x;
            return;
        }
    }
    *t = ls.concat();
}

pub fn word() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["", "f", "x", "s", "F", "X", "S", "d", "l", "ff", "fx", "0", "1", "-1", "+1", "00", "1e3", "0x10", "32768", "32769", "18446744073709551615", "18446744073709551616", "/", "/a", "..", ".", "a",
            "DIRSIGNATURE.v1", "DIRSIGNATURE.v2", "DIRSIGNATURE", "DIRSIGNATURE.", "DIRSIGNATURE.v1.1", "dirsignature.v1", "DIRSIGNATURE.V1", "XDIRSIGNATURE.v1", "DIRSIGNATURE.v10",
            "sha512/256", "sha512", "SHA512/256", "blake2b/256", "blake3/256", "md5", "sha512/2567", "blake2/256",
            "block_size=32768", "block_size=1", "block_size=0", "block_size=", "block_size", "blocksize=1", "block_size=-1", "block_size=1k", "block_size=18446744073709551616", "Block_size=1", "block_size==1", "a=b", "block_size=1=2",
            "\\x", "\\x0", "\\xzz", "\\x2f", "\\x00", "é"]).prop_map(|s| s.to_string()),
        1 => "[0-9a-f]{64}", 1 => "[0-9a-f]{62,66}", 1 => "[ -~]{0,6}",
        // words and numbers the code mentions
        1 => (crate::dict::word(), 0u8..6).prop_map(|(w, k)| {
            let w: String = String::from_utf8_lossy(&w).into();
            match k { 0 => w + "x", 1 => format!("x{}", w), 2 => w.to_uppercase(), 3 => w.chars().skip(1).collect(), _ => w }
        }),
        1 => (crate::dict::near(0, u64::MAX, 32768), 0u8..4).prop_map(|(n, k)| match k { 0 => format!("block_size={}", n), 1 => format!("{:02x}", n), 2 => (n as u8 as char).to_string(), _ => n.to_string() }),
    ].boxed()
}
fn linetext() -> BoxedStrategy<String> {
    prop_oneof![3 => prop::sample::select(vec!["", " ", "  ", "   ", "\t", "/", "/a", "//", "/ ", "a", "  a", "  a f", "  a f 0", "  a f 1", "  a x 0 ", "  a s", "  a s ", "  a s b c", "   a f 0", " a f 0", "\ta f 0", "  a  f 0", "  a f  0", "DIRSIGNATURE.v1 sha512/256 block_size=32768", "#", "\r", "/a b", "/a/b f 0"]).prop_map(|s| s.to_string()),
        1 => word(), 1 => (word(), word(), word()).prop_map(|(a, b, c)| format!("  {} {} {}", a, b, c)), 1 => (word(), word(), word()).prop_map(|(a, b, c)| format!("{} {} {}", a, b, c))].boxed()
}
pub fn edits() -> BoxedStrategy<Edit> {
    let l = || any::<u16>();
    prop_oneof![
        3 => (prop_oneof![1 => Just(0u16), 2 => l()], any::<u8>(), word()).prop_map(|(l, f, with)| Edit::Field { l, f, with }),
        2 => (prop_oneof![1 => Just(0u16), 2 => l()], any::<u8>()).prop_map(|(l, f)| Edit::DropField { l, f }),
        2 => (l(), any::<u8>(), word()).prop_map(|(l, f, with)| Edit::AddField { l, f, with }),
        2 => (l(), any::<u8>()).prop_map(|(l, f)| Edit::DoubleSpace { l, f }),
        2 => (l(), prop::sample::select(vec!["", " ", "   ", "\t", "  \t", "\t\t", " \t", "    "])).prop_map(|(l, w)| Edit::Indent { l, with: w.into() }),
        1 => (l(), prop::sample::select(vec![" ", "  ", "\t", " x", "/", "0", "\r", "\0", " 0", " f"])).prop_map(|(l, w)| Edit::Trail { l, with: w.into() }),
        2 => (l(), linetext()).prop_map(|(l, with)| Edit::Insert { l, with }),
        1 => l().prop_map(|l| Edit::Remove { l }), 1 => l().prop_map(|l| Edit::Dup { l }), 1 => (l(), l()).prop_map(|(l, m)| Edit::SwapLines { l, m }),
        4 => (l(), any::<u8>()).prop_map(|(l, how)| Edit::Hash { l, how }),
        3 => (l(), any::<u8>()).prop_map(|(l, how)| Edit::Size { l, how }),
        3 => any::<u8>().prop_map(|how| Edit::Footer { how }),
        1 => linetext().prop_map(|w| Edit::After { with: w }), 1 => linetext().prop_map(|w| Edit::After { with: w + "\n" }),
        5 => (any::<u32>(), any::<u8>(), prop_oneof![any::<u8>(), prop::sample::select(b" \n\t/\\0agfxs=.".to_vec())]).prop_map(|(at, op, b)| Edit::Byte { at, op, b }),
        1 => l().prop_map(|l| Edit::Crlf { l }),
        1 => (any::<u32>(), any::<u8>(), prop::sample::select(vec!['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{a0}', '\u{3000}', '\u{ff10}', '\u{661}', '\u{17f}'])).prop_map(|(at, op, c)| Edit::Char { at, op, c }),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutated { d: Doc, edits: Vec<Edit>, ops: Vec<Op>, plan: Plan }
fn check_mut(c: &Mutated, cx: &mut Cx) -> Res {
    let mut text = c.d.text();
    for e in &c.edits { edit(&mut text, e, c.d.bs); }
    let outcome = judge(&text, &c.ops, &c.plan)?;
    cx.nontrivial(outcome.contains("rejected"));
    cx.class(outcome);
    if outcome == "rejected" && c.edits.len() == 1 {
        let s = format!("{:?}", c.edits[0]);
        cx.class(&format!("edit {}", s.split([' ', '(']).next().unwrap()));
    }
    let before = read(&text).map(|d| d.ents.len()).unwrap_or(0);
    cx.class_if(outcome == "rejected" && before > 0 && c.ops.iter().any(|o| *o != Op::Next), "fault reached with advance");
    Ok(())
}
fn st_mut(_: Tier) -> BoxedStrategy<Mutated> {
    (doc(), prop_oneof![4 => prop::collection::vec(edits(), 1..2), 1 => prop::collection::vec(edits(), 2..4)],
     prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(op(1), 1..7), 1 => Just(vec![Op::Adv { i: 0, how: 10, sp: 0 }])], crate::gens::plan())
        .prop_map(|(d, edits, ops, plan)| Mutated { d, edits, ops, plan }).boxed()
}
/// A read error is reported too.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken { d: Doc, at: u16, plan: Plan }
fn check_io(c: &Broken, cx: &mut Cx) -> Res {
    let (text, ents) = (c.d.text(), c.d.ents());
    let at = c.at as u64 * (text.len() as u64 + 1) / 65536;
    let r = Chunky::new(text.clone(), &c.plan).failing(Some(at)).buffered(&c.plan);
    cx.nontrivial(ents.len() > 1);
    let mut p = match Parser::new(r) { Ok(p) => p, Err(_) => { cx.class("failed in the header"); return if text[..at as usize].contains(&b'\n') { Err("header was readable".into()) } else { Ok(()) } } };
    let whole = text[..at as usize].iter().filter(|&&c| c == b'\n').count();
    let mut n = 0;
    for e in p.iter() {
        match e {
            Ok(e) => { if ents.get(n) != Some(&real_ent(&e)) { return Err(format!("entry {}: expected {:?}, got {:?}", n, ents.get(n), real_ent(&e))); } n += 1; }
            Err(_) => { cx.class("read error reported"); return if n + 1 >= whole.min(ents.len() + 1) { Ok(()) } else { Err(format!("error after {} entries, {} lines were readable", n, whole)) } }
        }
    }
    Err(format!("reader fails after {} of {} bytes but iteration ends cleanly after {} entries", at, text.len(), n))
}
fn st_io(_: Tier) -> BoxedStrategy<Broken> { (doc(), prop_oneof![4 => any::<u16>(), 1 => Just(65535)], crate::gens::plan()).prop_map(|(d, at, plan)| Broken { d, at, plan }).boxed() }

/// Faults behind lines and numbers of lines of any length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase { l: crate::docs::Long, e: Edit, cut: Option<u32>, ops: Vec<Op>, plan: Plan }
fn check_long(c: &LongCase, cx: &mut Cx) -> Res {
    let mut text = c.l.text();
    let big = c.l.class(cx);
    match c.cut { Some(n) => { let n = n as usize % text.len(); text.truncate(n) } None => edit(&mut text, &c.e, c.l.bs) }
    let outcome = judge(&text, &c.ops, &c.plan)?;
    cx.nontrivial(big && outcome == "rejected");
    cx.class(outcome);
    Ok(())
}
fn st_long(_: Tier) -> BoxedStrategy<LongCase> {
    (crate::docs::long(), edits(), prop::option::weighted(0.3, any::<u32>()), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(op(1), 0..6), 1 => Just(vec![Op::Adv { i: 0, how: 10, sp: 0 }])], crate::gens::plan())
        .prop_map(|(l, e, cut, ops, plan)| LongCase { l, e, cut, ops, plan }).boxed()
}
fn fixed_long() -> Vec<LongCase> {
    let mut v = vec![];
    for l in crate::docs::long_fixed() {
        for e in [Edit::After { with: "x".into() }, Edit::Trail { l: 65_535, with: " 0".into() }, Edit::Trail { l: 65_000, with: "  ".into() }, Edit::Hash { l: 0, how: 0 }, Edit::Hash { l: 0, how: 3 }, Edit::Footer { how: 0 }, Edit::Footer { how: 6 }] {
            v.push(LongCase { l: l.clone(), e, cut: None, ops: vec![], plan: Plan { chunks: vec![], buf: 8192 } });
        }
    }
    v
}
pub fn ents_of(_: &Ent) {}
pub fn prop() -> Prop {
    Prop {
        id: "C12", level: "exploration", rule: "the text is definitely malformed (parts mutate), or cut from a signature of at least two entries (trunc, io), some length exceeding 1000 (long)",
        assumptions: &["text the format neither defines nor excludes (odd escapes, leading zeros, trailing space, upper-case hex) may be accepted or rejected", "which entries follow a reported fault is left open, only that iteration ends"],
        parts: vec![part("trunc", [1000, 30_000], st_trunc, || vec![], check_trunc), part("mutate", [150_000, 3_000_000], st_mut, || vec![], check_mut),
            part("io", [20_000, 300_000], st_io, || vec![], check_io), part("long", [400, 8000], st_long, fixed_long, check_long)],
    }
}
