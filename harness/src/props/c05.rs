//! Signatures are reproducible.
use crate::fsops::{self, How};
use crate::gens::{self, TreeOpt, TREE};
use crate::interpose::Script;
use crate::model::Tree;
use crate::refsig::{diff, show};
use crate::runner::{must, part, Cx, Prop, Res, Tier};
use crate::scanlib::{scan_with, Cfg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { t: Tree, a: How, b: How, spell: u8, spell_b: u8, permute: (u64, u64), cfg: Cfg,
    /// environment variables of the second scans, and their umask
    #[serde(default)]
    env: Vec<(String, String)>, #[serde(default)] umask: u16 }

/// Different spellings of the same directory; the scanned tree is `<d>/t`.
fn spell(d: &Path, n: u8) -> PathBuf {
    let name = Path::new("t");
    match n {
        0 => d.join(name),
        1 => PathBuf::from(format!("{}/t/", d.display())),
        2 => PathBuf::from(format!("{}//./t/.", d.display())),
        3 => PathBuf::from(format!("{}/aside/../t", d.display())),
        4 => d.join("link"),
        5 => { must(std::env::set_current_dir(d), "cd"); PathBuf::from("t") }
        6 => { must(std::env::set_current_dir(d), "cd"); PathBuf::from("./t/") }
        7 => { must(std::env::set_current_dir(d.join("t")), "cd"); PathBuf::from(".") }
        8 => { must(std::env::set_current_dir(d.join("aside")), "cd"); PathBuf::from("../link") }
        9 => d.join("aside/link2"),
        _ => PathBuf::from(format!("/proc/self/cwd/{}", { must(std::env::set_current_dir(d), "cd"); "t" })),
    }
}

fn check(c: &Case, cx: &mut Cx) -> Res {
    let mut outs = vec![];
    let mut res = Ok(());
    for (i, (how, sp, pm)) in [(&c.a, c.spell, c.permute.0), (&c.b, c.spell_b, c.permute.1)].iter().enumerate() {
        let base = cx.fresh();
        // a location whose own name needs escaping and differs in length
        let d = if i == 0 { base.join("x") } else { base.join(std::ffi::OsStr::from_bytes(b"o th\\er\x01\xff")) };
        must(std::fs::create_dir(&d), "dir");
        must(std::fs::create_dir(d.join("t")), "dir");
        must(std::fs::create_dir(d.join("aside")), "dir");
        must(std::os::unix::fs::symlink("t", d.join("link")), "link");
        must(std::os::unix::fs::symlink("../link", d.join("aside/link2")), "link");
        fsops::make(&d.join("t"), &c.t, how);
        let n = if i == 1 && *sp < 5 && *sp != 0 && *sp != 4 { 0 } else { *sp }; // spellings built with display() need a plain location
        for again in 0..2 {
            let p = spell(&d, n);
            let old: Vec<_> = if i == 1 { c.env.iter().map(|(k, v)| { let o = std::env::var_os(k); std::env::set_var(k, v); (k, o) }).collect() } else { vec![] };
            let mask = unsafe { libc::umask(if i == 1 { c.umask as libc::mode_t & 0o777 } else { 0o22 }) };
            let r = scan_with(&p, &c.cfg, &Script { permute: if again == 0 { *pm } else { 0 }, ..Script::default() });
            unsafe { libc::umask(mask); }
            for (k, o) in old.into_iter().rev() { match o { Some(o) => std::env::set_var(k, o), None => std::env::remove_var(k) } }
            must(std::env::set_current_dir("/"), "cd /");
            match r { Ok(o) => outs.push(o), Err(e) => res = Err(format!("scan of spelling {} failed: {}", n, e)) }
        }
        cx.cleanup(&base);
    }
    res?;
    cx.nontrivial(crate::model::count(&c.t) >= 2);
    cx.class_if(c.a.hardlinks != c.b.hardlinks, "hard links on one side");
    cx.class_if(c.a.mode_xor != c.b.mode_xor, "irrelevant mode bits differ");
    cx.class_if(!c.env.is_empty(), "environment differs");
    cx.class_if(c.spell != 0, "path spelled unusually");
    for (i, o) in outs.iter().enumerate().skip(1) {
        if *o != outs[0] {
            let what = ["", "scanned again", "materialised differently", "materialised differently and scanned again"][i];
            return Err(format!("output depends on more than the content ({}): {} | {}", what, diff(&outs[0], o), show(&outs[0])));
        }
    }
    Ok(())
}
fn st(_: Tier) -> BoxedStrategy<Case> {
    let o = TreeOpt { big: true, max: 16, top: 8, many: gens::MANY, ..TREE };
    (gens::tree(o), gens::how(), gens::how(), 0u8..11, 0u8..11, any::<(u64, u64)>(), gens::cfg(), env(), prop_oneof![2 => Just(0o22u16), 1 => 0u16..0o1000])
        .prop_map(|(t, a, b, spell, spell_b, permute, cfg, env, umask)| Case { t, a, b, spell, spell_b, permute, cfg, env, umask }).boxed()
}
/// Settings of the environment that programs look at, and any the code mentions.
fn env() -> BoxedStrategy<Vec<(String, String)>> {
    let mut names: Vec<String> = ["LC_ALL", "LANG", "LC_COLLATE", "TZ", "HOME", "PATH", "PWD", "TMPDIR", "USER", "RUST_LOG", "RUST_BACKTRACE", "SOURCE_DATE_EPOCH", "POSIXLY_CORRECT", "COLUMNS", "TERM", "NO_COLOR", "RAYON_NUM_THREADS", "DEBUG"].iter().map(|s| s.to_string()).collect();
    let text = |w: &Vec<u8>| String::from_utf8(w.clone()).ok().filter(|s| !s.contains('\0'));
    let words: Vec<String> = crate::dict::dict().strs.iter().chain(crate::dict::dict().novel.iter().cycle().take(crate::dict::dict().novel.len() * 9)).filter_map(text).collect();
    for w in &words { if w.len() > 2 && w.bytes().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == b'_') { for _ in 0..4 { names.push(w.clone()) } } }
    let values = ["", "0", "1", "2", "true", "no", "C", "POSIX", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "UTC", "Asia/Tokyo", "/", "/nonexistent", ".", "trace", "4096"].iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let value = prop_oneof![4 => prop::sample::select(values), 1 => prop::sample::select(if words.is_empty() { vec![String::new()] } else { words })];
    prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((prop::sample::select(names), value), 1..4)].boxed()
}
pub fn prop() -> Prop {
    Prop {
        id: "C05", level: "exploration", rule: "tree has at least two entries",
        assumptions: &["file systems' listing orders are represented by permuting readdir results"],
        parts: vec![part("twice", [14_000, 200_000], st, || vec![], check)],
    }
}
