use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, serde::Deserialize)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { match self { Tier::Quick => "quick", Tier::Thorough => "thorough" } }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
}

/// A problem of the harness or its environment: never a violation.
pub fn infra(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    let _ = std::io::stderr().flush();
    unsafe { libc::_exit(3) }
}
pub fn must<T, E: Debug>(r: Result<T, E>, what: &str) -> T {
    match r { Ok(x) => x, Err(e) => infra(&format!("{}: {:?}", what, e)) }
}

// ---------------------------------------------------------------- panics

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
/// Payload for panics the harness raises on behalf of an oracle (e.g. a read budget that ran out).
pub struct OraclePanic(pub String);
pub fn oracle_panic(msg: String) -> ! { std::panic::panic_any(OraclePanic(msg)) }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(o) = info.payload().downcast_ref::<OraclePanic>() { o.0.clone() }
            else if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".into() };
        let oracle = info.payload().is::<OraclePanic>();
        if !oracle && (loc.starts_with("src/") || loc.contains("/proptest-")) {
            infra(&format!("panic in the harness at {}: {}", loc, msg));
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, loc));
    }));
}

/// Runs code under test; a panic becomes Err(description).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            if let Some(o) = p.downcast_ref::<OraclePanic>() { return Err(o.0.clone()); }
            let l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            Err(match l { Some((m, loc)) => format!("panicked at {}: {}", loc, m), None => "panicked".into() })
        }
    }
}

// ---------------------------------------------------------------- known findings

/// Lines `known: property=<id> key=<key> <text>` of known-findings.txt
pub fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let p = verif_dir().join("known-findings.txt");
    let text = std::fs::read_to_string(&p).unwrap_or_default();
    let mut m = BTreeMap::new();
    for line in text.lines() {
        let l = match line.strip_prefix("known: ") { Some(l) => l, None => continue };
        let mut it = l.splitn(3, ' ');
        let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if a.strip_prefix("property=") == Some(prop) {
            if let Some(k) = b.strip_prefix("key=") { m.insert(k.to_string(), c.to_string()); }
        }
    }
    m
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VP_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- context

pub struct Cx {
    pub tier: Tier,
    pub dir: PathBuf,
    pub shard: u32,
    pub prop: String,
    known_list: BTreeMap<String, String>,
    counting: bool,
    evals: u64,
    nontrivial: HashSet<u64>,
    cur: Option<u64>,
    cur_json: String,
    cur_nt: bool,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    seq: u64,
    deadline: Instant,
}

impl Cx {
    pub fn nontrivial(&mut self, yes: bool) { if yes { self.cur_nt = true; } }
    pub fn class(&mut self, c: &str) { if self.counting { *self.classes.entry(c.into()).or_insert(0) += 1; } }
    pub fn class_if(&mut self, yes: bool, c: &str) { if yes { self.class(c) } }
    /// Further executions inside one case (e.g. one per fault position).
    pub fn evals(&mut self, n: u64) { if self.counting { self.evals += n; } }
    /// A deviation that is exactly a listed known finding; anything else must be an Err.
    pub fn known(&mut self, key: &str, detail: &str) -> Res {
        if self.known_list.contains_key(key) {
            if self.counting { *self.known.entry(key.into()).or_insert(0) += 1; }
            Ok(())
        } else {
            Err(format!("[{}] {}", key, detail))
        }
    }
    /// Restarts the watchdog, between steps that take seconds each.
    pub fn alive(&self) { CASE_NO.fetch_add(1, SeqCst); }
    /// This case has one long step (gigabytes of data): it gets more time before it counts as hanging.
    pub fn long_case(&self) { HANG_MORE.store(400, SeqCst); }
    /// Fresh, empty scratch directory for this case.
    pub fn fresh(&mut self) -> PathBuf {
        self.seq += 1;
        let p = self.dir.join(format!("w{}", self.seq));
        must(std::fs::create_dir(&p), "create scratch");
        p
    }
    pub fn cleanup(&mut self, p: &Path) {
        assert!(p.starts_with(&self.dir));
        crate::fsops::remove_tree(p);
    }
}

// ---------------------------------------------------------------- properties and parts

pub struct Failure { pub part: String, pub case: Value, pub msg: String }

pub struct Part {
    pub name: &'static str,
    pub cases: [u32; 2],
    run: Box<dyn Fn(&str, u64, u32, u32, u32, &mut Cx, &Journal) -> Option<Failure>>,
    replay: Box<dyn Fn(&Value, &mut Cx) -> Res>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

pub struct Journal { file: std::fs::File, len: RefCell<usize> }
impl Journal {
    fn put(&self, s: &str) {
        must(self.file.write_all_at(s.as_bytes(), 0), "journal");
        if s.len() < *self.len.borrow() { must(self.file.set_len(s.len() as u64), "journal"); }
        *self.len.borrow_mut() = s.len();
    }
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static HANG_MORE: AtomicU64 = AtomicU64::new(0);

fn one<C: Serialize>(part: &str, case: &C, check: fn(&C, &mut Cx) -> Res, cx: &mut Cx, j: Option<&Journal>) -> Res {
    CASE_NO.fetch_add(1, SeqCst);
    HANG_MORE.store(0, SeqCst);
    let js = must(serde_json::to_string(case), "serialise case");
    if let Some(j) = j { j.put(&format!("{{\"part\":{},\"case\":{}}}", json!(part), js)); }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (part, &js).hash(&mut h);
    cx.cur = Some(h.finish());
    cx.cur_json = js;
    cx.cur_nt = false;
    if cx.counting { cx.evals += 1; }
    let r = match catch(|| check(case, cx)) { Ok(r) => r, Err(p) => Err(p) };
    crate::interpose::reset();
    if cx.counting && r.is_ok() {
        if cx.cur_nt {
            let fresh = cx.nontrivial.insert(cx.cur.unwrap());
            if fresh && cx.nontrivial.len() % 7 == 1 && cx.cur_json.len() <= 700
                && cx.samples.iter().filter(|s| s.starts_with(part)).count() == 0 {
                cx.samples.push(format!("{}: {}", part, cx.cur_json));
            }
        }
    }
    r
}

pub fn part<C>(name: &'static str, cases: [u32; 2], strategy: fn(Tier) -> BoxedStrategy<C>,
    fixed: fn() -> Vec<C>, check: fn(&C, &mut Cx) -> Res) -> Part
where C: Serialize + DeserializeOwned + Debug + Clone + 'static
{
    Part {
        name, cases,
        run: Box::new(move |prop, seed, shard, nshards, ncases, cx, j| {
            let fail = |c: &C, msg: String| Some(Failure { part: name.into(), case: serde_json::to_value(c).unwrap(), msg });
            for (i, c) in fixed().iter().enumerate() {
                if i as u32 % nshards != shard { continue; }
                if let Err(m) = one(name, c, check, cx, Some(j)) { return fail(c, m); }
            }
            let mut bytes = [0u8; 32];
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (prop, name, seed, shard).hash(&mut h);
            bytes[..8].copy_from_slice(&h.finish().to_le_bytes());
            bytes[8..16].copy_from_slice(&seed.to_le_bytes());
            bytes[16..20].copy_from_slice(&shard.to_le_bytes());
            let n = ncases / nshards + u32::from(shard < ncases % nshards);
            if n == 0 { return None; }
            let config = Config {
                cases: n, failure_persistence: None, max_shrink_iters: 6000, max_shrink_time: 40_000,
                max_global_rejects: 100_000, max_local_rejects: 100_000, ..Config::default()
            };
            let mut tr = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
            let st = strategy(cx.tier);
            let cell = RefCell::new(cx);
            let expired = std::cell::Cell::new(false);
            let r = tr.run(&st, |c| {
                let mut g = cell.borrow_mut();
                // On a machine too slow for all the cases: the rest is left out, and the evidence counts fewer.
                if expired.get() { return Ok(()); }
                if g.counting && Instant::now() > g.deadline {
                    expired.set(true);
                    g.class("cases left out: out of time");
                    return Err(TestCaseError::fail("out of time"));
                }
                match one(name, &c, check, &mut **g, Some(j)) {
                    Ok(()) => Ok(()),
                    Err(m) => { g.counting = false; Err(TestCaseError::fail(m)) }
                }
            });
            match r {
                Ok(()) => None,
                Err(TestError::Fail(..)) if expired.get() => None,
                Err(TestError::Fail(why, c)) => fail(&c, why.message().to_string()),
                Err(TestError::Abort(why)) => infra(&format!("proptest aborted: {}", why)),
            }
        }),
        replay: Box::new(move |v, cx| {
            let c: C = must(serde_json::from_value(v.clone()), "replay case");
            one(name, &c, check, cx, None)
        }),
    }
}

// ---------------------------------------------------------------- worker

fn new_cx(prop: &str, tier: Tier, dir: PathBuf, shard: u32) -> Cx {
    Cx { tier, dir, shard, prop: prop.into(), known_list: known_findings(prop), counting: true, evals: 0,
        nontrivial: HashSet::new(), cur: None, cur_json: String::new(), cur_nt: false, classes: BTreeMap::new(),
        known: BTreeMap::new(), samples: vec![], seq: 0, deadline: Instant::now() + Duration::from_secs(1 << 20) }
}

fn scale() -> f64 { std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) }

pub fn worker(props: Vec<Prop>, id: &str, shard: u32, nshards: u32, dir: &Path, seed: u64, tier: Tier) -> i32 {
    install_hook();
    crate::digest::self_test();
    unsafe { libc::umask(0); }
    // Cases take milliseconds; one that is still running after this long does not terminate.
    let hang = if tier.thorough() { 240 } else { 75 };
    let hang_file = dir.join("hang");
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = CASE_NO.load(SeqCst);
            if n != last { last = n; since = Instant::now(); }
            else if n > 0 && since.elapsed() > Duration::from_secs(hang + HANG_MORE.load(SeqCst)) {
                let _ = std::fs::write(&hang_file, "1");
                unsafe { libc::_exit(4) }
            }
        }
    });
    let prop = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| infra("no such property"));
    crate::interpose::set_base_threads(2);
    crate::interpose::self_test(dir);
    let mut cx = new_cx(id, tier, dir.to_path_buf(), shard);
    let j = Journal { file: must(std::fs::File::create(dir.join("current.json")), "journal"), len: RefCell::new(0) };
    let mut failure = None;
    if shard == 0 {
        let cd = verif_dir().join("corpus").join(id);
        let mut files: Vec<_> = std::fs::read_dir(&cd).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            let v: Value = must(serde_json::from_slice(&must(std::fs::read(&f), "corpus")), "corpus json");
            let pn = v["part"].as_str().unwrap_or("");
            let p = prop.parts.iter().find(|p| p.name == pn).unwrap_or_else(|| infra(&format!("corpus {:?}: unknown part", f)));
            j.put(&v.to_string());
            cx.class("corpus replay");
            if let Err(m) = (p.replay)(&v["case"], &mut cx) {
                failure = Some(Failure { part: pn.into(), case: v["case"].clone(), msg: m });
                break;
            }
        }
    }
    let only = std::env::var("VP_PART").ok();
    if failure.is_none() {
        let (t0, budget) = (Instant::now(), Duration::from_secs(if tier.thorough() { 5 * 3600 } else { std::env::var("VP_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(480) }));
        for (i, p) in prop.parts.iter().enumerate() {
            cx.deadline = t0 + budget * (i as u32 + 1) / prop.parts.len() as u32;
            if only.as_ref().map_or(false, |o| o != p.name) { continue; }
            let n = (p.cases[tier.thorough() as usize] as f64 * scale()).ceil() as u32;
            let t = Instant::now();
            failure = (p.run)(id, seed, shard, nshards, n, &mut cx, &j);
            if std::env::var_os("VP_TIMES").is_some() { eprintln!("TIME {} shard {}: {:.1}s", p.name, shard, t.elapsed().as_secs_f64()); }
            if failure.is_some() { break; }
        }
    }
    j.put("");
    let out = json!({
        "evals": cx.evals, "nontrivial": cx.nontrivial.iter().cloned().collect::<Vec<u64>>(), "classes": cx.classes,
        "known": cx.known, "samples": cx.samples,
        "failure": failure.map(|f| json!({"part": f.part, "case": f.case, "msg": f.msg})),
    });
    must(std::fs::write(dir.join("result.json"), out.to_string()), "result");
    0
}

// ---------------------------------------------------------------- parent

pub fn env_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick }
}

pub fn make_scratch(id: &str) -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(base).join(format!("vp-{}-{}", id, std::process::id()));
        if std::fs::create_dir(&p).is_ok() {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
            return p;
        }
    }
    infra("no scratch directory")
}

pub fn run(props: Vec<Prop>, id: &str) -> i32 {
    let t0 = Instant::now();
    let (seed, tier) = (env_seed(), env_tier());
    let prop = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| infra("no such property"));
    let scratch = make_scratch(id);
    let nshards: u32 = 8;
    let exe = must(std::env::current_exe(), "exe");
    let mut kids = vec![];
    for s in 0..nshards {
        let d = scratch.join(format!("s{}", s));
        must(std::fs::create_dir(&d), "shard dir");
        let log = must(std::fs::File::create(scratch.join(format!("log{}", s))), "log");
        let c = std::process::Command::new(&exe)
            .args(["worker", id, &s.to_string(), &nshards.to_string()]).arg(&d)
            .args([seed.to_string(), tier.name().to_string()])
            .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(log)
            .spawn();
        kids.push((s, d, must(c, "spawn worker")));
    }
    let limit = Duration::from_secs(if tier.thorough() { 6 * 3600 } else { 840 });
    let mut problems: Vec<String> = vec![];
    let mut failure: Option<Value> = None;
    let (mut evals, mut nt, mut classes, mut known, mut samples) =
        (0u64, BTreeSet::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new(), vec![]);
    for (s, d, mut k) in kids {
        let st = loop {
            if let Some(st) = must(k.try_wait(), "wait") { break Some(st); }
            if t0.elapsed() > limit { let _ = k.kill(); let _ = k.wait(); break None; }
            std::thread::sleep(Duration::from_millis(20));
        };
        let log = std::fs::read_to_string(scratch.join(format!("log{}", s))).unwrap_or_default();
        let tail: String = log.lines().filter(|l| l.contains("HARNESS-ERROR") || l.starts_with("DEBUG") || l.starts_with("TIME")).take(40).collect::<Vec<_>>().join("\n");
        if !tail.is_empty() { eprintln!("[shard {}] {}", s, tail); }
        let st = match st { Some(st) => st, None => { problems.push(format!("shard {} ran out of time", s)); continue } };
        if let Some(sig) = st.signal() {
            let cur = std::fs::read_to_string(d.join("current.json")).unwrap_or_default();
            match (sig, serde_json::from_str::<Value>(&cur)) {
                (libc::SIGABRT, Ok(mut v)) | (libc::SIGSEGV, Ok(mut v)) | (libc::SIGBUS, Ok(mut v)) | (libc::SIGILL, Ok(mut v)) => {
                    let last: String = log.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
                    v["msg"] = json!(format!("process killed by signal {} while running this case: {}", sig, last));
                    if failure.is_none() { failure = Some(v); }
                }
                _ => problems.push(format!("shard {} killed by signal {}", s, sig)),
            }
            continue;
        }
        if st.code() == Some(4) && d.join("hang").exists() {
            let cur = std::fs::read_to_string(d.join("current.json")).unwrap_or_default();
            match serde_json::from_str::<Value>(&cur) {
                Ok(mut v) => { v["msg"] = json!("this case did not terminate (ran for more than a minute; such cases take milliseconds)"); if failure.is_none() { failure = Some(v); } }
                Err(_) => problems.push(format!("shard {} hung outside a case", s)),
            }
            continue;
        }
        if st.code() != Some(0) { problems.push(format!("shard {} exited with {:?}: {}", s, st.code(), tail)); continue; }
        let v: Value = match std::fs::read(d.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v, None => { problems.push(format!("shard {}: no result", s)); continue }
        };
        evals += v["evals"].as_u64().unwrap_or(0);
        for x in v["nontrivial"].as_array().unwrap() { nt.insert(x.as_u64().unwrap()); }
        for (k, x) in v["classes"].as_object().unwrap() { *classes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap(); }
        for (k, x) in v["known"].as_object().unwrap() { *known.entry(k.clone()).or_insert(0) += x.as_u64().unwrap(); }
        for x in v["samples"].as_array().unwrap() { samples.push(x.clone()); }
        if failure.is_none() && !v["failure"].is_null() { failure = Some(v["failure"].clone()); }
    }
    crate::fsops::remove_tree(&scratch);
    let listed = known_findings(id);
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={} {} (seen in {} cases; key={})", id, listed.get(k).cloned().unwrap_or_default(), n, k);
    }
    samples.sort_by_key(|s| s.as_str().map(|s| s.split(':').next().unwrap_or("").to_string()));
    let mut per = BTreeMap::<String, u32>::new();
    samples.retain(|s| { let n = per.entry(s.as_str().unwrap_or("").split(':').next().unwrap_or("").to_string()).or_insert(0); *n += 1; *n <= 3 });
    let mut cov = json!({
        "evaluations": evals, "distinct_nontrivial": nt.len(), "rule": prop.rule, "samples": samples,
        "classes": classes, "known_finding_cases": known, "shards": nshards,
    });
    if !problems.is_empty() { cov["problems"] = json!(problems); }
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": prop.level, "coverage": cov,
        "assumptions": prop.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": failure.is_some() as u32,
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    must(std::fs::write(evd.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()), "evidence");
    println!("{} {} seed={}: {} evaluations, {} distinct non-trivial, {:.1}s", id, tier.name(), seed, evals, nt.len(), t0.elapsed().as_secs_f64());
    if let Some(f) = failure {
        let body = json!({"property": id, "part": f["part"], "case": f["case"], "msg": f["msg"]});
        let mut h = std::collections::hash_map::DefaultHasher::new();
        f["case"].to_string().hash(&mut h);
        let rd = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let p = rd.join(format!("{}-{:016x}.json", id, h.finish()));
        must(std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()), "replay file");
        let m: String = f["msg"].as_str().unwrap_or("").chars().take(1500).collect();
        println!("part {}: {}", f["part"], m);
        println!("VIOLATION property={} replay={}", id, p.display());
        return 1;
    }
    if !problems.is_empty() {
        for p in problems { println!("ERROR: {}", p); }
        return 3;
    }
    0
}

pub fn replay(props: Vec<Prop>, file: &Path) -> i32 {
    install_hook();
    crate::digest::self_test();
    unsafe { libc::umask(0); }
    let v: Value = must(serde_json::from_slice(&must(std::fs::read(file), "read")), "json");
    let id = v["property"].as_str().unwrap_or_else(|| infra("no property")).to_string();
    let prop = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| infra("no such property"));
    let part = prop.parts.iter().find(|p| Some(p.name) == v["part"].as_str()).unwrap_or_else(|| infra("no such part"));
    let scratch = make_scratch(&id);
    crate::interpose::set_base_threads(1);
    crate::interpose::self_test(&scratch);
    let mut cx = new_cx(&id, env_tier(), scratch.clone(), 0);
    let r = (part.replay)(&v["case"], &mut cx);
    crate::fsops::remove_tree(&scratch);
    for k in cx.known.keys() { println!("KNOWN-FINDING: property={} key={}", id, k); }
    match r {
        Ok(()) => { println!("ok: {} holds on {}", id, file.display()); 0 }
        Err(m) => { println!("{}", m); println!("VIOLATION property={} replay={}", id, file.display()); 1 }
    }
}
