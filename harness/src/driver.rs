//! Sharded generation, shrinking, replay, evidence.
use crate::exec::{guard, PANIC_MSG, PLANNED};
use crate::items::ledger_reset;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<X>(self, q: X, t: X) -> X {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What one case reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub known_ids: HashSet<String>,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        self.label_n(s, 1)
    }
    pub fn label_n(&mut self, s: &str, n: u64) {
        match self.labels.get_mut(s) {
            Some(x) => *x += n,
            None => {
                self.labels.insert(s.to_string(), n);
            }
        }
    }
    /// A disagreement with the signature of a finding: fine when the finding is listed.
    pub fn known(&mut self, id: &str, msg: String) -> Result<(), String> {
        if self.known_ids.contains(id) {
            *self.known.entry(id.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(msg)
        }
    }
}

pub trait Prop: 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    /// Starts other programs that need more address space than a case may use.
    const NOLIMIT: bool = false;
    /// Total number of cases over all shards.
    fn cases(t: Tier) -> u64;
    fn strategy(t: Tier) -> BoxedStrategy<Self::Case>;
    fn run(c: &Self::Case, cx: &mut Ctx) -> Result<(), String>;
}

#[derive(Serialize, Deserialize, Default)]
pub struct ShardOut {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Vec<String>>,
    pub violation: Option<Violation>,
    pub stopped_early: bool,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Violation {
    pub message: String,
    pub case: Value,
    pub trace: Vec<String>,
    pub shrink_steps: u64,
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub nolimit: bool,
    pub cases: fn(Tier) -> u64,
    pub shard: fn(&ShardArgs) -> ShardOut,
    pub replay: fn(&Value) -> (Result<(), String>, Ctx),
    pub gen: fn(Tier, u64, u64) -> Vec<Value>,
}
pub struct ShardArgs {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub cases: u64,
    pub trace_file: Option<PathBuf>,
    pub time_cap: Duration,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn known_ids(prop: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut p = None;
                let mut i = None;
                for w in rest.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p.get_or_insert(x);
                    }
                    if let Some(x) = w.strip_prefix("id=") {
                        i.get_or_insert(x);
                    }
                }
                if p == Some(prop) {
                    s.extend(i.map(|x| x.to_string()));
                }
            }
        }
    }
    s
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("CMH_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn run_case<P: Prop>(c: &P::Case, ids: &HashSet<String>) -> (Result<(), String>, Ctx) {
    ledger_reset();
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut cx = Ctx { known_ids: ids.clone(), ..Default::default() };
    let r = match guard(|| P::run(c, &mut cx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    (r, cx)
}

fn rng(seed: u64, shard: u64, salt: &str) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&shard.to_le_bytes());
    for (i, x) in salt.bytes().enumerate() {
        b[16 + i % 16] ^= x.rotate_left((i / 16) as u32);
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    crate::items::mix(h)
}

fn shard<P: Prop>(a: &ShardArgs) -> ShardOut {
    let ids = known_ids(P::ID);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng(a.seed, a.shard, P::ID));
    let strat = P::strategy(a.tier);
    let mut out = ShardOut::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let start = Instant::now();
    let mut next_sample = 1u64;
    for _ in 0..a.cases {
        if start.elapsed() > a.time_cap {
            out.stopped_early = true;
            break;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let case = tree.current();
        if let Some(f) = &a.trace_file {
            std::fs::write(f, serde_json::to_vec(&case).unwrap()).unwrap();
        }
        let (r, cx) = run_case::<P>(&case, &ids);
        out.evaluations += 1;
        for (k, v) in &cx.labels {
            *out.labels.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &cx.known {
            *out.known.entry(k.clone()).or_insert(0) += v;
        }
        match r {
            Ok(()) => {
                if cx.nontrivial {
                    out.nontrivial += 1;
                    seen.insert(fnv(&serde_json::to_vec(&case).unwrap()));
                    if out.nontrivial >= next_sample && out.samples.len() < 3 {
                        next_sample = out.nontrivial * 40 + 7;
                        let mut t = cx.trace;
                        t.truncate(40);
                        out.samples.push(t);
                    }
                }
            }
            Err(msg) => {
                let mut best = (case, msg, cx.trace);
                let mut steps = 0u64;
                let t0 = Instant::now();
                if !best.1.starts_with("HARNESS") && tree.simplify() {
                    loop {
                        steps += 1;
                        if steps > 40_000 || t0.elapsed() > Duration::from_secs(40) {
                            break;
                        }
                        let c = tree.current();
                        if let Some(f) = &a.trace_file {
                            std::fs::write(f, serde_json::to_vec(&c).unwrap()).unwrap();
                        }
                        let (r, cx) = run_case::<P>(&c, &ids);
                        match r {
                            Err(m) => {
                                best = (c, m, cx.trace);
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                out.violation = Some(Violation {
                    message: best.1,
                    case: serde_json::to_value(&best.0).unwrap(),
                    trace: best.2,
                    shrink_steps: steps,
                });
                break;
            }
        }
    }
    out.hashes = seen.into_iter().collect();
    out
}

fn replay<P: Prop>(v: &Value) -> (Result<(), String>, Ctx) {
    match serde_json::from_value::<P::Case>(v.clone()) {
        Ok(c) => run_case::<P>(&c, &known_ids(P::ID)),
        Err(e) => (Err(format!("HARNESS: cannot read case: {e}")), Ctx::default()),
    }
}
fn gen<P: Prop>(t: Tier, seed: u64, n: u64) -> Vec<Value> {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng(seed, 0, P::ID));
    let s = P::strategy(t);
    (0..n).map(|_| serde_json::to_value(s.new_tree(&mut runner).unwrap().current()).unwrap()).collect()
}

pub fn def<P: Prop>() -> PropDef {
    PropDef { id: P::ID, rule: P::RULE, nolimit: P::NOLIMIT, cases: P::cases, shard: shard::<P>, replay: replay::<P>, gen: gen::<P> }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if m == PLANNED {
            return;
        }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} ({loc})"));
        if std::env::var_os("CMH_LOUD").is_some() {
            eprintln!("panic: {m} ({loc})");
        }
    }));
}

/// CPU seconds used by this process.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}
const HUNG: i32 = 77;
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            let c = cpu();
            if p != last.0 {
                last = (p, c);
            } else if c - last.1 > limit {
                eprintln!("watchdog: one case used more than {limit} s of CPU time");
                std::process::exit(HUNG);
            }
        }
    });
}

fn spawn(args: &[String], free: bool) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let lim = if free { "" } else { "ulimit -v 3500000; " };
    Command::new("/bin/sh")
        .arg("-c")
        .arg(format!("{lim}exec \"$0\" \"$@\""))
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .spawn()
}

#[derive(Debug)]
enum End {
    Ok,
    Fail(i32),
    Hung,
    Signal(i32),
}
fn end(st: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match st.code() {
        Some(0) => End::Ok,
        Some(HUNG) => End::Hung,
        Some(c) => End::Fail(c),
        None => End::Signal(st.signal().unwrap_or(0)),
    }
}

pub fn main(props: Vec<PropDef>) -> i32 {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| props.iter().find(|p| p.id == id);
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("shard") => {
            // shard ID tier seed shard cases cap out [trace]
            let p = find(&a[1]).unwrap();
            watchdog(40.0);
            let args = ShardArgs {
                tier: tier(&a[2]),
                seed: a[3].parse().unwrap(),
                shard: a[4].parse().unwrap(),
                cases: a[5].parse().unwrap(),
                time_cap: Duration::from_secs(a[6].parse().unwrap()),
                trace_file: a.get(8).map(PathBuf::from),
            };
            let o = (p.shard)(&args);
            std::fs::write(&a[7], serde_json::to_vec(&o).unwrap()).unwrap();
            0
        }
        // replay ID FILE: exit 1 when the case violates the property
        Some("replay") => {
            let Some(p) = find(&a[1]) else { return 2 };
            watchdog(40.0);
            let t = match std::fs::read_to_string(&a[2]) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("{}: {e}", a[2]);
                    return 2;
                }
            };
            let v: Value = serde_json::from_str(&t).unwrap();
            let case = v.get("case").cloned().unwrap_or(v);
            let (r, cx) = (p.replay)(&case);
            for l in &cx.trace {
                println!("  {l}");
            }
            for (k, n) in &cx.known {
                println!("known finding {k}: {n}");
            }
            match r {
                Ok(()) => {
                    println!("property {} holds on this case", p.id);
                    0
                }
                Err(m) => {
                    println!("property {} violated: {m}", p.id);
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    1
                }
            }
        }
        // regress ID: replay all committed cases, list failures
        Some("regress") => {
            let p = find(&a[1]).unwrap();
            watchdog(40.0);
            let mut bad = 0;
            let mut known: BTreeMap<String, u64> = BTreeMap::new();
            let mut n = 0;
            let mut msgs = vec![];
            for f in regress_files(p.id) {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                let (r, cx) = (p.replay)(&v["case"]);
                n += 1;
                for (k, x) in cx.known {
                    *known.entry(k).or_insert(0) += x;
                }
                if let Err(m) = r {
                    bad += 1;
                    msgs.push(json!({"file": f, "message": m}));
                }
            }
            std::fs::write(&a[2], json!({"n": n, "bad": msgs, "known": known}).to_string()).unwrap();
            if bad > 0 { 1 } else { 0 }
        }
        Some("gen") => {
            let p = find(&a[1]).unwrap();
            for v in (p.gen)(tier(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap()) {
                println!("{v}");
            }
            0
        }
        Some("run") => {
            let Some(p) = find(&a[1]) else {
                eprintln!("unknown property {}", a[1]);
                return 2;
            };
            run(p, tier(a.get(2).map_or("quick", |s| s)))
        }
        _ => {
            eprintln!("usage: cmh run ID quick|thorough | replay ID FILE | list");
            2
        }
    }
}

fn regress_files(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root().join("regress").join(id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn tmpdir() -> PathBuf {
    let d = root().join("harness").join("target").join("run").join(format!("{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn write_replay(p: &PropDef, v: &Violation, seed: u64, tier: Tier, n: usize) -> PathBuf {
    let d = root().join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join(format!("{}-{}-{}-{}.json", p.id, tier.name(), seed, n));
    let j = json!({"property": p.id, "message": v.message, "case": v.case, "trace": v.trace, "seed": seed});
    std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    f
}

fn run(p: &PropDef, tier: Tier) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let asan = std::env::var_os("CMH_ASAN").is_some();
    let nsh: u64 = std::env::var("CMH_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("CMH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = (((p.cases)(tier) as f64) * scale) as u64;
    let cap: u64 = std::env::var("CMH_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(200, 1500));
    let tmp = tmpdir();
    let code = run_in(p, tier, seed, asan, nsh, total, cap, &tmp, start);
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

#[allow(clippy::too_many_arguments)]
fn run_in(p: &PropDef, tier: Tier, seed: u64, asan: bool, nsh: u64, total: u64, cap: u64, tmp: &Path, start: Instant) -> i32 {
    let free = asan || p.nolimit;
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();

    // 1. committed cases
    let rout = tmp.join("regress.json");
    let mut regress_n = 0u64;
    let st = spawn(&["regress".into(), p.id.into(), rout.display().to_string()], free).and_then(|mut c| c.wait());
    match st.map(end) {
        Ok(End::Ok) | Ok(End::Fail(1)) => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&rout).unwrap_or("{}".into())).unwrap();
            regress_n = v["n"].as_u64().unwrap_or(0);
            for b in v["bad"].as_array().cloned().unwrap_or_default() {
                let m = b["message"].as_str().unwrap_or("").to_string();
                if m.starts_with("HARNESS:") {
                    errors.push(m);
                } else {
                    violations.push((PathBuf::from(b["file"].as_str().unwrap()), m));
                }
            }
            for (k, n) in v["known"].as_object().cloned().unwrap_or_default() {
                *known.entry(k).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        _ => {
            // one of them kills the process: find out which
            for f in regress_files(p.id) {
                let st = spawn(&["replay".into(), p.id.into(), f.display().to_string()], free).and_then(|mut c| c.wait());
                match st.map(end) {
                    Ok(End::Ok) => {}
                    Ok(End::Fail(1)) => violations.push((f, "violated".into())),
                    Ok(e @ (End::Hung | End::Signal(_) | End::Fail(_))) => violations.push((f, format!("the case ends the process: {e:?}"))),
                    Err(e) => errors.push(e.to_string()),
                }
            }
            if violations.is_empty() {
                errors.push("the committed cases end the process, but not one by one".into());
            }
        }
    }

    // 2. generated cases
    let mut merged = ShardOut::default();
    let mut all: HashSet<u64> = HashSet::new();
    let shard_args = |i: u64| -> Vec<String> {
        let n = total / nsh + if i < total % nsh { 1 } else { 0 };
        vec![
            "shard".into(),
            p.id.into(),
            tier.name().into(),
            seed.to_string(),
            i.to_string(),
            n.to_string(),
            cap.to_string(),
            tmp.join(format!("s{i}.json")).display().to_string(),
        ]
    };
    let kids: Vec<_> = (0..nsh).map(|i| (i, spawn(&shard_args(i), free))).collect();
    let mut vio: Vec<Violation> = vec![];
    let mut crashed = vec![];
    for (i, k) in kids {
        match k.and_then(|mut c| c.wait()).map(end) {
            Ok(End::Ok) => {
                let o: ShardOut = serde_json::from_slice(&std::fs::read(tmp.join(format!("s{i}.json"))).unwrap()).unwrap();
                merged.evaluations += o.evaluations;
                merged.nontrivial += o.nontrivial;
                merged.stopped_early |= o.stopped_early;
                all.extend(o.hashes);
                for (k, v) in o.labels {
                    *merged.labels.entry(k).or_insert(0) += v;
                }
                for (k, v) in o.known {
                    *known.entry(k).or_insert(0) += v;
                }
                merged.samples.extend(o.samples);
                vio.extend(o.violation);
            }
            Ok(e @ (End::Hung | End::Signal(_))) => crashed.push((i, format!("{e:?}"))),
            Ok(End::Fail(c)) if asan => crashed.push((i, format!("exit {c}"))),
            Ok(End::Fail(c)) => errors.push(format!("shard {i} exited with {c}")),
            Err(e) => errors.push(format!("shard {i}: {e}")),
        }
    }
    // a shard that died: run it again with a trace of the current case (only the first few)
    for (i, how) in crashed.iter().take(if vio.is_empty() { 2 } else { 0 }) {
        let tf = tmp.join(format!("trace{i}.json"));
        let mut args = shard_args(*i);
        args.push(tf.display().to_string());
        let _ = spawn(&args, free).and_then(|mut c| c.wait());
        let Ok(case) = std::fs::read(&tf) else {
            errors.push(format!("shard {i} died ({how}) and left no trace"));
            continue;
        };
        let v = Violation {
            message: format!("the case ends the process ({how})"),
            case: serde_json::from_slice(&case).unwrap_or(Value::Null),
            trace: vec![],
            shrink_steps: 0,
        };
        let f = write_replay(p, &v, seed, tier, 100 + *i as usize);
        // confirm it alone
        match spawn(&["replay".into(), p.id.into(), f.display().to_string()], free).and_then(|mut c| c.wait()).map(end) {
            Ok(End::Hung) | Ok(End::Signal(_)) | Ok(End::Fail(_)) => {
                violations.push((f, v.message));
                break;
            }
            other => errors.push(format!("shard {i} died ({how}), but its last case alone ends with {other:?}")),
        }
    }
    // report the smallest failures first
    vio.sort_by_key(|v| v.case.to_string().len());
    let nv = vio.len();
    for (n, v) in vio.iter().enumerate().take(3) {
        if v.message.starts_with("HARNESS:") {
            errors.push(v.message.clone());
            continue;
        }
        let f = write_replay(p, v, seed, tier, n);
        violations.push((f, v.message.clone()));
    }

    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": merged.evaluations,
            "distinct_nontrivial": all.len(),
            "nontrivial_with_repeats": merged.nontrivial,
            "rule": p.rule,
            "samples": merged.samples.iter().take(8).collect::<Vec<_>>(),
            "labels": merged.labels,
            "committed_cases_replayed": regress_n,
            "known_finding_hits": known,
            "stopped_by_time_cap": merged.stopped_early,
            "shards": nsh,
            "asan": asan,
        },
        "assumptions": [
            "items implement Eq and Hash lawfully; iterators returned by the library are not leaked with mem::forget",
            "the reference models in harness/src/model.rs state the documented behaviour",
        ],
        "wall_s": wall,
        "violations": violations.len().max(nv),
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let name = if asan { format!("{}.asan.json", p.id) } else { format!("{}.json", p.id) };
    if let Err(e) = std::fs::write(evd.join(name), serde_json::to_string_pretty(&ev).unwrap()) {
        errors.push(e.to_string());
    }

    for (k, n) in &known {
        if *n > 0 {
            println!("KNOWN-FINDING: property={} {} ({} generated cases fail this way)", p.id, finding_text(p.id, k), n);
        }
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} committed cases, {:.1} s, seed {}",
        p.id, tier.name(), merged.evaluations, all.len(), regress_n, wall, seed
    );
    for (f, m) in &violations {
        println!("{m}");
        println!("VIOLATION property={} replay={}", p.id, f.display());
    }
    let _ = std::io::stdout().flush();
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {e}");
        }
        return 2;
    }
    0
}

fn finding_text(prop: &str, id: &str) -> String {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        if l.starts_with("finding: ") && l.contains(&format!("property={prop} ")) && l.contains(&format!("id={id} ")) {
            return l["finding: ".len()..].replace(&format!("property={prop} "), "");
        }
    }
    id.to_string()
}
