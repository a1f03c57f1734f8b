use crate::src::{Rng, Src};
use serde_json::{json, Value as J};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { $crate::fail!($sig, $($arg)*) } };
}

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub input: String,
    pub discard: bool,
    pub excluded: Vec<&'static str>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub struct Test {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Case) -> Res,
    /// Number of leading cases that are deterministic (fixed inputs/enumerations), see `fixed_index`.
    pub fixed: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CUR_IDX: RefCell<u64> = const { RefCell::new(u64::MAX) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default()
}

/// Run `f`, turning a panic of the code under test into an `Err(message)`.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (m, l) = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("{m} at {l}")
    })
}

fn generic_sig(msg: &str) -> String {
    msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect()
}

enum Out {
    Ok,
    Fail(Fail),
    Harness(String),
}

fn run_one(t: &Test, src: &mut Src, case: &mut Case) -> Out {
    match panic::catch_unwind(AssertUnwindSafe(|| (t.f)(src, case))) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(f)) => Out::Fail(f),
        Err(_) => {
            let (m, l) = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if l.starts_with("src/") {
                Out::Harness(format!("harness panic: {m} at {l}"))
            } else {
                Out::Fail(Fail::new(format!("panic:{}", generic_sig(&m)), format!("panic: {m} (at {l})")))
            }
        }
    }
}

fn size_for(idx: u64) -> usize {
    // Sizes cycle so that every run mixes small, medium and large cases.
    [4, 8, 12, 20, 30, 45, 70, 100][(idx % 8) as usize]
}

fn stream_of(t: &Test) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in t.prop.bytes().chain(t.name.bytes()) {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Index of the case being run; only for tests that start with an enumerated list of fixed cases.
pub fn case_index() -> u64 {
    CUR_IDX.with(|c| *c.borrow())
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Agg {
    evaluated: u64,
    discarded: u64,
    nontrivial_total: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    excluded: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    max_len: usize,
    known: BTreeMap<String, u64>,
}

struct Failure {
    idx: u64,
    tape: Vec<u64>,
    size: usize,
    sig: String,
    msg: String,
    input: String,
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub root: PathBuf,
    pub scale: f64,
}

const STACK: usize = 256 << 20;

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

fn known_sigs(root: &Path, prop: &str) -> Vec<(String, String)> {
    // known-findings.jsonl: {"property","test","sig","what"}; only entries with "sig" suppress.
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known-findings.jsonl")) {
        for line in s.lines() {
            if let Ok(v) = serde_json::from_str::<J>(line) {
                if v["property"] == prop && v["status"] == "open" {
                    if let Some(sig) = v["sig"].as_str() {
                        out.push((sig.to_string(), v["what"].as_str().unwrap_or("").to_string()));
                    }
                }
            }
        }
    }
    out
}

fn run_test(t: &Test, n: u64, cfg: &Cfg, known: &[(String, String)], inflight: &std::fs::File, test_no: u64) -> (Agg, Option<Failure>, Option<String>) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let stream = stream_of(t);
    let live = AtomicUsize::new(cfg.threads);
    let beats: Vec<AtomicU64> = (0..cfg.threads).map(|_| AtomicU64::new(0)).collect();
    let hung = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for th in 0..cfg.threads {
            let (next, stop, agg, failure, harness, live, beats) = (&next, &stop, &agg, &failure, &harness, &live, &beats);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut a = Agg::default();
                    let mut buf = [0u8; 16];
                    'outer: loop {
                        let start = next.fetch_add(64, Ordering::Relaxed);
                        if start >= n {
                            break;
                        }
                        for idx in start..(start + 64).min(n) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            beats[th].fetch_add(1, Ordering::Relaxed);
                            buf[..8].copy_from_slice(&(test_no + 1).to_le_bytes());
                            buf[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = inflight.write_at(&buf, th as u64 * 16);
                            CUR_IDX.with(|c| *c.borrow_mut() = idx);
                            let size = size_for(idx);
                            let mut src = Src::random(Rng::new(cfg.seed, stream, idx), size);
                            let mut case = Case::default();
                            let out = run_one(t, &mut src, &mut case);
                            a.evaluated += 1;
                            for l in &case.excluded {
                                *a.excluded.entry(l).or_default() += 1;
                            }
                            if case.discard {
                                a.discarded += 1;
                            } else {
                                for l in &case.labels {
                                    *a.labels.entry(l).or_default() += 1;
                                }
                                a.max_len = a.max_len.max(case.input.len());
                                if case.nontrivial {
                                    a.nontrivial_total += 1;
                                    a.distinct.insert(hash_str(&case.input));
                                    if a.samples.len() < 2 && idx % 5 == 0 && case.input.len() > 20 {
                                        a.samples.push((idx, truncate(&case.input, 600)));
                                    }
                                }
                            }
                            match out {
                                Out::Ok => {}
                                Out::Harness(m) => {
                                    *harness.lock().unwrap() = Some(format!("{} case {idx}: {m}\ninput: {}", t.name, truncate(&case.input, 400)));
                                    stop.store(true, Ordering::Relaxed);
                                }
                                Out::Fail(f) => {
                                    let full = format!("{}/{}", t.name, f.sig);
                                    if known.iter().any(|(s, _)| *s == full) {
                                        *a.known.entry(full).or_default() += 1;
                                    } else {
                                        let mut g = failure.lock().unwrap();
                                        if g.as_ref().is_none_or(|o| o.idx > idx) {
                                            *g = Some(Failure { idx, tape: src.used_tape(), size, sig: f.sig, msg: f.msg, input: case.input });
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    let mut g = agg.lock().unwrap();
                    g.evaluated += a.evaluated;
                    g.discarded += a.discarded;
                    g.nontrivial_total += a.nontrivial_total;
                    g.distinct.extend(a.distinct);
                    for (k, v) in a.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in a.excluded {
                        *g.excluded.entry(k).or_default() += v;
                    }
                    for (k, v) in a.known {
                        *g.known.entry(k).or_default() += v;
                    }
                    g.max_len = g.max_len.max(a.max_len);
                    g.samples.extend(a.samples);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .expect("spawn");
        }
        // Watchdog: a single case running for minutes is reported as an error of the check
        // (inconclusive), never as a violation.
        let (live, beats, hung) = (&live, &beats, &hung);
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = beats.iter().map(|b| (b.load(Ordering::Relaxed), Instant::now())).collect();
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for (i, b) in beats.iter().enumerate() {
                    let v = b.load(Ordering::Relaxed);
                    if v != last[i].0 {
                        last[i] = (v, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(180) && live.load(Ordering::Relaxed) > 0 {
                        hung.store(true, Ordering::Relaxed);
                        println!("ERROR: {} {}: one case has been running for 180 s; no verdict", t.prop, t.name);
                        let _ = std::io::stdout().flush();
                        std::process::exit(4);
                    }
                }
            }
        });
    });
    (agg.into_inner().unwrap(), failure.into_inner().unwrap(), harness.into_inner().unwrap())
}

fn try_tape(t: &Test, tape: &[u64], size: usize, sig: &str) -> Option<(Vec<u64>, String, String)> {
    let mut src = Src::replay(tape.to_vec(), size);
    let mut case = Case::default();
    match run_one(t, &mut src, &mut case) {
        Out::Fail(f) if f.sig == sig => Some((src.used_tape(), f.msg, case.input)),
        _ => None,
    }
}

fn shrink(t: &Test, f: &mut Failure) -> u64 {
    CUR_IDX.with(|c| *c.borrow_mut() = f.idx);
    let start = Instant::now();
    let mut tries = 0u64;
    // The cap is on attempts; the clock only guards against pathologically slow cases.
    let limit = 6000;
    let better = |new: &[u64], old: &[u64]| new.len() < old.len() || (new.len() == old.len() && new < old);
    let mut improved = true;
    while improved && tries < limit && start.elapsed() < Duration::from_secs(60) {
        improved = false;
        let mut attempt = |cand: Vec<u64>, f: &mut Failure, tries: &mut u64| -> bool {
            *tries += 1;
            if *tries > limit {
                return false;
            }
            if let Some((tape, msg, input)) = try_tape(t, &cand, f.size, &f.sig) {
                let tape = if better(&tape, &cand) { tape } else { cand };
                if better(&tape, &f.tape) {
                    f.tape = tape;
                    f.msg = msg;
                    f.input = input;
                    return true;
                }
            }
            false
        };
        let mut chunk = (f.tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < f.tape.len() {
                let mut c = f.tape.clone();
                let e = (i + chunk).min(c.len());
                c.drain(i..e);
                if attempt(c, f, &mut tries) {
                    improved = true;
                } else {
                    i += chunk;
                }
                if tries > limit || start.elapsed() > Duration::from_secs(60) {
                    break;
                }
            }
            if chunk == 1 || tries > limit {
                break;
            }
            chunk /= 2;
        }
        // Zero runs, then lower single values, also while deleting a following element.
        let mut i = 0;
        while i < f.tape.len() && tries < limit {
            if f.tape[i] != 0 {
                let mut c = f.tape.clone();
                c[i] = 0;
                if attempt(c, f, &mut tries) {
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, f.tape[i]);
                    while lo + 1 < hi && tries < limit {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = f.tape.clone();
                        c[i] = mid;
                        if attempt(c, f, &mut tries) {
                            improved = true;
                            if i >= f.tape.len() {
                                break;
                            }
                            hi = f.tape[i];
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    tries
}

fn replay_path(cfg: &Cfg, prop: &str, name: &str) -> PathBuf {
    let d = cfg.root.join("work").join("replay");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{prop}-{name}-{}.json", cfg.seed))
}

fn write_replay(cfg: &Cfg, t: &Test, f: &Failure) -> PathBuf {
    let p = replay_path(cfg, t.prop, t.name);
    let v = json!({"property": t.prop, "test": t.name, "seed": cfg.seed, "case": f.idx, "size": f.size, "tape": f.tape,
        "signature": format!("{}/{}", t.name, f.sig), "message": f.msg, "input": f.input});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn report(cfg: &Cfg, t: &Test, f: &Failure, tries: u64) {
    let p = write_replay(cfg, t, f);
    println!("--- {} {}: counterexample (case {}, {} shrink attempts, {} choices left)", t.prop, t.name, f.idx, tries, f.tape.len());
    println!("signature: {}/{}", t.name, f.sig);
    println!("input: {}", truncate(&f.input, 3000));
    println!("message: {}", truncate(&f.msg, 3000));
    println!("VIOLATION property={} replay={}", t.prop, p.display());
    let _ = std::io::stdout().flush();
}

pub fn main(props: &[Prop], tests: &[Test]) -> i32 {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let has = |n: &str| args.iter().any(|a| a == n);
    let root = PathBuf::from(opt("--root").unwrap_or_else(|| "/verif".into()));
    let cfg = Cfg {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: has("--thorough") || std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        root,
    };
    if let Some(path) = opt("--replay") {
        return replay(&cfg, tests, &path, has("--worker"));
    }
    let Some(prop) = args.first().filter(|a| !a.starts_with("--")).cloned() else {
        eprintln!("usage: hv <PROP> [--thorough] [--only TEST] [--threads N] [--scale F] | --replay FILE");
        for p in props {
            eprintln!("{}: {}", p.id, tests.iter().filter(|t| t.prop == p.id).map(|t| t.name).collect::<Vec<_>>().join(" "));
        }
        return 2;
    };
    let Some(p) = props.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    if let Some(one) = opt("--one") {
        // Child used to confirm a crash: run one case, by test name and index.
        let t = tests.iter().find(|t| t.prop == prop && Some(t.name) == opt("--only").as_deref()).expect("test");
        let idx: u64 = one.parse().expect("index");
        return one_case(&cfg, t, idx);
    }
    let only = opt("--only");
    let sel: Vec<&Test> = tests.iter().filter(|t| t.prop == prop && only.as_deref().is_none_or(|o| o == t.name)).collect();
    let inflight_path = cfg.root.join("work").join(format!("inflight-{}-{}", prop, std::process::id()));
    if has("--worker") {
        let path = opt("--inflight").expect("inflight");
        return worker(&cfg, p, &sel, Path::new(&path), only.is_some());
    }
    // Supervisor: the worker is a child process so that a crash of the code under test (stack
    // overflow, abort) is seen here.
    let _ = std::fs::create_dir_all(cfg.root.join("work"));
    let _ = std::fs::create_dir_all(cfg.root.join("evidence"));
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(&args).arg("--worker").arg("--inflight").arg(&inflight_path);
    let st = cmd.status().expect("spawn worker");
    let code = if let Some(c) = st.code() {
        c
    } else {
        let sig = st.signal().unwrap_or(0);
        println!("worker ended by signal {sig}");
        crash_report(&cfg, &sel, &prop, sig, &inflight_path)
    };
    let _ = std::fs::remove_file(&inflight_path);
    code
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("spawn").join().expect("join"))
}

fn one_case(cfg: &Cfg, t: &Test, idx: u64) -> i32 {
    on_big_stack(|| {
        CUR_IDX.with(|c| *c.borrow_mut() = idx);
        let mut src = Src::random(Rng::new(cfg.seed, stream_of(t), idx), size_for(idx));
        let mut case = Case::default();
        match run_one(t, &mut src, &mut case) {
            Out::Ok => 0,
            Out::Fail(f) => {
                println!("FAIL {}: {}\ninput: {}", f.sig, f.msg, case.input);
                1
            }
            Out::Harness(m) => {
                println!("{m}");
                3
            }
        }
    })
}

fn crash_report(cfg: &Cfg, sel: &[&Test], prop: &str, sig: i32, inflight: &Path) -> i32 {
    // 4 = SIGILL, 6 = SIGABRT, 7 = SIGBUS, 8 = SIGFPE, 11 = SIGSEGV: crashes of the code itself.
    // Anything else (SIGKILL by the memory guard, SIGTERM) gives no verdict.
    if ![4, 6, 7, 8, 11].contains(&sig) {
        return 5;
    }
    let data = std::fs::read(inflight).unwrap_or_default();
    for ch in data.chunks_exact(16) {
        let tno = u64::from_le_bytes(ch[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(ch[8..].try_into().unwrap());
        if tno == 0 {
            continue;
        }
        let Some(t) = sel.get(tno as usize - 1) else { continue };
        let st = Command::new(std::env::current_exe().unwrap())
            .args([prop, "--one", &idx.to_string(), "--only", t.name])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        if let Ok(st) = st {
            if st.signal() == Some(sig) {
                // Recover the tape by regenerating: the tape of a crashing case cannot be read back
                // after the fact, so the replay file names the case index.
                let f = Failure { idx, tape: vec![], size: size_for(idx), sig: format!("crash-signal-{sig}"), msg: format!("the process was ended by signal {sig} while running this case"), input: format!("case index {idx} of test {}", t.name) };
                report(cfg, t, &f, 0);
                return 1;
            }
        }
    }
    println!("ERROR: the crash did not reproduce on any in-flight case");
    5
}

fn replay(cfg: &Cfg, tests: &[Test], path: &str, _worker: bool) -> i32 {
    let v: J = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("replay json");
    let t = tests.iter().find(|t| v["property"] == t.prop && v["test"] == t.name).expect("unknown test");
    let idx = v["case"].as_u64().unwrap_or(u64::MAX);
    let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().filter_map(J::as_u64).collect()).unwrap_or_default();
    let size = v["size"].as_u64().unwrap_or(20) as usize;
    on_big_stack(|| {
        CUR_IDX.with(|c| *c.borrow_mut() = idx);
        let mut src = if v["signature"].as_str().is_some_and(|s| s.contains("crash-signal")) {
            Src::random(Rng::new(v["seed"].as_u64().unwrap_or(cfg.seed), stream_of(t), idx), size)
        } else {
            Src::replay(tape, size)
        };
        let mut case = Case::default();
        match run_one(t, &mut src, &mut case) {
            Out::Ok => {
                println!("replay: property held");
                0
            }
            Out::Fail(f) => {
                println!("signature: {}/{}\ninput: {}\nmessage: {}", t.name, f.sig, case.input, f.msg);
                println!("VIOLATION property={} replay={}", t.prop, path);
                1
            }
            Out::Harness(m) => {
                println!("{m}");
                3
            }
        }
    })
}

fn worker(cfg: &Cfg, p: &Prop, sel: &[&Test], inflight_path: &Path, partial: bool) -> i32 {
    let t0 = Instant::now();
    let inflight = std::fs::File::create(inflight_path).expect("inflight");
    let known = known_sigs(&cfg.root, p.id);
    let (mut evaluated, mut nontrivial, mut discarded) = (0u64, 0u64, 0u64);
    let mut per_test = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let mut excluded: BTreeMap<String, u64> = BTreeMap::new();
    let mut code = 0;
    let mut violations = 0;
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    for (no, t) in sel.iter().enumerate() {
        let n = if cfg.thorough { t.thorough } else { t.quick };
        let n = ((n as f64 * cfg.scale) as u64).max(1).max(t.fixed);
        let tt = Instant::now();
        let (agg, failure, harness) = run_test(t, n, cfg, &known, &inflight, no as u64);
        let wall = tt.elapsed().as_secs_f64();
        println!(
            "{} {:<28} {:>8} cases {:>8} distinct non-trivial {:>6} discarded  max {:>6} B  {:.1}s",
            t.prop, t.name, agg.evaluated, agg.distinct.len(), agg.discarded, agg.max_len, wall
        );
        let mut ls: Vec<_> = agg.labels.iter().collect();
        ls.sort_by(|a, b| b.1.cmp(a.1));
        if !ls.is_empty() {
            println!("    {}", ls.iter().map(|(k, v)| format!("{k}={:.1}%", 100.0 * **v as f64 / agg.evaluated.max(1) as f64)).collect::<Vec<_>>().join(" "));
        }
        evaluated += agg.evaluated;
        discarded += agg.discarded;
        nontrivial += agg.distinct.len() as u64;
        for (k, v) in &agg.excluded {
            *excluded.entry(format!("{}/{k}", t.name)).or_default() += v;
        }
        for (k, v) in &agg.known {
            *known_hit.entry(k.clone()).or_default() += v;
        }
        let mut s = agg.samples;
        s.sort();
        for (idx, text) in s.into_iter().take(2) {
            samples.push(json!({"test": t.name, "case": idx, "input": text}));
        }
        per_test.push(json!({"test": t.name, "cases": agg.evaluated, "distinct_nontrivial": agg.distinct.len(), "discarded": agg.discarded,
            "labels": agg.labels.iter().map(|(k,v)| ((*k).to_string(), json!(v))).collect::<serde_json::Map<_,_>>(), "largest_input_bytes": agg.max_len, "wall_s": wall}));
        if let Some(m) = harness {
            println!("ERROR: {m}");
            code = 3;
            break;
        }
        if let Some(mut f) = failure {
            let tries = on_big_stack(|| shrink(t, &mut f));
            report(cfg, t, &f, tries);
            violations += 1;
            code = 1;
            break;
        }
    }
    for (sig, what) in &known {
        let n = known_hit.get(sig).copied().unwrap_or(0);
        if n > 0 {
            println!("KNOWN-FINDING: property={} {} [{} cases]", p.id, what, n);
        }
    }
    if !partial && code != 3 {
        let ev = json!({
            "property": p.id, "tier": if cfg.thorough {"thorough"} else {"quick"}, "seed": cfg.seed, "level": "exploration",
            "coverage": {"evaluations": evaluated, "distinct_nontrivial": nontrivial, "rule": p.rule, "samples": samples,
                "discarded": discarded, "excluded_by_construction": excluded, "known_finding_cases": known_hit, "per_test": per_test},
            "violations": violations, "wall_s": t0.elapsed().as_secs_f64(),
        });
        let path = cfg.root.join("evidence").join(format!("{}.json", p.id));
        if std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            println!("ERROR: cannot write {}", path.display());
            return 3;
        }
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1}s, {}", p.id, evaluated, nontrivial, t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "NOT HELD or no verdict" });
    code
}
