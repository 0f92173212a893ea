//! Driver: fixed number of generated cases per property, split over worker processes,
//! shrinking, crash isolation, evidence.
use crate::tape::Tape;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Outcome of one generated case.
#[derive(Default)]
pub struct Rep {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Human readable description; only filled when asked for.
    pub desc: String,
    /// Digest of what the library answered (used by the two-build comparison).
    pub digest: String,
}

pub struct Fail {
    pub msg: String,
    pub desc: String,
}

pub type CaseResult = Result<Rep, Fail>;

pub struct Ctx {
    pub want_desc: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Tape, &Ctx) -> CaseResult,
    /// Fixed regression cases (defects found and repaired); name + check.
    pub regress: &'static [(&'static str, fn() -> Result<(), String>)],
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} [{}]", m, loc));
    }));
}

/// Runs library code; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs one case. A panic inside the library which the property did not expect (and guard) is
/// a failure of the case; a panic anywhere else is an error of the harness and goes on.
fn run_case(p: &Prop, t: &mut Tape, ctx: &Ctx) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(&mut *t, ctx))) {
        Ok(r) => r,
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let loc = m.rsplit('[').next().unwrap_or("").to_string();
            if loc.starts_with('/') && !loc.contains("/.cargo/") && !loc.contains("/rustc/") && !loc.contains("/registry/") {
                return Err(Fail { msg: format!("the library panicked: {}", m), desc: String::new() });
            }
            std::panic::resume_unwind(e)
        }
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut h = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ (h >> 32)
}
pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
fn case_seed(seed: u64, id: &str, i: usize) -> u64 {
    mix(mix(seed, fnv(id.as_bytes())), i as u64 + 1)
}
fn tape_hash(t: &[u32]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for v in t {
        h = mix(h, *v as u64 + 1);
    }
    h
}

pub const NWORKERS: usize = 8;
const STACK: usize = 512 << 20;

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join() {
        Ok(v) => v,
        Err(_) => {
            eprintln!("harness thread panicked");
            std::process::exit(2)
        }
    }
}

/// Ok(None): fine. Ok(Some(fail)): property violated. A panic outside `guard` is a harness
/// error and reported as such.
fn run_tape(p: &Prop, data: Vec<u32>, want_desc: bool) -> (Vec<u32>, CaseResult) {
    let mut t = Tape::replay(data);
    let ctx = Ctx { want_desc };
    let r = run_case(p, &mut t, &ctx);
    (t.rec, r)
}

fn still_fails(p: &Prop, data: &[u32]) -> Option<(Vec<u32>, Fail)> {
    let r = catch_unwind(AssertUnwindSafe(|| run_tape(p, data.to_vec(), true)));
    match r {
        Ok((rec, Err(f))) => Some((rec, f)),
        _ => None,
    }
}

/// Tape shrinking: delete blocks, zero blocks, lower single values. `test` returns the
/// normalised tape if the candidate still fails.
fn shrink(mut best: Vec<u32>, budget: usize, mut test: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut left = budget;
    let t0 = Instant::now();
    let mut test = |c: &[u32]| if t0.elapsed() > Duration::from_secs(25) { None } else { test(c) };
    let better = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if left == 0 {
                    return best;
                }
                left -= 1;
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                match test(&c) {
                    Some(n) if better(&n, &best) => best = n,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for sz in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + sz).min(best.len());
                if best[i..e].iter().any(|v| *v != 0) {
                    if left == 0 {
                        return best;
                    }
                    left -= 1;
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    if let Some(n) = test(&c) {
                        if better(&n, &best) {
                            best = n;
                        }
                    }
                }
                i += sz;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut cur) = (0u32, best[i]);
            while lo < cur {
                if left == 0 {
                    return best;
                }
                left -= 1;
                let mid = lo + (cur - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match test(&c) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        if i >= best.len() {
                            break;
                        }
                        cur = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------
// worker

pub struct WorkerArgs {
    pub seed: u64,
    pub total: usize,
    pub k: usize,
    pub dir: PathBuf,
    pub digests: bool,
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

pub fn worker(p: &'static Prop, a: WorkerArgs) -> ! {
    install_hook();
    limit_memory();
    let code = on_big_stack(move || {
        let prog = std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(a.dir.join(format!("w{}.prog", a.k)))
            .unwrap();
        use std::os::unix::fs::FileExt;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut evals = 0u64;
        let mut nontrivial = 0u64;
        let mut samples: Vec<Value> = vec![];
        let mut failure = Value::Null;
        let mut digests = Vec::new();
        let mut slowest = (0u128, 0usize);
        let mut i = a.k;
        let mut n_here = 0usize;
        while i < a.total {
            prog.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
            let mut t = Tape::random(case_seed(a.seed, p.id, i));
            n_here += 1;
            let t0 = Instant::now();
            // sample: the first non-trivial case after growing strides
            let want = samples.len() < 3 && n_here.is_power_of_two();
            let ctx = Ctx { want_desc: want };
            let r = catch_unwind(AssertUnwindSafe(|| run_case(p, &mut t, &ctx)));
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    std::fs::write(
                        a.dir.join(format!("w{}.err", a.k)),
                        format!("harness panic in case {}: {}", i, m),
                    )
                    .unwrap();
                    return 3;
                }
            };
            evals += 1;
            slowest = slowest.max((t0.elapsed().as_millis(), i));
            match r {
                Ok(rep) => {
                    for l in &rep.labels {
                        *labels.entry(l).or_insert(0) += 1;
                    }
                    if rep.nontrivial {
                        nontrivial += 1;
                        hashes.insert(tape_hash(&t.rec));
                        if want {
                            samples.push(json!({"case": i, "text": clip(&rep.desc, 1500)}));
                        }
                    }
                    if a.digests {
                        digests.push(format!("{} {:016x} {}", i, fnv(rep.digest.as_bytes()), clip(&rep.digest, 200)));
                    }
                }
                Err(f) => {
                    let orig = t.rec.clone();
                    // in case shrinking does not end well
                    let found = json!({"case": i, "tape": orig, "message": f.msg, "description": f.desc});
                    std::fs::write(a.dir.join(format!("w{}.found", a.k)), found.to_string()).unwrap();
                    let shrunk = shrink(orig.clone(), 4000, |c| still_fails(p, c).map(|(n, _)| n));
                    let f = still_fails(p, &shrunk).map(|(_, f)| f).unwrap_or(f);
                    failure = json!({"case": i, "tape": shrunk, "original_len": orig.len(),
                                     "message": f.msg, "description": f.desc});
                    break;
                }
            }
            i += NWORKERS;
        }
        let mut hb = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(a.dir.join(format!("w{}.hash", a.k)), hb).unwrap();
        if a.digests {
            std::fs::write(a.dir.join(format!("w{}.dig", a.k)), digests.join("\n")).unwrap();
        }
        let out = json!({"evals": evals, "nontrivial": nontrivial, "labels": labels,
                         "samples": samples, "failure": failure, "slowest": [slowest.0 as u64, slowest.1]});
        std::fs::write(a.dir.join(format!("w{}.json", a.k)), out.to_string()).unwrap();
        0
    });
    std::process::exit(code)
}

/// Runs a single tape (crash reproduction); exit 0 fine, 1 property failure.
pub fn one(p: &'static Prop, tape: Option<Vec<u32>>, seed: u64, idx: usize, out: Option<PathBuf>) -> ! {
    install_hook();
    limit_memory();
    let code = on_big_stack(move || {
        let data = match tape {
            Some(t) => t,
            None => {
                // record the tape before running: run the generator in "dry" mode is not
                // possible, so stream the draws to the output file instead.
                let mut t = Tape::random(case_seed(seed, p.id, idx));
                let mut v = Vec::new();
                for _ in 0..40000 {
                    v.push(t.below(1 << 32) as u32);
                }
                v
            }
        };
        if let Some(o) = &out {
            std::fs::write(o, serde_json::to_string(&data).unwrap()).unwrap();
        }
        let (_, r) = run_tape(p, data, true);
        match r {
            Ok(_) => 0,
            Err(f) => {
                println!("FAIL: {}\n{}", f.msg, f.desc);
                1
            }
        }
    });
    std::process::exit(code)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

// ---------------------------------------------------------------------------------
// coordinator

pub struct CheckArgs {
    pub seed: u64,
    pub tier: String,
    pub verif: PathBuf,
    pub scale: f64,
    /// Second executable for the two-build comparison.
    pub other: Option<PathBuf>,
}

pub struct RunOut {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Value>,
    pub error: Option<String>,
    pub digests: Vec<String>,
    /// milliseconds and number of the slowest case
    pub slowest: (u64, u64),
}

fn spawn_workers(exe: &Path, p: &Prop, a: &CheckArgs, total: usize, dir: &Path, digests: bool) -> RunOut {
    let mut kids = Vec::new();
    for k in 0..NWORKERS {
        let mut c = Command::new(exe);
        c.arg("worker")
            .arg(p.id)
            .arg(a.seed.to_string())
            .arg(total.to_string())
            .arg(k.to_string())
            .arg(dir)
            .arg(if digests { "1" } else { "0" })
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        kids.push((k, c.spawn().expect("spawn worker"), Instant::now(), u64::MAX, false));
    }
    let mut out = RunOut {
        evals: 0,
        hashes: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
        error: None,
        digests: vec![],
        slowest: (0, 0),
    };
    let read_prog = |k: usize| -> Option<u64> {
        let mut f = std::fs::File::open(dir.join(format!("w{}.prog", k))).ok()?;
        let mut b = [0u8; 8];
        f.read_exact(&mut b).ok()?;
        Some(u64::from_le_bytes(b))
    };
    let found = |k: usize| -> Option<Value> { serde_json::from_str(&std::fs::read_to_string(dir.join(format!("w{}.found", k))).ok()?).ok() };
    let mut stop = false;
    loop {
        let mut running = 0;
        for (k, kid, since, last, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match kid.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    if st.code() == Some(0) {
                        let v: Value = serde_json::from_str(
                            &std::fs::read_to_string(dir.join(format!("w{}.json", k))).unwrap(),
                        )
                        .unwrap();
                        out.evals += v["evals"].as_u64().unwrap();
                        out.slowest = out.slowest.max((v["slowest"][0].as_u64().unwrap_or(0), v["slowest"][1].as_u64().unwrap_or(0)));
                        for (l, n) in v["labels"].as_object().unwrap() {
                            *out.labels.entry(l.clone()).or_insert(0) += n.as_u64().unwrap();
                        }
                        for s in v["samples"].as_array().unwrap() {
                            out.samples.push(s.clone());
                        }
                        let hb = std::fs::read(dir.join(format!("w{}.hash", k))).unwrap();
                        for c in hb.chunks_exact(8) {
                            out.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        if digests {
                            let d = std::fs::read_to_string(dir.join(format!("w{}.dig", k))).unwrap();
                            out.digests.extend(d.lines().map(|s| s.to_string()));
                        }
                        if !v["failure"].is_null() {
                            if out.failure.is_none() {
                                out.failure = Some(v["failure"].clone());
                            }
                            stop = true;
                        }
                    } else if let Some(sig) = st.signal() {
                        if stop && sig == 9 {
                            continue;
                        }
                        let idx = read_prog(*k).unwrap_or(0);
                        if let Some(f) = found(*k) {
                            out.failure = Some(f);
                        } else if sig == libc::SIGKILL {
                            out.error = Some(format!("worker {} was killed in case {}", k, idx));
                        } else {
                            // crash of the process (stack overflow, abort): reproduce alone
                            match confirm_crash(exe, p, a, idx as usize, sig, dir) {
                                Some(f) => out.failure = Some(f),
                                None => {
                                    out.error = Some(format!(
                                        "worker {} died with signal {} in case {}, not reproducible",
                                        k, sig, idx
                                    ))
                                }
                            }
                        }
                        stop = true;
                    } else {
                        let e = std::fs::read_to_string(dir.join(format!("w{}.err", k))).unwrap_or_default();
                        out.error = Some(format!("worker {} exit {:?}: {}", k, st.code(), e));
                        stop = true;
                    }
                }
                None => {
                    running += 1;
                    let cur = read_prog(*k).unwrap_or(0);
                    if cur != *last {
                        *last = cur;
                        *since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(60) {
                        // one case takes milliseconds: run it alone with its own limit
                        match found(*k).or_else(|| confirm_hang(exe, p, a, cur as usize, dir)) {
                            Some(f) => out.failure = Some(f),
                            None => out.error = Some(format!("worker {} made no progress for 60 s in case {}", k, cur)),
                        }
                        stop = true;
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        if stop {
            // give the others a moment only if we already have a violation
            for (_, kid, _, _, done) in kids.iter_mut() {
                if !*done {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    *done = true;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    out
}

fn run_one_sub(exe: &Path, p: &Prop, args: &[String]) -> Option<std::process::ExitStatus> {
    let mut c = Command::new(exe);
    c.arg("one").arg(p.id).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut kid = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = kid.try_wait().ok()? {
            return Some(st);
        }
        if t0.elapsed() > Duration::from_secs(60) {
            let _ = kid.kill();
            let _ = kid.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn confirm_hang(exe: &Path, p: &Prop, a: &CheckArgs, idx: usize, dir: &Path) -> Option<Value> {
    let tf = dir.join("hang.tape");
    let args = vec!["--case".to_string(), a.seed.to_string(), idx.to_string(), tf.display().to_string()];
    if run_one_sub(exe, p, &args).is_some() {
        return None;
    }
    let data: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(&tf).ok()?).ok()?;
    Some(json!({"case": idx, "tape": data, "message": "the case does not terminate (no result after 60 s, twice)", "description": ""}))
}

fn confirm_crash(exe: &Path, p: &Prop, a: &CheckArgs, idx: usize, sig: i32, dir: &Path) -> Option<Value> {
    let tf = dir.join("crash.tape");
    let args = vec!["--case".to_string(), a.seed.to_string(), idx.to_string(), tf.display().to_string()];
    let crashed = |st: &std::process::ExitStatus| st.signal().map_or(false, |s| s != libc::SIGKILL);
    if !run_one_sub(exe, p, &args).map_or(false, |s| crashed(&s)) {
        return None;
    }
    let data: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(&tf).ok()?).ok()?;
    let cf = dir.join("cand.tape");
    let mut test = |c: &[u32]| -> Option<Vec<u32>> {
        std::fs::write(&cf, serde_json::to_string(c).unwrap()).ok()?;
        let st = run_one_sub(exe, p, &["--tape".to_string(), cf.display().to_string()])?;
        if crashed(&st) {
            Some(c.to_vec())
        } else {
            None
        }
    };
    // cut the tail first (bisect), then a bounded general shrink
    let (mut lo, mut hi) = (0usize, data.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        if test(&data[..mid]).is_some() {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    let mut best = data[..hi].to_vec();
    if test(&best).is_none() {
        best = data;
    }
    let best = shrink(best, 400, |c| test(c));
    Some(json!({"case": idx, "tape": best, "message": format!("the process died with signal {} (stack overflow or abort)", sig),
                "description": ""}))
}

/// Runs one fixed regression case.
pub fn reg(p: &'static Prop, name: &str) -> i32 {
    install_hook();
    limit_memory();
    let f = match p.regress.iter().find(|(n, _)| *n == name) {
        Some((_, f)) => *f,
        None => return 2,
    };
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(60));
        println!("REG: no result after 60 s");
        std::process::exit(1)
    });
    on_big_stack(move || match guard(f) {
        Ok(Ok(())) => 0,
        Ok(Err(m)) => {
            println!("REG: {}", m);
            1
        }
        Err(m) => {
            println!("REG: panic: {}", m);
            1
        }
    })
}

/// Runs the check; returns the process exit code.
pub fn check(p: &'static Prop, a: CheckArgs) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let base = if a.tier == "thorough" { p.thorough } else { p.quick };
    let total = ((base as f64) * a.scale).max(1.0) as usize;
    let dir = a.verif.join("harness/target/run").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();

    // known findings: "KNOWN property=<id> case=<regression name> <text>"
    let kf = std::fs::read_to_string(a.verif.join("known_findings.txt")).unwrap_or_default();
    let known: Vec<(String, String)> = kf
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            if id != p.id {
                return None;
            }
            let rest = rest.strip_prefix("case=")?;
            let (name, text) = rest.split_once(' ')?;
            Some((name.to_string(), text.to_string()))
        })
        .collect();

    // regression tier
    let mut failure: Option<Value> = None;
    let mut n_reg = 0u64;
    for (name, f) in p.regress {
        n_reg += 1;
        let _ = f;
        let out = Command::new(&exe).arg("reg").arg(p.id).arg(name).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("spawn");
        let r = if out.status.code() == Some(0) {
            Ok(())
        } else {
            let m = String::from_utf8_lossy(&out.stdout).trim().to_string();
            let m = m.rsplit("REG: ").next().unwrap_or("").to_string();
            Err(format!("{} ({})", if m.is_empty() { "the process died" } else { m.as_str() }, out.status))
        };
        if let Err(m) = r {
            if let Some((_, text)) = known.iter().find(|(n, _)| n == name) {
                println!("KNOWN-FINDING: property={} {}", p.id, text);
            } else if failure.is_none() {
                failure = Some(json!({"case": format!("regression:{}", name), "tape": [], "message": m, "description": ""}));
            }
        }
    }
    let mut o = RunOut {
        evals: 0,
        hashes: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
        error: None,
        digests: vec![],
        slowest: (0, 0),
    };
    let mut two_build = Value::Null;
    if failure.is_none() {
        o = spawn_workers(&exe, p, &a, total, &dir, a.other.is_some());
        failure = o.failure.take();
        if let (None, None, Some(other)) = (&failure, &o.error, &a.other) {
            let dir2 = dir.join("other");
            std::fs::create_dir_all(&dir2).unwrap();
            let mut o2 = spawn_workers(other, p, &a, total, &dir2, true);
            if let Some(f) = o2.failure.take() {
                failure = Some(f);
            } else if let Some(e) = o2.error {
                o.error = Some(format!("other build: {}", e));
            } else {
                let m: BTreeMap<String, String> =
                    o.digests.iter().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.into(), b.into()))).collect();
                let mut compared = 0u64;
                for l in &o2.digests {
                    if let Some((i, d)) = l.split_once(' ') {
                        compared += 1;
                        if m.get(i).map(|s| s.as_str()) != Some(d) && failure.is_none() {
                            failure = Some(json!({"case": i, "tape": [], "seed_case": i,
                                "message": "the build without debug assertions gives a different outcome",
                                "description": format!("with debug assertions: {:?}\nwithout: {}", m.get(i), d)}));
                        }
                    }
                }
                two_build = json!(compared);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev_dir = a.verif.join("evidence");
    std::fs::create_dir_all(&ev_dir).unwrap();
    o.samples.sort_by_key(|s| s["case"].as_u64());
    let mut step = o.samples.len() / 5;
    if step == 0 {
        step = 1;
    }
    let samples: Vec<Value> = o.samples.iter().step_by(step).take(6).cloned().collect();
    let mut cov = json!({
        "evaluations": o.evals + n_reg,
        "distinct_nontrivial": o.hashes.len(),
        "rule": p.rule,
        "samples": samples,
        "labels": o.labels,
        "regression_cases": n_reg,
        "slowest_case": {"case": o.slowest.1, "ms": o.slowest.0},
    });
    if !two_build.is_null() {
        cov["compared_across_builds"] = two_build;
    }
    let mut ev = json!({
        "property": p.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": cov, "wall_s": (wall * 100.0).round() / 100.0,
        "assumptions": p.assumptions,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let mut code = 0;
    if let Some(f) = &failure {
        let rdir = a.verif.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let rp = rdir.join(format!("{}-{}.json", p.id, a.seed));
        let body = json!({"property": p.id, "seed": a.seed, "tier": a.tier, "case": f["case"], "tape": f["tape"],
            "message": f["message"], "description": f["description"],
            "how_to_replay": format!("bash run.sh replay replays/{}-{}.json", p.id, a.seed)});
        std::fs::write(&rp, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}", f["message"].as_str().unwrap_or(""));
        println!("{}", f["description"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        ev["replay"] = json!(rp.display().to_string());
        code = 1;
    } else if let Some(e) = &o.error {
        eprintln!("ERROR {}: {}", p.id, e);
        code = 2;
    }
    std::fs::write(ev_dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        let mut out = std::io::stdout();
        let _ = writeln!(
            out,
            "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
            p.id,
            a.tier,
            a.seed,
            o.evals + n_reg,
            o.hashes.len(),
            wall
        );
    }
    code
}

pub fn replay(p: &'static Prop, tape: Vec<u32>) -> i32 {
    install_hook();
    limit_memory();
    on_big_stack(move || {
        let (_, r) = run_tape(p, tape, true);
        match r {
            Ok(r) => {
                println!("property holds on this case\n{}", r.desc);
                0
            }
            Err(f) => {
                println!("{}\n{}\nVIOLATION property={}", f.msg, f.desc, p.id);
                1
            }
        }
    })
}
