//! Runs the suites of a property in pinned worker processes, merges what they covered into the
//! evidence file, and reports violations with a shrunk replay file.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};

use crate::pbt::{fnv, shrink, Ctx, Fail, Mirror, Rng};

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Cases per worker process.
    pub chunk: u64,
    pub case: fn(&mut Ctx) -> Result<(), Fail>,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

const HANG: Duration = Duration::from_secs(90);
const SHRINK: Duration = Duration::from_secs(25);

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------------------------------------
// Known findings
// ---------------------------------------------------------------------------------------------

/// Lines `finding: property=<id> sig=<sig> <what fails>`; everything else is commentary.
fn known_findings(property: &str) -> BTreeMap<String, String> {
    let path = verif_dir().join("known_findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut found = BTreeMap::new();
    for line in text.lines() {
        let mut words = line.splitn(4, ' ');
        if words.next() != Some("finding:") {
            continue;
        }
        let prop = words.next().and_then(|w| w.strip_prefix("property="));
        let sig = words.next().and_then(|w| w.strip_prefix("sig="));
        let what = words.next().unwrap_or("");
        if let (Some(prop), Some(sig)) = (prop, sig) {
            if prop == property {
                found.insert(sig.to_string(), what.to_string());
            }
        }
    }
    found
}

// ---------------------------------------------------------------------------------------------
// Running a case
// ---------------------------------------------------------------------------------------------

fn last_panic() -> &'static Mutex<Option<String>> {
    static INIT: std::sync::Once = std::sync::Once::new();
    static mut CELL: *const Mutex<Option<String>> = std::ptr::null();
    unsafe {
        INIT.call_once(|| CELL = Box::into_raw(Box::new(Mutex::new(None))));
        &*CELL
    }
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| l.file().to_string())
            .unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        if verbose {
            eprintln!("panic at {}:{}: {}", loc, line, msg);
        }
        if let Ok(mut last) = last_panic().lock() {
            *last = Some(format!("{}:{}: {}", loc, line, msg));
        }
    }));
}

pub fn take_last_panic() -> Option<String> {
    last_panic().lock().ok().and_then(|mut last| last.take())
}

/// Set once a case has failed and is run again.
static SHRINKING: AtomicBool = AtomicBool::new(false);

fn run_case(suite: &Suite, ctx: &mut Ctx) -> Result<(), Fail> {
    take_last_panic();
    match catch_unwind(AssertUnwindSafe(|| (suite.case)(ctx))) {
        Ok(r) => r,
        Err(_) => {
            let what = take_last_panic().unwrap_or_else(|| "unknown panic".to_string());
            if what.contains("env:") {
                if SHRINKING.load(Ordering::Relaxed) {
                    // What was found so far counts.
                    return Err(Fail { sig: "env".to_string(), msg: what });
                }
                eprintln!("environment error: {}", what);
                std::process::exit(3);
            }
            Err(Fail {
                sig: "panic".to_string(),
                msg: format!("unexpected panic at {}", what),
            })
        }
    }
}

fn case_seed(seed: u64, property: &str, suite: &str, index: u64) -> u64 {
    let mut rng = Rng::new(
        seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ fnv(format!("{}/{}/{}", property, suite, index).as_bytes()),
    );
    rng.next()
}

pub struct WorkerArgs {
    pub suite: String,
    pub tier: String,
    pub seed: u64,
    pub start: u64,
    pub count: u64,
    pub cpu: usize,
    pub dir: PathBuf,
    pub out: PathBuf,
}

fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        let all: Vec<usize> = (0..libc::CPU_SETSIZE as usize)
            .filter(|i| libc::CPU_ISSET(*i, &set))
            .collect();
        if all.is_empty() {
            vec![0]
        } else {
            all
        }
    }
}

/// As many open files as allowed.
fn raise_limits() {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 {
            l.rlim_cur = l.rlim_max;
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
    }
}

pub fn worker(property: &Property, a: WorkerArgs) {
    pin(a.cpu);
    raise_limits();
    install_panic_hook(false);
    let known = known_findings(property.id);
    let suite = property
        .suites
        .iter()
        .find(|s| s.name == a.suite)
        .expect("suite");
    let mirror = Mirror::open(&a.dir.join("mirror"));
    let scratch = a.dir.join("scratch");
    std::fs::create_dir_all(&scratch).expect("env: scratch");

    let mut evaluations = 0u64;
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = Json::Null;

    for index in a.start..a.start + a.count {
        mirror.start_case(index);
        let seed = case_seed(a.seed, property.id, suite.name, index);
        let mut ctx = Ctx::generate(seed, index, Some(&mirror), &scratch);
        ctx.tier_thorough = a.tier == "thorough";
        let result = run_case(suite, &mut ctx);
        evaluations += 1;
        for (l, n) in &ctx.labels {
            *labels.entry(l.clone()).or_insert(0) += n;
        }
        if ctx.nontrivial {
            nontrivial += 1;
            if digests.insert(ctx.digest) && samples.len() < 2 {
                if let Some(s) = &ctx.sample {
                    samples.push(format!("[{} #{}] {}", suite.name, index, s));
                }
            }
        }
        if let Err(f) = result {
            if known.contains_key(&f.sig) {
                *known_hits.entry(f.sig.clone()).or_insert(0) += 1;
                continue;
            }
            // The shrinker accepts any failure of the same kind.
            let tape = ctx.tape().to_vec();
            let sig = f.sig.clone();
            let thorough = a.tier == "thorough";
            let replay = |tape: &[u64], m| {
                let mut c = Ctx::replay(tape.to_vec(), m, &scratch);
                c.tier_thorough = thorough;
                c
            };
            SHRINKING.store(true, Ordering::Relaxed);
            let reproduced = (0..5).any(|_| matches!(run_case(suite, &mut replay(&tape, None)), Err(g) if g.sig != "env"));
            let small = if reproduced {
                shrink(tape.clone(), SHRINK, |cand| {
                    mirror.start_case(index);
                    let mut c = replay(cand, Some(&mirror));
                    matches!(run_case(suite, &mut c), Err(g) if g.sig == sig)
                })
            } else {
                tape
            };
            let mut c = replay(&small, None);
            let (last, sample) = match run_case(suite, &mut c) {
                Err(g) if g.sig != "env" => (g, c.sample.clone()),
                _ => (f.clone(), ctx.sample.clone()),
            };
            failure = json!({
                "sig": last.sig, "msg": last.msg, "tape": small, "index": index,
                "case": sample, "reproduced": reproduced, "full": ctx.tape(),
            });
            break;
        }
    }

    let _ = std::fs::remove_dir_all(&scratch);
    let out = json!({
        "evaluations": evaluations,
        "nontrivial": nontrivial,
        "digests": digests.into_iter().collect::<Vec<u64>>(),
        "labels": labels,
        "samples": samples,
        "known": known_hits,
        "fail": failure,
    });
    let tmp = a.out.with_extension("tmp");
    std::fs::write(&tmp, out.to_string()).expect("env: result");
    std::fs::rename(&tmp, &a.out).expect("env: result");
}

// ---------------------------------------------------------------------------------------------
// Replay
// ---------------------------------------------------------------------------------------------

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && std::fs::create_dir_all(shm.join("svm-verif")).is_ok() {
        shm.join("svm-verif")
    } else {
        std::env::temp_dir().join("svm-verif")
    };
    base
}

fn new_scratch(tag: &str) -> PathBuf {
    let dir = scratch_base().join(format!("{}-{}", tag, std::process::id()));
    std::fs::create_dir_all(&dir).expect("env: scratch");
    dir
}

/// Exit code 1 and a line on stdout when the replayed case fails.
pub fn replay(properties: &[Property], file: &Path, verbose: bool) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let json: Json = serde_json::from_str(&text).expect("replay JSON");
    let id = json["property"].as_str().expect("property");
    let name = json["suite"].as_str().expect("suite");
    let tape: Vec<u64> = json["tape"]
        .as_array()
        .expect("tape")
        .iter()
        .map(|v| v.as_u64().expect("draw"))
        .collect();
    let property = properties.iter().find(|p| p.id == id).expect("property");
    let suite = property.suites.iter().find(|s| s.name == name).expect("suite");
    if std::env::var_os("SVM_VERIF_TEMPLATES").is_none() {
        crate::suites::prepare(property.id, json["seed"].as_u64().unwrap_or(1), json["tier"] == "thorough");
    }
    pin(cpus()[0]);
    install_panic_hook(verbose);
    let dir = new_scratch("replay");
    let mut ctx = Ctx::replay(tape, None, &dir);
    ctx.verbose = verbose;
    ctx.tier_thorough = json["tier"] == "thorough";
    let result = run_case(suite, &mut ctx);
    let _ = std::fs::remove_dir_all(&dir);
    match result {
        Ok(()) => {
            println!("replay passed");
            0
        }
        Err(f) => {
            println!("replay failed: [{}] {}", f.sig, f.msg);
            if let Some(s) = &ctx.sample {
                println!("case: {}", s);
            }
            1
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Parent
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
struct Job {
    suite: usize,
    start: u64,
    count: u64,
    attempts: u32,
}

struct Running {
    job: Job,
    child: Child,
    dir: PathBuf,
    out: PathBuf,
    last_index: Option<u64>,
    last_change: Instant,
}

struct Violation {
    suite: String,
    sig: String,
    msg: String,
    tape: Vec<u64>,
    index: u64,
    case: Json,
}

fn write_replay(property: &Property, v: &Violation, seed: u64, tier: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replays");
    let path = dir.join(format!("{}-{}-{}-{}.json", property.id, v.suite, seed, v.index));
    let json = json!({
        "property": property.id, "suite": v.suite, "seed": seed, "index": v.index, "tier": tier,
        "sig": v.sig, "msg": v.msg, "case": v.case, "tape": v.tape,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&json).unwrap()).expect("replay file");
    path
}

/// Runs a tape in a process of its own. None: it timed out.
fn run_tape_apart(property: &Property, suite: &str, tier: &str, tape: &[u64], dir: &Path, limit: Duration) -> Option<std::process::ExitStatus> {
    let file = dir.join("apart.json");
    let json = json!({"property": property.id, "suite": suite, "tier": tier, "tape": tape});
    std::fs::write(&file, json.to_string()).expect("env: tape");
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .arg("replay")
        .arg(&file)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("env: spawn");
    let start = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Some(status);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub fn run(property: &Property, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(property.id);
    let root = new_scratch(property.id);
    let thorough = tier == "thorough";
    crate::suites::prepare(property.id, seed, thorough);

    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);

    let mut queue: VecDeque<Job> = VecDeque::new();
    for (i, s) in property.suites.iter().enumerate() {
        let total = if thorough { s.thorough } else { s.quick };
        let total = ((total as f64 * scale) as u64).max(1);
        let mut start = 0;
        while start < total {
            let count = s.chunk.min(total - start);
            queue.push_back(Job { suite: i, start, count, attempts: 0 });
            start += count;
        }
    }
    // Suites are interleaved, so that one with an early failure is reached early.
    let mut jobs: Vec<Job> = queue.into_iter().collect();
    jobs.sort_by_key(|j| (j.start, j.suite));
    let mut queue: VecDeque<Job> = jobs.into();

    let cpus = cpus();
    let mut slots: Vec<Option<Running>> = cpus.iter().map(|_| None).collect();
    let mut evaluations = 0u64;
    let mut per_suite: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut digests: BTreeMap<&str, BTreeSet<u64>> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut suite_samples: BTreeMap<&str, u32> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<Violation> = None;
    let mut error: Option<String> = None;
    let mut serial = 0;

    'outer: loop {
        for (slot, cpu) in cpus.iter().enumerate() {
            if slots[slot].is_none() {
                if let Some(job) = queue.pop_front() {
                    serial += 1;
                    let dir = root.join(format!("w{}", serial));
                    std::fs::create_dir_all(&dir).expect("env: worker dir");
                    let out = dir.join("result.json");
                    let log = std::fs::File::create(dir.join("log")).expect("env: log");
                    let child = Command::new(std::env::current_exe().expect("exe"))
                        .args(&["worker", property.id, property.suites[job.suite].name, tier])
                        .args(&[seed.to_string(), job.start.to_string(), job.count.to_string(), cpu.to_string()])
                        .arg(&dir)
                        .arg(&out)
                        .stdin(std::process::Stdio::null())
                        .stdout(std::process::Stdio::null())
                        .stderr(log)
                        .spawn()
                        .expect("env: spawn");
                    slots[slot] = Some(Running { job, child, dir, out, last_index: None, last_change: Instant::now() });
                }
            }
        }
        if slots.iter().all(|s| s.is_none()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));

        for slot in slots.iter_mut() {
            let running = match slot {
                Some(r) => r,
                None => continue,
            };
            let suite = &property.suites[running.job.suite];
            let mut status = running.child.try_wait().expect("wait");
            let mut hung = false;
            if status.is_none() {
                if running.last_change.elapsed() > Duration::from_secs(1) {
                    let index = Mirror::read(&running.dir.join("mirror")).map(|(i, t)| i ^ (t.len() as u64) << 32);
                    if index != running.last_index {
                        running.last_index = index;
                        running.last_change = Instant::now();
                    } else if running.last_change.elapsed() > HANG {
                        let _ = running.child.kill();
                        status = Some(running.child.wait().expect("wait"));
                        hung = true;
                    }
                }
            }
            let status = match status {
                Some(s) => s,
                None => continue,
            };
            let running = slot.take().unwrap();

            if status.success() && running.out.exists() {
                let text = std::fs::read_to_string(&running.out).expect("env: result");
                let r: Json = serde_json::from_str(&text).expect("result JSON");
                let n = r["evaluations"].as_u64().unwrap();
                evaluations += n;
                let e = per_suite.entry(suite.name).or_insert((0, 0));
                e.0 += n;
                e.1 += r["nontrivial"].as_u64().unwrap();
                let d = digests.entry(suite.name).or_default();
                for x in r["digests"].as_array().unwrap() {
                    d.insert(x.as_u64().unwrap());
                }
                for (l, n) in r["labels"].as_object().unwrap() {
                    *labels.entry(format!("{}/{}", suite.name, l)).or_insert(0) += n.as_u64().unwrap();
                }
                for s in r["samples"].as_array().unwrap() {
                    let c = suite_samples.entry(suite.name).or_insert(0);
                    if *c < 3 {
                        *c += 1;
                        samples.push(s.as_str().unwrap().to_string());
                    }
                }
                for (k, n) in r["known"].as_object().unwrap() {
                    *known_hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                if !r["fail"].is_null() {
                    let f = &r["fail"];
                    // Believed only if it happens again in a process of its own.
                    let draws = |v: &Json| -> Vec<u64> { v.as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect() };
                    let again = |tape: &[u64], tries: u32| {
                        (0..tries).any(|_| {
                            run_tape_apart(property, suite.name, tier, tape, &running.dir, HANG).and_then(|s| s.code()) != Some(0)
                        })
                    };
                    let small = draws(&f["tape"]);
                    let full = draws(&f["full"]);
                    let tape = if again(&small, 5) {
                        small
                    } else if again(&full, 20) {
                        full
                    } else {
                        eprintln!("not reproducible, ignored: [{}] {} {}", f["sig"], f["msg"], f["case"]);
                        *labels.entry(format!("{}/unreproducible-failures", suite.name)).or_insert(0) += 1;
                        let next = f["index"].as_u64().unwrap() + 1;
                        let end = running.job.start + running.job.count;
                        if next < end {
                            queue.push_back(Job { suite: running.job.suite, start: next, count: end - next, attempts: 0 });
                        }
                        let _ = std::fs::remove_dir_all(&running.dir);
                        continue;
                    };
                    violation = Some(Violation {
                        suite: suite.name.to_string(),
                        sig: f["sig"].as_str().unwrap().to_string(),
                        msg: f["msg"].as_str().unwrap().to_string(),
                        tape,
                        index: f["index"].as_u64().unwrap(),
                        case: f["case"].clone(),
                    });
                    break 'outer;
                }
                let _ = std::fs::remove_dir_all(&running.dir);
                continue;
            }

            // The worker died or hung in some case.
            let log = std::fs::read_to_string(running.dir.join("log")).unwrap_or_default();
            if status.code() == Some(3) {
                error = Some(log);
                break 'outer;
            }
            let (index, tape) = match Mirror::read(&running.dir.join("mirror")) {
                Some(x) => x,
                None => {
                    error = Some(format!("worker died before its first case: {:?} {}", status, log));
                    break 'outer;
                }
            };
            let again = run_tape_apart(property, suite.name, tier, &tape, &running.dir, HANG);
            let dead = |s: &Option<std::process::ExitStatus>| match s {
                None => true,
                Some(s) => s.code().map_or(true, |c| c != 0 && c != 1),
            };
            if dead(&again) {
                let kind = if hung || again.is_none() { "hang" } else { "crash" };
                let small = if kind == "crash" {
                    shrink(tape, SHRINK, |cand| {
                        let s = run_tape_apart(property, suite.name, tier, cand, &running.dir, Duration::from_secs(10));
                        s.is_some() && dead(&s)
                    })
                } else {
                    tape
                };
                let v = Violation {
                    suite: suite.name.to_string(),
                    sig: kind.to_string(),
                    msg: format!("the process running the case ended in a {} ({:?})", kind, status),
                    tape: small,
                    index,
                    case: Json::String(log.chars().take(2000).collect()),
                };
                violation = Some(v);
                break 'outer;
            }
            // Not reproducible apart: once more, then give up.
            let mut job = running.job.clone();
            job.attempts += 1;
            if job.attempts > 2 {
                error = Some(format!("{} worker keeps dying ({:?}) at case {}: {}", suite.name, status, index, log));
                break 'outer;
            }
            *labels.entry(format!("{}/worker-restarts", suite.name)).or_insert(0) += 1;
            queue.push_back(job);
        }
    }

    for slot in slots.iter_mut() {
        if let Some(mut r) = slot.take() {
            let _ = r.child.kill();
            let _ = r.child.wait();
        }
    }

    let mut code = 0;
    if let Some(e) = &error {
        eprintln!("ERROR: {}", e);
        code = 2;
    }
    let mut violations = 0;
    if let Some(v) = &violation {
        violations = 1;
        code = 1;
        let path = write_replay(property, v, seed, tier);
        println!("[{}] {}", v.sig, v.msg);
        if let Some(c) = v.case.as_str() {
            println!("case: {}", c);
        }
        println!("VIOLATION property={} replay={}", property.id, path.display());
    }
    for (sig, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} (sig={}, {} cases)", property.id, known[sig], sig, n);
    }

    let distinct: u64 = digests.values().map(|d| d.len() as u64).sum();
    let suites: BTreeMap<&str, Json> = per_suite
        .iter()
        .map(|(k, (n, t))| {
            let d = digests.get(k).map_or(0, |d| d.len());
            (*k, json!({"cases": n, "nontrivial": t, "distinct_nontrivial": d}))
        })
        .collect();
    let evidence = json!({
        "property": property.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": property.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": property.rule,
            "samples": samples,
            "suites": suites,
            "labels": labels,
            "known_finding_hits": known_hits,
        },
        "assumptions": property.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence dir");
    std::fs::write(
        dir.join(format!("{}.json", property.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence");
    let _ = std::fs::remove_dir_all(&root);

    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        property.id,
        tier,
        evaluations,
        distinct,
        t0.elapsed().as_secs_f64()
    );
    code
}
