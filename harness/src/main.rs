//! Supervisor and worker of the checks. See DESIGN.md.
mod checks;
mod drive;
mod engine;
mod gen;
mod refmodel;
mod sys;

use engine::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

const SHARDS: usize = 8;
/// CPU seconds for a single case, which normally takes less than a millisecond
const CASE_CPU_S: u64 = 60;
/// Bytes of memory for a single case, which needs some megabytes at most, and for a run
const CASE_MEMORY: u64 = 6 << 30;
const RUN_MEMORY: u64 = 16 << 30;
/// Properties of which termination is a part
const TERMINATION: [&str; 4] = ["C04", "C10", "C18", "C30"];
/// Seconds for a whole run; exceeding it is an error of the check
const RUN_WALL_S: u64 = 820;
const RUN_WALL_THOROUGH_S: u64 = 840;

const EXIT_VIOLATION: i32 = 10;
const EXIT_CASE_TIME: i32 = 42;

fn die(m: &str) -> ! {
    eprintln!("error: {m}");
    std::process::exit(3);
}

fn case_seed(id: &str, seed: u64, shard: usize, i: u64) -> u64 {
    let mut r = Rng::new(hash_str(id) ^ seed.wrapping_mul(0x2545_F491_4F6C_DD1D));
    let a = r.next();
    let mut r = Rng::new(a ^ ((shard as u64) << 48) ^ i);
    r.next()
}

fn case_size(i: u64) -> usize {
    5 + ((i * 7) % 20) as usize * 5
}

struct Args {
    cmd: String,
    id: String,
    tier: Tier,
    seed: u64,
    dir: PathBuf,
    rest: Vec<String>,
}

fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        die("usage: hmlverif check|replay|list <id> ...");
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let dir = PathBuf::from(std::env::var("HMLVERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    Args { cmd: a[1].clone(), id: a[2].clone(), tier, seed, dir, rest: a[3..].to_vec() }
}

fn main() {
    let a = args();
    let Some(check) = checks::find(&a.id) else {
        die(&format!("no check {}", a.id));
    };
    match a.cmd.as_str() {
        "check" => supervise(&a, check),
        "worker" => worker(&a, check),
        "eval" => eval(&a, check),
        "replay" => replay(&a, check),
        "sample" => sample(&a, check),
        _ => die("unknown command"),
    }
}

//a sample: print some generated cases, for reading
fn sample(a: &Args, check: &CheckDef) {
    let n: u64 = a.rest.first().and_then(|s| s.parse().ok()).unwrap_or(10);
    for i in 0..n {
        let mut src = Src::fresh(case_seed(check.id, a.seed, 0, i), case_size(i));
        println!("{}", (check.gen)(&mut src).json());
    }
}

//a worker: runs the cases
struct Found {
    shard: usize,
    choices: Option<(Vec<u64>, usize)>,
    case: Case,
    message: String,
}

fn worker(a: &Args, check: &'static CheckDef) {
    std::panic::set_hook(Box::new(|_| {}));
    sys::limit_memory(RUN_MEMORY);
    let work = PathBuf::from(&a.rest[0]);
    let trace = a.rest.iter().any(|x| x == "--trace");
    let total = match a.tier {
        Tier::Quick => check.quick,
        Tier::Thorough => check.thorough,
    };
    let per_shard = total.div_ceil(SHARDS as u64);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(Vec::new()));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(0)).collect());
    let clocks: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<Mutex<Option<Case>>>> = Arc::new((0..SHARDS).map(|_| Mutex::new(None)).collect());
    let (tier, seed) = (a.tier, a.seed);
    let shrinking: Arc<Mutex<Option<std::time::Instant>>> = Arc::new(Mutex::new(None));
    // A case that does not finish is reported with its input
    {
        let (started, clocks, current, work) = (started.clone(), clocks.clone(), current.clone(), work.clone());
        let shrinking = shrinking.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            // a smaller case that does not finish: the supervisor takes the one that was found first
            if shrinking.lock().unwrap().is_some_and(|t| t.elapsed().as_secs() > 120) {
                std::process::exit(EXIT_CASE_TIME);
            }
            for s in 0..SHARDS {
                let clock = clocks[s].load(Ordering::SeqCst);
                let st = started[s].load(Ordering::SeqCst);
                if clock == 0 || st == 0 {
                    continue;
                }
                let used = sys::clock_ns(clock as i32).saturating_sub(st) + sys::helper_ns(s);
                if st == started[s].load(Ordering::SeqCst) && used > CASE_CPU_S * 1_000_000_000 {
                    let c = current[s].lock().unwrap().clone().unwrap_or_default();
                    let _ = std::fs::write(work.join("slow.json"), c.json());
                    std::process::exit(EXIT_CASE_TIME);
                }
            }
        });
    }
    let mut handles = Vec::new();
    for shard in 0..SHARDS {
        let (stop, found, started, clocks, current, work) = (
            stop.clone(),
            found.clone(),
            started.clone(),
            clocks.clone(),
            current.clone(),
            work.clone(),
        );
        let body = move || {
            sys::set_shard(shard);
            let clock = sys::thread_clock();
            clocks[shard].store(clock as u64, Ordering::SeqCst);
            let mut cov = Cov::default();
            let trace_file = work.join(format!("trace-{shard}.json"));
            let mut one = |case: Case, choices: Option<(&[u64], usize)>, cov: &mut Cov| -> bool {
                if stop.load(Ordering::Relaxed) {
                    return false;
                }
                if trace {
                    let ch = match choices {
                        Some((c, size)) => {
                            format!("{} {}", size, c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
                        }
                        None => String::new(),
                    };
                    let _ = std::fs::write(&trace_file, format!("{}\n{}\n", case.json(), ch));
                }
                *current[shard].lock().unwrap() = Some(case.clone());
                started[shard].store(sys::clock_ns(clock).max(1), Ordering::SeqCst);
                let r = run_case(check, &case, cov);
                started[shard].store(0, Ordering::SeqCst);
                match r {
                    Ok(nt) => {
                        cov.record(&case, nt);
                        true
                    }
                    Err(message) => {
                        cov.evaluations += 1;
                        let mut found = found.lock().unwrap();
                        if found.is_empty() {
                            let _ = std::fs::write(work.join("found.json"), case.json());
                        }
                        found.push(Found {
                            shard,
                            choices: choices.map(|(c, s)| (c.to_vec(), s)),
                            case,
                            message,
                        });
                        drop(found);
                        stop.store(true, Ordering::SeqCst);
                        false
                    }
                }
            };
            if let Some(e) = check.enumerate {
                e(tier, shard, SHARDS, &mut |case| one(case, None, &mut cov));
            }
            for i in 0..per_shard {
                let size = case_size(i);
                let mut src = Src::fresh(case_seed(check.id, seed, shard, i), size);
                let case = (check.gen)(&mut src);
                if !one(case, Some((&src.rec, size)), &mut cov) {
                    break;
                }
            }
            if trace {
                let _ = std::fs::remove_file(&trace_file);
            }
            cov
        };
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(body)
                .unwrap(),
        );
    }
    let mut cov = Cov::default();
    for h in handles {
        match h.join() {
            Ok(c) => cov.merge(c),
            Err(_) => {
                // not in the case itself, those panics are caught
                eprintln!("error: a generator panicked");
                std::process::exit(3);
            }
        }
    }
    write_coverage(&work, &cov, check);
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.shard);
    if let Some(f) = found.into_iter().next() {
        let mut case = f.case;
        let mut message = f.message;
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
        *shrinking.lock().unwrap() = Some(std::time::Instant::now());
        if let Some((choices, size)) = f.choices {
            let (_, c) = shrink(choices, case.clone(), 3000, &mut |ch| {
                if std::time::Instant::now() > deadline {
                    return None;
                }
                let mut src = Src::replay(ch.to_vec(), size);
                let case = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.gen)(&mut src))).ok()?;
                match run_case(check, &case, &mut Cov::default()) {
                    Err(_) => Some((src.rec, case)),
                    Ok(_) => None,
                }
            });
            case = c;
        }
        if check.text_only {
            let t = case.get("text").to_string();
            let base = case.clone();
            let t = shrink_text(&t, 3000, &mut |s| {
                if std::time::Instant::now() > deadline {
                    return false;
                }
                let mut c = base.clone();
                c.set("text", s);
                run_case(check, &c, &mut Cov::default()).is_err()
            });
            case.set("text", t);
        }
        if let Err(m) = run_case(check, &case, &mut Cov::default()) {
            message = m;
        }
        std::fs::write(work.join("case.json"), case.json()).unwrap();
        std::fs::write(work.join("message.txt"), message).unwrap();
        std::process::exit(EXIT_VIOLATION);
    }
    std::process::exit(0);
}

fn write_coverage(work: &Path, cov: &Cov, check: &CheckDef) {
    let mut s = String::new();
    s += &format!("\"evaluations\": {},\n", cov.evaluations);
    s += &format!("  \"distinct_nontrivial\": {},\n", cov.nontrivial.len());
    s += &format!("  \"rule\": {},\n", json_str(check.rule));
    s += "  \"classes\": {";
    for (i, (k, v)) in cov.labels.iter().enumerate() {
        if i > 0 {
            s += ", ";
        }
        s += &format!("{}: {}", json_str(k), v);
    }
    s += "},\n  \"samples\": [";
    let mut samples = cov.samples.clone();
    samples.sort_by_key(|c| c.json().len());
    // some short, some long
    let n = samples.len();
    let pick: Vec<usize> = if n <= 6 { (0..n).collect() } else { (0..6).map(|k| k * (n - 1) / 5).collect() };
    for (i, k) in pick.into_iter().enumerate() {
        if i > 0 {
            s += ",\n    ";
        }
        s += &samples[k].json();
    }
    s += "]";
    std::fs::write(work.join("coverage.txt"), s).unwrap();
}

//a eval: runs one case in this process; exits 0 or with EXIT_VIOLATION, or is killed
fn eval(a: &Args, check: &'static CheckDef) {
    std::panic::set_hook(Box::new(|_| {}));
    sys::limit_cpu(CASE_CPU_S);
    sys::limit_memory(CASE_MEMORY);
    let text = std::fs::read_to_string(&a.rest[0]).unwrap_or_else(|e| die(&e.to_string()));
    let case = Case::from_json(&text).unwrap_or_else(|| die("bad case"));
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || run_case(check, &case, &mut Cov::default()))
        .unwrap();
    match t.join().unwrap() {
        Ok(_) => std::process::exit(0),
        Err(m) => {
            if let Some(f) = a.rest.get(1) {
                let _ = std::fs::write(f, m);
            } else {
                println!("{m}");
            }
            std::process::exit(EXIT_VIOLATION);
        }
    }
}

//a replay
fn replay(a: &Args, check: &'static CheckDef) {
    let file = PathBuf::from(&a.rest[0]);
    let work = sys::scratch("replay");
    let (st, m) = eval_file(check.id, &file, &work);
    let _ = std::fs::remove_dir_all(&work);
    match st {
        Eval::Pass => {
            println!("held: property={} {}", check.id, file.display());
            std::process::exit(0);
        }
        Eval::Fail | Eval::Died => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", check.id, file.display());
            std::process::exit(1);
        }
        Eval::Slow if TERMINATION.contains(&check.id) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", check.id, file.display());
            std::process::exit(1);
        }
        _ => die(&m),
    }
}

//a Running a case in a process of its own
#[derive(PartialEq, Clone, Copy, Debug)]
enum Eval {
    Pass,
    Fail,
    /// Killed by a signal
    Died,
    /// Out of CPU time
    Slow,
    Error,
}

fn eval_file(id: &str, file: &Path, work: &Path) -> (Eval, String) {
    let exe = std::env::current_exe().unwrap();
    let msg = work.join("eval-message.txt");
    let _ = std::fs::remove_file(&msg);
    let out = Command::new(exe)
        .args(["eval", id])
        .env("HMLVERIF_WORK", work)
        .arg(file)
        .arg(&msg)
        .stdin(Stdio::null())
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return (Eval::Error, e.to_string()),
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    const SIGXCPU: i32 = 24;
    const SIGKILL: i32 = 9;
    use std::os::unix::process::ExitStatusExt;
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => {
            if id == "C23" && !(out.stdout.is_empty() && out.stderr.is_empty()) {
                return (Eval::Fail, format!("output: {:?} {:?}", String::from_utf8_lossy(&out.stdout), err));
            }
            (Eval::Pass, String::new())
        }
        (Some(EXIT_VIOLATION), _) => (Eval::Fail, std::fs::read_to_string(&msg).unwrap_or_default()),
        (None, Some(SIGXCPU)) => (Eval::Slow, format!("no result after {CASE_CPU_S} s of CPU time")),
        // not by itself
        (None, Some(SIGKILL)) => (Eval::Error, "killed".into()),
        (None, Some(s)) => {
            if err.contains("memory allocation of") {
                return if TERMINATION.contains(&id) {
                    (Eval::Died, format!("no result within {} GB of memory", CASE_MEMORY >> 30))
                } else {
                    (Eval::Error, err)
                };
            }
            (Eval::Died, format!("killed by signal {s}: {}", err.trim()))
        }
        (c, _) => (Eval::Error, format!("exit {c:?}: {err}")),
    }
}

//a supervise
fn supervise(a: &Args, check: &'static CheckDef) {
    let t0 = std::time::Instant::now();
    let work = sys::scratch(check.id);
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&work);
        std::process::exit(code);
    };
    let evidence_dir = a.dir.join("evidence");
    let _ = std::fs::create_dir_all(&evidence_dir);
    let evidence = evidence_dir.join(format!("{}.json", check.id));
    let _ = std::fs::remove_file(&evidence);
    let (out, timed_out) = run_worker(a, check, &work, false);
    let mut violation: Option<(Case, String)> = None;
    // A case that failed before the worker was stopped by another one
    let failed = || -> Option<(Case, String)> {
        let file = work.join("found.json");
        let case = Case::from_json(&std::fs::read_to_string(&file).ok()?)?;
        match eval_file(check.id, &file, &work) {
            (Eval::Fail | Eval::Died, m) => Some((case, m)),
            _ => None,
        }
    };
    if !matches!(out.code, Some(0 | EXIT_VIOLATION)) {
        violation = failed();
    }
    if timed_out && violation.is_none() {
        eprintln!("error: the run took longer than its limit");
        finish(3);
    }
    match (out.code, out.signal) {
        _ if violation.is_some() => {}
        (Some(0), _) => {
            if check.id == "C23" && !(out.stdout.is_empty() && out.stderr.is_empty()) {
                violation = silence_violation(a, check, &work, &out);
            } else if !out.stdout.is_empty() || !out.stderr.is_empty() {
                // Printing is the subject of C23 only
                let _ = std::io::stderr().write_all(b"note: the library wrote to the process's output\n");
            }
        }
        (Some(EXIT_VIOLATION), _) => {
            let case = std::fs::read_to_string(work.join("case.json")).unwrap_or_default();
            let m = std::fs::read_to_string(work.join("message.txt")).unwrap_or_default();
            violation = Some((Case::from_json(&case).unwrap_or_default(), m));
        }
        (Some(EXIT_CASE_TIME), _) => {
            let file = work.join("slow.json");
            let (st, m) = eval_file(check.id, &file, &work);
            if TERMINATION.contains(&check.id) && st == Eval::Slow {
                let case = std::fs::read_to_string(&file).unwrap_or_default();
                violation = Some((Case::from_json(&case).unwrap_or_default(), m));
            } else {
                let keep = a.dir.join("replays").join(format!("{}-slow.json", check.id));
                let _ = std::fs::create_dir_all(a.dir.join("replays"));
                let _ = std::fs::copy(&file, &keep);
                eprintln!("error: a case did not finish: {}", keep.display());
                finish(3);
            }
        }
        (None, Some(s)) => {
            if out.stderr.contains("memory allocation of") && !TERMINATION.contains(&check.id) {
                eprintln!("error: out of memory: {}", out.stderr);
                finish(3);
            }
            violation = death_violation(a, check, &work);
            if violation.is_none() {
                eprintln!("error: the worker was killed by signal {s}, and no case reproduces it: {}", out.stderr);
                finish(3);
            }
        }
        (c, _) => {
            eprintln!("error: worker exit {c:?}: {}", out.stderr);
            finish(3);
        }
    }
    let cov = std::fs::read_to_string(work.join("coverage.txt"))
        .unwrap_or_else(|_| "\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"the run ended before counts were written\", \"samples\": []".into());
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n", json_str(check.id));
    s += &format!(" \"tier\": \"{}\",\n", if a.tier == Tier::Quick { "quick" } else { "thorough" });
    s += &format!(" \"seed\": {},\n \"level\": \"exploration\",\n", a.seed as i64);
    s += &format!(" \"coverage\": {{\n  {}\n }},\n", cov);
    s += " \"assumptions\": [";
    for (i, x) in check.assumptions.iter().enumerate() {
        if i > 0 {
            s += ", ";
        }
        s += &json_str(x);
    }
    s += "],\n";
    s += &format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64());
    s += &format!(" \"violations\": {}\n}}\n", violation.is_some() as usize);
    if let Err(e) = std::fs::write(&evidence, s) {
        eprintln!("error: {e}");
        finish(3);
    }
    if let Some((case, m)) = violation {
        let dir = a.dir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{:016x}.json", check.id, case.hash()));
        std::fs::write(&file, case.json()).unwrap();
        println!("{}", m.chars().take(1500).collect::<String>());
        println!("case: {}", case.json().chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", check.id, file.display());
        finish(1);
    }
    finish(0);
}

struct WorkerOut {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: String,
    stderr: String,
}

fn run_worker(a: &Args, check: &CheckDef, work: &Path, trace: bool) -> (WorkerOut, bool) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.args(["worker", check.id]).arg(work).env("HMLVERIF_WORK", work);
    if trace {
        cmd.arg("--trace");
    }
    // Output goes to files, so that a lot of it cannot block the worker
    let so = work.join("stdout.txt");
    let se = work.join("stderr.txt");
    cmd.stdin(Stdio::null());
    cmd.stdout(std::fs::File::create(&so).unwrap());
    cmd.stderr(std::fs::File::create(&se).unwrap());
    let mut child = cmd.spawn().unwrap_or_else(|e| die(&e.to_string()));
    let t0 = std::time::Instant::now();
    let limit = if a.tier == Tier::Quick { RUN_WALL_S } else { RUN_WALL_THOROUGH_S };
    let mut timed_out = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t0.elapsed().as_secs() > limit {
                    timed_out = true;
                    let _ = child.kill();
                    break child.wait().unwrap();
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            Err(e) => die(&e.to_string()),
        }
    };
    let read = |p: &Path| {
        let b = std::fs::read(p).unwrap_or_default();
        String::from_utf8_lossy(&b[..b.len().min(100_000)]).to_string()
    };
    (
        WorkerOut { code: status.code(), signal: status.signal(), stdout: read(&so), stderr: read(&se) },
        timed_out,
    )
}

/// The worker was killed: find the case, in a run that records each case first
fn death_violation(a: &Args, check: &'static CheckDef, work: &Path) -> Option<(Case, String)> {
    let (_, timed_out) = run_worker(a, check, work, true);
    if timed_out {
        return None;
    }
    let file = work.join("cand.json");
    for s in 0..SHARDS {
        let Ok(t) = std::fs::read_to_string(work.join(format!("trace-{s}.json"))) else {
            continue;
        };
        let mut lines = t.lines();
        let Some(case) = lines.next().and_then(Case::from_json) else {
            continue;
        };
        std::fs::write(&file, case.json()).ok()?;
        let (st, m) = eval_file(check.id, &file, work);
        if st != Eval::Died && st != Eval::Fail {
            continue;
        }
        let nums: Vec<u64> = lines
            .next()
            .unwrap_or("")
            .split_whitespace()
            .filter_map(|x| x.parse().ok())
            .collect();
        let mut best = case.clone();
        let mut message = m;
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(120);
        let bad = |c: &Case, message: &mut String| -> bool {
            if std::time::Instant::now() > deadline || std::fs::write(&file, c.json()).is_err() {
                return false;
            }
            let (st, m) = eval_file(check.id, &file, work);
            if st == Eval::Died || st == Eval::Fail {
                *message = m;
                true
            } else {
                false
            }
        };
        if !nums.is_empty() {
            let size = nums[0] as usize;
            let (_, c) = shrink(nums[1..].to_vec(), case, 400, &mut |ch| {
                let mut src = Src::replay(ch.to_vec(), size);
                let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.gen)(&mut src))).ok()?;
                bad(&c, &mut message).then_some((src.rec, c))
            });
            best = c;
        }
        if check.text_only {
            let t = best.get("text").to_string();
            let base = best.clone();
            let t = shrink_text(&t, 400, &mut |s| {
                let mut c = base.clone();
                c.set("text", s);
                bad(&c, &mut message)
            });
            best.set("text", t);
        }
        return Some((best, message));
    }
    None
}

/// C23: something was printed: find a case that prints by running cases one by one
fn silence_violation(a: &Args, check: &'static CheckDef, work: &Path, out: &WorkerOut) -> Option<(Case, String)> {
    let what = format!("printed: {:?} {:?}", out.stdout.chars().take(200).collect::<String>(), out.stderr.chars().take(200).collect::<String>());
    let file = work.join("cand.json");
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(120);
    let mut first: Option<Case> = None;
    'search: for i in 0..2000u64 {
        for shard in 0..SHARDS {
            if std::time::Instant::now() > deadline {
                break 'search;
            }
            let size = case_size(i);
            let mut src = Src::fresh(case_seed(check.id, a.seed, shard, i), size);
            let case = (check.gen)(&mut src);
            first.get_or_insert(case.clone());
            std::fs::write(&file, case.json()).ok()?;
            if eval_file(check.id, &file, work).0 == Eval::Fail {
                let (_, c) = shrink(src.rec, case, 400, &mut |ch| {
                    let mut src = Src::replay(ch.to_vec(), size);
                    let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.gen)(&mut src))).ok()?;
                    std::fs::write(&file, c.json()).ok()?;
                    (eval_file(check.id, &file, work).0 == Eval::Fail).then_some((src.rec, c))
                });
                return Some((c, what));
            }
        }
    }
    Some((first.unwrap_or_default(), what))
}
