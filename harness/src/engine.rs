//! Runs the cases of a property in worker processes, collects evidence, shrinks failures.
use crate::tape::{fnv, mix, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// Address-space limit of a worker in MiB (0 = none)
    pub mem_mb: u64,
    /// Drop to an unprivileged user in the workers (checks of code that contains effects)
    pub unprivileged: bool,
}

pub struct Ctx {
    pub t: Tape,
    pub dir: PathBuf,
    pub case: u64,
    pub thorough: bool,
    pub classes: BTreeMap<String, u64>,
    nontrivial: bool,
    desc: String,
    pub evals: u64,
}

impl Ctx {
    /// Marks the case as non-trivial by the property's rule
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, name: impl Into<String>) {
        *self.classes.entry(name.into()).or_default() += 1;
    }
    /// A defect of the unchanged tree: tolerated if the known-findings file lists it under this key
    pub fn known(&mut self, property: &str, key: &str, what: String) -> Result<(), String> {
        let file = std::env::var("VP_DIR").unwrap_or_default() + "/known_findings.txt";
        let text = std::fs::read_to_string(file).unwrap_or_default();
        let head = format!("known: property={property} key={key} ");
        match text.lines().find_map(|l| l.strip_prefix(head.as_str())) {
            Some(l) => {
                self.class(format!("KNOWN-FINDING: property={property} {key}: {l}"));
                Ok(())
            }
            None => Err(what),
        }
    }
    pub fn describe(&mut self, s: impl Into<String>) {
        if self.desc.len() < 6000 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s.into());
        }
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

pub struct Outcome {
    pub failure: Option<String>,
    pub tape: Vec<u64>,
    pub desc: String,
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    pub evals: u64,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
static LAST_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        if std::env::var_os("VP_SHOW_PANIC").is_some() {
            eprintln!("panic: {msg}");
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(msg.clone());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

pub fn take_panic() -> String {
    PANIC
        .with(|p| p.borrow_mut().take())
        .or_else(|| LAST_PANIC.lock().ok().and_then(|mut g| g.take()))
        .unwrap_or_else(|| "panic".into())
}

pub fn run_case(prop: &Prop, tape: Tape, dir: &Path, case: u64, thorough: bool) -> Outcome {
    clear_dir(dir);
    let mut ctx = Ctx {
        t: tape,
        dir: dir.to_path_buf(),
        case,
        thorough,
        classes: BTreeMap::new(),
        nontrivial: false,
        desc: String::new(),
        evals: 0,
    };
    // now and then with all log messages formatted, as under a user's logger
    let loud = ctx.t.chance(1, 12);
    log::set_max_level(if loud { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    if loud {
        ctx.class("log messages formatted");
    }
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    let failure = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => Some(format!("panic: {}", take_panic())),
    };
    Outcome {
        failure,
        tape: std::mem::take(&mut ctx.t.rec),
        desc: ctx.desc,
        nontrivial: ctx.nontrivial,
        classes: ctx.classes,
        evals: ctx.evals.max(1),
    }
}

fn clear_dir(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let is_dir = e.file_type().map(|t| t.is_dir()).unwrap_or(false);
            if is_dir {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    let _ = std::fs::create_dir_all(dir);
}

pub fn scratch_base() -> PathBuf {
    for c in ["/dev/shm", "/tmp"] {
        let p = Path::new(c).join(format!(".vp-probe-{}", std::process::id()));
        if std::fs::write(&p, b"x").is_ok() {
            let _ = std::fs::remove_file(&p);
            return PathBuf::from(c);
        }
    }
    std::env::temp_dir()
}

fn case_tape(seed: u64, id: &str, case: u64) -> Tape {
    Tape::random(mix(mix(seed, fnv(id.as_bytes())), case))
}

fn set_limit(res: libc::__rlimit_resource_t, v: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: v,
            rlim_max: v,
        };
        libc::setrlimit(res, &l);
    }
}

const NWORK: u64 = 8;
/// Workers of a property: cases of many gigabytes run one after another
fn workers(prop: &Prop) -> u64 {
    if prop.id == "M31" {
        1
    } else {
        NWORK
    }
}

struct Args<'a> {
    prop: &'a Prop,
    thorough: bool,
    seed: u64,
    count: u64,
}

/// Worker: runs cases w, w+8, ... and writes a result file
pub fn worker(prop: &Prop, thorough: bool, seed: u64, count: u64, w: u64, scratch: &Path) -> i32 {
    setup_worker(prop, scratch);
    let dir = scratch.join(format!("w{w}"));
    let journal = scratch.join(format!("j{w}"));
    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = Value::Null;
    let jf = std::fs::File::create(&journal).ok();
    let mut slowest = (0f64, 0u64);
    let mut i = w;
    while i < count {
        if let Some(f) = &jf {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&(i + 1).to_le_bytes(), 0);
        }
        let t0 = Instant::now();
        let o = run_case(prop, case_tape(seed, prop.id, i), &dir, i, thorough);
        let dt = t0.elapsed().as_secs_f64();
        if dt > slowest.0 {
            slowest = (dt, i);
        }
        evals += o.evals;
        cases += 1;
        for (k, v) in o.classes {
            *classes.entry(k).or_default() += v;
        }
        if o.nontrivial {
            let mut b = Vec::with_capacity(o.tape.len() * 8);
            for v in &o.tape {
                b.extend_from_slice(&v.to_le_bytes());
            }
            distinct.insert(fnv(&b));
            if samples.len() < 2 {
                samples.push(format!("case {i}: {}", o.desc));
            }
        }
        if let Some(msg) = o.failure {
            failure = json!({"case": i, "message": msg, "tape": o.tape, "desc": o.desc});
            break;
        }
        i += workers(prop);
    }
    clear_dir(&dir);
    let _ = std::fs::remove_dir(&dir);
    let out = json!({"evals": evals, "cases": cases, "distinct": distinct.iter().collect::<Vec<_>>(),
        "samples": samples, "classes": classes, "failure": failure, "slowest": [slowest.0, slowest.1]});
    let p = scratch.join(format!("r{w}"));
    match std::fs::write(&p, out.to_string()) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("cannot write {}: {e}", p.display());
            3
        }
    }
}

fn setup_worker(prop: &Prop, scratch: &Path) {
    install_panic_hook();
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        let l = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        // die with the parent
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if prop.mem_mb > 0 {
        set_limit(libc::RLIMIT_AS, prop.mem_mb << 20);
    }
    if prop.unprivileged && unsafe { libc::getuid() } == 0 {
        unsafe {
            let gid = 65534;
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(gid) != 0 || libc::setuid(65534) != 0 {
                eprintln!("cannot drop privileges");
                std::process::exit(3);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
    }
    let _ = scratch;
}

/// Runs one case given by its number or a tape file (used to confirm crashes and hangs, and for replays)
pub fn single(
    prop: &Prop,
    thorough: bool,
    seed: u64,
    case: Option<u64>,
    tape: Option<Vec<u64>>,
    scratch: &Path,
    verbose: bool,
) -> i32 {
    setup_worker(prop, scratch);
    let dir = scratch.join("single");
    let mut t = match (&tape, case) {
        (Some(v), _) => Tape::replay(v.clone()),
        (None, Some(c)) => case_tape(seed, prop.id, c),
        _ => return 3,
    };
    t.stream_to(&scratch.join("stream"));
    let o = run_case(prop, t, &dir, case.unwrap_or(0), thorough);
    if verbose {
        println!("{}", o.desc);
    }
    clear_dir(&dir);
    let _ = std::fs::remove_dir(&dir);
    match o.failure {
        Some(m) => {
            let _ = std::fs::write(scratch.join("message"), &m);
            if verbose {
                println!("FAILS: {m}");
            }
            1
        }
        None => {
            if verbose {
                println!("holds");
            }
            0
        }
    }
}

fn spawn(a: &Args, scratch: &Path, extra: &[String]) -> std::io::Result<Child> {
    let exe = std::env::current_exe()?;
    let mut c = Command::new(exe);
    c.arg("internal")
        .arg(a.prop.id)
        .arg(if a.thorough { "thorough" } else { "quick" })
        .arg(a.seed.to_string())
        .arg(a.count.to_string())
        .arg(scratch)
        .args(extra)
        .stdin(Stdio::null())
        .process_group(0);
    if std::env::var_os("VP_STDOUT").is_none() {
        c.stdout(Stdio::null());
        if std::env::var_os("VP_STDERR").is_none() {
            c.stderr(Stdio::null());
        }
    }
    c.spawn()
}

fn kill(c: &mut Child) {
    unsafe {
        libc::kill(-(c.id() as i32), libc::SIGKILL);
    }
    let _ = c.kill();
    let _ = c.wait();
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

#[derive(Debug, Clone, PartialEq)]
enum Verdict {
    Holds,
    Fails(String),
    Dies(i32),
    Burns,
    Sleeps,
    Unknown(String),
}

/// Case allowance when alone
const CPU_LIMIT: f64 = 60.0;
const SLEEP_LIMIT: u64 = 45;

/// Re-executes one case in a process of its own
fn confirm(a: &Args, scratch: &Path, extra: &[String]) -> Verdict {
    let _ = std::fs::remove_file(scratch.join("message"));
    let mut c = match spawn(a, scratch, extra) {
        Ok(c) => c,
        Err(e) => return Verdict::Unknown(e.to_string()),
    };
    let t0 = Instant::now();
    let mut last_cpu = 0.0;
    let mut idle_since = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Verdict::Holds,
                    (Some(1), _) => Verdict::Fails(
                        std::fs::read_to_string(scratch.join("message")).unwrap_or_default(),
                    ),
                    (_, Some(s))
                        if [
                            libc::SIGABRT,
                            libc::SIGSEGV,
                            libc::SIGBUS,
                            libc::SIGILL,
                            libc::SIGFPE,
                        ]
                        .contains(&s) =>
                    {
                        Verdict::Dies(s)
                    }
                    _ => Verdict::Unknown(format!("{st:?}")),
                };
            }
            Ok(None) => {}
            Err(e) => return Verdict::Unknown(e.to_string()),
        }
        if let Some(cpu) = cpu_seconds(c.id()) {
            if cpu > CPU_LIMIT {
                kill(&mut c);
                return Verdict::Burns;
            }
            if cpu > last_cpu + 0.05 {
                last_cpu = cpu;
                idle_since = Instant::now();
            }
            if idle_since.elapsed() > Duration::from_secs(SLEEP_LIMIT) {
                // no CPU for a long time: blocked for good, unless it waits for a child of its own
                let children =
                    std::fs::read_to_string(format!("/proc/{0}/task/{0}/children", c.id()))
                        .unwrap_or_default();
                kill(&mut c);
                return if children.trim().is_empty() {
                    Verdict::Sleeps
                } else {
                    Verdict::Unknown("waits for a child process".into())
                };
            }
        }
        if t0.elapsed() > Duration::from_secs(400) {
            kill(&mut c);
            return Verdict::Unknown("too slow".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn verdict_message(v: &Verdict) -> Option<String> {
    match v {
        Verdict::Fails(m) => Some(m.clone()),
        Verdict::Dies(s) => Some(format!("process ends by signal {s}")),
        Verdict::Burns => Some("does not terminate (CPU allowance used up)".into()),
        Verdict::Sleeps => Some("does not terminate (deadlock: no CPU used)".into()),
        _ => None,
    }
}

fn read_stream(p: &Path) -> Vec<u64> {
    std::fs::read(p)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

pub fn run(prop: &Prop, thorough: bool, seed: u64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let count = std::env::var("VP_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { prop.thorough } else { prop.quick });
    // percentage of the usual number of cases (tools/mutlane.py)
    let scale: u64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let count = (count * scale / 100).max(1);
    let scratch = scratch_base().join(format!("vp-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    if prop.unprivileged {
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o777));
    }
    let a = Args {
        prop,
        thorough,
        seed,
        count,
    };
    let code = run_inner(&a, &scratch, verif, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn run_inner(a: &Args, scratch: &Path, verif: &Path, t0: Instant) -> i32 {
    let prop = a.prop;
    let n = workers(prop).min(a.count.max(1));
    let mut kids: Vec<(u64, Option<Child>, u64, Instant)> = vec![];
    for w in 0..n {
        match spawn(a, scratch, &["worker".into(), w.to_string()]) {
            Ok(c) => kids.push((w, Some(c), 0, Instant::now())),
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                return 2;
            }
        }
    }
    let stall = Duration::from_secs(90);
    let overall = Duration::from_secs(if a.thorough { 4 * 3600 } else { 800 });
    // (case, what) of workers that ended abnormally or stalled
    let mut suspects: Vec<(u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let journal = |w: u64| -> u64 {
        std::fs::read(scratch.join(format!("j{w}")))
            .ok()
            .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
            .unwrap_or(0)
    };
    let mut stop_all = false;
    while kids.iter().any(|k| k.1.is_some()) {
        for k in kids.iter_mut() {
            let Some(c) = k.1.as_mut() else { continue };
            match c.try_wait() {
                Ok(Some(st)) => {
                    if !st.success() {
                        let j = journal(k.0);
                        if j == 0 {
                            errors.push(format!("worker {} failed to start: {st:?}", k.0));
                        } else {
                            suspects.push((j - 1, format!("{st:?}")));
                        }
                    }
                    k.1 = None;
                    continue;
                }
                Ok(None) => {}
                Err(e) => {
                    errors.push(e.to_string());
                    k.1 = None;
                    continue;
                }
            }
            let j = journal(k.0);
            if j != k.2 {
                k.2 = j;
                k.3 = Instant::now();
            }
            if k.3.elapsed() > stall {
                kill(c);
                k.1 = None;
                if j > 0 {
                    suspects.push((j - 1, "stalled".into()));
                } else {
                    errors.push("worker stalled before its first case".into());
                }
                stop_all = true;
            }
            if t0.elapsed() > overall {
                if let Some(c) = k.1.as_mut() {
                    kill(c);
                }
                k.1 = None;
                errors.push("time budget used up".into());
            }
        }
        if stop_all {
            for k in kids.iter_mut() {
                if let Some(c) = k.1.as_mut() {
                    kill(c);
                }
                k.1 = None;
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // Merge results
    let mut evals = 0;
    let mut cases = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<(u64, String, Vec<u64>, String)> = vec![];
    let mut slow = vec![];
    for w in 0..n {
        let Ok(s) = std::fs::read_to_string(scratch.join(format!("r{w}"))) else {
            continue;
        };
        let Ok(v) = serde_json::from_str::<Value>(&s) else {
            errors.push(format!("worker {w}: bad result"));
            continue;
        };
        evals += v["evals"].as_u64().unwrap_or(0);
        cases += v["cases"].as_u64().unwrap_or(0);
        slow.push(v["slowest"].to_string());
        for d in v["distinct"].as_array().into_iter().flatten() {
            distinct.extend(d.as_u64());
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if samples.len() < 6 {
                samples.extend(s.as_str().map(String::from));
            }
        }
        if let Some(m) = v["classes"].as_object() {
            for (k, x) in m {
                *classes.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        }
        let f = &v["failure"];
        if !f.is_null() {
            failures.push((
                f["case"].as_u64().unwrap_or(0),
                f["message"].as_str().unwrap_or("").to_string(),
                f["tape"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .filter_map(|x| x.as_u64())
                    .collect(),
                f["desc"].as_str().unwrap_or("").to_string(),
            ));
        }
    }
    failures.sort();
    suspects.sort();

    // Crashes and hangs count only if the case alone reproduces them (twice)
    if failures.is_empty() {
        for (case, what) in &suspects {
            let extra = vec!["case".to_string(), case.to_string()];
            let v1 = confirm(a, scratch, &extra);
            let v2 = if verdict_message(&v1).is_some() {
                confirm(a, scratch, &extra)
            } else {
                Verdict::Holds
            };
            match (verdict_message(&v1), verdict_message(&v2)) {
                (Some(m), Some(_)) => {
                    let tape = read_stream(&scratch.join("stream"));
                    failures.push((*case, m, tape, format!("(worker: {what})")));
                    break;
                }
                _ => errors.push(format!(
                    "case {case}: worker ended abnormally ({what}), alone: {v1:?}"
                )),
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let violations = if failures.is_empty() { 0 } else { 1 };
    let mut replay_path = None;
    if let Some((case, msg, tape, desc)) = failures.first().cloned() {
        let (tape, msg, desc) = if std::env::var_os("VP_NOSHRINK").is_some() {
            (tape, msg, desc)
        } else {
            shrink(a, scratch, tape, msg, desc)
        };
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut b = vec![];
        for v in &tape {
            b.extend_from_slice(&v.to_le_bytes());
        }
        let p = dir.join(format!("{}-{:016x}.json", prop.id, fnv(&b)));
        let v = json!({"property": prop.id, "tier": if a.thorough {"thorough"} else {"quick"}, "seed": a.seed,
            "case": case, "tape": tape, "message": msg, "input": desc});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
        println!("{}: {msg}", prop.id);
        println!("  input: {desc}");
        replay_path = Some(p);
    }
    let evidence = json!({
        "property": prop.id,
        "tier": if a.thorough {"thorough"} else {"quick"},
        "seed": a.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evals,
            "cases": cases,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "classes": classes,
            "samples": samples,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(
        ev.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        errors.push(format!("cannot write evidence: {e}"));
    }
    println!(
        "{} {}: {cases} cases, {evals} evaluations, {} distinct non-trivial, {wall:.1} s",
        prop.id,
        if a.thorough { "thorough" } else { "quick" },
        distinct.len()
    );
    if std::env::var_os("VP_VERBOSE").is_some() {
        for (k, v) in &classes {
            println!("   {k}: {v}");
        }
        println!("   slowest {slow:?}");
        for s in samples.iter().take(3) {
            println!("   sample {s}");
        }
    }
    for k in classes.keys().filter(|k| k.starts_with("KNOWN-FINDING: ")) {
        println!("{k}");
    }
    let _ = std::io::stdout().flush();
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR: {e}");
            println!("ERROR: {e}");
        }
        return 2;
    }
    0
}

/// Shrinks in a child process (`shrinkd`), or by re-execution if the failure kills the process
fn shrink(
    a: &Args,
    scratch: &Path,
    tape: Vec<u64>,
    msg: String,
    desc: String,
) -> (Vec<u64>, String, String) {
    let tf = scratch.join("tape.json");
    let _ = std::fs::write(&tf, serde_json::to_string(&tape).unwrap());
    let deadly = msg.starts_with("process ends") || msg.starts_with("does not terminate");
    if deadly {
        // few attempts: truncate from the end, zero out
        if msg.starts_with("does not") {
            return (tape, msg, desc);
        }
        let t0 = Instant::now();
        let mut best = tape;
        let mut best_msg = msg;
        let mut chunk = best.len() / 2;
        while chunk > 0 && t0.elapsed() < Duration::from_secs(40) {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < Duration::from_secs(40) {
                let mut cand = best.clone();
                let end = (i + chunk).min(cand.len());
                cand.drain(i..end);
                let _ = std::fs::write(&tf, serde_json::to_string(&cand).unwrap());
                let v = confirm(a, scratch, &["tape".into(), tf.display().to_string()]);
                if let Verdict::Dies(_) = v {
                    best_msg = verdict_message(&v).unwrap();
                    best = cand;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        return (best, best_msg, desc);
    }
    let out = scratch.join("shrunk.json");
    if let Ok(mut c) = spawn(a, scratch, &["shrink".into(), tf.display().to_string()]) {
        let t0 = Instant::now();
        loop {
            if let Ok(Some(_)) = c.try_wait() {
                break;
            }
            if t0.elapsed() > Duration::from_secs(75) {
                kill(&mut c);
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    if let Ok(s) = std::fs::read_to_string(&out) {
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            let t = v["tape"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(|x| x.as_u64())
                .collect();
            return (
                t,
                v["message"].as_str().unwrap_or("").into(),
                v["desc"].as_str().unwrap_or("").into(),
            );
        }
    }
    (tape, msg, desc)
}

pub fn shrink_worker(prop: &Prop, thorough: bool, scratch: &Path, tape: Vec<u64>) -> i32 {
    setup_worker(prop, scratch);
    let dir = scratch.join("shrink");
    let out = scratch.join("shrunk.json");
    let t0 = Instant::now();
    let budget = Duration::from_secs(45);
    let mut best: Option<Outcome> = None;
    let mut tries = 0;
    let attempt = |cand: Vec<u64>, best: &mut Option<Outcome>, tries: &mut u32| -> bool {
        *tries += 1;
        let o = run_case(prop, Tape::replay(cand), &dir, 0, thorough);
        let better = match (&o.failure, &*best) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(_), Some(b)) => (o.tape.len(), &o.tape) < (b.tape.len(), &b.tape),
        };
        if better {
            let j = json!({"tape": o.tape, "message": o.failure, "desc": o.desc});
            let tmp = scratch.join("shrunk.tmp");
            if std::fs::write(&tmp, j.to_string()).is_ok() {
                let _ = std::fs::rename(&tmp, &out);
            }
            *best = Some(o);
        }
        better
    };
    attempt(tape, &mut best, &mut tries);
    if best.is_none() {
        return 1;
    }
    let mut progress = true;
    while progress && t0.elapsed() < budget && tries < 4000 {
        progress = false;
        // delete spans
        let mut chunk = (best.as_ref().unwrap().tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.as_ref().unwrap().tape.len() && t0.elapsed() < budget {
                let mut cand = best.as_ref().unwrap().tape.clone();
                let end = (i + chunk).min(cand.len());
                cand.drain(i..end);
                if attempt(cand, &mut best, &mut tries) {
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.as_ref().unwrap().tape.len() && t0.elapsed() < budget {
            let v = best.as_ref().unwrap().tape[i];
            if v > 0 {
                let mut c = best.as_ref().unwrap().tape.clone();
                c[i] = 0;
                if attempt(c, &mut best, &mut tries) {
                    progress = true;
                } else {
                    // binary search towards 0
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 && t0.elapsed() < budget {
                        let mid = lo + (hi - lo) / 2;
                        if best.as_ref().unwrap().tape.get(i).is_none() {
                            break;
                        }
                        let mut c = best.as_ref().unwrap().tape.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut tries) {
                            progress = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    0
}
