//! Supervisor: seeded search over simulated runs, one forked process per run, with replay,
//! minimisation and evidence.
use serde_json::{json, Value};
use simrt::prng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub type Gen = fn(&mut Rng, &Cfg) -> Value;
pub type Exec = fn(&Value, &mut Ctx) -> Result<(), String>;

/// One claimed property.
pub struct Prop {
    pub id: &'static str,
    pub gen: Gen,
    pub exec: Exec,
    /// Number of simulated runs: quick, thorough.
    pub runs: (u64, u64),
    /// What a run is and what makes it non-trivial.
    pub rule: &'static str,
    /// What the distinctness fingerprint covers.
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Counters that must not stay zero in a full search: the situations the check is about.
    pub probes: &'static [&'static str],
}

/// What the generator may use besides the PRNG.
pub struct Cfg {
    pub index: u64,
    pub thorough: bool,
    /// This run is in the fault-free configuration.
    pub calm: bool,
}

/// What a run reports.
#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub fp: u64,
    pub digest: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub sched: Option<Vec<(u64, u32)>>,
    pub verbose: bool,
    pub trace: Vec<String>,
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.count(k, 1);
    }
    /// Folds a value into the fingerprint that measures distinctness.
    pub fn mark(&mut self, v: u64) {
        self.fp = mix(self.fp, v);
    }
    /// Folds bytes into the digest that proves replays identical.
    pub fn seen(&mut self, b: &[u8]) {
        self.digest = mix(self.digest, hash_bytes(b));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub fail: Option<String>,
    /// The harness itself failed.
    pub error: Option<String>,
    pub counters: BTreeMap<String, u64>,
    pub fp: u64,
    pub digest: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub sched: Option<Vec<(u64, u32)>>,
    pub trace: Vec<String>,
}

pub fn class(msg: &str) -> &str {
    msg.split(':').next().unwrap_or(msg)
}

/// A finer class, so that a smaller case fails for the same reason.
fn reason(msg: &str) -> String {
    msg.chars().filter(|c| !c.is_ascii_digit()).take(class(msg).len() + 24).collect()
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        // a destination that was made to panic
        if i.payload().is::<crate::faults::Gone>() {
            return;
        }
        let at = i.location().map(|l| format!("{} line {}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut g) = PANIC.lock() {
            if g.is_none() {
                *g = Some((at, m));
            }
        }
    }));
}

fn timers(cpu_s: i64, wall_s: i64) {
    unsafe {
        let t = |s: i64| libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: s, tv_usec: 0 },
        };
        simrt::os::raw_syscall(libc::SYS_setitimer, libc::ITIMER_PROF as i64, &t(cpu_s) as *const _ as i64, 0, 0, 0, 0);
        simrt::os::raw_syscall(libc::SYS_setitimer, libc::ITIMER_REAL as i64, &t(wall_s) as *const _ as i64, 0, 0, 0, 0);
    }
}

fn pipe() -> (i32, i32) {
    let mut fd = [0i32; 2];
    if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 {
        die("pipe failed");
    }
    (fd[0], fd[1])
}

/// The library and its dependencies print diagnostics; keep them out of the check's output.
fn silence() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
}

fn die(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(2)
}

fn write_fd(fd: i32, b: &[u8]) {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(b);
}

fn read_fd(fd: i32) -> Vec<u8> {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut v = vec![];
    let _ = f.read_to_end(&mut v);
    v
}

/// How a forked child ended.
enum End {
    Code(i32),
    Signal(i32),
}

fn wait(pid: i32) -> End {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            die("waitpid failed");
        }
    }
    if libc::WIFEXITED(st) {
        End::Code(libc::WEXITSTATUS(st))
    } else {
        End::Signal(libc::WTERMSIG(st))
    }
}

/// Runs `f` in a forked copy of the present process state and returns what it produced: what
/// would have happened from here on without the things the caller does next.
pub fn counterfactual(f: impl FnOnce() -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
    if simrt::sched::in_sim() {
        die("fork inside a simulated thread");
    }
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        die("fork failed");
    }
    if pid == 0 {
        unsafe { libc::close(r) };
        timers(10, 60);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let out = match res {
            Ok(Ok(v)) => {
                let mut o = vec![0u8];
                o.extend(v);
                o
            }
            Ok(Err(e)) => {
                let mut o = vec![1u8];
                o.extend(e.into_bytes());
                o
            }
            Err(_) => {
                let p = PANIC.lock().unwrap().clone().unwrap_or_default();
                let mut o = vec![1u8];
                o.extend(format!("panic at {}: {}", p.0, p.1).into_bytes());
                o
            }
        };
        write_fd(w, &out);
        simrt::os::exit_now(0);
    }
    unsafe { libc::close(w) };
    let v = read_fd(r);
    match wait(pid) {
        End::Code(0) if !v.is_empty() => {
            if v[0] == 0 {
                Ok(v[1..].to_vec())
            } else {
                Err(String::from_utf8_lossy(&v[1..]).into_owned())
            }
        }
        End::Code(c) => Err(end_text(&End::Code(c))),
        e => Err(end_text(&e)),
    }
}

fn end_text(e: &End) -> String {
    match e {
        End::Code(simrt::alloc::EXIT_MEMORY) => "memory limit exceeded: memory use out of proportion".into(),
        End::Code(simrt::sched::EXIT_DEADLOCK) => "deadlock: no thread can proceed".into(),
        End::Code(simrt::sched::EXIT_RUNAWAY) => "runaway: scheduling points exceed the bound".into(),
        End::Code(c) => format!("exit status {c}: the process ended by itself"),
        End::Signal(libc::SIGPROF) => "hang: used more than 10 s of processor time".into(),
        End::Signal(libc::SIGALRM) => "hang: blocked for 60 s".into(),
        End::Signal(s) => format!("killed by signal {s}: abort, stack overflow or invalid access"),
    }
}

/// Runs one case in a fresh forked process.
pub fn run_case(p: &Prop, make: &dyn Fn() -> Value, verbose: bool) -> Outcome {
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        die("fork failed");
    }
    if pid == 0 {
        unsafe { libc::close(r) };
        timers(10, 60);
        silence();
        install_hook();
        let case = make();
        let exec = p.exec;
        simrt::os::set_pace(case["pace"].as_u64().unwrap_or(0));
        simrt::os::set_hash_seed(hash_bytes(p.id.as_bytes()));
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut ctx = Ctx { verbose, ..Default::default() };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&case, &mut ctx)));
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err("panic: no location".into()),
                };
                (r, ctx)
            })
            .expect("spawn");
        let (mut res, ctx) = h.join().expect("join");
        let mut error = None;
        if let Some((at, m)) = PANIC.lock().unwrap().clone() {
            if at.starts_with("src/") || at.contains("/verif/sim/") {
                error = Some(format!("panic in the harness at {at}: {m}"));
            } else {
                res = Err(format!("panic at {at}: {m}"));
            }
        }
        let v = json!({
            "fail": res.err(), "error": error, "c": ctx.counters, "fp": ctx.fp, "d": ctx.digest, "nt": ctx.nontrivial,
            "ns": ctx.sim_ns, "sched": ctx.sched, "trace": ctx.trace,
        });
        write_fd(w, &serde_json::to_vec(&v).unwrap());
        simrt::os::exit_now(0);
    }
    unsafe { libc::close(w) };
    let v = read_fd(r);
    let end = wait(pid);
    let mut o = Outcome {
        fail: None,
        error: None,
        counters: BTreeMap::new(),
        fp: 0,
        digest: 0,
        nontrivial: true,
        sim_ns: 0,
        sched: None,
        trace: vec![],
    };
    match end {
        End::Code(0) if !v.is_empty() => {
            let j: Value = match serde_json::from_slice(&v) {
                Ok(j) => j,
                Err(e) => die(&format!("child result: {e}")),
            };
            o.fail = j["fail"].as_str().map(|s| s.to_string());
            o.error = j["error"].as_str().map(|s| s.to_string());
            if let Some(m) = j["c"].as_object() {
                o.counters = m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect();
            }
            o.fp = j["fp"].as_u64().unwrap_or(0);
            o.digest = j["d"].as_u64().unwrap_or(0);
            o.nontrivial = j["nt"].as_bool().unwrap_or(false);
            o.sim_ns = j["ns"].as_u64().unwrap_or(0);
            o.sched = serde_json::from_value(j["sched"].clone()).unwrap_or(None);
            o.trace = serde_json::from_value(j["trace"].clone()).unwrap_or_default();
        }
        e => o.fail = Some(end_text(&e)),
    }
    o
}

fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), index)
}

fn make_case(p: &Prop, seed: u64, index: u64, thorough: bool) -> Value {
    let mut rng = Rng::new(run_seed(seed, p.id, index));
    let mut v = (p.gen)(&mut rng, &Cfg { index, thorough, calm: index % 8 == 0 });
    if index % 8 != 0 && rng.permille(500) {
        v["pace"] = (1 + rng.below(1 << 30)).into();
    }
    v
}

#[repr(C)]
struct Shared {
    next: AtomicU64,
    best: AtomicU64,
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            die("mmap failed");
        }
        let s = &*(p as *const Shared);
        s.next.store(0, SeqCst);
        s.best.store(u64::MAX, SeqCst);
        s
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    fps: BTreeSet<u64>,
    counters: BTreeMap<String, u64>,
    sim_ns: u64,
    replays: u64,
    replay_diff: u64,
    calm: u64,
    digest: u64,
    violation: Option<(u64, String)>,
    error: Option<String>,
}

/// Classes of failures recorded as known findings of a property (with a witness each).
fn known_classes(id: &str) -> Vec<String> {
    known_files(id).into_iter().filter_map(|v| v["class"].as_str().map(|s| s.to_string())).collect()
}

fn known_files(id: &str) -> Vec<Value> {
    let mut files: Vec<_> = std::fs::read_dir("known").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    files
        .iter()
        .filter_map(|f| std::fs::read(f).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()))
        .filter(|v| v["property"].as_str() == Some(id))
        .collect()
}

fn worker(p: &Prop, seed: u64, thorough: bool, total: u64, deadline: u64, sh: &Shared) -> Value {
    let mut t = Totals::default();
    let listed = known_classes(p.id);
    loop {
        if simrt::os::real_ns() > deadline {
            break;
        }
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= total || i > sh.best.load(SeqCst) {
            break;
        }
        let mk = || make_case(p, seed, i, thorough);
        let o = run_case(p, &mk, false);
        t.runs += 1;
        if i % 8 == 0 {
            t.calm += 1;
        }
        t.digest ^= mix(i, mix(o.digest, o.fp));
        if o.nontrivial {
            t.nontrivial += 1;
            t.fps.insert(o.fp);
        }
        t.sim_ns += o.sim_ns;
        for (k, v) in &o.counters {
            *t.counters.entry(k.clone()).or_insert(0) += v;
        }
        if let Some(e) = o.error {
            t.error = Some(format!("run {i}: {e}"));
            sh.best.fetch_min(i, SeqCst);
            break;
        }
        if let Some(m) = o.fail {
            if listed.iter().any(|k| k == class(&m)) {
                *t.counters.entry("runs that met a known finding".into()).or_insert(0) += 1;
                continue;
            }
            sh.best.fetch_min(i, SeqCst);
            t.violation = Some((i, m));
            break;
        }
        if i % 32 == 7 {
            let o2 = run_case(p, &mk, false);
            t.replays += 1;
            if o2.digest != o.digest || o2.fp != o.fp || o2.counters != o.counters || o2.fail.is_some() {
                t.replay_diff += 1;
            }
        }
    }
    json!({
        "runs": t.runs, "nt": t.nontrivial, "fps": t.fps, "c": t.counters, "ns": t.sim_ns,
        "replays": t.replays, "diff": t.replay_diff, "calm": t.calm, "digest": t.digest,
        "violation": t.violation, "error": t.error,
    })
}

fn search(p: &Prop, seed: u64, thorough: bool, total: u64, cap_s: u64, workers: usize) -> Totals {
    let sh = shared();
    let deadline = simrt::os::real_ns() + cap_s * 1_000_000_000;
    let mut ws = vec![];
    for _ in 0..workers {
        let (r, w) = pipe();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            unsafe { libc::close(r) };
            let v = worker(p, seed, thorough, total, deadline, sh);
            write_fd(w, &serde_json::to_vec(&v).unwrap());
            simrt::os::exit_now(0);
        }
        unsafe { libc::close(w) };
        ws.push((pid, r));
    }
    let mut t = Totals::default();
    for (pid, r) in ws {
        let b = read_fd(r);
        if !matches!(wait(pid), End::Code(0)) {
            die("a worker died");
        }
        let v: Value = serde_json::from_slice(&b).unwrap_or_else(|e| die(&format!("worker result: {e}")));
        t.runs += v["runs"].as_u64().unwrap_or(0);
        t.nontrivial += v["nt"].as_u64().unwrap_or(0);
        t.sim_ns += v["ns"].as_u64().unwrap_or(0);
        t.replays += v["replays"].as_u64().unwrap_or(0);
        t.replay_diff += v["diff"].as_u64().unwrap_or(0);
        t.calm += v["calm"].as_u64().unwrap_or(0);
        t.digest ^= v["digest"].as_u64().unwrap_or(0);
        for f in v["fps"].as_array().unwrap() {
            t.fps.insert(f.as_u64().unwrap());
        }
        for (k, n) in v["c"].as_object().unwrap() {
            *t.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        if let Some(e) = v["error"].as_str() {
            t.error = Some(e.to_string());
        }
        if let (Some(i), Some(m)) = (v["violation"][0].as_u64(), v["violation"][1].as_str()) {
            if t.violation.as_ref().map(|x| i < x.0).unwrap_or(true) {
                t.violation = Some((i, m.to_string()));
            }
        }
    }
    t
}

// ------------------------------------------------------------------ minimisation

/// Paths of all containers and scalars in a JSON value.
fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn size(v: &Value) -> usize {
    serde_json::to_string(v).map(|s| s.len()).unwrap_or(0)
}

pub fn shrink(p: &Prop, case: Value, want: &str, budget_ns: u64) -> (Value, u64) {
    let end = simrt::os::real_ns() + budget_ns;
    let mut best = case;
    let mut tries = 0u64;
    let test = |v: &Value, tries: &mut u64| -> bool {
        *tries += 1;
        let o = run_case(p, &|| v.clone(), false);
        o.error.is_none() && o.fail.as_deref().map(|m| reason(m) == want).unwrap_or(false)
    };
    loop {
        let before = size(&best);
        // arrays: remove chunks
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for path in ps {
            if simrt::os::real_ns() > end {
                return (best, tries);
            }
            let n = match at(&mut best, &path) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    let len = match at(&mut best, &path) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= len || simrt::os::real_ns() > end {
                        break;
                    }
                    let mut c = best.clone();
                    if let Some(Value::Array(a)) = at(&mut c, &path) {
                        a.drain(i..(i + chunk).min(len));
                    }
                    if test(&c, &mut tries) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // objects: drop keys
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.reverse();
        for path in ps {
            if simrt::os::real_ns() > end {
                return (best, tries);
            }
            let keys: Vec<String> = match at(&mut best, &path) {
                Some(Value::Object(m)) => m.keys().filter(|k| *k != "t").cloned().collect(),
                _ => continue,
            };
            for k in keys {
                let mut c = best.clone();
                if let Some(Value::Object(m)) = at(&mut c, &path) {
                    m.remove(&k);
                }
                if test(&c, &mut tries) {
                    best = c;
                }
            }
        }
        // scalars: smaller numbers, shorter strings
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for path in ps {
            if simrt::os::real_ns() > end {
                return (best, tries);
            }
            let cands: Vec<Value> = match at(&mut best, &path) {
                Some(Value::Number(n)) => match n.as_i64() {
                    Some(0) | None => vec![],
                    Some(x) => vec![json!(0), json!(1), json!(x / 2), json!(x - x.signum())].into_iter().filter(|v| v.as_i64() != Some(x)).collect(),
                },
                Some(Value::String(s)) if s.contains(' ') => vec![json!(s.split(' ').find(|x| !x.is_empty()).unwrap_or(""))],
                _ => continue,
            };
            for v in cands {
                let mut c = best.clone();
                if let Some(x) = at(&mut c, &path) {
                    *x = v;
                }
                if test(&c, &mut tries) {
                    best = c;
                    break;
                }
            }
        }
        if size(&best) >= before {
            return (best, tries);
        }
    }
}

/// Replaces a seeded schedule by the list of switches it produced, when that reproduces.
fn explicit(p: &Prop, case: &Value, o: &Outcome, want: &str) -> Option<Value> {
    let s = o.sched.as_ref()?;
    let mut c = case.clone();
    c.as_object_mut()?.insert("sched".into(), json!({ "list": s }));
    let o2 = run_case(p, &|| c.clone(), false);
    if o2.fail.as_deref().map(class) == Some(want) {
        Some(c)
    } else {
        None
    }
}

// ------------------------------------------------------------------ commands

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => die("cannot read the replay file"),
    };
    let id = v["property"].as_str().unwrap_or("");
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| die("unknown property"));
    let o = run_case(p, &|| v["case"].clone(), true);
    for l in &o.trace {
        println!("  {l}");
    }
    if let Some(e) = o.error {
        die(&e);
    }
    match o.fail {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("held");
            0
        }
    }
}

/// Runs the recorded witnesses of known findings of this property.
fn known(p: &Prop) -> u64 {
    let mut n = 0;
    for v in known_files(p.id) {
        let o = run_case(p, &|| v["case"].clone(), false);
        if let Some(m) = o.fail {
            if class(&m) == v["class"].as_str().unwrap_or("") {
                println!("KNOWN-FINDING: property={} {}", p.id, v["what"].as_str().unwrap_or(&m));
                n += 1;
            }
        }
    }
    n
}

pub fn check(p: &Prop) -> i32 {
    let t0 = simrt::os::real_ns();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let total = env_u64("SIM_RUNS", if thorough { p.runs.1 } else { p.runs.0 });
    let cap = env_u64("SIM_CAP_S", if thorough { 780 } else { 240 });
    let workers = env_u64("SIM_WORKERS", 8) as usize;
    let nknown = known(p);
    let t = search(p, seed, thorough, total, cap, workers);
    let searched = (simrt::os::real_ns() - t0) as f64 / 1e9;
    if let Some(e) = &t.error {
        die(e);
    }
    let mut violation: Option<String> = None;
    let mut minimised = json!(null);
    if let Some((i, m)) = &t.violation {
        let case = make_case(p, seed, *i, thorough);
        let want = class(m).to_string();
        let o = run_case(p, &|| case.clone(), false);
        if o.fail.as_deref().map(class) != Some(want.as_str()) {
            die(&format!("run {i} failed with {m:?} but its replay gave {:?}", o.fail));
        }
        let start = explicit(p, &case, &o, &want).unwrap_or_else(|| case.clone());
        let why = run_case(p, &|| start.clone(), false).fail.map(|m| reason(&m)).unwrap_or_default();
        let (small, tries) = shrink(p, start, &why, 45_000_000_000);
        let fin = run_case(p, &|| small.clone(), true);
        let again = run_case(p, &|| small.clone(), true);
        let _ = std::fs::create_dir_all("replays");
        let path = format!("replays/{}-seed{}-run{}.json", p.id, seed, i);
        let msg = fin.fail.clone().unwrap_or_else(|| m.clone());
        let r = json!({
            "property": p.id, "seed": seed, "run": i, "tier": tier, "class": want, "message": msg, "found_as": m,
            "case": small, "trace": fin.trace, "original_case": case, "minimisation_runs": tries,
            "replay_identical": fin.fail == again.fail && fin.trace == again.trace && fin.digest == again.digest,
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()) {
            die(&format!("cannot write {path}: {e}"));
        }
        println!("{}: run {} (seed {}): {}", p.id, i, seed, msg);
        minimised = json!({"from_bytes": size(&case), "to_bytes": size(&small), "runs": tries});
        violation = Some(path);
    }
    // samples: two cases of this run with their traces
    let mut samples = vec![];
    for i in [1u64, 2] {
        if i < t.runs {
            let c = make_case(p, seed, i, thorough);
            let o = run_case(p, &|| c.clone(), true);
            let mut s = serde_json::to_string(&c).unwrap();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            let mut tr = o.trace;
            tr.truncate(40);
            samples.push(json!({"run": i, "case": s, "history": tr}));
        }
    }
    let (faults, other): (BTreeMap<_, _>, BTreeMap<_, _>) = t.counters.clone().into_iter().partition(|(k, _)| k.starts_with("fault "));
    let wall = (simrt::os::real_ns() - t0) as f64 / 1e9;
    let mut missing: Vec<&str> = p.probes.iter().copied().filter(|k| t.counters.get(*k).copied().unwrap_or(0) == 0).collect();
    if violation.is_some() {
        missing.clear();
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed as i64, "level": "exploration", "wall_s": wall,
        "violations": violation.is_some() as i64,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.fps.len(),
            "rule": p.rule,
            "distinct_measure": p.measure,
            "nontrivial_runs": t.nontrivial,
            "fault_free_runs": t.calm,
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / searched * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / searched * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_injected": faults,
            "reached": other,
            "probes_never_reached": missing,
            "replayed_runs": t.replays,
            "replays_that_differed": t.replay_diff,
            "search_digest": format!("{:016x}", t.digest),
            "known_findings_reproduced": nknown,
            "minimisation": minimised,
            "components_real": p.real,
            "components_stub": p.stub,
        },
    });
    let _ = std::fs::create_dir_all("evidence");
    if let Err(e) = std::fs::write(format!("evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()) {
        die(&format!("cannot write evidence: {e}"));
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} replayed ({} differed), {:.1} s{}",
        p.id,
        t.runs,
        t.fps.len(),
        t.replays,
        t.replay_diff,
        wall,
        if missing.is_empty() { String::new() } else { format!(", never reached: {}", missing.join(", ")) }
    );
    match violation {
        Some(path) => {
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => 0,
    }
}

/// Prints one case and its outcome.
pub fn show(p: &Prop, seed: u64, index: u64) {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let c = make_case(p, seed, index, thorough);
    println!("{}", serde_json::to_string(&c).unwrap());
    let o = run_case(p, &|| c.clone(), true);
    for l in &o.trace {
        println!("  {l}");
    }
    println!("{:?}", o.fail);
    println!("{:?} {:?} fp {:x} digest {:x}", o.error, o.counters, o.fp, o.digest);
}
