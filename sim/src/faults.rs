//! Simulated storage: a seekable sink, a byte stream and a sector-level crash model, all driven
//! by explicit fault plans.
use serde_json::{json, Value};
use simrt::prng::{mix, Rng};
use simrt::sched;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};

/// One planned fault. `at`: position in units of 1/2^20 of the calls of a fault-free save, or
/// counted from the last call when negative.
#[derive(Clone, Debug)]
pub struct Fault {
    pub at: i64,
    pub kind: String,
    pub n: u64,
    pub forever: bool,
}

pub fn faults(v: &Value) -> Vec<Fault> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|f| Fault {
                    at: f["at"].as_i64().unwrap_or(0),
                    kind: f["k"].as_str().unwrap_or("short").to_string(),
                    n: f["n"].as_u64().unwrap_or(1),
                    forever: f["forever"].as_bool().unwrap_or(false),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Absolute call index of a fault.
pub fn place(at: i64, total: u64) -> u64 {
    if at < 0 {
        total.saturating_sub(at.unsigned_abs())
    } else {
        ((at as u128 * total as u128) >> 20) as u64
    }
}

pub const ERRORS: [&str; 20] = [
    "eio", "enospc", "epipe", "zero", "eagain", "timeout", "denied", "stale", "other", "quota", "toobig", "readonly", "unsupported", "invalid", "reset", "busy",
    "nomem", "nodev", "eof", "data",
];

fn error(kind: &str) -> io::Error {
    match kind {
        "eio" => io::Error::from_raw_os_error(libc::EIO),
        "enospc" | "full" => io::Error::from_raw_os_error(libc::ENOSPC),
        "epipe" => io::Error::from_raw_os_error(libc::EPIPE),
        "eagain" => io::Error::from_raw_os_error(libc::EAGAIN),
        "timeout" => io::Error::from_raw_os_error(libc::ETIMEDOUT),
        "denied" => io::Error::from_raw_os_error(libc::EACCES),
        "stale" => io::Error::from_raw_os_error(libc::ESTALE),
        "eintr" => io::Error::from_raw_os_error(libc::EINTR),
        "quota" => io::Error::from_raw_os_error(libc::EDQUOT),
        "toobig" => io::Error::from_raw_os_error(libc::EFBIG),
        "readonly" => io::Error::from_raw_os_error(libc::EROFS),
        "unsupported" => io::Error::from_raw_os_error(libc::EOPNOTSUPP),
        "invalid" => io::Error::from_raw_os_error(libc::EINVAL),
        "reset" => io::Error::from_raw_os_error(libc::ECONNRESET),
        "busy" => io::Error::from_raw_os_error(libc::EBUSY),
        "nomem" => io::Error::from_raw_os_error(libc::ENOMEM),
        "nodev" => io::Error::from_raw_os_error(libc::ENODEV),
        "data" => io::Error::new(io::ErrorKind::InvalidData, "simulated bad data"),
        "eof" => io::Error::new(io::ErrorKind::UnexpectedEof, "simulated end"),
        _ => io::Error::new(io::ErrorKind::Other, "simulated device error"),
    }
}

pub fn gen_at(r: &mut Rng) -> i64 {
    if r.permille(300) {
        let far = *r.pick(&[3, 40, 40]);
        -(r.range(1, far))
    } else {
        r.below(1 << 20) as i64
    }
}

/// A plan of faults that a correct save survives.
pub fn gen_soft(r: &mut Rng) -> Value {
    let n = 1 + r.us(8);
    let v: Vec<Value> = (0..n)
        .map(|_| {
            if r.permille(600) {
                json!({"at": gen_at(r), "k": "short", "n": 1 + r.below(40)})
            } else if r.permille(250) {
                json!({"at": gen_at(r), "k": "slow", "n": *r.pick(&[1, 6, 31, 61, 400])})
            } else {
                json!({"at": gen_at(r), "k": "eintr", "n": 1 + r.below(4)})
            }
        })
        .collect();
    v.into()
}

pub fn gen_hard(r: &mut Rng) -> Value {
    let k: &str = *r.pick(&ERRORS);
    json!({"at": gen_at(r), "k": k, "n": 1, "forever": r.permille(500)})
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(u64, Vec<u8>),
    Seek(u64),
    Flush,
}

/// What a destination that panics throws.
pub struct Gone;

thread_local! {
    static FIRED: std::cell::RefCell<std::collections::BTreeMap<String, u64>> = Default::default();
}

/// Remembers what hit a destination on this thread until the run collects it.
pub fn keep_fired(s: &Sink) {
    FIRED.with(|f| {
        for (k, v) in &s.fired {
            *f.borrow_mut().entry(k.clone()).or_insert(0) += v;
        }
    })
}

pub fn take_fired() -> std::collections::BTreeMap<String, u64> {
    FIRED.with(|f| std::mem::take(&mut *f.borrow_mut()))
}

/// A seekable destination with a fault plan.
pub struct Sink {
    pub img: Vec<u8>,
    pub pos: u64,
    pub calls: u64,
    plan: Vec<(u64, Fault)>,
    next: usize,
    pending: Option<(String, u64)>,
    dead: Option<String>,
    /// Disk full beyond this many bytes.
    pub cap: Option<u64>,
    pub cap_forever: bool,
    /// Every write is cut to at most this many bytes with the given probability.
    pub chop: Option<(Rng, u32, u64)>,
    /// Probability of an interrupted write, one at a time.
    pub eintr: u32,
    interrupted: bool,
    pub fired: BTreeMap<String, u64>,
    pub errors: u64,
    pub last_error_call: u64,
    pub log: Option<Vec<Op>>,
    pub hash: u64,
    pub sim_ns: u64,
    pub flushed: bool,
}

impl Sink {
    pub fn new() -> Sink {
        Sink {
            img: vec![],
            pos: 0,
            calls: 0,
            plan: vec![],
            next: 0,
            pending: None,
            dead: None,
            cap: None,
            cap_forever: true,
            chop: None,
            eintr: 0,
            interrupted: false,
            fired: BTreeMap::new(),
            errors: 0,
            last_error_call: 0,
            log: None,
            hash: 0,
            sim_ns: 0,
            flushed: false,
        }
    }
    /// Cuts and interrupts writes as a case says.
    pub fn chopped(mut self, ch: &serde_json::Value) -> Sink {
        let int = |k: &str, d: u64| ch[k].as_u64().unwrap_or(d);
        self.chop = Some((Rng::new(int("seed", 0)), int("p", 0) as u32, int("max", 1)));
        self.eintr = int("eintr", 0) as u32;
        self
    }
    pub fn plan(mut self, f: &[Fault], total: u64) -> Sink {
        self.plan = f.iter().map(|x| (place(x.at, total), x.clone())).collect();
        self.plan.sort_by_key(|x| x.0);
        self
    }
    /// One fault at an absolute call.
    pub fn plan_at(mut self, f: Fault, call: u64) -> Sink {
        self.plan = vec![(call, f)];
        self
    }
    fn fire(&mut self, k: &str, op: u64) {
        *self.fired.entry(format!("fault {k}")).or_insert(0) += 1;
        self.hash = mix(self.hash, mix(simrt::prng::hash_bytes(k.as_bytes()), self.calls << 2 | op));
    }
    /// What happens to this call: None = healthy.
    fn step(&mut self, op: u64) -> Option<(String, u64)> {
        sched::sink_point();
        let c = self.calls;
        self.calls += 1;
        self.sim_ns += 20_000;
        simrt::os::advance_clock(20_000);
        if let Some(k) = self.dead.clone() {
            return Some((k, 1));
        }
        while self.pending.is_none() && self.next < self.plan.len() && self.plan[self.next].0 <= c {
            let f = self.plan[self.next].1.clone();
            self.next += 1;
            if f.forever {
                self.dead = Some(f.kind.clone());
            }
            self.pending = Some((f.kind, f.n));
        }
        let (k, n) = self.pending.clone()?;
        if k == "slow" {
            self.pending = None;
            self.sim_ns += n * 1_000_000_000;
            simrt::os::advance_clock(n as i64 * 1_000_000_000);
            self.fire("slow call", op);
            return None;
        }
        let write_only = matches!(k.as_str(), "short" | "eintr" | "zero");
        if write_only && op != 0 {
            // stays pending until the next write
            return None;
        }
        if k == "eintr" && n > 1 {
            self.pending = Some((k.clone(), n - 1));
        } else {
            self.pending = None;
        }
        Some((k, n))
    }
    fn fail<T>(&mut self, k: &str, op: u64) -> io::Result<T> {
        if k == "panic" {
            // once; whatever still arrives while the stack unwinds is refused
            self.fire("panic of the destination", op);
            self.errors += 1;
            self.dead = Some("eio".into());
            std::panic::panic_any(Gone);
        }
        self.fire(k, op);
        self.errors += 1;
        self.last_error_call = self.calls;
        Err(error(k))
    }
    fn put(&mut self, b: &[u8]) {
        let p = self.pos as usize;
        if self.img.len() < p + b.len() {
            self.img.resize(p + b.len(), 0);
        }
        self.img[p..p + b.len()].copy_from_slice(b);
        if let Some(l) = &mut self.log {
            l.push(Op::Write(self.pos, b.to_vec()));
        }
        self.pos += b.len() as u64;
        self.sim_ns += b.len() as u64 * 2;
        self.flushed = false;
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let s = self.step(0);
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        match s {
            None => {}
            Some((k, want)) => match k.as_str() {
                "short" => {
                    if want < n as u64 {
                        n = (want as usize).max(1);
                        self.fire("short write", 0);
                    }
                }
                "eintr" => {
                    self.fire("interrupted write", 0);
                    return Err(error("eintr"));
                }
                "zero" => {
                    self.fire("zero-length write", 0);
                    self.errors += 1;
                    self.last_error_call = self.calls;
                    return Ok(0);
                }
                k => return self.fail(k, 0),
            },
        }
        if let Some((rng, p, m)) = &mut self.chop {
            self.interrupted = self.eintr > 0 && !self.interrupted && rng.permille(self.eintr);
            if self.interrupted {
                self.fire("interrupted write", 0);
                return Err(error("eintr"));
            }
            if rng.permille(*p) {
                let m = 1 + rng.below(*m) as usize;
                if m < n {
                    n = m;
                    self.fire("short write", 0);
                }
            }
        }
        if let Some(cap) = self.cap {
            let end = self.pos + n as u64;
            if end > cap && end > self.img.len() as u64 {
                if self.pos >= cap {
                    if !self.cap_forever {
                        self.cap = None;
                    }
                    return self.fail("full", 0);
                }
                n = (cap - self.pos) as usize;
            }
        }
        self.put(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some((k, _)) = self.step(1) {
            if k != "zero" {
                return self.fail(&k, 1);
            }
        }
        if let Some(l) = &mut self.log {
            l.push(Op::Flush);
        }
        self.flushed = true;
        Ok(())
    }
}

impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if let Some((k, _)) = self.step(2) {
            if k != "zero" {
                return self.fail(&k, 2);
            }
        }
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.img.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = p as u64;
        if let Some(l) = &mut self.log {
            l.push(Op::Seek(self.pos));
        }
        Ok(self.pos)
    }
}

/// A byte stream delivered in scheduled pieces, with faults.
pub struct Stream<'a> {
    data: &'a [u8],
    pub pos: usize,
    pub calls: u64,
    rng: Rng,
    /// upper bound of a delivery; 0 = everything
    max: u64,
    eintr: u32,
    /// (byte position, kind, one-shot)
    fault: Option<(usize, String, bool)>,
    pub fired: BTreeMap<String, u64>,
    pub errors: u64,
    pub calls_after_error: u64,
    pub hash: u64,
    run_eintr: u32,
}

impl<'a> Stream<'a> {
    pub fn new(data: &'a [u8], seed: u64, max: u64, eintr: u32) -> Stream<'a> {
        Stream {
            data,
            pos: 0,
            calls: 0,
            rng: Rng::new(seed),
            max,
            eintr,
            fault: None,
            fired: BTreeMap::new(),
            errors: 0,
            calls_after_error: 0,
            hash: 0,
            run_eintr: 0,
        }
    }
    pub fn fail_at(mut self, pos: usize, kind: &str, once: bool) -> Stream<'a> {
        self.fault = Some((pos, kind.to_string(), once));
        self
    }
}

impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        sched::sink_point();
        self.calls += 1;
        simrt::os::advance_clock(20_000);
        if self.max > 0 && mix(self.hash, self.calls) % 40 == 0 {
            simrt::os::advance_clock(31_000_000_000);
            *self.fired.entry("fault slow read".into()).or_insert(0) += 1;
        }
        if self.errors > 0 {
            self.calls_after_error += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.run_eintr < 5 && self.rng.permille(self.eintr) {
            self.run_eintr += 1;
            *self.fired.entry("fault interrupted read".into()).or_insert(0) += 1;
            return Err(error("eintr"));
        }
        self.run_eintr = 0;
        let mut n = b.len().min(self.data.len() - self.pos);
        if let Some((p, k, once)) = &self.fault {
            if self.pos >= *p {
                let (k, once) = (k.clone(), *once);
                self.errors += 1;
                *self.fired.entry(format!("fault read {k}")).or_insert(0) += 1;
                if once {
                    self.fault = None;
                }
                if k == "end" {
                    return Ok(0);
                }
                return Err(error(&k));
            }
            n = n.min(*p - self.pos);
        }
        if self.max > 0 && n > 1 {
            let m = 1 + self.rng.below(self.max) as usize;
            if m < n {
                n = m;
                *self.fired.entry("fault short read".into()).or_insert(0) += 1;
            }
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.hash = mix(self.hash, (self.pos as u64) << 20 | n as u64);
        self.pos += n;
        Ok(n)
    }
}
