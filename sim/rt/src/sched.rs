//! Cooperative scheduler over real threads: exactly one simulated thread runs at a time, and
//! only a seeded decision (or a recorded list of switches) moves the token.
use crate::os::raw_syscall;
use crate::prng::Rng;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Load,
    Store,
    Rmw,
    Fence,
    Alloc,
    Sink,
    Step,
    Blocked,
}

/// How switches are chosen.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch with probability (per mille) at each kind of point.
    Random { seed: u64, atomic: u32, step: u32, alloc: u32 },
    /// Priorities; at each of the given points the running thread drops below all others.
    Pct { seed: u64, changes: Vec<u64>, alloc_counts: bool },
    /// Exactly these switches: (point index, thread).
    List(Vec<(u64, u32)>),
}

const MAXT: usize = 16;

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

struct State {
    policy: Policy,
    rng: Rng,
    n: usize,
    alive: [bool; MAXT],
    prio: [u64; MAXT],
    point: u64,
    lowest: u64,
    switches: Vec<(u64, u32)>,
    counts: [u64; 8],
    /// hash over (thread, op, place) in execution order at atomic and step points
    order_hash: u64,
    blocked_run: u64,
    deadlock: bool,
    max_points: u64,
    list_pos: usize,
}

struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));
/// Thread holding the token; 0 = nobody (before start and after the end).
static CURRENT: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub const EXIT_DEADLOCK: i32 = 78;
pub const EXIT_RUNAWAY: i32 = 79;

fn futex(addr: &AtomicU32, op: i32, val: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex, addr as *const _ as i64, op as i64, val as i64, 0, 0, 0);
    }
}

fn wait_token(me: u32) {
    loop {
        let c = CURRENT.load(SeqCst);
        if c == me {
            return;
        }
        futex(&CURRENT, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, c);
    }
}

fn hand_to(t: u32) {
    CURRENT.store(t, SeqCst);
    futex(&CURRENT, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX as u32);
}

pub fn in_sim() -> bool {
    ME.with(|m| m.get()) != 0 && !BUSY.with(|b| b.get())
}

/// What the scheduler recorded.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub points: u64,
    pub switches: Vec<(u64, u32)>,
    pub atomics: u64,
    pub allocs: u64,
    pub steps: u64,
    pub blocked: u64,
    pub order_hash: u64,
}

/// Runs the closures as simulated threads under `policy`. Each runs on its own OS thread with
/// fresh thread locals. Panics inside a closure must be caught by the closure.
pub fn run(policy: Policy, max_points: u64, stack: usize, jobs: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = jobs.len();
    assert!(n >= 1 && n < MAXT);
    let seed = match &policy {
        Policy::Random { seed, .. } | Policy::Pct { seed, .. } => *seed,
        Policy::List(_) => 0,
    };
    let mut rng = Rng::new(seed);
    let mut prio = [0u64; MAXT];
    for p in prio.iter_mut().take(n + 1) {
        *p = (1 << 32) + (rng.next() >> 40);
    }
    let mut alive = [false; MAXT];
    for a in alive.iter_mut().take(n + 1).skip(1) {
        *a = true;
    }
    let first = match &policy {
        Policy::List(l) => l.first().filter(|x| x.0 == 0).map(|x| x.1).unwrap_or(1),
        Policy::Pct { .. } => (1..=n).max_by_key(|&i| prio[i]).unwrap() as u32,
        _ => 1 + rng.us(n) as u32,
    };
    unsafe {
        *G.0.get() = Some(State {
            list_pos: 0,
            policy,
            rng,
            n,
            alive,
            prio,
            point: 0,
            lowest: 1 << 31,
            switches: vec![(0, first)],
            counts: [0; 8],
            order_hash: 0,
            blocked_run: 0,
            deadlock: false,
            max_points,
        });
    }
    let mut hs = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        let id = i as u32 + 1;
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                wait_token(id);
                ME.with(|m| m.set(id));
                job();
                ME.with(|m| m.set(0));
                finish(id);
            })
            .expect("spawn");
        hs.push(h);
    }
    hand_to(first);
    for h in hs {
        let _ = h.join();
    }
    let s = unsafe { (*G.0.get()).take().unwrap() };
    CURRENT.store(0, SeqCst);
    Report {
        points: s.point,
        switches: s.switches,
        atomics: s.counts[Op::Load as usize] + s.counts[Op::Store as usize] + s.counts[Op::Rmw as usize],
        allocs: s.counts[Op::Alloc as usize],
        steps: s.counts[Op::Step as usize] + s.counts[Op::Sink as usize],
        blocked: s.counts[Op::Blocked as usize],
        order_hash: s.order_hash,
    }
}

fn finish(me: u32) {
    let s = unsafe { (*G.0.get()).as_mut().unwrap() };
    s.alive[me as usize] = false;
    s.point += 1;
    let next = choose_other(s, me);
    if let Some(t) = next {
        s.switches.push((s.point, t));
        hand_to(t);
    } else {
        hand_to(0);
    }
}

fn choose_other(s: &mut State, me: u32) -> Option<u32> {
    let cand: [u32; MAXT] = {
        let mut c = [0; MAXT];
        let mut k = 0;
        for t in 1..=s.n {
            if s.alive[t] && t as u32 != me {
                c[k] = t as u32;
                k += 1;
            }
        }
        c
    };
    let k = cand.iter().take_while(|x| **x != 0).count();
    if k == 0 {
        return None;
    }
    let t = match &s.policy {
        Policy::List(l) => {
            // the list may name the thread for this very point
            let p = s.point;
            let named = l[s.list_pos.min(l.len())..].iter().find(|x| x.0 == p).map(|x| x.1);
            match named {
                Some(t) if cand[..k].contains(&t) => t,
                _ => cand[0],
            }
        }
        Policy::Pct { .. } => *cand[..k].iter().max_by_key(|&&t| s.prio[t as usize]).unwrap(),
        Policy::Random { .. } => cand[s.rng.us(k)],
    };
    Some(t)
}

fn point(op: Op, addr: usize) {
    let me = ME.with(|m| m.get());
    if me == 0 || BUSY.with(|b| b.get()) {
        return;
    }
    let s = match unsafe { (*G.0.get()).as_mut() } {
        Some(s) => s,
        None => return,
    };
    BUSY.with(|b| b.set(true));
    s.counts[op as usize] += 1;
    s.point += 1;
    if s.point > s.max_points {
        crate::os::exit_now(EXIT_RUNAWAY);
    }
    if op != Op::Alloc {
        // statics are told apart by where they lie in the image, heap cells are not told apart
        let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &_end as *const u8 as usize) };
        let place = if (lo..hi).contains(&addr) { (addr - lo) as u64 } else { 0 };
        let place = crate::prng::mix(place, op as u64);
        s.order_hash = crate::prng::mix(s.order_hash, place ^ (me as u64) << 56);
    }
    let next = if op == Op::Blocked {
        s.blocked_run += 1;
        if s.blocked_run > 20_000 || s.alive.iter().filter(|a| **a).count() <= 1 && s.blocked_run > 2_000 {
            s.deadlock = true;
            crate::os::exit_now(EXIT_DEADLOCK);
        }
        if let Policy::Pct { .. } = s.policy {
            s.lowest -= 1;
            s.prio[me as usize] = s.lowest;
        }
        choose_other(s, me)
    } else {
        s.blocked_run = 0;
        decide(s, me, op)
    };
    if let Some(t) = next {
        s.switches.push((s.point, t));
        hand_to(t);
        wait_token(me);
    }
    BUSY.with(|b| b.set(false));
}

fn decide(s: &mut State, me: u32, op: Op) -> Option<u32> {
    match &s.policy {
        Policy::Random { atomic, step, alloc, .. } => {
            let p = match op {
                Op::Alloc => *alloc,
                Op::Step | Op::Sink => *step,
                _ => *atomic,
            };
            if p > 0 && s.rng.permille(p) {
                choose_other(s, me)
            } else {
                None
            }
        }
        Policy::Pct { changes, alloc_counts, .. } => {
            if (op != Op::Alloc || *alloc_counts) && changes.contains(&s.point) {
                s.lowest -= 1;
                s.prio[me as usize] = s.lowest;
                choose_other(s, me)
            } else {
                None
            }
        }
        Policy::List(l) => {
            while s.list_pos < l.len() && l[s.list_pos].0 < s.point {
                s.list_pos += 1;
            }
            if s.list_pos < l.len() && l[s.list_pos].0 == s.point {
                let t = l[s.list_pos].1;
                if t != me && (t as usize) <= s.n && s.alive[t as usize] {
                    return Some(t);
                }
            }
            None
        }
    }
}

#[inline]
pub fn fence_point(op: Op, addr: usize) {
    point(op, addr);
}

#[inline]
pub fn alloc_point() {
    // Thread locals may already be gone while a thread is being torn down.
    if ME.try_with(|m| m.get()).unwrap_or(0) != 0 {
        point(Op::Alloc, 0);
    }
}

/// A call on a simulated sink or stream.
pub fn sink_point() {
    point(Op::Sink, 1);
}

/// An operation boundary of the workload.
pub fn step_point() {
    point(Op::Step, 2);
}

/// The running thread cannot proceed: always switches when another thread exists.
pub fn blocked_point() {
    point(Op::Blocked, 3);
}
