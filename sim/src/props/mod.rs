//! The properties: each has a generator of cases (what happens in a run, as data) and an
//! executor that runs the case against the library and compares with its oracle.
use crate::faults::Sink;
use crate::gen::{Gen, Vocab};
use crate::node::{self, Node};
use crate::runner::{Ctx, Prop};
use docx_rs::Docx;
use serde_json::Value;
use simrt::prng::Rng;
use std::io::{BufWriter, Seek, Write};

mod parts;
pub mod read;
mod same;
mod save;
pub mod session;
mod threads;

pub fn all() -> Vec<Prop> {
    read::fixtures();
    let mut v = vec![];
    v.extend(save::props());
    v.extend(read::props());
    v.extend(parts::props());
    v.extend(threads::props());
    v.extend(same::props());
    v.extend(session::props());
    v
}

// ------------------------------------------------------------------ helpers

pub fn node_of(v: &Value) -> Node {
    serde_json::from_value(v.clone()).unwrap_or_default()
}

pub fn to_value(n: &Node) -> Value {
    serde_json::to_value(n).unwrap()
}

pub fn int(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

pub fn flag(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}

/// A document description; `big` adds pictures of up to 150 kB now and then.
pub fn gen_doc(r: &mut Rng, vocab: Vocab, salt: u64, max_blocks: usize, big: bool) -> Node {
    let mut g = Gen::new(r.fork(), vocab);
    g.offset(salt);
    g.max_blocks = max_blocks;
    let mut d = g.doc();
    if big && r.permille(160) {
        for _ in 0..1 + r.us(2) {
            let pad = *r.pick(&[900i64, 5_000, 33_000, 70_000, 150_000]);
            let at = r.us(d.c.len() + 1);
            let pic = Node::new("pic").with("k", 700_000 + salt as i64 * 10 + r.below(9) as i64).with("pad", pad).with("w", 5).with("h", 6);
            let text = Node::new("text").with("v", format!("F{at}")).with("fill", pad);
            d.c.insert(at, Node::new("p").kids(vec![Node::new("r").kids(vec![if r.permille(400) { text } else { pic }])]));
        }
    }
    d
}

/// Saves through one of the two save paths.
pub fn save<W: Write + Seek>(d: Docx, path: i64, w: W) -> Result<(), String> {
    if path == 1 {
        d.build().pack(w).map_err(|e| e.to_string())
    } else {
        d.pack(w).map_err(|e| e.to_string())
    }
}

pub fn save_vec(d: Docx, path: i64) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(vec![]);
    save(d, path, &mut c).map_err(|e| format!("save failed on a healthy destination: {e}"))?;
    Ok(c.into_inner())
}

/// Saves into a simulated sink, optionally through a buffering writer of `layer` bytes, and
/// returns the sink as it is at the moment the save returns: what the buffer still holds is lost.
pub fn save_to(d: Docx, path: i64, layer: i64, mut sink: Sink) -> (Result<(), String>, Sink) {
    if layer > 0 {
        let mut b = BufWriter::with_capacity(layer as usize, sink);
        let r = save(d, path, &mut b);
        let (s, _lost) = b.into_parts();
        (r, s)
    } else {
        let r = save(d, path, &mut sink);
        (r, sink)
    }
}

/// A save whose destination may panic; the caller goes on.
pub fn save_caught(d: Docx, path: i64, layer: i64, mut sink: Sink) -> (Result<(), String>, Sink) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if layer > 0 {
            let mut b = BufWriter::with_capacity(layer as usize, &mut sink);
            let r = save(d, path, &mut b);
            let _ = b.into_parts();
            r
        } else {
            save(d, path, &mut sink)
        }
    }));
    match r {
        Ok(r) => (r, sink),
        Err(e) if e.is::<crate::faults::Gone>() => (Err("the destination panicked".into()), sink),
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub const MISHAPS: [&str; 3] = ["fail", "panic", "bad"];

/// Work that goes wrong: a failing save, a destination that panics, a package that is cut off.
pub fn mishap(d: Docx, o: &Value) {
    let n = int(o, "n", 0).max(0) as u64;
    let path = int(o, "path", 0);
    match o["op"].as_str().unwrap_or("") {
        k @ ("fail" | "panic") => {
            let k = if k == "fail" { "eio" } else { "panic" };
            let f = crate::faults::Fault { at: 0, kind: k.into(), n: 1, forever: n % 2 == 0 };
            let (_, s) = save_caught(d, path, 0, Sink::new().plan_at(f, n));
            crate::faults::keep_fired(&s);
        }
        "bad" => {
            if let Ok(mut b) = save_vec(d, path) {
                b.truncate(b.len() * (n % 1000) as usize / 1000);
                let _ = read::read(&b, false);
            }
        }
        _ => {}
    }
}

/// Counts the faults remembered on this thread.
pub fn collect(c: &mut Ctx) {
    for (k, v) in crate::faults::take_fired() {
        c.count(&k, v);
    }
}

pub fn build(n: &Node) -> Docx {
    node::build_docx(n)
}

pub fn absorb(c: &mut Ctx, s: &Sink) {
    for (k, v) in &s.fired {
        c.count(k, *v);
    }
    c.sim_ns += s.sim_ns;
    c.count("sink calls", s.calls);
}

/// A picture of the description whose bytes are in no entry.
pub fn lost_picture(n: &Node, entries: &[crate::pkg::Entry]) -> Option<String> {
    let mut lost = None;
    n.walk(&mut |k| {
        if k.t == "pic" && lost.is_none() {
            let want = node::pic_bytes(k);
            if !entries.iter().any(|e| e.data == want) {
                lost = Some(format!("the {} bytes of picture {} are not in the package", want.len(), k.i("k").unwrap_or(0)));
            }
        }
    });
    lost
}
