//! Saves over a faulty destination: C01, C02, C03, C16.
use super::*;
use crate::canon::{canon, diff, Level};
use crate::faults::{faults, gen_hard, gen_soft};
use crate::pkg::unzip;
use crate::runner::{counterfactual, Cfg};
use serde_json::json;
use simrt::prng::{hash_bytes, mix};

const REAL: &[&str] = &["docx-rs document model, XML writers, package assembly", "zip and flate2 crates as built by the library", "std::io::BufWriter"];
const STUB: &[&str] = &["destination medium (simulated sink)", "hash seed", "clock"];

fn layer(r: &mut Rng) -> i64 {
    *r.pick(&[0, 0, 0, 1, 16, 512, 8192, 1 << 20])
}

/// Calls and bytes of a save that meets no fault, from the present process state.
fn perfect(d: &Docx, path: i64, layer: i64, img: &[u8]) -> Result<(u64, Vec<u8>), String> {
    let d = d.clone();
    let v = counterfactual(move || {
        let mut s = Sink::new();
        s.img = img.to_vec();
        let (r, s) = save_to(d, path, layer, s);
        r.map_err(|e| format!("save failed on a healthy destination: {e}"))?;
        let mut o = s.calls.to_le_bytes().to_vec();
        o.extend(s.img);
        Ok(o)
    })?;
    Ok((u64::from_le_bytes(v[..8].try_into().unwrap()), v[8..].to_vec()))
}

/// Reporting an interrupted call to the caller instead of retrying it is allowed.
pub fn gave_up(s: &Sink) -> bool {
    s.fired.contains_key("fault interrupted write")
}

// ------------------------------------------------------------------ C01

fn c01_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 12]);
    let mut doc = gen_doc(r, Vocab::Full, 0, blocks, true);
    if r.permille(100) {
        // a part that is handed on in many pieces while it is compressed
        let n = 40_000 + r.below(160_000);
        doc.c.push(Node::new("p").kids(vec![Node::new("r").kids(vec![Node::new("text").with("fill", n)])]));
    }
    let mut v = json!({"doc": to_value(&doc), "path": r.below(2)});
    if c.calm {
        return v;
    }
    let m = v.as_object_mut().unwrap();
    m.insert("layer".into(), layer(r).into());
    if r.permille(700) {
        m.insert("faults".into(), gen_soft(r));
    }
    if r.permille(350) {
        m.insert("chop".into(), json!({"seed": r.below(1 << 40), "p": *r.pick(&[50, 300, 1000]), "max": *r.pick(&[1, 7, 100, 3000]), "eintr": *r.pick(&[0, 0, 20, 200])}));
    }
    if r.permille(350) {
        let old = gen_doc(r, Vocab::Full, 7, 3, false);
        m.insert("stale".into(), json!({"doc": to_value(&old), "pad": *r.pick(&[0, 0, 100, 20_000, 200_000]), "raw": r.permille(200)}));
    }
    v
}

fn c01_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let path = int(v, "path", 0);
    let lay = int(v, "layer", 0);
    let mut stale = vec![];
    if let Some(s) = v.get("stale") {
        if flag(s, "raw") {
            stale = (0..int(s, "pad", 0) as u64 + 5000).map(|i| mix(3, i) as u8).collect();
        } else {
            let mut n = node_of(&s["doc"]);
            let pad = int(s, "pad", 0);
            if pad > 0 {
                n.c.push(Node::new("p").kids(vec![Node::new("r").kids(vec![Node::new("pic").with("k", 99).with("pad", pad)])]));
            }
            stale = save_vec(build(&n), 0)?;
        }
    }
    let d = build(&node_of(&v["doc"]));
    let (_, want) = perfect(&d, path, 0, &[])?;
    let (calls, _) = perfect(&d, path, lay, &stale)?;
    let mut s = Sink::new().plan(&faults(&v["faults"]), calls);
    s.img = stale.clone();
    if let Some(ch) = v.get("chop") {
        s = s.chopped(ch);
    }
    let (r, s) = save_to(d, path, lay, s);
    absorb(c, &s);
    c.note(|| format!("save: {} sink calls ({} without faults), {:?} -> {:?}, {} bytes", s.calls, calls, s.fired, r, s.img.len()));
    c.seen(&s.img);
    c.mark(s.hash);
    c.mark(hash_bytes(&want));
    c.mark(lay as u64);
    c.mark(stale.len() as u64);
    c.nontrivial = !s.fired.is_empty() || lay > 0 || !stale.is_empty();
    if lay > 0 {
        c.hit("buffered destination");
    }
    if let Err(e) = r {
        if gave_up(&s) {
            c.hit("gave up on an interrupted write");
            return Ok(());
        }
        return Err(format!("save failed although no call failed: {e}"));
    }
    if stale.len() > want.len() {
        c.hit("older and longer file");
        let got = unzip(&s.img).map_err(|e| format!("unreadable after success over an older file: {e}"))?;
        let exp = unzip(&want).map_err(|e| format!("unreadable after success: {e}"))?;
        if got != exp {
            return Err("wrong entries after success over an older file: the archive read back is not the one saved".into());
        }
    } else if s.img != want {
        let at = s.img.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("incomplete after success: {} bytes on the medium, {} expected, first difference at {}", s.img.len(), want.len(), at));
    }
    let got = unzip(&want).map_err(|e| format!("unreadable package: {e}"))?;
    if let Some(m) = lost_picture(&node_of(&v["doc"]), &got) {
        return Err(format!("incomplete after success: {m}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn hard(r: &mut Rng, m: &mut serde_json::Map<String, Value>) {
    let mut f = vec![];
    if r.permille(400) {
        if let Value::Array(a) = gen_soft(r) {
            f.extend(a.into_iter().take(3));
        }
    }
    if r.permille(250) {
        m.insert("cap".into(), r.below(1 << 20).into());
        m.insert("capOnce".into(), r.permille(400).into());
    } else {
        for _ in 0..1 + (r.permille(200) as usize) {
            f.push(gen_hard(r));
        }
    }
    m.insert("faults".into(), f.into());
}

/// Sink with the failing plan of `v`.
fn hard_sink(v: &Value, calls: u64, size: usize) -> Sink {
    let mut s = Sink::new().plan(&faults(&v["faults"]), calls);
    if let Some(cap) = v.get("cap").and_then(|x| x.as_u64()) {
        s.cap = Some((cap as u128 * size as u128 >> 20) as u64);
        s.cap_forever = !flag(v, "capOnce");
    }
    s
}

fn c02_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 12]);
    let doc = gen_doc(r, Vocab::Full, 0, blocks, true);
    let mut v = json!({"doc": to_value(&doc), "path": r.below(2)});
    if !c.calm {
        let m = v.as_object_mut().unwrap();
        m.insert("layer".into(), layer(r).into());
        hard(r, m);
    }
    v
}

fn c02_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let path = int(v, "path", 0);
    let lay = int(v, "layer", 0);
    let d = build(&node_of(&v["doc"]));
    let (calls, want) = perfect(&d, path, lay, &[])?;
    let s = hard_sink(v, calls, want.len());
    let (r, s) = save_to(d, path, lay, s);
    absorb(c, &s);
    c.note(|| format!("save: {} sink calls ({} without faults), {:?} -> {:?}", s.calls, calls, s.fired, r));
    c.seen(&s.img);
    c.mark(s.hash);
    c.mark(hash_bytes(&want));
    c.nontrivial = s.errors > 0;
    if s.errors > 0 {
        c.hit("saves that met an error");
        if s.last_error_call + 30 >= calls {
            c.hit("errors among the last calls");
        }
        if r.is_ok() {
            return Err(format!("error swallowed: the destination failed {} times ({:?}, last at call {} of {}) and the save reported success", s.errors, s.fired, s.last_error_call, s.calls));
        }
    } else {
        if let Err(e) = r {
            if gave_up(&s) {
                c.hit("gave up on an interrupted write");
                return Ok(());
            }
            return Err(format!("save failed although no call failed: {e}"));
        }
        if s.img != want {
            return Err("incomplete after success: the bytes differ from a save without faults".into());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let a = gen_doc(r, Vocab::Full, 0, blocks, true);
    let b = gen_doc(r, Vocab::Full, 1, blocks, false);
    let n = if c.calm { 0 } else { 1 + r.us(4) };
    let fails: Vec<Value> = (0..n)
        .map(|_| {
            let mut v = json!({"path": r.below(2), "layer": layer(r), "who": r.below(4) / 3});
            hard(r, v.as_object_mut().unwrap());
            if r.permille(150) {
                v["faults"] = json!([{"at": crate::faults::gen_at(r), "k": "panic"}]);
            }
            v
        })
        .collect();
    json!({"a": to_value(&a), "b": to_value(&b), "cut": r.below(8), "path": r.below(2), "fails": fails})
}

fn c03_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let path = int(v, "path", 0);
    let (na, nb) = (node_of(&v["a"]), node_of(&v["b"]));
    let a = build(&na);
    let cut = (int(v, "cut", 0) as usize).min(nb.c.len());
    let mut b = nb.c[..cut].iter().fold(Docx::new(), node::apply);
    let (calls, _) = perfect(&a, path, 0, &[])?;
    let want_a = {
        let a = a.clone();
        counterfactual(move || save_vec(a, path))?
    };
    let want_b = {
        let b = b.clone();
        let rest = nb.c[cut..].to_vec();
        counterfactual(move || save_vec(rest.iter().fold(b, node::apply), path))?
    };
    let mut failed = 0;
    for f in v["fails"].as_array().cloned().unwrap_or_default() {
        let s = hard_sink(&f, calls, want_a.len());
        let d = if int(&f, "who", 0) == 1 { b.clone() } else { a.clone() };
        let (r, s) = save_caught(d, int(&f, "path", 0), int(&f, "layer", 0), s);
        absorb(c, &s);
        c.note(|| format!("save: {} sink calls, {:?} -> {:?}", s.calls, s.fired, r));
        c.mark(s.hash);
        if r.is_err() {
            failed += 1;
        }
    }
    c.count("failed saves", failed);
    c.nontrivial = failed > 0;
    c.mark(hash_bytes(&want_a));
    // documents under construction go on being built
    for k in &nb.c[cut..] {
        b = node::apply(b, k);
    }
    let got_b = save_vec(b, path).map_err(|e| format!("other document: {e}"))?;
    let got_a = save_vec(a, path).map_err(|e| format!("retry: {e}"))?;
    c.seen(&got_a);
    c.seen(&got_b);
    let cmp = |got: &[u8], want: &[u8], l: Level, what: &str| -> Result<(), String> {
        let g = canon(&unzip(got).map_err(|e| format!("{what} unreadable: {e}"))?, l)?;
        let w = canon(&unzip(want).map_err(|e| format!("{what} unreadable: {e}"))?, l)?;
        match diff(&g, &w) {
            Some(d) => Err(format!("{what} changed: {d}")),
            None => Ok(()),
        }
    };
    cmp(&got_a, &want_a, Level::Save, "retried save")?;
    cmp(&got_b, &want_b, Level::Process, "other document")
}

// ------------------------------------------------------------------ C16

fn c16_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 12]);
    let doc = gen_doc(r, Vocab::Full, 0, blocks, true);
    let before: Vec<Value> = if r.permille(300) { vec![to_value(&gen_doc(r, Vocab::Full, 3, 3, false))] } else { vec![] };
    let mut v = json!({"doc": to_value(&doc), "before": before, "swap": r.permille(500)});
    let m = v.as_object_mut().unwrap();
    if !c.calm {
        m.insert("layer".into(), layer(r).into());
        if r.permille(400) {
            m.insert("faults".into(), gen_soft(r));
        } else if r.permille(600) {
            hard(r, m);
        }
    }
    v
}

fn c16_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let lay = int(v, "layer", 0);
    for b in v["before"].as_array().cloned().unwrap_or_default() {
        save_vec(build(&node_of(&b)), 0)?;
    }
    let d = build(&node_of(&v["doc"]));
    let (calls, want) = perfect(&d, 0, lay, &[])?;
    let order: [i64; 2] = if flag(v, "swap") { [1, 0] } else { [0, 1] };
    let mut res: Vec<(Result<(), String>, Sink)> = vec![];
    for p in order {
        let s = hard_sink(v, calls, want.len());
        res.push(save_to(d.clone(), p, lay, s));
    }
    for (r, s) in &res {
        absorb(c, s);
        c.mark(s.hash);
        c.seen(&s.img);
        c.note(|| format!("save: {} sink calls, {:?} -> {:?}", s.calls, s.fired, r));
    }
    c.mark(hash_bytes(&want));
    c.nontrivial = true;
    let (r0, s0) = &res[0];
    let (r1, s1) = &res[1];
    if s0.errors > 0 || s1.errors > 0 {
        c.hit("both paths met an error");
        if s0.errors > 0 && s1.errors > 0 && r0.is_ok() != r1.is_ok() {
            return Err(format!("one path reports the error and the other does not: {r0:?} {r1:?}"));
        }
        return Ok(());
    }
    // the paths hand over their writes differently, so an interruption can end one of them alone
    if (r0.is_err() || r1.is_err()) && (r0.is_ok() || gave_up(s0)) && (r1.is_ok() || gave_up(s1)) {
        c.hit("gave up on an interrupted write");
        return Ok(());
    }
    if r0.is_err() || r1.is_err() {
        return Err(format!("save failed although no call failed: {r0:?} {r1:?}"));
    }
    let g = unzip(&s0.img).map_err(|e| format!("unreadable package: {e}"))?;
    let w = unzip(&s1.img).map_err(|e| format!("unreadable package: {e}"))?;
    if let Some(d) = diff(&canon(&g, Level::Save)?, &canon(&w, Level::Save)?) {
        return Err(format!("the two save paths differ: {d}"));
    }
    c.hit("packages compared");
    Ok(())
}

// ------------------------------------------------------------------ C24

fn c24_gen(r: &mut Rng, c: &Cfg) -> Value {
    let mut v = c02_gen(r, c);
    // a destination that keeps interrupting is given up on as well
    if !c.calm && r.permille(150) {
        v["faults"] = json!([{"at": crate::faults::gen_at(r), "k": "eintr", "n": 1 + r.below(30)}]);
        v.as_object_mut().unwrap().remove("cap");
    }
    v
}

fn c24_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let path = int(v, "path", 0);
    let lay = int(v, "layer", 0);
    let d = build(&node_of(&v["doc"]));
    let (calls, want) = perfect(&d, path, lay, &[])?;
    let s = hard_sink(v, calls, want.len());
    let (r, s) = save_to(d, path, lay, s);
    absorb(c, &s);
    c.note(|| format!("save: {} sink calls ({} without faults), {:?} -> {:?}, {} of {} bytes left behind", s.calls, calls, s.fired, r, s.img.len(), want.len()));
    c.seen(&s.img);
    c.mark(s.hash);
    c.mark(hash_bytes(&want));
    c.nontrivial = r.is_err() && !s.img.is_empty();
    if r.is_ok() {
        return Ok(());
    }
    c.hit("failed saves");
    if s.errors == 0 {
        c.hit("gave up on an interrupted write");
    }
    if s.img == want {
        c.hit("everything was written before the error");
        return Ok(());
    }
    let left = s.img;
    let open = |b: &[u8]| -> Result<Vec<u8>, String> {
        let b = b.to_vec();
        counterfactual(move || {
            Ok(match super::read::read(&b, false) {
                Ok(d) => serde_json::to_vec(&super::read::export(&d)).unwrap(),
                Err(_) => vec![],
            })
        })
    };
    let found = open(&left)?;
    if !found.is_empty() {
        let whole = open(&want)?;
        if found != whole {
            let (a, b): (Value, Value) = (serde_json::from_slice(&found).unwrap_or_default(), serde_json::from_slice(&whole).unwrap_or_default());
            return Err(format!("failed save left a document with other content: {}", super::read::differ(&a, &b)));
        }
        c.hit("all content was written before the error");
    } else {
        c.hit("left an unreadable file");
    }
    if let Ok(es) = unzip(&left) {
        let all = unzip(&want)?;
        if es.len() != all.len() || es.iter().zip(&all).any(|(a, b)| a.name != b.name || a.data != b.data) {
            return Err(format!("failed save left an archive with {} of {} parts", es.len(), all.len()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            gen: c24_gen,
            exec: c24_exec,
            runs: (20_000, 400_000),
            rule: "one run = one generated document saved into an empty file over a destination that fails at a seeded call, fills up or keeps interrupting; non-trivial = the save reported an error and left bytes behind. Oracle: what is left is refused by the reader (and by an independent archive reader), or holds exactly the content of a forked fault-free save.",
            measure: "hash of (fired faults with call index and operation, fault-free bytes)",
            real: REAL,
            stub: STUB,
            assumptions: &["the file was empty before the save"],
            probes: &["failed saves", "left an unreadable file", "everything was written before the error", "fault full", "fault interrupted write"],
        },
        Prop {
            id: "C01",
            gen: c01_gen,
            exec: c01_exec,
            runs: (24_000, 500_000),
            rule: "one run = one generated document saved once over a simulated destination with a seeded plan of short writes, interrupted writes, buffering layer and prior file contents; non-trivial = at least one fault fired, or a buffer or an older file was present. Oracle: bytes of a forked fault-free save from the same process state.",
            measure: "hash of (fired faults with call index and operation, saved bytes, buffer size, prior length)",
            real: REAL,
            stub: STUB,
            assumptions: &["a destination accepts at least one byte per successful write", "the caller does not seek the destination between the save's calls"],
            probes: &["fault short write", "fault interrupted write", "buffered destination", "older and longer file"],
        },
        Prop {
            id: "C02",
            gen: c02_gen,
            exec: c02_exec,
            runs: (32_000, 700_000),
            rule: "one run = one generated document saved over a destination that fails at a seeded call (write, seek or flush) or when full; non-trivial = an error was returned to the library. Oracle: error returned to the library implies the save returns an error; no error implies the exact bytes.",
            measure: "hash of (fired faults with call index and operation, fault-free bytes)",
            real: REAL,
            stub: STUB,
            assumptions: &["an error that the buffering layer itself hides is outside the library"],
            probes: &["saves that met an error", "errors among the last calls", "fault eio", "fault full", "fault zero-length write"],
        },
        Prop {
            id: "C03",
            gen: c03_gen,
            exec: c03_exec,
            runs: (10_000, 200_000),
            rule: "one run = a history of one to four failing saves (of this or of another document under construction) followed by healthy saves; non-trivial = at least one save failed. Oracle: forked counterfactual in which the failing saves never happened, compared up to renaming of generated ids.",
            measure: "hash of (fault traces of the failing saves, saved bytes)",
            real: REAL,
            stub: STUB,
            assumptions: &[],
            probes: &["failed saves"],
        },
        Prop {
            id: "C16",
            gen: c16_gen,
            exec: c16_exec,
            runs: (14_000, 300_000),
            rule: "one run = one document saved through both save paths after a process history, with the same fault plan; every run compares two saves. Oracle: the other path, up to renaming of ids drawn while saving, entry order included.",
            measure: "hash of (fault traces, fault-free bytes)",
            real: REAL,
            stub: STUB,
            assumptions: &[],
            probes: &["packages compared", "both paths met an error"],
        },
    ]
}
