//! Documents made and saved on several threads: C11 to C14.
use super::*;
use crate::canon::{canon, canon_json, Level};
use crate::faults::{faults, gen_soft};
use crate::node::{attach, piece, Piece};
use crate::pkg::{closure, para_ids, unzip, Pkg};
use crate::props::read::{export, fixtures, read};
use crate::props::session::{drawn, reloaded};
use crate::runner::{counterfactual, Cfg};
use crate::story;
use docx_rs::{read_docx, BuildXML, DocumentChild, Footnote, Hyperlink, HyperlinkData, HyperlinkType, Pic};
use serde_json::json;
use simrt::prng::hash_bytes;
use simrt::sched::{self, Policy};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const REAL: &[&str] = &["docx-rs builders, id generators, save, export and read paths on real threads", "zip and flate2 crates as built by the library"];
const STUB: &[&str] = &["thread scheduling (token passed at every atomic operation, allocation, sink call and workload step)", "hash seed", "clock", "destination medium"];
const ASSUME: &[&str] = &["interleavings are sequentially consistent; weak-memory reorderings are not explored"];

// ------------------------------------------------------------------ schedules

pub fn gen_sched(r: &mut Rng) -> Value {
    if r.permille(300) {
        let n = 1 + r.us(4);
        let top = 1u64 << (3 + r.us(12));
        let ch: Vec<u64> = (0..n).map(|_| 1 + r.below(top)).collect();
        return json!({"seed": r.below(1 << 40), "changes": ch, "allocs": r.permille(500)});
    }
    json!({"seed": r.below(1 << 40), "atomic": *r.pick(&[50, 200, 500, 900]), "step": *r.pick(&[0, 300, 800]), "alloc": *r.pick(&[0, 0, 1, 10, 60])})
}

fn policy(v: &Value) -> Policy {
    let s = &v["sched"];
    if let Some(l) = s.get("list") {
        return Policy::List(serde_json::from_value(l.clone()).unwrap_or_default());
    }
    let seed = int(s, "seed", 0) as u64;
    if let Some(c) = s.get("changes") {
        return Policy::Pct { seed, changes: serde_json::from_value(c.clone()).unwrap_or_default(), alloc_counts: flag(s, "allocs") };
    }
    if s.is_object() {
        return Policy::Random { seed, atomic: int(s, "atomic", 0) as u32, step: int(s, "step", 0) as u32, alloc: int(s, "alloc", 0) as u32 };
    }
    Policy::List(vec![])
}

/// Runs the jobs as simulated threads and returns their results.
pub fn threads<T: Send + 'static>(v: &Value, jobs: Vec<Box<dyn FnOnce() -> T + Send>>, c: &mut Ctx) -> Vec<Option<T>> {
    let n = jobs.len();
    let slots: Arc<Vec<Mutex<Option<(T, _)>>>> = Arc::new((0..n).map(|_| Mutex::new(None)).collect());
    let jobs: Vec<Box<dyn FnOnce() + Send>> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, j)| {
            let slots = slots.clone();
            Box::new(move || {
                if let Ok(t) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)) {
                    *slots[i].lock().unwrap() = Some((t, crate::faults::take_fired()));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let rep = sched::run(policy(v), 40_000_000, 16 << 20, jobs);
    c.count("scheduling points", rep.points);
    c.count("points at atomic operations", rep.atomics);
    c.count("thread switches", (rep.switches.len() as u64).saturating_sub(n as u64));
    c.count("waits on a lock", rep.blocked);
    c.mark(rep.order_hash);
    c.seen(&rep.order_hash.to_le_bytes());
    if rep.switches.len() > n {
        c.hit("runs with preemption");
    }
    c.sched = Some(rep.switches);
    (0..n)
        .map(|i| {
            let (t, fired) = slots[i].lock().unwrap().take()?;
            for (k, v) in fired {
                c.count(&k, v);
            }
            Some(t)
        })
        .collect()
}

fn nthreads(r: &mut Rng) -> usize {
    *r.pick(&[2, 2, 3, 3, 4])
}

// ------------------------------------------------------------------ C11

fn rich_paragraph(r: &mut Rng, salt: u64, next: &mut i64) -> Node {
    let mut p = Node::new("p");
    for _ in 0..1 + r.us(3) {
        *next += 1;
        let k = salt as i64 * 1000 + *next;
        let text = |s: String| Node::new("r").kids(vec![Node::new("text").with("v", s)]);
        p.c.push(match r.us(3) {
            0 => Node::new("link").with("url", format!("http://h{salt}.example/{next}")).kids(vec![text(format!("L{salt}x{next}"))]),
            1 => Node::new("r").kids(vec![Node::new("pic").with("k", k).with("w", 3).with("h", 4)]),
            _ => Node::new("r").kids(vec![Node::new("foot").kids(vec![Node::new("p").kids(vec![text(format!("F{salt}x{next}"))])])]),
        });
    }
    p
}

/// A document whose ids are mostly drawn while it is saved.
fn marked_doc(r: &mut Rng, salt: u64) -> Node {
    let mut d = Node::new("doc").kids(vec![Node::new("style").with("id", "Heading1").with("type", 0).with("name", "Heading 1")]);
    let mut k = 0;
    // now and then many marks of one kind
    let (many, n) = if r.permille(250) { (1 + r.us(3), 5 + r.us(25)) } else { (0, 1 + r.us(4)) };
    for _ in 0..n {
        let mut p = Node::new("p");
        for _ in 0..1 + r.us(3) {
            k += 1;
            let run = |t: &str| Node::new("r").kids(vec![Node::new(t).with("v", format!("M{salt}x{k}"))]);
            p.c.push(match r.us(5) {
                0 => Node::new("ins").kids(vec![run("text"), Node::new("del").kids(vec![run("delText")])]),
                1 => Node::new("del").kids(vec![run("delText")]),
                2 => Node::new("mvF").kids(vec![run("text")]),
                3 => Node::new("mvT").kids(vec![run("text")]),
                _ => run("text"),
            });
        }
        if many == 1 || many == 0 && r.permille(300) {
            p = p.with("pp", json!({"change": {"align": 1, "author": "a", "date": "2024-01-02T03:04:05Z"}}));
        } else if many == 2 || r.permille(500) {
            p = p.with("pp", json!({"style": *r.pick(&["Heading1", "Heading1", "Custom"])}));
        }
        if r.permille(150) {
            p = p.with("pins", json!({"author": "a", "date": "2024-01-02T03:04:05Z"}));
        }
        d.c.push(p);
    }
    if many == 2 || r.permille(600) {
        d.c.insert(0, Node::new("toc").with("to", 3).with("auto", true).with("hyper", true).with("styled", "Custom"));
        if r.permille(400) {
            // bookmarks of the author, with ids and names that the counters may come to
            let first = 1 + r.range(0, 12);
            for i in 0..1 + r.range(0, 5) {
                let id = first + i;
                let name = if r.permille(400) { format!("_Toc{id:08}") } else { format!("own{id}") };
                let marks = vec![Node::new("bmS").with("id", id).with("name", name), Node::new("bmE").with("id", id)];
                match r.us(4) {
                    0 => d.c.extend(marks),
                    1 => d.c.push(Node::new("sdt").kids(marks)),
                    2 => d.c.push(Node::new("tbl").kids(vec![Node::new("tr").kids(vec![Node::new("tc").kids(vec![Node::new("p").kids(marks)])])])),
                    _ => d.c.push(Node::new("p").with("marks", true).kids(marks)),
                }
            }
        }
    }
    d
}

fn c11_gen(r: &mut Rng, c: &Cfg) -> Value {
    let n = nthreads(r);
    let mut next = 0;
    let th: Vec<Value> = (0..n)
        .map(|t| {
            let ops: Vec<Value> = (0..1 + r.us(5))
                .map(|_| match r.us(if c.calm { 9 } else { 10 }) {
                    0 => json!({"op": "links", "n": 1 + r.below(6)}),
                    1 => json!({"op": "pictures", "n": 1 + r.below(6)}),
                    2 => json!({"op": "footnotes", "n": 1 + r.below(6)}),
                    3..=5 => json!({"op": "piece", "node": to_value(&rich_paragraph(r, t as u64, &mut next))}),
                    6 | 7 => json!({"op": "save", "doc": to_value(&marked_doc(r, t as u64)), "path": r.below(2)}),
                    8 => json!({"op": "look", "doc": to_value(&marked_doc(r, t as u64)), "how": r.below(4)}),
                    _ => json!({"op": *r.pick(&MISHAPS), "doc": to_value(&marked_doc(r, t as u64)), "path": r.below(2), "n": r.below(300)}),
                })
                .collect();
            ops.into()
        })
        .collect();
    let mut v = json!({"threads": th, "last": to_value(&marked_doc(r, 90))});
    if r.permille(60) {
        // a process that has long been at work
        let n = *r.pick(&[120, 250, 1020, 4090, 65_530]);
        v["before"] = json!([{"op": *r.pick(&["links", "pictures", "footnotes"]), "n": n}]);
    }
    if r.permille(30) {
        let more: Vec<Value> = (0..40).flat_map(|_| marked_doc(r, 91).c).filter(|n| n.t == "p" && !n.has("marks")).map(|n| to_value(&n)).collect();
        v["last"]["c"].as_array_mut().unwrap().extend(more);
    }
    if !c.calm {
        v["sched"] = gen_sched(r);
    }
    v
}

struct Made {
    ids: Vec<(&'static str, String)>,
    pieces: Vec<(Node, Piece)>,
    saved: Vec<Result<Vec<u8>, String>>,
}

fn c11_job(ops: Vec<Value>) -> Made {
    let mut m = Made { ids: vec![], pieces: vec![], saved: vec![] };
    for o in &ops {
        sched::step_point();
        let n = int(o, "n", 1);
        match o["op"].as_str().unwrap_or("") {
            "links" => {
                for i in 0..n {
                    if let HyperlinkData::External { rid, .. } = Hyperlink::new(format!("http://x/{i}"), HyperlinkType::External).link {
                        m.ids.push(("hyperlink", rid));
                    }
                }
            }
            "pictures" => {
                for _ in 0..n {
                    m.ids.push(("picture", Pic::new_with_dimensions(node::png(1), 3, 3).id));
                }
            }
            "footnotes" => {
                for _ in 0..n {
                    m.ids.push(("footnote", Footnote::new().id.to_string()));
                }
            }
            "piece" => {
                let k = node_of(&o["node"]);
                let p = piece(&k);
                m.pieces.push((k, p));
            }
            "save" => m.saved.push(save_vec(build(&node_of(&o["doc"])), int(o, "path", 0))),
            "look" => {
                let mut d = build(&node_of(&o["doc"]));
                match int(o, "how", 0) {
                    0 => drop(d.json()),
                    1 => drop(d.json_with_update_comments()),
                    2 => drop(d.comments_json()),
                    _ => drop(d.document.build()),
                }
            }
            k if MISHAPS.contains(&k) => mishap(build(&node_of(&o["doc"])), o),
            _ => {}
        }
    }
    m
}

/// Ids drawn while saving that occur twice in one package.
fn repeated_marks(p: &Pkg) -> Option<String> {
    let mut seen: BTreeSet<(&str, String)> = BTreeSet::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for part in p.xml.keys() {
        let mut bad = None;
        p.xml[part].walk(&mut |x| {
            let kind = match x.name.as_str() {
                "w:ins" | "w:del" | "w:moveFrom" | "w:moveTo" => "revision",
                "w:pPrChange" | "w:rPrChange" => "property change",
                "w:bookmarkStart" => "bookmark",
                _ => return,
            };
            if let Some(id) = x.a("w:id") {
                if !seen.insert((kind, id.to_string())) && bad.is_none() {
                    bad = Some(format!("{kind} id {id} occurs twice in one package"));
                }
            }
            if let Some(n) = x.a("w:name") {
                if !names.insert(n.to_string()) && bad.is_none() {
                    bad = Some(format!("bookmark name {n} occurs twice in one package"));
                }
            }
        });
        if bad.is_some() {
            return bad;
        }
    }
    if let Some(x) = p.xml.get("word/document.xml") {
        for l in x.all("w:hyperlink") {
            if let Some(a) = l.a("w:anchor").filter(|a| a.starts_with("_Toc")) {
                if !names.contains(a) {
                    return Some(format!("table of contents entry refers to missing bookmark {a}"));
                }
            }
        }
    }
    None
}

fn c11_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let jobs: Vec<Box<dyn FnOnce() -> Made + Send>> = v["threads"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .map(|ops| {
            let ops = ops.as_array().cloned().unwrap_or_default();
            Box::new(move || c11_job(ops)) as Box<dyn FnOnce() -> Made + Send>
        })
        .collect();
    if jobs.is_empty() {
        return Ok(());
    }
    let n = jobs.len();
    let mut made = vec![c11_job(v["before"].as_array().cloned().unwrap_or_default())];
    made.extend(threads(v, jobs, c).into_iter().flatten());
    c.nontrivial = n > 1;
    let mut seen: BTreeMap<(&str, String), usize> = BTreeMap::new();
    let mut pieces = vec![];
    let mut saved = vec![];
    for (t, m) in made.into_iter().enumerate() {
        for (k, id) in m.ids {
            c.hit("ids drawn directly");
            c.seen(id.as_bytes());
            if let Some(o) = seen.insert((k, id.clone()), t) {
                return Err(format!("duplicate {k} id: {id} was handed out on threads {o} and {t}"));
            }
        }
        pieces.extend(m.pieces);
        saved.extend(m.saved);
    }
    for s in saved {
        c.hit("packages saved by threads");
        let p = Pkg::open(&s?).map_err(|e| format!("unreadable package: {e}"))?;
        if p.xml.get("word/document.xml").is_some_and(|x| x.all("w:bookmarkStart").len() > 1) {
            c.hit("headings listed in a table of contents");
        }
        if let Some(m) = repeated_marks(&p) {
            return Err(format!("repeated id: {m}"));
        }
    }
    // a document of all the pieces, with marks of its own
    let last = node_of(&v["last"]);
    let mut blocks: Vec<Node> = pieces.iter().map(|p| p.0.clone()).collect();
    blocks.extend(last.c.clone());
    c.count("pieces put together", pieces.len() as u64);
    let mut d = pieces.into_iter().fold(Docx::new(), |d, p| attach(d, p.1));
    for k in &last.c {
        d = node::apply(d, k);
    }
    let b = save_vec(d, 0)?;
    c.seen(&b);
    let p = Pkg::open(&b).map_err(|e| format!("unreadable package: {e}"))?;
    if let Some(m) = repeated_marks(&p) {
        return Err(format!("repeated id: {m}"));
    }
    if let Some(m) = story::compare(&story::spec_doc(&blocks), &story::pkg_doc(&p)) {
        return Err(format!("pieces mixed up: {m}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

fn c12_gen(r: &mut Rng, c: &Cfg) -> Value {
    let n = nthreads(r);
    let th: Vec<Value> = (0..n)
        .map(|t| {
            let blocks = *r.pick(&[1, 2, 4, 7]);
            let doc = gen_doc(r, Vocab::Full, t as u64 + 1, blocks, false);
            let kinds = ["export", "save", "reopen", "clone", "fail", "panic", "bad"];
            let kinds = if c.calm { &kinds[..4] } else { &kinds[..] };
            let ops: Vec<Value> = (0..r.us(4))
                .map(|_| {
                    let far = *r.pick(&[60, 1000]);
                    json!({"at": r.below(12), "op": *r.pick(kinds), "path": r.below(2), "n": r.below(far)})
                })
                .collect();
            let mut p = json!({"doc": to_value(&doc), "ops": ops, "path": r.below(2), "reopen": r.permille(600)});
            if !c.calm && r.permille(200) {
                p["faults"] = gen_soft(r);
            }
            p
        })
        .collect();
    let mut v = json!({"threads": th});
    if !c.calm {
        v["sched"] = gen_sched(r);
    }
    v
}

/// What a thread's program gives: labelled results, canonical.
fn c12_job(p: &Value) -> Vec<(String, String)> {
    let mut out = vec![];
    let pkg = |b: &[u8]| -> String {
        let e = match unzip(b) {
            Ok(e) => e,
            Err(e) => return format!("unreadable package: {e}"),
        };
        match canon(&e, Level::Process) {
            Ok(c) => format!("{c:?}"),
            Err(e) => format!("unreadable package: {e}"),
        }
    };
    let json = |d: &Docx| canon_json(&export(d)).to_string();
    let n = node_of(&p["doc"]);
    let ops = p["ops"].as_array().cloned().unwrap_or_default();
    let mut d = Docx::new();
    for i in 0..=n.c.len() {
        for (j, o) in ops.iter().enumerate().filter(|(_, o)| int(o, "at", 0) as usize % (n.c.len() + 1) == i) {
            sched::step_point();
            let name = format!("{} {j} before block {i}", o["op"].as_str().unwrap_or(""));
            match o["op"].as_str().unwrap_or("") {
                "export" => out.push((name, json(&d))),
                "save" => match save_vec(d.clone(), int(o, "path", 0)) {
                    Ok(b) => out.push((name, pkg(&b))),
                    Err(e) => out.push((name, e)),
                },
                "reopen" => match save_vec(d.clone(), int(o, "path", 0)).and_then(|b| read(&b, false)) {
                    Ok(x) => out.push((name, json(&x))),
                    Err(e) => out.push((name, e)),
                },
                k if MISHAPS.contains(&k) => mishap(d.clone(), o),
                _ => d = d.clone(),
            }
        }
        if i < n.c.len() {
            sched::step_point();
            d = node::apply(d, &n.c[i]);
        }
    }
    sched::step_point();
    let s = Sink::new().plan(&faults(&p["faults"]), 100);
    let (r, s) = save_to(d, int(p, "path", 0), 0, s);
    crate::faults::keep_fired(&s);
    match r {
        Ok(()) => out.push(("final save".into(), pkg(&s.img))),
        Err(e) => out.push(("final save".into(), e)),
    }
    if flag(p, "reopen") {
        sched::step_point();
        match read(&s.img, false) {
            Ok(x) => out.push(("reopen".into(), json(&x))),
            Err(e) => out.push(("reopen".into(), e)),
        }
    }
    out
}

fn c12_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let progs = v["threads"].as_array().cloned().unwrap_or_default();
    if progs.is_empty() {
        return Ok(());
    }
    let mut alone: Vec<Vec<(String, String)>> = vec![];
    for p in &progs {
        let p = p.clone();
        let b = counterfactual(move || {
            let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || c12_job(&p)).unwrap().join();
            Ok(serde_json::to_vec(&r.map_err(|_| "panic".to_string())?).unwrap())
        })
        .map_err(|e| format!("alone: {e}"))?;
        alone.push(serde_json::from_slice(&b).unwrap_or_default());
    }
    let jobs: Vec<Box<dyn FnOnce() -> Vec<(String, String)> + Send>> =
        progs.iter().cloned().map(|p| Box::new(move || c12_job(&p)) as Box<dyn FnOnce() -> Vec<(String, String)> + Send>).collect();
    let n = jobs.len();
    let got = threads(v, jobs, c);
    c.nontrivial = n > 1;
    for (t, (g, w)) in got.iter().zip(&alone).enumerate() {
        let g = g.as_ref().ok_or_else(|| format!("thread ended early: thread {t}"))?;
        for (x, y) in g.iter().zip(w) {
            c.hit("results compared");
            c.mark(hash_bytes(x.1.as_bytes()));
            c.seen(x.1.as_bytes());
            if x != y {
                let i = x.1.bytes().zip(y.1.bytes()).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "differs from alone: thread {t}, {}: …{} instead of …{}",
                    x.0,
                    crate::canon::cut(&x.1, i),
                    crate::canon::cut(&y.1, i)
                ));
            }
        }
        if g.len() != w.len() {
            return Err(format!("differs from alone: thread {t} gave {} results instead of {}", g.len(), w.len()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ documents put together from pieces (C13, C14)

/// Assigns the blocks of a document to threads and adds other work in between.
fn gen_assembly(r: &mut Rng, c: &Cfg, doc: &Node) -> Value {
    let n = nthreads(r);
    let by: Vec<u64> = doc.c.iter().map(|_| r.below(n as u64 + 1)).collect();
    let kinds = ["export", "save", "reopen", "build", "age", "fail", "panic", "bad"];
    let kinds = if c.calm { &kinds[..5] } else { &kinds[..] };
    let noise: Vec<Value> = (0..r.us(4))
        .map(|i| json!({"thread": r.below(n as u64 + 1), "at": r.below(8), "op": *r.pick(kinds), "n": r.below(600), "doc": to_value(&gen_doc(r, Vocab::Full, 60 + i as u64, 2, false))}))
        .collect();
    let mut v = json!({"doc": to_value(doc), "by": by, "n": n, "noise": noise, "path": r.below(2)});
    if !c.calm {
        v["sched"] = gen_sched(r);
    }
    v
}

fn do_noise(o: &Value) {
    let d = build(&node_of(&o["doc"]));
    match o["op"].as_str().unwrap_or("") {
        "export" => {
            d.json();
        }
        "save" => {
            let _ = save_vec(d, 0);
        }
        "reopen" => {
            let _ = save_vec(d, 1).and_then(|b| read(&b, false));
        }
        "age" => {
            // a thread that has long been at work
            let n = int(o, "n", 0).clamp(0, 700);
            for _ in 0..n * if n % 4 == 0 { 110 } else { 1 } {
                docx_rs::Paragraph::new();
            }
            for _ in 0..n {
                Hyperlink::new("http://x/", HyperlinkType::External);
            }
        }
        k if MISHAPS.contains(&k) => {
            mishap(d, o);
        }
        _ => {
            d.build();
        }
    }
}

/// Makes the blocks on their threads (thread 0 = the thread that puts the document together)
/// and returns them in document order.
fn assemble(v: &Value, c: &mut Ctx) -> (Vec<Node>, Vec<Piece>) {
    let doc = node_of(&v["doc"]);
    let n = int(v, "n", 2).clamp(1, 6) as usize;
    let by: Vec<usize> = (0..doc.c.len()).map(|i| v["by"][i].as_u64().unwrap_or(0) as usize % (n + 1)).collect();
    let noise = v["noise"].as_array().cloned().unwrap_or_default();
    let job = |t: usize| -> Box<dyn FnOnce() -> Vec<(usize, Piece)> + Send> {
        let mine: Vec<(usize, Node)> = doc.c.iter().enumerate().filter(|(i, _)| by[*i] == t).map(|(i, k)| (i, k.clone())).collect();
        let noise: Vec<Value> = noise.iter().filter(|o| int(o, "thread", 0) as usize == t).cloned().collect();
        Box::new(move || {
            let mut out = vec![];
            for (j, (i, k)) in mine.iter().enumerate() {
                for o in noise.iter().filter(|o| int(o, "at", 0) as usize % mine.len() == j) {
                    sched::step_point();
                    do_noise(o);
                }
                sched::step_point();
                out.push((*i, piece(k)));
            }
            out
        })
    };
    let mut all: Vec<(usize, Piece)> = vec![];
    let used: BTreeSet<usize> = by.iter().copied().filter(|t| *t > 0).collect();
    let jobs: Vec<_> = used.iter().map(|t| job(*t)).collect();
    c.count("blocks made on other threads", by.iter().filter(|t| **t > 0).count() as u64);
    if !jobs.is_empty() {
        for r in threads(v, jobs, c).into_iter().flatten() {
            all.extend(r);
        }
    }
    all.extend(job(0)());
    collect(c);
    all.sort_by_key(|x| x.0);
    (all.iter().map(|x| doc.c[x.0].clone()).collect(), all.into_iter().map(|x| x.1).collect())
}

// ------------------------------------------------------------------ C13

fn has(n: &Node, t: &[&str]) -> bool {
    let mut b = false;
    n.walk(&mut |k| b |= t.contains(&k.t.as_str()));
    b
}

fn c13_gen(r: &mut Rng, c: &Cfg) -> Value {
    let mut g = Gen::new(r.fork(), Vocab::Full);
    g.max_blocks = *r.pick(&[2, 4, 8]);
    g.hand_ids = r.permille(500);
    let doc = g.doc();
    let mut v = gen_assembly(r, c, &doc);
    let copies: Vec<Value> = (0..r.us(3)).map(|_| json!({"of": r.below(16), "export": r.permille(300)})).collect();
    v["copies"] = copies.into();
    if r.permille(400) {
        let mut l = vec![];
        for i in 0..1 + r.us(2) {
            let mut g = Gen::new(r.fork(), Vocab::Full);
            g.offset(20 + i as u64);
            g.max_blocks = 3;
            g.hand_ids = r.permille(300);
            l.push(to_value(&g.doc()));
        }
        v["loaded"] = l.into();
    }
    v["reload"] = r.permille(300).into();
    v
}

fn extended(p: &Pkg, parents: &BTreeMap<String, String>) -> Option<String> {
    let x = match p.xml.get("word/comments.xml") {
        Some(x) => x,
        None => return None,
    };
    let mut last: BTreeMap<String, String> = BTreeMap::new();
    for k in x.all("w:comment") {
        if let Some(q) = k.all("w:p").last() {
            last.insert(k.a("w:id").unwrap_or("").to_string(), q.a("w14:paraId").unwrap_or("").to_string());
        }
    }
    let mut recs: BTreeMap<String, Option<String>> = BTreeMap::new();
    if let Some(e) = p.xml.get("word/commentsExtended.xml") {
        for r in e.all("w15:commentEx") {
            let id = r.a("w15:paraId").unwrap_or("").to_string();
            if !last.values().any(|l| *l == id) {
                return Some(format!("a record describes paragraph {id}, which ends no comment"));
            }
            if recs.insert(id.clone(), r.a("w15:paraIdParent").map(|s| s.to_string())).is_some() {
                return Some(format!("two records describe paragraph {id}"));
            }
        }
    }
    for (id, para) in &last {
        match recs.get(para) {
            // a reply to a comment that is not in the document
            None if parents.get(id).is_some_and(|q| !last.contains_key(q)) => {}
            None => return Some(format!("comment {id} has no record")),
            Some(par) => {
                let want = parents.get(id).and_then(|q| last.get(q)).cloned();
                if *par != want {
                    return Some(format!("the record of comment {id} names parent paragraph {par:?} instead of {want:?}"));
                }
            }
        }
    }
    None
}

fn c13_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let (nodes, pieces) = assemble(v, c);
    c.nontrivial = true;
    let mut parents: BTreeMap<String, String> = BTreeMap::new();
    let mut known = |n: &Node| {
        n.walk(&mut |k| {
            if k.t == "cmS" {
                if let (Some(i), Some(p)) = (k.i("id"), k.i("parent")) {
                    parents.insert(i.to_string(), p.to_string());
                }
            }
        })
    };
    nodes.iter().for_each(&mut known);
    let mut d = Docx::new();
    for p in &pieces {
        d = attach(d, p.clone());
    }
    for o in v["copies"].as_array().cloned().unwrap_or_default() {
        if nodes.is_empty() {
            break;
        }
        if flag(&o, "export") {
            d.json();
        }
        let i = int(&o, "of", 0) as usize % nodes.len();
        // two comments or footnotes with one id are the author's doing, not the library's
        if !has(&nodes[i], &["cmS", "foot"]) && matches!(pieces[i], Piece::Paragraph(_) | Piece::Table(_) | Piece::Sdt(_)) {
            c.hit("copied blocks");
            d = attach(d, pieces[i].clone());
        }
    }
    for l in v["loaded"].as_array().cloned().unwrap_or_default() {
        let n = node_of(&l);
        let b = save_vec(build(&n), 0)?;
        let x = read(&b, false)?;
        c.hit("loaded documents merged");
        n.c.iter().for_each(&mut known);
        for k in x.document.children {
            d = match k {
                DocumentChild::Paragraph(p) => d.add_paragraph(*p),
                DocumentChild::Table(t) => d.add_table(*t),
                DocumentChild::StructuredDataTag(s) => d.add_structured_data_tag(*s),
                DocumentChild::Section(_) => d,
                k => {
                    d.document.children.push(k);
                    d
                }
            };
        }
    }
    let mut b = save_vec(d, int(v, "path", 0))?;
    c.seen(&b);
    for round in 0..2 {
        let p = Pkg::open(&b).map_err(|e| format!("unreadable package: {e}"))?;
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for (part, id) in para_ids(&p) {
            c.hit("paragraphs checked");
            let id = id.filter(|i| !i.is_empty()).ok_or_else(|| format!("missing paragraph id: in {part}"))?;
            if let Some(o) = seen.insert(id.clone(), part.clone()) {
                return Err(format!("duplicate paragraph id: {id} in {o} and {part}"));
            }
        }
        c.mark(hash_bytes(format!("{seen:?}").as_bytes()));
        if let Some(m) = extended(&p, &parents) {
            return Err(format!("comment record: {m}"));
        }
        if round == 1 || !flag(v, "reload") {
            break;
        }
        c.hit("reloaded and saved again");
        b = save_vec(read(&b, false)?, 0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

const FOREIGN: u64 = 90;

fn c14_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[2, 4, 8, 12]);
    let fixture = Some(r.permille(100)).filter(|x| *x && !fixtures().is_empty()).map(|_| r.pick(fixtures()).clone());
    // ids chosen by hand stay clear of those of other programs
    let mut doc = gen_doc(r, Vocab::Full, if fixture.is_some() { FOREIGN } else { 0 }, blocks, true);
    if r.permille(250) {
        // headers and footers attached again: the last one counts
        let again = gen_doc(r, Vocab::Full, 40, 1, false);
        for k in again.c.into_iter().filter(|k| k.t == "header" || k.t == "footer") {
            let at = r.us(doc.c.len() + 1);
            doc.c.insert(at, k);
        }
    }
    let mut v = gen_assembly(r, c, &doc);
    v["export"] = r.permille(200).into();
    v["twice"] = r.permille(200).into();
    // added to a document that was opened
    if let Some(f) = fixture {
        v["fixture"] = f.into();
    } else if r.permille(200) {
        let blocks = *r.pick(&[1, 3, 6]);
        v["base"] = to_value(&gen_doc(r, Vocab::Session, 60, blocks, false));
    }
    v
}

/// Drops uses of lists the description does not define.
fn drop_undefined_lists(v: &mut Value, defined: &BTreeSet<i64>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| drop_undefined_lists(x, defined)),
        Value::Object(m) => {
            let undefined = |x: &Value| x.as_array().map(|a| !defined.contains(&a.first().and_then(|i| i.as_i64()).unwrap_or(0))).unwrap_or(false);
            if m.get("num").map(undefined).unwrap_or(false) {
                m.remove("num");
            }
            m.values_mut().for_each(|x| drop_undefined_lists(x, defined));
        }
        _ => {}
    }
}

fn with_defined_lists(v: &Value) -> Value {
    let mut v = v.clone();
    let ids = |v: &Value, t: &str, k: &str| -> Vec<(i64, i64)> {
        let kids = v["doc"]["c"].as_array().cloned().unwrap_or_default();
        kids.iter().filter(|n| n["t"] == t).map(|n| (n["p"]["id"].as_i64().unwrap_or(1), n["p"][k].as_i64().unwrap_or(1))).collect()
    };
    let low = if v.get("fixture").is_some() { 20 * FOREIGN as i64 } else { 0 };
    if let Some(kids) = v["doc"]["c"].as_array_mut() {
        kids.retain(|n| n["t"] != "num" && n["t"] != "absnum" || n["p"]["id"].as_i64().unwrap_or(1) >= low);
    }
    let abs: BTreeSet<i64> = ids(&v, "absnum", "id").into_iter().map(|x| x.0).collect();
    if let Some(kids) = v["doc"]["c"].as_array_mut() {
        kids.retain(|n| n["t"] != "num" || abs.contains(&n["p"]["abs"].as_i64().unwrap_or(1)));
    }
    let defined = ids(&v, "num", "abs").into_iter().map(|x| x.0).collect();
    drop_undefined_lists(&mut v["doc"], &defined);
    v
}

/// Known finding: comments and footnotes have no relationships of their own.
fn note_link(m: &str) -> bool {
    (m.starts_with("word/comments.xml: ") || m.starts_with("word/footnotes.xml: ")) && m.contains(" undeclared relationship ")
}

fn linked_notes(nodes: &[Node]) -> bool {
    let mut found = false;
    for n in nodes {
        n.walk(&mut |k| {
            if k.t == "cmS" || k.t == "foot" {
                k.walk(&mut |x| found |= x.t == "pic" || x.t == "link" && !x.has("anchor"));
            }
        });
    }
    found
}

fn c14_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let v = &with_defined_lists(v);
    let (mut nodes, pieces) = assemble(v, c);
    let mut d = Docx::new();
    let foreign = v["fixture"].as_str().filter(|f| !drawn(f)).and_then(|f| std::fs::read(f).ok());
    if let Some(b) = &foreign {
        d = read_docx(b).map_err(|e| format!("fixture unreadable: {e}"))?;
        c.hit("documents of other programs extended");
    } else if v.get("base").is_some() {
        let base = node_of(&v["base"]);
        d = read_docx(&save_vec(build(&base), 0)?).map_err(|e| format!("own output unreadable: {e}"))?;
        nodes.splice(0..0, reloaded(&base.c));
        c.hit("opened documents extended");
    }
    for p in pieces {
        d = attach(d, p);
        if flag(v, "export") {
            d.json();
        }
    }
    if flag(v, "twice") {
        save_vec(d.clone(), 1 - int(v, "path", 0))?;
    }
    let b = save_vec(d, int(v, "path", 0))?;
    c.seen(&b);
    let p = Pkg::open(&b).map_err(|e| format!("unreadable package: {e}"))?;
    let (notes, open): (Vec<String>, Vec<String>) = closure(&p).into_iter().partition(|m| note_link(m) && linked_notes(&nodes));
    if let Some(m) = open.first() {
        return Err(format!("not closed: {m}"));
    }
    if let Some(m) = notes.first() {
        return Err(format!("links and pictures of notes are not declared: {m}"));
    }
    if foreign.is_some() {
        c.mark(hash_bytes(&b));
        c.nontrivial = true;
        return Ok(());
    }
    let want = story::spec_doc(&nodes);
    let got = story::pkg_doc(&p);
    c.count("references resolved", want.iter().filter(|s| *s != "section end").count() as u64);
    c.count("headers and footers resolved", want.iter().filter(|s| s.starts_with("header") || s.starts_with("footer")).count() as u64);
    c.mark(hash_bytes(format!("{want:?}").as_bytes()));
    c.nontrivial = want.len() > 1;
    if let Some(m) = story::compare(&want, &got) {
        return Err(format!("wrong item: {m}"));
    }
    let lists = story::pkg_lists(&p);
    for (k, a) in story::spec_lists(&nodes) {
        if lists.get(&k) != Some(&a) {
            return Err(format!("wrong item: list {k} uses definition {:?} instead of {a}", lists.get(&k)));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            gen: c11_gen,
            exec: c11_exec,
            runs: (20_000, 500_000),
            rule: "one run = 2 to 4 threads creating links, pictures, footnotes and blocks and saving documents with tracked changes and tables of contents, under a seeded schedule that may switch at every atomic operation, then one document made of all the blocks; non-trivial = at least two threads. Oracle: history of ids handed out (no id twice), uniqueness inside each package, and the description of the assembled document.",
            measure: "hash of the order of (thread, operation, address) at scheduling points",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            probes: &["runs with preemption", "ids drawn directly", "packages saved by threads", "headings listed in a table of contents", "pieces put together", "points at atomic operations"],
        },
        Prop {
            id: "C12",
            gen: c12_gen,
            exec: c12_exec,
            runs: (6_000, 120_000),
            rule: "one run = 2 to 4 threads, each building, exporting, saving and reopening its own document, under a seeded schedule; non-trivial = at least two threads. Oracle: each program alone in a fresh forked process, up to renaming of generated ids; deadlocks and panics are reported.",
            measure: "hash of (order of scheduling points, results)",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            probes: &["runs with preemption", "results compared"],
        },
        Prop {
            id: "C13",
            gen: c13_gen,
            exec: c13_exec,
            runs: (20_000, 400_000),
            rule: "one run = a document put together from blocks made on several threads, with saves and exports in between, copied blocks, loaded documents and ids set by hand, saved (and in some runs reloaded and saved again). Oracle: every paragraph of the package has an id and no two share one; each comment has one extended record with the right parent.",
            measure: "hash of (order of scheduling points, paragraph ids by part)",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            probes: &["copied blocks", "loaded documents merged", "reloaded and saved again", "blocks made on other threads", "runs with preemption"],
        },
        Prop {
            id: "C14",
            gen: c14_gen,
            exec: c14_exec,
            runs: (20_000, 400_000),
            rule: "one run = a document put together in a seeded order from blocks made on several threads, with other saves in between, then saved; non-trivial = the document has at least one reference. Oracle: closure of the package under its references, computed by an independent reader, and the sequence of attached items computed from the description.",
            measure: "hash of (order of scheduling points, sequence of attached items)",
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
            probes: &["references resolved", "headers and footers resolved", "opened documents extended", "documents of other programs extended", "blocks made on other threads", "runs with preemption"],
        },
    ]
}
