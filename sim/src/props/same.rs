//! The same document again: whatever else the process did (C15), and whatever looked at it (C17).
use super::threads::{gen_sched, threads};
use super::*;
use crate::canon::{canon, canon_json, diff, Level};
use crate::pkg::unzip;
use crate::props::read::{export, fixtures, read};
use crate::runner::{counterfactual, Cfg};
use docx_rs::{BuildXML, DocumentChild};
use serde_json::json;
use simrt::prng::hash_bytes;
use simrt::sched;

const REAL: &[&str] = &["docx-rs builders, save, export and read paths on real threads", "zip and flate2 crates as built by the library"];
const STUB: &[&str] = &["hash seed (getrandom)", "clock (clock_gettime)", "thread scheduling", "destination medium (in memory)"];

// ------------------------------------------------------------------ C15

fn gen_noise(r: &mut Rng, n: usize) -> Vec<Value> {
    (0..r.us(n + 1))
        .map(|i| {
            if r.permille(200) && !fixtures().is_empty() {
                return json!({"op": "read", "fixture": r.pick(fixtures()).clone()});
            }
            json!({"op": *r.pick(&["build", "save", "export", "reopen", "parts", "fail", "panic", "bad"]), "n": r.below(600), "doc": to_value(&gen_doc(r, Vocab::Full, 60 + i as u64, 2, false))})
        })
        .collect()
}

/// A fixture as read; one that cannot be saved again is not a subject here.
fn fixture(f: &str) -> Option<Docx> {
    let d = read(&std::fs::read(f).ok()?, false).ok()?;
    counterfactual(|| save_vec(d.clone(), 0)).ok()?;
    Some(d)
}

/// Work on another document.
fn noise(o: &Value) {
    if let Some(f) = o["fixture"].as_str() {
        if let Some(d) = std::fs::read(f).ok().and_then(|b| read(&b, false).ok()) {
            let _ = save_vec(d, 0);
        }
        return;
    }
    let d = build(&node_of(&o["doc"]));
    match o["op"].as_str().unwrap_or("") {
        "save" => {
            let _ = save_vec(d, 0);
        }
        "export" => {
            d.json();
        }
        "reopen" => {
            let _ = save_vec(d, 1).and_then(|b| read(&b, false)).map(|d| d.json());
        }
        "parts" => {
            d.build();
        }
        k if MISHAPS.contains(&k) => {
            mishap(d, o);
        }
        _ => {}
    }
}

fn env(v: &Value) {
    simrt::os::set_hash_seed(int(v, "hash", 1) as u64);
    simrt::os::set_clock(int(v, "clock", 0));
    simrt::os::set_pace(int(v, "pace", 0) as u64);
}

fn c15_gen(r: &mut Rng, c: &Cfg) -> Value {
    let mut v = if r.permille(100) && !fixtures().is_empty() {
        json!({"fixture": r.pick(fixtures()).clone()})
    } else {
        let blocks = *r.pick(&[1, 3, 6, 10]);
        json!({"doc": to_value(&gen_doc(r, Vocab::Full, 0, blocks, true))})
    };
    let env = |r: &mut Rng| -> (u64, i64) {
        let day = 86_400_000_000_000i64;
        let clock = *r.pick(&[0, 1, day * 3650, day * 20_000, day * 40_000, -day * 4000]) + r.below(1 << 40) as i64;
        (r.below(1 << 40), clock)
    };
    let saves: Vec<Value> = (0..1 + r.us(3))
        .map(|_| {
            let (h, k) = env(r);
            json!({"hash": h, "clock": k, "pace": r.below(1 << 20), "noise": gen_noise(r, if c.calm { 0 } else { 2 })})
        })
        .collect();
    v["saves"] = saves.into();
    v["path"] = r.below(2).into();
    if !c.calm {
        v["together"] = r.permille(400).into();
        v["sched"] = gen_sched(r);
    }
    if r.permille(400) {
        let two: Vec<Value> = (0..2)
            .map(|_| {
                let (h, k) = env(r);
                json!({"hash": h, "clock": k, "pace": r.below(1 << 20)})
            })
            .collect();
        v["fresh"] = two.into();
    }
    v
}

fn subject(v: &Value) -> Result<Option<Docx>, String> {
    if let Some(f) = v["fixture"].as_str() {
        return Ok(fixture(f));
    }
    Ok(Some(build(&node_of(&v["doc"]))))
}

/// What the archive says about each entry apart from its content.
fn listing(b: &[u8]) -> Vec<String> {
    let mut out = vec![];
    if let Ok(mut a) = zip::ZipArchive::new(std::io::Cursor::new(b)) {
        out.push(format!("{:?}", a.comment()));
        for i in 0..a.len() {
            if let Ok(e) = a.by_index_raw(i) {
                out.push(format!(
                    "{} {:?} {:?} {:?} {:?} {:?} {:?}",
                    e.name(),
                    e.last_modified().map(|t| t.to_string()),
                    e.compression(),
                    e.unix_mode(),
                    e.comment(),
                    e.extra_data(),
                    e.version_made_by()
                ));
            }
        }
    }
    out
}

/// Whether a part carries ids that are drawn anew by each save.
fn drawn(d: &[u8]) -> bool {
    let s = String::from_utf8_lossy(d);
    ["<w:ins", "<w:del ", "<w:del>", "<w:move", "PrChange", "_Toc"].iter().any(|m| s.contains(m))
}

fn same(a: &[u8], b: &[u8], exact: bool) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let x = unzip(a).map_err(|e| format!("unreadable package: {e}"))?;
    let y = unzip(b).map_err(|e| format!("unreadable package: {e}"))?;
    let (lx, ly) = (listing(a), listing(b));
    if lx != ly {
        let i = lx.iter().zip(&ly).take_while(|(p, q)| p == q).count();
        return Err(format!("bytes differ: archive lists {:?} instead of {:?}", lx.get(i), ly.get(i)));
    }
    let mut renamed = false;
    for (p, q) in x.iter().zip(&y) {
        if p.data == q.data {
            continue;
        }
        if !exact && drawn(&p.data) && drawn(&q.data) {
            renamed = true;
            continue;
        }
        let i = p.data.iter().zip(&q.data).take_while(|(a, b)| a == b).count();
        let cut = |d: &[u8]| String::from_utf8_lossy(&d[i.saturating_sub(60).min(d.len())..(i + 80).min(d.len())]).into_owned();
        return Err(format!("bytes differ: {} has …{} instead of …{}", p.name, cut(&p.data), cut(&q.data)));
    }
    if !renamed {
        return Err("bytes differ: outside the entries".into());
    }
    let (cx, cy) = (canon(&x, Level::Save)?, canon(&y, Level::Save)?);
    match diff(&cx, &cy) {
        Some(m) => Err(format!("bytes differ: beyond renaming: {m}")),
        None => Ok(()),
    }
}

fn c15_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let mut v = v.clone();
    for s in v["saves"].as_array_mut().into_iter().flatten() {
        if let Some(a) = s["noise"].as_array_mut() {
            a.retain(|o| o["fixture"].as_str().map(|f| fixture(f).is_some()).unwrap_or(true));
        }
    }
    let v = &v;
    let path = int(v, "path", 0);
    if let Some(two) = v["fresh"].as_array().filter(|a| a.len() == 2) {
        let mut got = vec![];
        for e in two {
            let (e, v) = (e.clone(), v.clone());
            got.push(counterfactual(move || {
                env(&e);
                let r = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || match subject(&v)? {
                        Some(d) => save_vec(d, path),
                        None => Ok(vec![]),
                    })
                    .unwrap()
                    .join();
                r.map_err(|_| "panic".to_string())?
            })?);
        }
        c.hit("fresh processes compared");
        same(&got[0], &got[1], true).map_err(|m| format!("fresh processes: {m}"))?;
    }
    let d = match subject(v)? {
        Some(d) => d,
        None => return Ok(()),
    };
    let want = save_vec(d.clone(), path)?;
    c.seen(&want);
    c.mark(hash_bytes(&want));
    let saves = v["saves"].as_array().cloned().unwrap_or_default();
    c.nontrivial = !saves.is_empty() && want.len() > 100;
    let jobs: Vec<Box<dyn FnOnce() -> Result<Vec<u8>, String> + Send>> = saves
        .iter()
        .map(|s| {
            let (s, d) = (s.clone(), d.clone());
            Box::new(move || {
                for o in s["noise"].as_array().into_iter().flatten() {
                    sched::step_point();
                    noise(o);
                }
                sched::step_point();
                save_vec(d, path)
            }) as Box<dyn FnOnce() -> Result<Vec<u8>, String> + Send>
        })
        .collect();
    for s in &saves {
        c.count("documents handled in between", s["noise"].as_array().map(|a| a.len()).unwrap_or(0) as u64);
    }
    let got: Vec<Result<Vec<u8>, String>> = if flag(v, "together") && !jobs.is_empty() {
        env(&saves[0]);
        c.hit("saves at the same time");
        threads(v, jobs, c).into_iter().map(|x| x.unwrap_or_else(|| Err("panic: while saving".into()))).collect()
    } else {
        let mut out = vec![];
        for (j, s) in jobs.into_iter().zip(&saves) {
            env(s);
            if int(s, "hash", 1) % 3 == 0 {
                // on the thread that built it, keeping that thread's hash keys
                c.hit("saves on the same thread");
                out.push(j());
                collect(c);
            } else {
                c.hit("saves under another hash seed");
                let j = move || (j(), crate::faults::take_fired());
                let (r, fired) = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(j)
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| (Err("panic: while saving".into()), Default::default()));
                for (k, v) in fired {
                    c.count(&k, v);
                }
                out.push(r);
            }
        }
        out
    };
    for g in got {
        let g = g?;
        c.seen(&g);
        c.hit("saves compared");
        same(&g, &want, false)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

const LOOKS: &[&str] = &["export", "clone", "clone export", "clone build", "clone save", "text", "parts", "thread export", "thread save", "keep", "comments", "export comments", "own comments", "own export with comments", "own footnotes", "clone fail", "clone panic"];

fn c17_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 10]);
    let doc = gen_doc(r, Vocab::Full, 0, blocks, false);
    let mut v = json!({"doc": to_value(&doc), "path": r.below(2)});
    if r.permille(500) {
        v["other"] = to_value(&gen_doc(r, Vocab::Full, 7, 4, false));
    }
    let most = if r.permille(300) { 8 } else { 3 };
    let n = 1 + r.us(most);
    let kinds = if c.calm { &LOOKS[..LOOKS.len() - 2] } else { LOOKS };
    let looks: Vec<Value> = (0..n).map(|_| json!({"at": r.below(24), "op": *r.pick(kinds), "n": r.below(600)})).collect();
    v["looks"] = looks.into();
    v["reload"] = r.permille(250).into();
    if !c.calm && r.permille(300) {
        // looks at copies on other threads, while both documents are saved
        let late: Vec<Value> = (0..1 + r.us(2)).map(|_| (0..1 + r.us(4)).map(|_| json!({"op": r.pick(LOOKS).trim_start_matches("thread "), "n": r.below(600)})).collect::<Vec<_>>().into()).collect();
        v["late"] = late.into();
        v["sched"] = gen_sched(r);
    }
    v
}

fn on_thread(f: impl FnOnce() + Send + 'static) {
    let _ = std::thread::Builder::new().stack_size(16 << 20).spawn(f).unwrap().join();
}

fn look(d: &mut Docx, op: &str, n: i64, kept: &mut Vec<Docx>) {
    match op {
        "clone fail" | "clone panic" => mishap(d.clone(), &json!({"op": &op[6..], "n": n, "path": n % 2})),
        "export" => {
            d.json();
        }
        "clone" => {
            let _ = d.clone();
        }
        "clone export" => {
            d.clone().json();
        }
        "clone build" => {
            d.clone().build();
        }
        "clone save" | "save" => {
            let _ = save_vec(d.clone(), 0);
        }
        "text" => {
            for k in &d.document.children {
                if let DocumentChild::Paragraph(p) = k {
                    p.raw_text();
                }
            }
        }
        "parts" => {
            d.document.build();
            d.styles.build();
            d.numberings.build();
            for k in &d.document.children {
                match k {
                    DocumentChild::Paragraph(p) => drop(p.build()),
                    DocumentChild::Table(t) => drop(t.build()),
                    _ => {}
                }
            }
        }
        "thread export" => {
            let d = d.clone();
            on_thread(move || {
                d.json();
            });
        }
        "thread save" => {
            let d = d.clone();
            on_thread(move || {
                let _ = save_vec(d, 1);
            });
        }
        "keep" => kept.push(d.clone()),
        "comments" => {
            d.clone().comments_json();
        }
        "export comments" => {
            d.clone().json_with_update_comments();
        }
        "own comments" => {
            d.comments_json();
        }
        "own export with comments" => {
            d.json_with_update_comments();
        }
        "own footnotes" => {
            d.collect_footnotes();
        }
        _ => {}
    }
}

/// Builds both documents a block at a time, looking at the first where asked to.
fn c17_program(v: &Value, looking: Option<&mut Ctx>) -> Result<Vec<(String, String)>, String> {
    let a = node_of(&v["doc"]);
    let b = node_of(&v["other"]);
    let looks = v["looks"].as_array().cloned().unwrap_or_default();
    let steps = a.c.len().max(b.c.len());
    let (mut x, mut y) = (Docx::new(), Docx::new());
    if flag(v, "reload") {
        // the document being looked at was loaded
        x = read(&save_vec(build(&a), 0)?, false)?;
    }
    let mut kept = vec![];
    for i in 0..=steps {
        if looking.is_some() {
            for l in looks.iter().filter(|l| int(l, "at", 0) as usize % (steps + 1) == i) {
                let op = l["op"].as_str().unwrap_or("");
                look(&mut x, op, int(l, "n", 0), &mut kept);
            }
        }
        if i < a.c.len() {
            x = node::apply(x, &a.c[i]);
        }
        if i < b.c.len() {
            y = node::apply(y, &b.c[i]);
        }
    }
    let path = int(v, "path", 0);
    let late = v["late"].as_array().cloned().unwrap_or_default();
    let c = match looking {
        Some(c) if !late.is_empty() => c,
        _ => return c17_results(&looks, x, y, path),
    };
    let mut jobs: Vec<Box<dyn FnOnce() -> Result<Vec<(String, String)>, String> + Send>> = vec![];
    for l in late {
        let (mut x, mut y) = (x.clone(), y.clone());
        jobs.push(Box::new(move || {
            for o in l.as_array().into_iter().flatten() {
                sched::step_point();
                let n = int(o, "n", 0);
                look(if n % 3 == 0 { &mut y } else { &mut x }, o["op"].as_str().unwrap_or(""), n, &mut vec![]);
            }
            Ok(vec![])
        }));
    }
    jobs.push(Box::new(move || c17_results(&looks, x, y, path)));
    c.hit("looks while saving");
    threads(v, jobs, c).pop().flatten().unwrap_or_else(|| Err("panic: while saving".into()))
}

fn c17_results(looks: &[Value], x: Docx, y: Docx, path: i64) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let gathers = looks.iter().any(|l| l["op"].as_str().unwrap_or("").starts_with("own "));
    for (n, d) in [("document", x), ("other document", y)] {
        // the parts gathered by these looks show in the export
        if !gathers || n != "document" {
            out.push((format!("export of the {n}"), blank_paragraph_ids(&canon_json(&export(&d))).to_string()));
        }
        let p = save_vec(d, path)?;
        out.push((format!("package of the {n}"), format!("{:?}", canon(&unzip(&p)?, Level::Process)?)));
    }
    Ok(out)
}

/// Paragraph ids are settled when a document is saved, not when it is exported.
fn blank_paragraph_ids(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(blank_paragraph_ids).collect::<Vec<_>>().into(),
        Value::Object(m) => m
            .iter()
            .map(|(k, x)| {
                let id = matches!(k.as_str(), "id" | "paragraphId" | "parentParagraphId") && x.as_str().map(|s| s.starts_with("para#")).unwrap_or(false);
                (k.clone(), if id { "para".into() } else { blank_paragraph_ids(x) })
            })
            .collect::<serde_json::Map<_, _>>()
            .into(),
        _ => v.clone(),
    }
}

fn c17_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let w = v.clone();
    let want = counterfactual(move || Ok(serde_json::to_vec(&c17_program(&w, None)?).unwrap()))?;
    let want: Vec<(String, String)> = serde_json::from_slice(&want).unwrap_or_default();
    let got = c17_program(v, Some(&mut *c))?;
    collect(c);
    let looks = v["looks"].as_array().cloned().unwrap_or_default();
    for l in &looks {
        c.hit(l["op"].as_str().unwrap_or(""));
    }
    c.nontrivial = !looks.is_empty();
    for (x, y) in got.iter().zip(&want) {
        c.seen(x.1.as_bytes());
        c.mark(hash_bytes(x.1.as_bytes()));
        c.hit("results compared");
        if x.1 != y.1 {
            let i = x.1.bytes().zip(y.1.bytes()).take_while(|(a, b)| a == b).count();
            return Err(format!("changed by looking: {}: …{} instead of …{}", x.0, crate::canon::cut(&x.1, i), crate::canon::cut(&y.1, i)));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            gen: c15_gen,
            exec: c15_exec,
            runs: (10_000, 200_000),
            rule: "one run = one document saved again after other work, under other hash seeds and clocks, on other threads, one after another or at the same time under a seeded schedule, and in fresh forked processes; non-trivial = at least one later save of a non-empty package. Oracle: the first save, byte for byte, parts with generated revision, bookmark or table-of-contents ids up to a consistent renaming; fresh processes byte for byte.",
            measure: "hash of (first package, order of scheduling points)",
            real: REAL,
            stub: STUB,
            assumptions: &["interleavings are sequentially consistent", "fresh processes share one address-space layout"],
            probes: &["saves compared", "saves under another hash seed", "saves on the same thread", "saves at the same time", "fresh processes compared", "documents handled in between"],
        },
        Prop {
            id: "C17",
            gen: c17_gen,
            exec: c17_exec,
            runs: (14_000, 300_000),
            rule: "one run = a document (new or loaded) built a block at a time, with a second document built beside it, and exports, copies, saves of copies and part builds at seeded points; non-trivial = at least one such look. Oracle: the same program without the looks in a forked process, up to a consistent renaming of generated ids; paragraph ids in exports are not compared.",
            measure: "hash of (exports, packages)",
            real: REAL,
            stub: STUB,
            assumptions: &["paragraph ids are compared in packages only: exports show ids that are settled on save"],
            probes: &["results compared", "export", "clone save", "thread export", "parts", "export comments", "own comments", "own footnotes", "clone fail", "clone panic", "looks while saving"],
        },
    ]
}
