//! Reading what a crash, a failing medium or a slow stream left: C04 to C09.
use super::*;
use crate::damage;
use crate::faults::{place, Op, Stream};
use crate::pkg::{data_ranges, rezip, unzip, Entry};
use crate::runner::{counterfactual, Cfg};
use docx_rs::*;
use serde_json::json;
use simrt::prng::{hash_bytes, mix};
use std::io::Read;

const REAL: &[&str] = &["docx-rs package reader, part readers, XML event reader", "zip, flate2, quick-xml and image crates as built by the library", "docx-rs writers (they produce the stored packages)"];

// ------------------------------------------------------------------ what a package says

/// Everything a reader gives back, as a value that does not depend on map order.
pub fn export(d: &Docx) -> Value {
    serde_json::from_str(&d.json()).unwrap_or(Value::Null)
}

/// The export of a package, read in a forked copy of the process so that it leaves no trace.
fn forked(b: &[u8], previews: bool) -> Result<Value, String> {
    let v = counterfactual(|| Ok(serde_json::to_vec(&export(&read(b, previews)?)).unwrap()))?;
    Ok(serde_json::from_slice(&v).unwrap_or(Value::Null))
}

fn forked_part(name: &str, d: &[u8]) -> Result<Value, String> {
    let v = counterfactual(|| Ok(serde_json::to_vec(&read_part(name, d).unwrap()?).unwrap()))?;
    Ok(serde_json::from_slice(&v).unwrap_or(Value::Null))
}

pub fn read(b: &[u8], previews: bool) -> Result<Docx, String> {
    let r = if previews { read_docx(b) } else { read_docx_with_options(b, ReadDocxOptions::default().with_image_previews(false)) };
    r.map_err(|e| e.to_string())
}

/// Names of the repository's own packages, small ones only.
pub fn fixtures() -> &'static Vec<String> {
    static F: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut v = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/fixtures")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map(|x| x == "docx").unwrap_or(false) && e.metadata().map(|m| m.len() < 150_000).unwrap_or(false) {
                    v.push(p.to_string_lossy().into_owned());
                }
            }
        }
        v.sort();
        v
    })
}

pub fn gen_source(r: &mut Rng, fixture: u32, blocks: usize) -> Value {
    if r.permille(fixture) && !fixtures().is_empty() {
        return json!({"fixture": r.pick(fixtures()).clone()});
    }
    json!({"doc": to_value(&gen_doc(r, Vocab::Full, 0, blocks, false)), "path": r.below(2)})
}

/// A stored package; None when a fixture is not there.
pub fn source(v: &Value) -> Result<Option<Vec<u8>>, String> {
    if let Some(f) = v["fixture"].as_str() {
        return Ok(std::fs::read(f).ok());
    }
    save_vec(build(&node_of(&v["doc"])), int(v, "path", 0)).map(Some)
}

// ------------------------------------------------------------------ C04

/// A newer version of a document: blocks added, removed, replaced.
fn edit(r: &mut Rng, d: &Node, salt: u64) -> Node {
    let mut n = d.clone();
    let fresh = gen_doc(r, Vocab::Full, salt, 4, false);
    for k in fresh.c {
        let block = matches!(k.t.as_str(), "p" | "tbl" | "sdt");
        if !block || n.c.is_empty() {
            continue;
        }
        let at = r.us(n.c.len() + 1);
        if at < n.c.len() && n.c[at].t == "p" && r.permille(400) {
            n.c[at] = k;
        } else if at < n.c.len() && n.c[at].t == "p" && r.permille(200) {
            n.c.remove(at);
        } else {
            n.c.insert(at, k);
        }
    }
    n
}

fn c04_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 10]);
    let doc = gen_doc(r, Vocab::Full, 0, blocks, true);
    let mut v = json!({"doc": to_value(&doc), "path": r.below(2), "layer": *r.pick(&[0, 0, 512, 4096, 8192, 1 << 16])});
    let m = v.as_object_mut().unwrap();
    if r.permille(450) {
        let old = if r.permille(600) { edit(r, &doc, 5) } else { gen_doc(r, Vocab::Full, 5, blocks, true) };
        m.insert("old".into(), to_value(&old));
        // how the older package is replaced: truncated and written again, or by renaming
        m.insert("rename".into(), r.permille(500).into());
    }
    if !c.calm {
        // right after the last write, among the last writes, or anywhere
        let at = match r.us(10) {
            0..=3 => 1 << 20,
            4..=6 => -(r.range(1, 60)),
            _ => r.below(1 << 20) as i64,
        };
        m.insert("crash".into(), json!({"at": at, "torn": r.below(1 << 20)}));
        m.insert("meta".into(), (!r.permille(150)).into());
        if r.permille(700) {
            m.insert(
                "lose".into(),
                json!({"seed": r.below(1 << 40), "p": *r.pick(&[5, 50, 200, 500, 900]), "sector": *r.pick(&[512, 512, 4096]), "size": r.permille(300), "junk": r.permille(200)}),
            );
        }
    }
    v
}

/// What is on the medium after a crash. Without loss the writes before the crash are there in
/// order, the last one possibly torn. With loss every sector holds one of the contents it had at
/// some time before the crash, and the file size is that of some time before the crash.
pub fn crash_image(old: Option<&[u8]>, log: &[Op], v: &Value, c: &mut Ctx) -> Vec<u8> {
    let mut img = old.map(|o| o.to_vec()).unwrap_or_default();
    let writes: Vec<(u64, &Vec<u8>)> = log.iter().filter_map(|o| if let Op::Write(p, b) = o { Some((*p, b)) } else { None }).collect();
    let (stop, torn) = match v.get("crash") {
        Some(k) => {
            c.hit("fault crash");
            (place(int(k, "at", 0), writes.len() as u64) as usize, int(k, "torn", 0))
        }
        None => (writes.len(), 0),
    };
    let lose = v.get("lose");
    let sector = lose.map(|l| int(l, "sector", 512).max(1) as usize).unwrap_or(512);
    let mut versions: std::collections::BTreeMap<usize, Vec<Vec<u8>>> = Default::default();
    let mut sizes = vec![img.len()];
    for (i, (at, b)) in writes.iter().enumerate() {
        if i > stop {
            break;
        }
        let mut b: &[u8] = b;
        if i == stop {
            let n = ((torn as u128 * b.len() as u128) >> 20) as usize;
            b = &b[..n];
            if n > 0 {
                c.hit("fault torn write");
            }
        }
        let mut at = *at as usize;
        while !b.is_empty() {
            let n = (sector - at % sector).min(b.len());
            if img.len() < at + n {
                img.resize(at + n, 0);
            }
            img[at..at + n].copy_from_slice(&b[..n]);
            if lose.is_some() {
                let s = at / sector;
                versions.entry(s).or_default().push(img[s * sector..img.len().min((s + 1) * sector)].to_vec());
            }
            at += n;
            b = &b[n..];
        }
        sizes.push(img.len());
    }
    if let Some(l) = lose {
        let mut rng = Rng::new(int(l, "seed", 0) as u64);
        let p = int(l, "p", 0) as u32;
        let junk = flag(l, "junk");
        for (s, vs) in &versions {
            if !rng.permille(p) {
                continue;
            }
            let k = rng.us(vs.len());
            let (from, to) = (s * sector, img.len().min((s + 1) * sector));
            for i in from..to {
                // the version before the k-th write of this sector; before the first: never written
                img[i] = match k {
                    0 if junk => mix(99, i as u64) as u8,
                    0 => 0,
                    _ => vs[k - 1].get(i - from).copied().unwrap_or(0),
                };
            }
            c.hit(if k == 0 { "fault lost sector write" } else { "fault stale sector" });
        }
        if flag(l, "size") {
            let n = *rng.pick(&sizes);
            if n < img.len() {
                img.truncate(n);
                c.hit("fault file size behind data");
            }
        }
    }
    img
}

/// Whether a record of the archive's directory names its entry otherwise than the entry itself.
pub fn torn_directory(b: &[u8]) -> bool {
    let u16a = |i: usize| b.get(i..i + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize);
    let u32a = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize);
    let go = || -> Option<bool> {
        let e = (0..b.len().saturating_sub(3)).rev().find(|&i| &b[i..i + 4] == b"PK\x05\x06")?;
        let mut at = u32a(e + 16)?;
        for _ in 0..u16a(e + 10)? {
            if b.get(at..at + 4)? != b"PK\x01\x02" {
                return None;
            }
            let (n, x, k, o) = (u16a(at + 28)?, u16a(at + 30)?, u16a(at + 32)?, u32a(at + 42)?);
            let name = b.get(at + 46..at + 46 + n)?;
            if u16a(o + 26)? != n || b.get(o + 30..o + 30 + n)? != name {
                return Some(true);
            }
            at += 46 + n + x + k;
        }
        Some(false)
    };
    go().unwrap_or(false)
}

fn c04_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let path = int(v, "path", 0);
    let old = match v.get("old") {
        Some(o) => Some(save_vec(build(&node_of(o)), path)?),
        None => None,
    };
    let mut s = Sink::new();
    s.log = Some(vec![]);
    let (r, s) = save_to(build(&node_of(&v["doc"])), path, int(v, "layer", 0), s);
    r.map_err(|e| format!("save failed on a healthy destination: {e}"))?;
    c.sim_ns += s.sim_ns;
    let full = s.img;
    let new = forked(&full, true).map_err(|e| format!("the stored package cannot be read: {e}"))?;
    let before = match &old {
        Some(o) => Some(forked(o, true).map_err(|e| format!("the stored package cannot be read: {e}"))?),
        None => None,
    };
    let mut img = crash_image(None, &s.log.unwrap(), v, c);
    if let Some(o) = old {
        c.hit(if flag(v, "rename") { "older package replaced by renaming" } else { "older package truncated and written again" });
        // neither the truncation nor the renaming may have reached the medium
        let done = v.get("crash").is_none() || flag(v, "meta");
        if !done {
            c.hit("fault lost directory update");
            img = o;
        }
    }
    c.seen(&img);
    c.mark(hash_bytes(&img));
    c.nontrivial = img != full && !img.is_empty();
    let r = read(&img, true);
    c.note(|| format!("crash image: {} of {} bytes, read -> {:?}", img.len(), full.len(), r.as_ref().map(|_| "document")));
    match r {
        Err(_) => {
            c.hit("crash image reported as unreadable");
            Ok(())
        }
        Ok(d) => {
            let e = export(&d);
            if e == new {
                c.hit("crash image read as the new document");
                Ok(())
            } else if before.as_ref() == Some(&e) {
                c.hit("crash image read as the old document");
                Ok(())
            } else if torn_directory(&img) {
                Err("torn directory record: an entry whose name did not reach the medium is left out of the document".into())
            } else {
                Err(format!("partial document: what survived the crash reads as a document that was never saved: {}; {}", differ(&e, &new), before.map(|b| differ(&e, &b)).unwrap_or_default()))
            }
        }
    }
}

/// First difference of two JSON values.
pub fn differ(a: &Value, b: &Value) -> String {
    fn go(a: &Value, b: &Value, path: &mut String) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                    let n = path.len();
                    path.push('/');
                    path.push_str(k);
                    let r = go(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), path);
                    if r.is_some() {
                        return r;
                    }
                    path.truncate(n);
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().max(y.len()) {
                    let n = path.len();
                    path.push_str(&format!("/{i}"));
                    let r = go(x.get(i).unwrap_or(&Value::Null), y.get(i).unwrap_or(&Value::Null), path);
                    if r.is_some() {
                        return r;
                    }
                    path.truncate(n);
                }
                None
            }
            _ if a == b => None,
            _ => {
                let s = |v: &Value| {
                    let t = v.to_string();
                    crate::canon::cut(&t, 0)
                };
                Some(format!("at {path}: {} instead of {}", s(a), s(b)))
            }
        }
    }
    go(a, b, &mut String::new()).unwrap_or_else(|| "equal".into())
}

// ------------------------------------------------------------------ C05

fn c05_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let mut v = json!({"src": gen_source(r, 200, blocks), "previews": r.permille(700)});
    let m = v.as_object_mut().unwrap();
    if r.permille(400) {
        m.insert("stored".into(), true.into());
    }
    if !c.calm {
        let n = if r.permille(700) { 1 } else { 1 + r.us(3) };
        let f: Vec<Value> = (0..n)
            .map(|_| {
                let k = *r.pick(&["flip", "flip", "zero", "garbage", "stale", "swap"]);
                json!({"k": k, "part": r.below(1 << 20), "at": damage::frac(r), "to": damage::frac(r), "bit": r.below(8), "n": *r.pick(&[1, 2, 16, 512, 4096]), "seed": r.below(1 << 30)})
            })
            .collect();
        m.insert("damage".into(), f.into());
    }
    v
}

fn c05_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let mut b = match source(&v["src"])? {
        Some(b) => b,
        None => return Ok(()),
    };
    if flag(v, "stored") {
        b = rezip(&unzip(&b)?, false);
        c.hit("stored without compression");
    }
    let previews = flag(v, "previews");
    let want = match forked(&b, previews) {
        Ok(d) => d,
        Err(e) if v["src"].get("fixture").is_some() => {
            c.note(|| format!("fixture cannot be read: {e}"));
            return Ok(());
        }
        Err(e) => return Err(format!("the stored package cannot be read: {e}")),
    };
    let ranges: Vec<(String, usize, usize)> = data_ranges(&b).into_iter().filter(|x| x.2 > x.1).collect();
    let mut d = b.clone();
    let mut hit = String::new();
    for f in v["damage"].as_array().cloned().unwrap_or_default() {
        let i = ((int(&f, "part", 0) as u128 * ranges.len() as u128) >> 20) as usize;
        let (name, s, e) = &ranges[i.min(ranges.len() - 1)];
        let mut part = d[*s..*e].to_vec();
        if f["k"] == "stale" {
            // a block of another place of the same file, as a lost write over reused space leaves it
            let n = (int(&f, "n", 1).max(1) as usize).min(part.len());
            let at = (((int(&f, "at", 0).max(0)) as u128 * (part.len() - n + 1) as u128) >> 20) as usize;
            let from = (((int(&f, "to", 0).max(0)) as u128 * (b.len() - n + 1) as u128) >> 20) as usize;
            part[at..at + n].copy_from_slice(&b[from..from + n]);
        } else {
            damage::bytes(&mut part, &f);
        }
        if part.len() == e - s && part[..] != d[*s..*e] {
            d[*s..*e].copy_from_slice(&part);
            c.hit(&format!("fault media {}", f["k"].as_str().unwrap_or("")));
            let kind: String = name.chars().filter(|x| !x.is_ascii_digit()).collect();
            c.hit(&format!("damaged {}", if kind.contains("media/") { "word/media" } else { &kind }));
            hit = name.clone();
        }
    }
    c.seen(&d);
    c.mark(hash_bytes(&d));
    c.nontrivial = d != b;
    let r = read(&d, previews);
    c.note(|| format!("damage in {hit}: read -> {:?}", r.as_ref().map(|_| "document")));
    match r {
        Err(e) => {
            if d == b {
                return Err(format!("undamaged package rejected: {e}"));
            }
            c.hit("damage reported");
            Ok(())
        }
        Ok(x) => {
            let got = export(&x);
            if got != want {
                return Err(format!("damage not reported: damaged {hit} reads as another document, {}", differ(&got, &want)));
            }
            c.hit("damage without effect");
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C06

/// Live memory allowed to a reader.
fn bound(n: usize) -> usize {
    (64 << 20) + n * 3000
}

fn c06_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let mut v = json!({"src": gen_source(r, 350, blocks), "previews": r.permille(700), "stored": r.permille(400)});
    if c.calm {
        return v;
    }
    let m = v.as_object_mut().unwrap();
    let n = 1 + r.us(4);
    match r.us(10) {
        0..=5 => {
            let parts: Vec<Value> = (0..n).map(|_| if r.permille(80) { damage::gen_entry(r) } else { damage::gen_part(r) }).collect();
            m.insert("parts".into(), parts.into());
            // mostly one part, so that the others lead to it
            if r.permille(600) {
                m.insert("only".into(), r.below(1 << 20).into());
            }
        }
        6 | 7 => {
            let f: Vec<Value> = (0..n).map(|_| damage::gen_field(r)).collect();
            m.insert("bytes".into(), f.into());
        }
        _ => {
            let f: Vec<Value> = (0..n).map(|_| damage::gen_bytes(r)).collect();
            m.insert("bytes".into(), f.into());
        }
    }
    v
}

fn damaged(v: &Value, b: Vec<u8>, c: &mut Ctx) -> Vec<u8> {
    let mut b = b;
    let parts = v["parts"].as_array().cloned().unwrap_or_default();
    if !parts.is_empty() || flag(v, "stored") {
        if let Ok(mut es) = unzip(&b) {
            es.retain(|e| !e.name.ends_with('/'));
            for f in &parts {
                if es.is_empty() {
                    break;
                }
                let k = f["k"].as_str().unwrap_or("").to_string();
                let done = if matches!(k.as_str(), "remove" | "empty" | "exchange" | "copy" | "upper") {
                    damage::entry(&mut es, f)
                } else {
                    let w = int(v, "only", int(f, "part", 0));
                    let i = ((w as u128 * es.len() as u128) >> 20) as usize;
                    let mut i = i.min(es.len() - 1);
                    if flag(f, "main") {
                        i = es.iter().position(|e| e.name == "word/document.xml").unwrap_or(i);
                    }
                    let done = damage::part(&mut es[i].data, f);
                    if done {
                        let kind: String = es[i].name.chars().filter(|x| !x.is_ascii_digit()).collect();
                        c.hit(&format!("damaged {}", if kind.contains("media/") { "word/media" } else { &kind }));
                    }
                    done
                };
                if done {
                    c.hit(&format!("fault media {k}"));
                }
            }
            b = rezip(&es, !flag(v, "stored"));
        }
    }
    for f in v["bytes"].as_array().cloned().unwrap_or_default() {
        let k = f["k"].as_str().unwrap_or("").to_string();
        let done = if k == "field" { damage::field(&mut b, &f) } else { damage::bytes(&mut b, &f) };
        if done {
            c.hit(&format!("fault media {k}"));
        }
    }
    b
}

fn c06_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let b = match source(&v["src"])? {
        Some(b) => b,
        None => return Ok(()),
    };
    let d = damaged(v, b.clone(), c);
    c.seen(&d);
    c.mark(hash_bytes(&d));
    c.nontrivial = v.get("parts").is_some() || d != b;
    let previews = flag(v, "previews");
    simrt::alloc::arm(bound(d.len()));
    let r = read(&d, previews);
    let peak = simrt::alloc::disarm();
    c.note(|| format!("{} bytes, read -> {:?}, {} bytes of memory at most", d.len(), r.as_ref().map(|_| "document").map_err(|e| e.clone()), peak));
    match r {
        Ok(x) => {
            c.hit("damaged package read as a document");
            c.seen(export(&x).to_string().as_bytes());
        }
        Err(_) => c.hit("damaged package rejected"),
    }
    Ok(())
}

// ------------------------------------------------------------------ parts

/// Reads one part with its public reader.
pub fn read_part<R: Read>(name: &str, r: R) -> Option<Result<Value, String>> {
    fn go<T: FromXML + serde::Serialize, R: Read>(r: R) -> Option<Result<Value, String>> {
        Some(T::from_xml(r).map(|t| serde_json::to_value(&t).unwrap_or(Value::Null)).map_err(|e| e.to_string()))
    }
    let file = name.rsplit('/').next().unwrap_or(name);
    let kind: String = file.chars().filter(|c| !c.is_ascii_digit()).collect();
    match kind.as_str() {
        "document.xml" => go::<Document, R>(r),
        "header.xml" => go::<Header, R>(r),
        "footer.xml" => go::<Footer, R>(r),
        "comments.xml" => go::<Comments, R>(r),
        "commentsExtended.xml" => go::<CommentsExtended, R>(r),
        "numbering.xml" => go::<Numberings, R>(r),
        "settings.xml" => go::<Settings, R>(r),
        "styles.xml" => go::<Styles, R>(r),
        "theme.xml" => go::<Theme, R>(r),
        "webSettings.xml" => go::<WebSettings, R>(r),
        "custom.xml" => go::<CustomProps, R>(r),
        "[Content_Types].xml" => go::<ContentTypes, R>(r),
        ".rels" => go::<Rels, R>(r),
        _ => None,
    }
}

/// Picks a readable part: kind first, so that rare kinds are met as often as common ones.
fn pick_part(b: &[u8], w: i64) -> Result<Option<Entry>, String> {
    let es: Vec<Entry> = unzip(b)?.into_iter().filter(|e| e.data.len() < 60_000 && read_part(&e.name, std::io::empty()).is_some()).collect();
    if es.is_empty() {
        return Ok(None);
    }
    let i = ((w as u128 * es.len() as u128) >> 20) as usize;
    Ok(Some(es[i.min(es.len() - 1)].clone()))
}

/// Same content written differently: line breaks and comments between elements, character
/// references and CDATA in text, a byte order mark.
fn dress(d: &[u8], v: &Value) -> Vec<u8> {
    let mut r = Rng::new(int(v, "seed", 0) as u64);
    let p = int(v, "p", 0) as u32;
    let mut out = vec![];
    if flag(v, "bom") {
        out.extend([0xef, 0xbb, 0xbf]);
    }
    let root = d.iter().enumerate().position(|(i, &b)| b == b'<' && !matches!(d.get(i + 1), Some(b'?') | Some(b'!'))).unwrap_or(0);
    let end = d.iter().rposition(|&b| b == b'>').unwrap_or(0);
    let mut in_tag = false;
    for (i, &b) in d.iter().enumerate() {
        if b == b'<' {
            in_tag = true;
        }
        if !in_tag && b.is_ascii_alphabetic() && p > 0 && r.permille(p / 4) && !in_entity(d, i) {
            match r.us(2) {
                0 => out.extend(format!("&#{};", b).bytes()),
                _ => out.extend(format!("&#x{:x};", b).bytes()),
            }
            continue;
        }
        out.push(b);
        if b == b'>' {
            in_tag = false;
            if i > root && i < end && p > 0 && r.permille(p) {
                let s: &str = *r.pick(&["\n", "\r\n  ", "<!-- note -->", "<?note x?>"]);
                out.extend(s.bytes());
            }
        }
    }
    out
}

fn in_entity(d: &[u8], i: usize) -> bool {
    d[..i].iter().rev().take(10).take_while(|&&b| b != b';' && b != b'>').any(|&b| b == b'&')
}

fn gen_dress(r: &mut Rng) -> Value {
    json!({"seed": r.below(1 << 30), "p": *r.pick(&[0, 0, 20, 150]), "bom": r.permille(60)})
}

/// Content of other producers, put into the part before it is stored.
fn gen_growth(r: &mut Rng) -> Value {
    let n = *r.pick(&[0, 0, 1, 3, 8]);
    let odd = *r.pick(&[0, 0, 0, 50]);
    (0..n).map(|_| damage::gen_grow(r, odd)).collect::<Vec<_>>().into()
}

fn gen_stream(r: &mut Rng) -> Value {
    json!({"seed": r.below(1 << 40), "max": *r.pick(&[0, 1, 1, 2, 3, 7, 64, 1000, 8192]), "eintr": *r.pick(&[0, 0, 20, 200, 600])})
}

fn stream<'a>(d: &'a [u8], v: &Value) -> Stream<'a> {
    Stream::new(d, int(v, "seed", 0) as u64, int(v, "max", 0) as u64, int(v, "eintr", 0) as u32)
}

fn the_part(v: &Value) -> Result<Option<(String, Vec<u8>)>, String> {
    let b = match source(&v["src"])? {
        Some(b) => b,
        None => return Ok(None),
    };
    Ok(pick_part(&b, int(v, "part", 0))?.map(|mut e| {
        for f in v["grow"].as_array().cloned().unwrap_or_default() {
            damage::token(&mut e.data, &f);
        }
        (e.name, dress(&e.data, &v["dress"]))
    }))
}

// ------------------------------------------------------------------ C07

fn c07_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let mut v = json!({"src": gen_source(r, 350, blocks), "dress": gen_dress(r)});
    let m = v.as_object_mut().unwrap();
    if r.permille(350) {
        m.insert("flat".into(), true.into());
    } else {
        m.insert("part".into(), r.below(1 << 20).into());
        m.insert("grow".into(), gen_growth(r));
    }
    if !c.calm {
        let n = 1 + r.us(4);
        let f: Vec<Value> = (0..n).map(|_| if r.permille(650) { damage::gen_token(r) } else { damage::gen_bytes(r) }).collect();
        m.insert("damage".into(), f.into());
    }
    v
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// A package as one flat XML text.
pub fn flat(es: &[Entry]) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    for e in es {
        if e.name.ends_with('/') || e.name == "[Content_Types].xml" {
            continue;
        }
        let xml = e.name.ends_with(".xml") || e.name.ends_with(".rels");
        let ty = if e.name.ends_with(".rels") { "application/vnd.openxmlformats-package.relationships+xml" } else { "application/xml" };
        s.push_str(&format!("<pkg:part pkg:name=\"/{}\" pkg:contentType=\"{}\">", e.name, if xml { ty } else { "image/png" }));
        if xml {
            let t = String::from_utf8_lossy(&e.data);
            let t = t.trim_start_matches('\u{feff}');
            let t = match t.find("?>") {
                Some(i) if t.starts_with("<?xml") => &t[i + 2..],
                _ => t,
            };
            s.push_str(&format!("<pkg:xmlData>{t}</pkg:xmlData>"));
        } else {
            s.push_str(&format!("<pkg:binaryData>{}</pkg:binaryData>", base64(&e.data)));
        }
        s.push_str("</pkg:part>");
    }
    s.push_str("</pkg:package>");
    s
}

fn c07_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let is_flat = flag(v, "flat");
    let (name, mut d) = if is_flat {
        let b = match source(&v["src"])? {
            Some(b) => b,
            None => return Ok(()),
        };
        ("flat package".to_string(), flat(&unzip(&b)?).into_bytes())
    } else {
        match the_part(v)? {
            Some(x) => x,
            None => return Ok(()),
        }
    };
    let mut changed = false;
    for f in v["damage"].as_array().cloned().unwrap_or_default() {
        if damage::part(&mut d, &f) {
            changed = true;
            c.hit(&format!("fault media {}", f["k"].as_str().unwrap_or("")));
        }
    }
    let kind: String = name.chars().filter(|x| !x.is_ascii_digit()).collect();
    c.hit(&format!("read {kind}"));
    c.seen(&d);
    c.mark(hash_bytes(&d));
    c.mark(hash_bytes(kind.as_bytes()));
    c.nontrivial = changed;
    let text = String::from_utf8_lossy(&d).into_owned();
    simrt::alloc::arm(bound(d.len()));
    let ok = if is_flat { read_xml(&text).map(|x| x.json().len()).is_ok() } else { matches!(read_part(&name, &d[..]), Some(Ok(_))) };
    let peak = simrt::alloc::disarm();
    c.note(|| format!("{name}: {} bytes, accepted: {ok}, {} bytes of memory at most", d.len(), peak));
    c.hit(if ok { "damaged text read as a value" } else { "damaged text rejected" });
    if !changed && is_flat && !ok && v["src"].get("doc").is_some() {
        return Err("undamaged flat package rejected: reading it failed".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn c08_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let mut v = json!({"src": gen_source(r, 350, blocks), "part": r.below(1 << 20), "grow": gen_growth(r), "dress": gen_dress(r)});
    if !c.calm {
        v["stream"] = gen_stream(r);
    }
    if r.permille(150) {
        v["damage"] = damage::gen_token(r);
    }
    v
}

fn c08_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let (name, mut d) = match the_part(v)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if let Some(f) = v.get("damage") {
        damage::part(&mut d, f);
    }
    let want = forked_part(&name, &d);
    let mut s = stream(&d, &v["stream"]);
    let got = read_part(&name, &mut s).unwrap();
    let kind: String = name.chars().filter(|x| !x.is_ascii_digit()).collect();
    c.hit(&format!("read {kind}"));
    for (k, n) in &s.fired {
        c.count(k, *n);
    }
    c.count("reads", s.calls);
    c.mark(s.hash);
    c.mark(hash_bytes(&d));
    c.nontrivial = !s.fired.is_empty();
    c.note(|| format!("{name}: {} bytes in {} reads, {:?} -> {:?}", d.len(), s.calls, s.fired, got.as_ref().map(|_| "value")));
    match (got, want) {
        (Ok(a), Ok(b)) => {
            c.seen(a.to_string().as_bytes());
            if a != b {
                return Err(format!("delivery changes the value: {kind} read in pieces differs, {}", differ(&a, &b)));
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            c.hit("rejected either way");
            Ok(())
        }
        (Err(e), Ok(_)) => Err(format!("delivery changes the outcome: {kind} read in pieces is rejected: {e}")),
        (Ok(_), Err(e)) => Err(format!("delivery changes the outcome: {kind} read in pieces is accepted, at once it is rejected: {e}")),
    }
}

// ------------------------------------------------------------------ C09

fn c09_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6]);
    let mut v = json!({"src": gen_source(r, 350, blocks), "part": r.below(1 << 20), "grow": gen_growth(r), "dress": gen_dress(r), "stream": gen_stream(r)});
    if !c.calm {
        let k = *r.pick(&["eio", "other", "timeout", "eagain", "eof", "denied", "data", "reset", "stale", "unsupported", "end", "end", "end", "end", "end"]);
        v["fail"] = json!({"at": damage::frac(r), "k": k, "once": r.permille(500)});
        if k != "end" && r.permille(150) {
            v["fail"]["past"] = json!(r.below(1 << 20));
        }
    }
    v
}

fn c09_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let (name, d) = match the_part(v)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let want = forked_part(&name, &d);
    let mut s = stream(&d, &v["stream"]);
    // the last position at which the root element is still open
    let last = d.iter().rposition(|&b| b == b'>').unwrap_or(0);
    let root = d.iter().enumerate().position(|(i, &b)| b == b'<' && !matches!(d.get(i + 1), Some(b'?') | Some(b'!'))).unwrap_or(0) + 1;
    let fail = v.get("fail");
    let mut at = 0;
    let mut past = false;
    if let Some(f) = fail {
        let k = f["k"].as_str().unwrap_or("end");
        let lo = if k == "end" { root.min(last) } else { 0 };
        let n = last - lo + 1;
        let a = int(f, "at", 0);
        at = if a < 0 { last - (a.unsigned_abs() as usize - 1).min(last - lo) } else { lo + ((a as u128 * n as u128) >> 20) as usize };
        if let Some(p) = f["past"].as_u64() {
            // the root element is closed, the stream has not ended yet
            at = last + 1 + ((p as u128 * (d.len() - last) as u128) >> 20) as usize;
            past = true;
        }
        s = s.fail_at(at, k, flag(f, "once"));
    }
    let got = read_part(&name, &mut s).unwrap();
    let kind: String = name.chars().filter(|x| !x.is_ascii_digit()).collect();
    c.hit(&format!("read {kind}"));
    for (k, n) in &s.fired {
        c.count(k, *n);
    }
    c.mark(s.hash);
    c.mark(hash_bytes(&d));
    c.mark(at as u64);
    c.nontrivial = s.errors > 0;
    c.note(|| format!("{name}: {} bytes, fault at {at} {:?} -> {:?}, {} reads after it", d.len(), s.fired, got.as_ref().map(|_| "value"), s.calls_after_error));
    if s.errors == 0 {
        return match (got, want) {
            (Ok(a), Ok(b)) if a == b => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            (_, _) if fail.is_some() && !past => Err(format!("stopped reading: {kind} was accepted without asking for the rest of its root element")),
            (_, _) => Err(format!("delivery changes the value: {kind} read in pieces differs")),
        };
    }
    if s.calls_after_error > 16 {
        return Err(format!("keeps reading: {kind} asked the failed stream {} more times", s.calls_after_error));
    }
    if past {
        c.hit("failure after the root element");
    }
    match got {
        Err(_) => {
            c.hit("failure reported");
            Ok(())
        }
        Ok(_) => Err(format!("failure not reported: {kind} was cut at byte {at} of {} and read as a value", d.len())),
    }
}

pub fn props() -> Vec<Prop> {
    const STUB: &[&str] = &["storage medium and its crash behaviour (simulated)", "hash seed", "clock"];
    const STREAM: &[&str] = &["byte stream behind the part (simulated)", "hash seed", "clock"];
    vec![
        Prop {
            id: "C04",
            gen: c04_gen,
            exec: c04_exec,
            runs: (20000, 400000),
            rule: "one run = one save to a fresh file, to a truncated older file or to a file renamed over the older one, a crash at a seeded write with a torn last write and seeded loss of sector writes, file size and directory update, then a read of what survived; non-trivial = the surviving image is neither empty nor complete. Oracle: error, or the export of the intact old or new package.",
            measure: "hash of the surviving image",
            real: REAL,
            stub: STUB,
            assumptions: &["an older package is replaced by truncating or renaming, not overwritten in place without truncation", "sectors never written read as zeros or noise, not as an older package", "CRC-32 collisions do not occur"],
            probes: &["fault crash", "fault torn write", "fault lost sector write", "fault stale sector", "fault file size behind data", "older package replaced by renaming", "older package truncated and written again", "fault lost directory update", "crash image read as the old document", "crash image read as the new document", "crash image reported as unreadable"],
        },
        Prop {
            id: "C05",
            gen: c05_gen,
            exec: c05_exec,
            runs: (30000, 600000),
            rule: "one run = one stored package (generated or a fixture, compressed or plain) with seeded damage inside the data of entries, then a read; non-trivial = bytes changed. Oracle: error, or the export of the undamaged package.",
            measure: "hash of the damaged package",
            real: REAL,
            stub: STUB,
            assumptions: &["CRC-32 collisions do not occur"],
            probes: &["damage reported", "damage without effect", "damaged word/document.xml", "damaged word/header.xml", "damaged word/footer.xml", "damaged word/comments.xml", "damaged word/styles.xml", "damaged word/numbering.xml", "damaged word/media", "damaged docProps/custom.xml", "stored without compression"],
        },
        Prop {
            id: "C06",
            gen: c06_gen,
            exec: c06_exec,
            runs: (100000, 1500000),
            rule: "one run = one stored package with one to four media faults (bytes, archive fields, entries, XML tokens with repaired checksums), then a read in a process with processor-time and memory limits; non-trivial = the package changed. Oracle: the read returns.",
            measure: "hash of the damaged package",
            real: REAL,
            stub: STUB,
            assumptions: &["processor time over 10 s counts as not ending", "memory over 64 MiB + 3000 times the input counts as out of proportion"],
            probes: &["damaged package read as a document", "damaged package rejected", "fault media field", "fault media trunc", "fault media attr", "fault media dropTag", "fault media grow", "fault media stray", "fault media remove", "damaged word/media"],
        },
        Prop {
            id: "C07",
            gen: c07_gen,
            exec: c07_exec,
            runs: (100000, 1500000),
            rule: "one run = one flat package or single part with one to four media faults, then a read in a process with processor-time and memory limits; non-trivial = the text changed. Oracle: the read returns.",
            measure: "hash of (part kind, damaged text)",
            real: REAL,
            stub: STUB,
            assumptions: &["processor time over 10 s counts as not ending", "memory over 64 MiB + 3000 times the input counts as out of proportion"],
            probes: &["damaged text read as a value", "damaged text rejected", "read flat package", "read word/document.xml", "read word/header.xml", "read word/theme/theme.xml", "read word/webSettings.xml", "read docProps/custom.xml", "read word/numbering.xml"],
        },
        Prop {
            id: "C08",
            gen: c08_gen,
            exec: c08_exec,
            runs: (40000, 900000),
            rule: "one run = one part read from a stream with a seeded delivery schedule (piece sizes, interrupted reads) and from memory; non-trivial = the stream delivered a short piece or was interrupted. Oracle: the value read from memory.",
            measure: "hash of (sequence of deliveries, text)",
            real: REAL,
            stub: STREAM,
            assumptions: &[],
            probes: &["fault short read", "fault interrupted read", "read word/document.xml", "read word/theme/theme.xml", "read word/numbering.xml", "rejected either way"],
        },
        Prop {
            id: "C09",
            gen: c09_gen,
            exec: c09_exec,
            runs: (40000, 900000),
            rule: "one run = one part read from a stream that fails (once or for good) or ends at a seeded byte before the root element is closed; non-trivial = the reader met the failure. Oracle: the read returns an error and asks at most 16 more times.",
            measure: "hash of (sequence of deliveries, fault position, text)",
            real: REAL,
            stub: STREAM,
            assumptions: &[],
            probes: &["failure reported", "failure after the root element", "fault read eio", "fault read end", "read word/document.xml", "read word/styles.xml", "read word/comments.xml", "read [Content_Types].xml", "read word/webSettings.xml"],
        },
    ]
}
