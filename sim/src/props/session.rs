//! Documents that live on: edit sessions with crashes and restarts in between (C18), and
//! repeated opening and saving (C19). Every session is a process of its own.
use super::read::{base64, crash_image, differ, export, fixtures, read, torn_directory};
use super::save::gave_up;
use super::*;
use crate::canon::canon_json;
use crate::faults::{faults, gen_hard, gen_soft};
use crate::pkg::Pkg;
use crate::runner::{counterfactual, Cfg};
use crate::story;
use docx_rs::*;
use serde_json::{json};
use simrt::prng::hash_bytes;
use std::collections::{BTreeMap, BTreeSet};

const REAL: &[&str] = &["docx-rs document builders, writers, package writer and reader", "zip, flate2, quick-xml and image crates as built by the library"];
const STUB: &[&str] = &["destination file and its durability after a crash", "randomness of hash maps, wall clock", "processes: every session is a fork that starts without any library state"];

// ------------------------------------------------------------------ content of an export

/// The content an export speaks about, without what the writer adds to or leaves out of every
/// document and without generated identifiers.
pub fn content(v: &Value) -> Value {
    let mut v = v.clone();
    let mut pics = BTreeMap::new();
    for i in v["images"].as_array().into_iter().flatten() {
        pics.insert(i[0].as_str().unwrap_or("").to_string(), i[2].clone());
    }
    let mut links = BTreeMap::new();
    for i in v["hyperlinks"].as_array().into_iter().flatten() {
        links.insert(i[0].as_str().unwrap_or("").to_string(), i[1].clone());
    }
    let m = match v.as_object_mut() {
        Some(m) => m,
        None => return v,
    };
    for k in ["images", "hyperlinks", "documentRels", "rels", "contentType", "comments", "commentsExtended", "media", "footnotes", "fontTable", "themes", "webSettings"] {
        m.remove(k);
    }
    // what the writer adds when it is missing
    let without = |v: Option<&mut Value>, key: &str, id: Value| {
        if let Some(a) = v.and_then(|v| v.as_array_mut()) {
            a.retain(|s| s[key] != id);
        }
    };
    without(m.get_mut("styles").and_then(|s| s.get_mut("styles")), "styleId", "Normal".into());
    without(m.get_mut("numberings").and_then(|s| s.get_mut("abstractNums")), "id", 1.into());
    without(m.get_mut("numberings").and_then(|s| s.get_mut("numberings")), "id", 1.into());
    tidy(&mut v, &pics, &links);
    v
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}

fn ty(v: &Value) -> &str {
    v["type"].as_str().unwrap_or("")
}

fn instr_text(d: &Value) -> Option<String> {
    Some(match ty(d) {
        "page" => "PAGE".into(),
        "numPages" => "NUMPAGES".into(),
        "pageref" => {
            let x = &d["data"];
            let f = |k: &str, s: &str| if x[k] == Value::Bool(true) { format!(" {s}") } else { String::new() };
            format!("PAGEREF {}{}{}", x["pageRef"].as_str()?, f("hyperlink", "\\h"), f("relativePosition", "\\p"))
        }
        // the entry is kept as it will be written
        "tc" => format!("TC \"{}\" \\l {}", unescape(d["data"]["text"].as_str()?), d["data"]["level"]),
        "hyperlink" => {
            let x = &d["data"];
            format!("HYPERLINK {}\"{}\"", if x["anchor"] == Value::Bool(true) { "\\l " } else { "" }, x["target"].as_str()?)
        }
        "unsupported" => d["data"].as_str()?.into(),
        _ => return None,
    })
}

fn tidy(v: &mut Value, pics: &BTreeMap<String, Value>, links: &BTreeMap<String, Value>) {
    match v {
        Value::Array(a) => {
            // a section ends with a paragraph of its own
            if a.iter().any(|x| ty(x) == "section") {
                for x in std::mem::take(a) {
                    if ty(&x) != "section" {
                        a.push(x);
                        continue;
                    }
                    a.extend(x["data"]["children"].as_array().cloned().unwrap_or_default());
                    a.push(json!({"type": "paragraph", "data": {"children": [], "property": {"runProperty": {}, "sectionProperty": x["data"]["property"], "tabs": []}}}));
                }
            }
            a.iter_mut().for_each(|x| tidy(x, pics, links));
            a.retain(|x| !(ty(x) == "text" && x["data"]["text"] == ""));
            // the writer marks the ends of comments with runs of their own
            a.retain(|x| !(ty(x) == "run" && x["data"]["children"].as_array().map(|c| c.is_empty()).unwrap_or(false)));
        }
        Value::Object(m) => {
            let t = m.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
            match t.as_str() {
                "instrText" => {
                    if let Some(s) = instr_text(&m["data"]) {
                        m.insert("type".into(), "instrTextString".into());
                        m.insert("data".into(), s.into());
                    }
                }
                "pic" => {
                    if let Some(d) = m.get_mut("data").and_then(|d| d.as_object_mut()) {
                        let b = match d.remove("image").and_then(|i| i.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect::<Vec<_>>())) {
                            Some(b) if !b.is_empty() => base64(&b).into(),
                            _ => d.get("id").and_then(|i| pics.get(i.as_str().unwrap_or(""))).cloned().unwrap_or(Value::Null),
                        };
                        d.remove("id");
                        // what only a floating picture stores
                        if d.get("positionType").and_then(|t| t.as_str()) == Some("inline") {
                            for k in ["allowOverlap", "layoutInCell", "relativeHeight"] {
                                d.remove(k);
                            }
                        }
                        d.insert("bytes".into(), format!("{:016x}", hash_bytes(b.as_str().unwrap_or("nothing").as_bytes())).into());
                    }
                }
                "hyperlink" => {
                    if let Some(d) = m.get_mut("data").and_then(|d| d.as_object_mut()) {
                        if let Some(r) = d.remove("rid") {
                            // the target of a new link is kept as it will be written
                            let own = d.get("path").and_then(|p| p.as_str()).filter(|p| !p.is_empty()).map(|p| unescape(p));
                            let p = match own {
                                Some(p) => p.into(),
                                None => links.get(r.as_str().unwrap_or("")).cloned().unwrap_or_default(),
                            };
                            d.insert("path".into(), p);
                        }
                        if d.get("history") == Some(&1.into()) {
                            d.remove("history");
                        }
                    }
                }
                // an empty paragraph ends every cell
                "tableCell" => {
                    if let Some(a) = m.get_mut("data").and_then(|d| d.get_mut("children")).and_then(|a| a.as_array_mut()) {
                        let n = a.len();
                        if n > 1 && ty(&a[n - 2]) == "table" && ty(&a[n - 1]) == "paragraph" && a[n - 1]["data"]["children"].as_array().map(|c| c.is_empty()).unwrap_or(false) {
                            a.pop();
                        }
                    }
                }
                _ => {}
            }
            for k in ["hasNumbering", "hasNumberings"] {
                m.remove(k);
            }
            // said by leaving it out
            for k in ["keepNext", "keepLines", "pageBreakBefore", "widowControl", "strike"] {
                if m.get(k) == Some(&Value::Bool(false)) {
                    m.remove(k);
                }
            }
            for k in ["start", "end"] {
                if m.get(k) == Some(&0.into()) && m.contains_key("specialIndent") {
                    m.insert(k.into(), Value::Null);
                }
            }
            // a table that is not indented
            if m.get("indent").map(|i| i["width"] == 0).unwrap_or(false) {
                m.insert("indent".into(), Value::Null);
            }
            if m.get("orient") == Some(&"portrait".into()) {
                m.insert("orient".into(), Value::Null);
            }
            // generated
            for k in ["id", "paragraphId", "parentParagraphId"] {
                if m.get(k).and_then(|s| s.as_str()).map(|s| s.len() == 8 && s.bytes().all(|b| b.is_ascii_hexdigit()) || s.starts_with("rId")).unwrap_or(false) {
                    m.remove(k);
                }
            }
            for k in ["header", "firstHeader", "evenHeader", "footer", "firstFooter", "evenFooter"] {
                if let Some(Value::Array(a)) = m.get_mut(k) {
                    if a.first().map(|i| i.is_string()).unwrap_or(false) {
                        a.remove(0);
                    }
                }
            }
            m.values_mut().for_each(|x| tidy(x, pics, links));
            m.retain(|_, x| !x.is_null());
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ text as the description has it

/// Blocks, their nesting, texts, tracked changes and bookmarks of a description.
fn outline(n: &Node, out: &mut Vec<String>) {
    let who = |t: &str| format!("{t} {} {}", n.str("author"), n.str("date"));
    let open = match n.t.as_str() {
        "text" | "delText" => {
            out.push(format!("{} {:?}", n.t, n.str("v")));
            return;
        }
        "tab" | "ptab" => {
            out.push(n.t.clone());
            return;
        }
        "bmS" => {
            out.push(format!("bookmark {} {}", n.i("id").unwrap_or(0), n.str("name")));
            return;
        }
        "bmE" => {
            out.push(format!("bookmark end {}", n.i("id").unwrap_or(0)));
            return;
        }
        "cmS" => {
            out.push(format!("comment {}", n.i("id").unwrap_or(0)));
            return;
        }
        "cmE" => {
            out.push(format!("comment end {}", n.i("id").unwrap_or(0)));
            return;
        }
        "ins" | "del" | "mvF" | "mvT" => who(&n.t),
        "p" | "tbl" | "tr" | "tc" | "sdt" => n.t.clone(),
        "r" | "link" => String::new(),
        "sect" => {
            n.c.iter().filter(|k| block(k)).for_each(|k| outline(k, out));
            out.push("(p".into());
            out.push(")".into());
            return;
        }
        "psect" => {
            out.push("(p".into());
            out.push(")".into());
            return;
        }
        _ => return,
    };
    if !open.is_empty() {
        out.push(format!("({open}"));
    }
    n.c.iter().for_each(|k| outline(k, out));
    if !open.is_empty() {
        close(out);
    }
}

fn close(out: &mut Vec<String>) {
    let n = out.len();
    // the writer may end a cell with an empty paragraph of its own
    if n > 2 && out[n - 2] == "(p" && out[n - 1] == ")" && (out[n - 3] == "(tc" || out[n - 3] == ") tbl") {
        out.truncate(n - 2);
    }
    let mut depth = 0;
    let at = out.iter().rposition(|s| {
        depth += if s.starts_with(')') { 1 } else if s.starts_with('(') { -1 } else { 0 };
        depth < 0
    });
    let what = at.map(|i| out[i] == "(tbl").unwrap_or(false);
    out.push(if what { ") tbl".into() } else { ")".into() });
}

/// The same of a stored part.
fn outline_xml(x: &crate::pkg::Xml, out: &mut Vec<String>) {
    let a = |k: &str| x.a(k).unwrap_or("").to_string();
    let who = |t: &str| format!("{t} {} {}", a("w:author"), a("w:date"));
    let open = match x.name.as_str() {
        "w:t" => {
            out.push(format!("text {:?}", x.inner_text()));
            return;
        }
        "w:delText" => {
            out.push(format!("delText {:?}", x.inner_text()));
            return;
        }
        "w:tab" => {
            out.push("tab".into());
            return;
        }
        "w:ptab" => {
            out.push("ptab".into());
            return;
        }
        "w:bookmarkStart" => {
            out.push(format!("bookmark {} {}", a("w:id"), a("w:name")));
            return;
        }
        "w:bookmarkEnd" => {
            out.push(format!("bookmark end {}", a("w:id")));
            return;
        }
        "w:commentRangeStart" => {
            out.push(format!("comment {}", a("w:id")));
            return;
        }
        "w:commentRangeEnd" => {
            out.push(format!("comment end {}", a("w:id")));
            return;
        }
        "w:ins" => who("ins"),
        "w:del" => who("del"),
        "w:moveFrom" => who("mvF"),
        "w:moveTo" => who("mvT"),
        "w:p" => "p".into(),
        "w:tbl" => "tbl".into(),
        "w:tr" => "tr".into(),
        "w:tc" => "tc".into(),
        "w:sdt" => "sdt".into(),
        "w:r" | "w:hyperlink" | "w:body" | "w:document" | "w:sdtContent" => String::new(),
        _ => return,
    };
    if !open.is_empty() {
        out.push(format!("({open}"));
    }
    x.kids.iter().for_each(|k| outline_xml(k, out));
    if !open.is_empty() {
        close(out);
    }
}

/// Compares a stored package with the description of what the program put into the document.
fn holds(bytes: &[u8], model: &[Node]) -> Result<(), String> {
    let p = Pkg::open(bytes).map_err(|e| format!("stored package: {e}"))?;
    let mut want = vec![];
    model.iter().filter(|k| block(k)).for_each(|k| outline(k, &mut want));
    let mut got = vec![];
    if let Some(x) = p.xml.get("word/document.xml") {
        outline_xml(x, &mut got);
    }
    if let Some(d) = story::compare(&want, &got) {
        return Err(format!("stored text: {d}"));
    }
    if let Some(d) = story::compare(&story::spec_doc(model), &story::pkg_doc(&p)) {
        return Err(format!("stored attachments: {d}"));
    }
    let want: BTreeMap<String, String> = model.iter().filter(|k| k.t == "prop").map(|k| (k.str("name"), k.str("v"))).collect();
    let got: BTreeMap<String, String> = p
        .xml
        .get("docProps/custom.xml")
        .map(|x| x.all("property").into_iter().map(|e| (e.a("name").unwrap_or("").to_string(), e.inner_text())).collect())
        .unwrap_or_default();
    if want != got {
        return Err(format!("stored custom properties: {got:?} instead of {want:?}"));
    }
    let lists = story::spec_lists(model);
    let have = story::pkg_lists(&p);
    for (k, v) in &lists {
        if have.get(k) != Some(v) {
            return Err(format!("stored list definitions: {k} uses {:?} instead of {v}", have.get(k)));
        }
    }
    Ok(())
}

fn block(k: &Node) -> bool {
    matches!(k.t.as_str(), "p" | "tbl" | "sdt" | "bmS" | "bmE" | "cmS" | "cmE" | "sect" | "psect")
}

/// The description as it is after a reload: sections are marked by the paragraphs that end them.
pub fn reloaded(model: &[Node]) -> Vec<Node> {
    let mut v = vec![];
    for k in model {
        if k.t != "sect" {
            v.push(k.clone());
            continue;
        }
        let (parts, blocks): (Vec<Node>, Vec<Node>) = k.c.iter().cloned().partition(|x| x.t == "header" || x.t == "footer");
        v.extend(blocks);
        v.push(Node::new("psect").kids(parts));
    }
    v
}

// ------------------------------------------------------------------ C18

fn gen_save(r: &mut Rng, calm: bool) -> Value {
    let mut v = json!({"op": "save", "path": r.below(2), "layer": *r.pick(&[0, 0, 700, 8192])});
    let m = v.as_object_mut().unwrap();
    if calm {
        return v;
    }
    match r.us(8) {
        0..=2 => {
            m.insert("faults".into(), gen_soft(r));
        }
        3 => {
            m.insert("faults".into(), json!([gen_hard(r)]));
            m.insert("restart".into(), r.permille(400).into());
        }
        4 | 5 => {
            let at = match r.us(10) {
                0..=3 => 1 << 20,
                4..=6 => -(r.range(1, 60)),
                _ => r.below(1 << 20) as i64,
            };
            m.insert("crash".into(), json!({"at": at, "torn": r.below(1 << 20)}));
            if r.permille(500) {
                m.insert("lose".into(), json!({"seed": r.below(1 << 40), "p": *r.pick(&[5, 50, 200, 500, 900]), "sector": 512, "size": r.permille(300), "junk": r.permille(200)}));
            }
        }
        _ => {}
    }
    v
}

fn c18_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 10]);
    let first = gen_doc(r, Vocab::Session, 0, blocks, false);
    let n = 2 + r.us(if c.thorough { 6 } else { 4 });
    let mut sessions = vec![];
    let mut salt = 0;
    for i in 0..n {
        let mut steps: Vec<Value> = vec![];
        if i == 0 {
            steps.extend(first.c.iter().map(|k| json!({"op": "add", "n": to_value(k)})));
        }
        let k = r.us(4);
        for _ in 0..k {
            salt += 1;
            let fresh = gen_doc(r, Vocab::Session, salt, 2, false);
            match r.us(8) {
                0 => steps.push(json!({"op": "del", "at": r.below(64)})),
                1 => steps.push(json!({"op": "swap", "at": r.below(64), "to": r.below(64)})),
                2 => steps.push(json!({"op": "text", "at": r.below(64), "v": format!("changed {} <&> {}", i, r.below(9))})),
                3 => steps.push(json!({"op": "prop", "n": to_value(&Node::new("prop").with("name", format!("prop{}", r.below(4))).with("v", format!("v{i} & w")))})),
                _ => {
                    let at = if r.permille(400) { Some(r.below(64)) } else { None };
                    for k in fresh.c {
                        let mut s = json!({"op": "add", "n": to_value(&k)});
                        if let Some(a) = at.filter(|_| matches!(k.t.as_str(), "p" | "tbl" | "sdt")) {
                            s["at"] = a.into();
                        }
                        steps.push(s);
                    }
                }
            }
            if r.permille(200) {
                steps.push(gen_save(r, c.calm));
            }
        }
        steps.push(gen_save(r, c.calm));
        sessions.push(json!({"hash": r.below(1 << 30), "clock": r.below(1 << 40), "previews": r.permille(500), "steps": steps}));
    }
    json!({"sessions": sessions})
}

/// One of the two files of the program, and what reading it may give.
#[derive(Clone, Default)]
struct Slot {
    bytes: Vec<u8>,
    content: Value,
    model: Vec<Node>,
    acknowledged: bool,
}

#[derive(Clone, Default)]
struct Disk {
    slots: [Option<Slot>; 2],
    newest: usize,
}

impl Disk {
    fn pack(&self) -> Value {
        let s: Vec<Value> = self
            .slots
            .iter()
            .map(|s| match s {
                Some(s) => json!({"content": s.content, "model": s.model.iter().map(to_value).collect::<Vec<_>>(), "ack": s.acknowledged, "len": s.bytes.len()}),
                None => Value::Null,
            })
            .collect();
        json!({"slots": s, "newest": self.newest})
    }
    fn bytes(&self) -> Vec<u8> {
        self.slots.iter().flatten().flat_map(|s| s.bytes.clone()).collect()
    }
    fn unpack(v: &Value, mut b: &[u8]) -> Disk {
        let mut d = Disk { newest: int(v, "newest", 0) as usize, ..Default::default() };
        for i in 0..2 {
            let s = &v["slots"][i];
            if s.is_null() {
                continue;
            }
            let n = int(s, "len", 0) as usize;
            let model = s["model"].as_array().into_iter().flatten().map(node_of).collect();
            d.slots[i] = Some(Slot { bytes: b[..n].to_vec(), content: s["content"].clone(), model, acknowledged: flag(s, "ack") });
            b = &b[n..];
        }
        d
    }
    /// The file the next save goes to: never the one that holds the acknowledged state.
    fn target(&self) -> usize {
        match &self.slots[self.newest] {
            Some(s) if s.acknowledged => 1 - self.newest,
            Some(_) => self.newest,
            None => 0,
        }
    }
}

/// Opens the newest file, or the other one when the newest is unreadable.
fn open(disk: &Disk, previews: bool, c: &mut Ctx) -> Result<Option<(Docx, Vec<Node>)>, String> {
    for i in [disk.newest, 1 - disk.newest] {
        let s = match &disk.slots[i] {
            Some(s) => s,
            None => continue,
        };
        match read(&s.bytes, previews) {
            Err(e) if s.acknowledged => return Err(format!("acknowledged save unreadable: {e}")),
            Err(_) => c.hit("unfinished file found unreadable"),
            Ok(_) if !s.acknowledged && torn_directory(&s.bytes) => c.hit("unfinished file with a torn directory skipped"),
            Ok(d) => {
                let e = content(&export(&d));
                if e != s.content {
                    let what = if s.acknowledged { "acknowledged content" } else { "content of an unfinished save" };
                    let d = differ(&e, &s.content);
                    let key = d.split(':').next().and_then(|p| p.rsplit('/').next()).unwrap_or("").to_string();
                    return Err(format!("{what} changed ({key}): {d}"));
                }
                c.hit(if s.acknowledged { "sessions that found the acknowledged content" } else { "sessions that found a finished save in flight" });
                return Ok(Some((d, reloaded(&s.model))));
            }
        }
    }
    Ok(None)
}

fn set_text(d: &mut Docx, at: usize, v: &str) -> bool {
    if let Some(DocumentChild::Paragraph(p)) = d.document.children.get_mut(at) {
        for k in p.children.iter_mut() {
            if let ParagraphChild::Run(r) = k {
                for t in r.children.iter_mut() {
                    if let RunChild::Text(t) = t {
                        t.text = v.to_string();
                        return true;
                    }
                }
            }
        }
    }
    false
}

fn set_model_text(n: &mut Node, v: &str) -> bool {
    if n.t != "p" {
        return false;
    }
    for r in n.c.iter_mut().filter(|k| k.t == "r") {
        if let Some(t) = r.c.iter_mut().find(|k| k.t == "text") {
            t.p.insert("v".into(), v.into());
            return true;
        }
    }
    false
}

/// Blocks that may be taken out without breaking what others refer to.
fn loose(n: &Node) -> bool {
    let mut ok = matches!(n.t.as_str(), "p" | "tbl" | "sdt");
    n.walk(&mut |k| ok &= !matches!(k.t.as_str(), "cmS" | "bmS" | "bmE") && !k.has("keep"));
    ok
}

fn step(mut d: Docx, model: &mut Vec<Node>, s: &Value, c: &mut Ctx) -> Result<Docx, String> {
    let places: Vec<usize> = (0..model.len()).filter(|&i| block(&model[i])).collect();
    let at = |k: &str, n: usize| if n == 0 { None } else { Some(int(s, k, 0).max(0) as usize % n) };
    match s["op"].as_str().unwrap_or("") {
        "add" | "prop" => {
            let n = node_of(&s["n"]);
            if n.t == "prop" || n.t == "header" || n.t == "footer" {
                model.retain(|k| !(k.t == n.t && k.p.get("name") == n.p.get("name") && k.i("kind") == n.i("kind")));
            }
            match at("at", places.len()).filter(|_| s.get("at").is_some() && block(&n)) {
                Some(i) => {
                    model.insert(places[i], n.clone());
                    d = node::apply(d, &n);
                    let k = d.document.children.pop().ok_or("no block added")?;
                    d.document.children.insert(i, k);
                    c.hit("blocks inserted");
                }
                None => {
                    d = node::apply(d, &n);
                    model.push(n);
                    c.hit("additions");
                }
            }
        }
        "del" => {
            if let Some(i) = at("at", places.len()).filter(|&i| loose(&model[places[i]])) {
                d.document.children.remove(i);
                model.remove(places[i]);
                c.hit("blocks removed");
            }
        }
        "swap" => {
            if let (Some(i), Some(j)) = (at("at", places.len()), at("to", places.len())) {
                if loose(&model[places[i]]) && loose(&model[places[j]]) {
                    d.document.children.swap(i, j);
                    model.swap(places[i], places[j]);
                    c.hit("blocks moved");
                }
            }
        }
        "text" => {
            if let Some(i) = at("at", places.len()) {
                let v = s["v"].as_str().unwrap_or("");
                let (a, b) = (set_text(&mut d, i, v), set_model_text(&mut model[places[i]], v));
                if a != b {
                    return Err(format!("loaded blocks: block {i} of the document is not block {i} of its description"));
                }
                if a {
                    c.hit("texts changed");
                }
            }
        }
        _ => {}
    }
    Ok(d)
}

/// A whole session; gives the disk it leaves.
fn session(disk: &Disk, v: &Value, c: &mut Ctx) -> Result<Disk, String> {
    simrt::os::set_hash_seed(int(v, "hash", 1) as u64);
    simrt::os::set_clock(int(v, "clock", 0));
    let mut disk = disk.clone();
    let (mut d, mut model) = match open(&disk, flag(v, "previews"), c)? {
        Some(x) => x,
        None => (Docx::new(), vec![]),
    };
    for s in v["steps"].as_array().into_iter().flatten() {
        if s["op"] != "save" {
            d = step(d, &mut model, s, c)?;
            continue;
        }
        let path = int(s, "path", 0);
        let fs = faults(&s["faults"]);
        let calls = match fs.is_empty() {
            true => 0,
            false => {
                let (r, s) = save_to(d.clone(), path, int(s, "layer", 0), Sink::new());
                r.map_err(|e| format!("save failed on a healthy destination: {e}"))?;
                s.calls
            }
        };
        let mut sink = Sink::new().plan(&fs, calls);
        sink.log = Some(vec![]);
        let (r, mut sink) = save_to(d.clone(), path, int(s, "layer", 0), sink);
        absorb(c, &sink);
        c.mark(sink.hash);
        let crashed = s.get("crash").is_some();
        let bytes = match crashed {
            true => crash_image(None, &sink.log.take().unwrap(), s, c),
            false => std::mem::take(&mut sink.img),
        };
        c.mark(hash_bytes(&bytes));
        c.seen(&bytes);
        let mut looked = d.clone();
        looked.json_with_update_comments();
        let e = content(&export(&looked));
        c.note(|| format!("save -> {:?}, {} bytes stored{}", r, bytes.len(), if crashed { ", crash" } else { "" }));
        if !crashed && r.is_ok() {
            holds(&bytes, &model)?;
            c.hit("acknowledged saves");
        } else {
            c.hit(if crashed { "saves cut short by a crash" } else { "saves that reported an error" });
        }
        if !crashed && r.is_err() && sink.errors == 0 && !gave_up(&sink) {
            return Err(format!("save failed on a healthy destination: {r:?}"));
        }
        let t = disk.target();
        disk.slots[t] = Some(Slot { bytes, content: e, model: model.clone(), acknowledged: !crashed && r.is_ok() });
        disk.newest = t;
        if crashed || r.is_err() && flag(s, "restart") {
            break;
        }
    }
    Ok(disk)
}

/// Runs a session in a process of its own; only the disk comes back.
fn process(disk: &Disk, v: &Value, c: &mut Ctx) -> Result<Disk, String> {
    let verbose = c.verbose;
    let b = counterfactual(|| {
        let mut k = Ctx { verbose, ..Default::default() };
        let d = session(disk, v, &mut k)?;
        let head = serde_json::to_vec(&json!({"disk": d.pack(), "counters": k.counters, "fp": k.fp, "digest": k.digest, "ns": k.sim_ns, "trace": k.trace})).unwrap();
        let mut o = (head.len() as u64).to_le_bytes().to_vec();
        o.extend(head);
        o.extend(d.bytes());
        Ok(o)
    })?;
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let head: Value = serde_json::from_slice(&b[8..8 + n]).map_err(|e| e.to_string())?;
    for (k, x) in head["counters"].as_object().into_iter().flatten() {
        c.count(k, x.as_u64().unwrap_or(0));
    }
    c.mark(head["fp"].as_u64().unwrap_or(0));
    c.seen(&head["digest"].as_u64().unwrap_or(0).to_le_bytes());
    c.sim_ns += head["ns"].as_u64().unwrap_or(0);
    for t in head["trace"].as_array().into_iter().flatten() {
        c.trace.push(t.as_str().unwrap_or("").into());
    }
    Ok(Disk::unpack(&head["disk"], &b[8 + n..]))
}

/// Comments are told apart by their ids, which the program chooses.
fn well_formed(sessions: &[Value]) -> bool {
    let mut ids = BTreeSet::new();
    let mut ok = true;
    for s in sessions.iter().flat_map(|s| s["steps"].as_array().into_iter().flatten()) {
        node_of(&s["n"]).walk(&mut |n| {
            if n.t == "cmS" {
                ok &= n.p.contains_key("author") && ids.insert(n.p.get("id").map(|i| i.to_string()));
            }
        });
    }
    ok
}

fn c18_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let mut disk = Disk::default();
    let sessions = v["sessions"].as_array().cloned().unwrap_or_default();
    c.count("sessions", sessions.len() as u64);
    if !well_formed(&sessions) {
        return Ok(());
    }
    for s in &sessions {
        c.note(|| "session starts".into());
        disk = process(&disk, s, c)?;
    }
    // one more restart: what was acknowledged last is found
    let last = json!({"hash": 7, "steps": []});
    process(&disk, &last, c)?;
    c.nontrivial = sessions.len() > 1 && disk.slots.iter().flatten().any(|s| s.acknowledged);
    Ok(())
}

// ------------------------------------------------------------------ C19

fn c19_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 10]);
    let src = if r.permille(150) && !fixtures().is_empty() {
        json!({"fixture": r.pick(fixtures()).clone()})
    } else {
        let mut d = gen_doc(r, Vocab::Full, 0, blocks, true);
        // lists of footnotes go with the footnotes, which are not read
        let nums: Vec<Value> = d.c.iter().filter(|k| k.t == "num").filter_map(|k| k.p.get("id").cloned()).collect();
        d.c.extend(nums.into_iter().map(|id| Node::new("p").with("pp", json!({"num": [id, 0]}))));
        json!({"doc": to_value(&d), "path": r.below(2)})
    };
    let n = 2 + r.us(if c.thorough { 8 } else { 4 });
    let cycles: Vec<Value> = (0..n)
        .map(|_| {
            let mut v = json!({"path": r.below(2), "layer": *r.pick(&[0, 0, 700, 8192]), "hash": r.below(1 << 30), "clock": r.below(1 << 40), "previews": r.permille(500), "fresh": r.permille(600), "look": r.permille(300)});
            let m = v.as_object_mut().unwrap();
            if !c.calm {
                match r.us(8) {
                    0..=2 => {
                        m.insert("faults".into(), gen_soft(r));
                    }
                    3 => {
                        m.insert("faults".into(), json!([gen_hard(r)]));
                    }
                    4 => {
                        m.insert("crash".into(), true.into());
                    }
                    _ => {}
                }
            }
            v
        })
        .collect();
    json!({"src": src, "cycles": cycles})
}

/// Everything an export says, up to generated identifiers; previews depend on the read options.
fn all_of(d: &Docx) -> Value {
    let mut v = canon_json(&export(d));
    for i in v["images"].as_array_mut().into_iter().flatten() {
        i[3] = Value::Null;
    }
    v
}

fn parts_of(b: &[u8]) -> Result<crate::canon::Canon, String> {
    crate::canon::canon(&crate::pkg::unzip(b).map_err(|e| format!("stored package: {e}"))?, crate::canon::Level::Process)
}

/// Opens and saves unchanged once.
fn cycle(b: &[u8], want: &Value, v: &Value, c: &mut Ctx) -> Result<Vec<u8>, String> {
    let path = int(v, "path", 0);
    let d = read(b, flag(v, "previews")).map_err(|e| format!("own output unreadable: {e}"))?;
    let e = all_of(&d);
    if e != *want {
        return Err(format!("content drifted: {}", differ(&e, want)));
    }
    let fs = faults(&v["faults"]);
    let mut calls = 0;
    if !fs.is_empty() {
        let (r, s) = save_to(d.clone(), path, int(v, "layer", 0), Sink::new());
        r.map_err(|e| format!("save failed on a healthy destination: {e}"))?;
        calls = s.calls;
    }
    if flag(v, "look") {
        d.json();
    }
    let (r, s) = save_to(d.clone(), path, int(v, "layer", 0), Sink::new().plan(&fs, calls));
    absorb(c, &s);
    c.mark(s.hash);
    let out = match r {
        Ok(()) => s.img,
        Err(e) if s.errors == 0 && !gave_up(&s) => return Err(format!("save failed on a healthy destination: {e}")),
        Err(_) => {
            c.hit("failed saves tried again");
            save_vec(d, path)?
        }
    };
    c.hit("cycles");
    c.mark(hash_bytes(&out));
    c.seen(&out);
    Ok(out)
}

/// Whether a package has a text box or a shape.
pub fn drawn(f: &str) -> bool {
    let es = std::fs::read(f).ok().and_then(|b| crate::pkg::unzip(&b).ok()).unwrap_or_default();
    es.iter().any(|e| {
        let s = String::from_utf8_lossy(&e.data);
        e.name.ends_with(".xml") && (s.contains("txbxContent") || s.contains("<v:shape"))
    })
}

/// Whether a comment answers one that is not in the document.
fn orphans(doc: &Node) -> bool {
    let (mut ids, mut parents) = (BTreeSet::new(), BTreeSet::new());
    doc.walk(&mut |n| {
        if n.t == "cmS" {
            ids.insert(n.i("id"));
            parents.extend(n.i("parent").map(Some));
        }
    });
    !parents.is_subset(&ids)
}

fn c19_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let src = &v["src"];
    let first = match src["fixture"].as_str() {
        Some(f) => {
            let b = match std::fs::read(f) {
                Ok(b) => b,
                Err(_) => return Ok(()),
            };
            c.hit("fixtures of other programs");
            counterfactual(|| save_vec(read(&b, true).map_err(|e| format!("fixture unreadable: {e}"))?, 0))
        }
        None => {
            let doc = node_of(&src["doc"]);
            if orphans(&doc) {
                return Ok(());
            }
            counterfactual(|| save_vec(build(&doc), int(src, "path", 0)))
        }
    };
    let mut b = match first {
        Ok(b) => b,
        Err(e) if e.contains("implemented") && src["fixture"].as_str().map(drawn).unwrap_or(false) => {
            return Err(format!("text boxes and shapes cannot be saved again: {e}"));
        }
        Err(e) => return Err(e),
    };
    let want = counterfactual(|| Ok(serde_json::to_vec(&all_of(&read(&b, true).map_err(|e| format!("own output unreadable: {e}"))?)).unwrap()))?;
    let want: Value = serde_json::from_slice(&want).map_err(|e| e.to_string())?;
    let cycles = v["cycles"].as_array().cloned().unwrap_or_default();
    let mut saved: Option<crate::canon::Canon> = None;
    let mut i = 0;
    while i < cycles.len() {
        // cycles of one process
        let mut j = i + 1;
        while j < cycles.len() && !flag(&cycles[j], "fresh") && !flag(&cycles[j - 1], "crash") {
            j += 1;
        }
        c.hit("processes");
        let crash = flag(&cycles[j - 1], "crash");
        let out = counterfactual(|| {
            let mut k = Ctx::default();
            let mut cur = b.clone();
            let mut before = vec![];
            simrt::os::set_hash_seed(int(&cycles[i], "hash", 1) as u64);
            simrt::os::set_clock(int(&cycles[i], "clock", 0));
            for x in &cycles[i..j] {
                before = std::mem::take(&mut cur);
                cur = cycle(&before, &want, x, &mut k)?;
            }
            // a crash takes the save in flight with it
            if crash {
                cur = before;
                k.hit("fault crash");
            }
            let head = serde_json::to_vec(&json!({"counters": k.counters, "fp": k.fp, "digest": k.digest, "ns": k.sim_ns})).unwrap();
            let mut o = (head.len() as u64).to_le_bytes().to_vec();
            o.extend(head);
            o.extend(cur);
            Ok(o)
        })?;
        let n = u64::from_le_bytes(out[..8].try_into().unwrap()) as usize;
        let head: Value = serde_json::from_slice(&out[8..8 + n]).map_err(|e| e.to_string())?;
        for (k, x) in head["counters"].as_object().into_iter().flatten() {
            c.count(k, x.as_u64().unwrap_or(0));
        }
        c.mark(head["fp"].as_u64().unwrap_or(0));
        c.seen(&head["digest"].as_u64().unwrap_or(0).to_le_bytes());
        c.sim_ns += head["ns"].as_u64().unwrap_or(0);
        let fresh = out[8 + n..] != b[..];
        b = out[8 + n..].to_vec();
        if fresh || j - i > 1 {
            let p = parts_of(&b)?;
            if let Some(w) = &saved {
                if let Some(d) = crate::canon::diff(&p, w) {
                    return Err(format!("stored parts drifted: {d}"));
                }
            }
            saved = Some(p);
        }
        i = j;
    }
    let e = counterfactual(|| Ok(serde_json::to_vec(&all_of(&read(&b, true).map_err(|e| format!("own output unreadable: {e}"))?)).unwrap()))?;
    let e: Value = serde_json::from_slice(&e).map_err(|e| e.to_string())?;
    if e != want {
        return Err(format!("content drifted: {}", differ(&e, &want)));
    }
    c.nontrivial = cycles.len() > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            gen: c18_gen,
            exec: c18_exec,
            runs: (5_000, 60_000),
            rule: "one run = a program with two files that it writes in turn, over two to six sessions of opening, editing and saving, each in a process of its own, with short, interrupted and failing writes and with crashes that tear or lose what was in flight; non-trivial = more than one session and an acknowledged save. Oracles: the content of the document in memory when its save was acknowledged (or was in flight) against what the next session opens; a description of all additions, insertions, moves, removals and text changes against an independent parse of every stored package.",
            measure: "hash of (fault traces, stored images)",
            real: REAL,
            stub: STUB,
            assumptions: &["the program never writes over the file that holds its last acknowledged state", "an acknowledged save is durable (the program syncs before it goes on)", "an unfinished file with a torn archive directory is not opened (known finding of C04)"],
            probes: &["sessions that found the acknowledged content", "sessions that found a finished save in flight", "unfinished file found unreadable", "saves that reported an error", "saves cut short by a crash", "blocks inserted", "blocks removed", "blocks moved", "texts changed"],
        },
        Prop {
            id: "C19",
            gen: c19_gen,
            exec: c19_exec,
            runs: (6_000, 80_000),
            rule: "one run = a stored document (generated, or one of the repository's own packages after its first save) opened and saved unchanged two to five times, in one or several processes, through either save path, with short, interrupted and failing writes and crashes that lose a save; non-trivial = at least two cycles. Oracle: the export of the first reload and the stored parts of the first re-save, up to generated identifiers.",
            measure: "hash of (fault traces, stored packages)",
            real: REAL,
            stub: STUB,
            assumptions: &["packages of other programs are measured from the library's own first save on"],
            probes: &["cycles", "processes", "fixtures of other programs", "failed saves tried again", "fault crash"],
        },
    ]
}
