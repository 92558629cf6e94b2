//! Comparison of packages up to a consistent renaming of generated identifiers.
use crate::pkg::{parse, Entry, Xml};
use std::collections::BTreeMap;

/// Which identifiers count as generated.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Level {
    /// Ids drawn while saving: revision marks, table-of-contents bookmarks.
    Save,
    /// Also ids drawn when elements are created: links, pictures, footnotes, paragraph ids.
    Process,
}

struct Names {
    level: Level,
    map: BTreeMap<(&'static str, String), usize>,
    count: BTreeMap<&'static str, usize>,
    /// bookmark ids whose start carried a generated name
    toc_marks: BTreeMap<String, ()>,
}

impl Names {
    fn get(&mut self, kind: &'static str, v: &str) -> String {
        if let Some(i) = self.map.get(&(kind, v.to_string())) {
            return format!("{kind}#{i}");
        }
        let c = self.count.entry(kind).or_insert(0);
        *c += 1;
        self.map.insert((kind, v.to_string()), *c);
        format!("{kind}#{c}")
    }
}

fn toc_key(v: &str) -> bool {
    v.starts_with("_Toc") && v.len() == 12 && v[4..].bytes().all(|b| b.is_ascii_digit())
}

fn replace_toc(v: &str, n: &mut Names) -> String {
    let mut out = String::new();
    let mut r = v;
    while let Some(i) = r.find("_Toc") {
        out.push_str(&r[..i]);
        let digits = r[i + 4..].bytes().take_while(|b| b.is_ascii_digit()).count();
        let end = i + 4 + digits;
        if digits == 8 && !r[i..].starts_with("_Toc9") {
            out.push_str(&n.get("toc", &r[i..end]));
        } else {
            out.push_str(&r[i..end]);
        }
        r = &r[end..];
    }
    out.push_str(r);
    out
}

fn media(v: &str, n: &mut Names) -> String {
    if let Some(i) = v.find("media/") {
        let file = &v[i + 6..];
        let stem = file.strip_suffix(".png").unwrap_or(file);
        if !stem.is_empty() {
            return format!("{}media/{}.png", &v[..i], n.get("img", stem));
        }
    }
    v.to_string()
}

/// Generated relationship ids, with whatever is written in front of them in headers and footers.
fn rid(v: &str, n: &mut Names) -> String {
    for (mark, space) in [("rIdHyperlink", "link"), ("rIdImage", "img")] {
        if let Some(i) = v.find(mark) {
            return format!("{}{}", &v[..i], n.get(space, &v[i..]));
        }
    }
    v.to_string()
}

fn walk(x: &mut Xml, n: &mut Names) {
    let name = x.name.clone();
    let toc_start = name == "w:bookmarkStart" && x.a("w:name").map(|v| toc_key(v) && !v.starts_with("_Toc9")).unwrap_or(false);
    let end_of_toc = name == "w:bookmarkEnd" && x.a("w:id").map(|v| n.toc_marks.contains_key(v)).unwrap_or(false);
    let id = x.a("w:id").map(|s| s.to_string());
    if toc_start {
        if let Some(i) = &id {
            n.toc_marks.insert(i.clone(), ());
        }
    }
    for (k, v) in x.attrs.iter_mut() {
        match (name.as_str(), k.as_str()) {
            ("w:ins" | "w:del" | "w:moveFrom" | "w:moveTo", "w:id") => *v = n.get("rev", v),
            ("w:pPrChange" | "w:rPrChange", "w:id") => *v = n.get("change", v),
            ("w:bookmarkStart", "w:id") if toc_start => *v = n.get("mark", v),
            ("w:bookmarkEnd", "w:id") if end_of_toc => *v = n.get("mark", v),
            ("w:bookmarkStart", "w:name") | ("w:hyperlink", "w:anchor") => *v = replace_toc(v, n),
            _ if n.level == Level::Save => {}
            (_, "w14:paraId" | "w15:paraId" | "w15:paraIdParent" | "w14:textId") => *v = n.get("para", v),
            (_, "r:id" | "r:embed") | ("Relationship", "Id") => *v = rid(v, n),
            ("Relationship", "Target") => *v = media(v, n),
            ("w:footnote" | "w:footnoteReference", "w:id") => *v = n.get("foot", v),
            _ => {}
        }
    }
    if !x.text.is_empty() {
        let t = replace_toc(&x.text, n);
        x.text = t;
    }
    for k in x.kids.iter_mut() {
        walk(k, n);
    }
    if name == "Relationships" && n.level == Level::Process {
        x.kids.sort_by(|a, b| (a.a("Type"), a.a("Id"), a.a("Target")).cmp(&(b.a("Type"), b.a("Id"), b.a("Target"))));
    }
}

fn dump(x: &Xml, out: &mut String) {
    if x.name.is_empty() {
        out.push_str(&format!("{:?}", x.text));
        return;
    }
    out.push('<');
    out.push_str(&x.name);
    for (k, v) in &x.attrs {
        out.push_str(&format!(" {k}={v:?}"));
    }
    out.push('>');
    for k in &x.kids {
        dump(k, out);
    }
    out.push_str("</>");
}

fn rank(name: &str) -> usize {
    if name == "word/document.xml" {
        0
    } else if name.starts_with("word/header") {
        1
    } else if name.starts_with("word/footer") {
        2
    } else if name == "word/footnotes.xml" {
        3
    } else if name == "word/comments.xml" {
        4
    } else {
        5
    }
}

/// A package as a list of (entry name, canonical content).
pub type Canon = Vec<(String, String)>;

pub fn canon(entries: &[Entry], level: Level) -> Result<Canon, String> {
    let mut n = Names { level, map: BTreeMap::new(), count: BTreeMap::new(), toc_marks: BTreeMap::new() };
    let mut order: Vec<usize> = (0..entries.len()).collect();
    order.sort_by_key(|&i| (rank(&entries[i].name), i));
    let mut out: Vec<(usize, (String, String))> = vec![];
    let mut blobs = vec![];
    for i in order {
        let e = &entries[i];
        if e.name.ends_with(".xml") || e.name.ends_with(".rels") {
            let mut x = parse(&e.data).map_err(|m| format!("{}: {}", e.name, m))?;
            walk(&mut x, &mut n);
            let mut s = String::new();
            dump(&x, &mut s);
            out.push((i, (e.name.clone(), s)));
        } else {
            blobs.push(i);
        }
    }
    for i in blobs {
        let e = &entries[i];
        let name = if level == Level::Process { media(&e.name, &mut n) } else { e.name.clone() };
        out.push((i, (name, format!("{:016x}:{}", simrt::prng::hash_bytes(&e.data), e.data.len()))));
    }
    out.sort();
    let mut c: Canon = out.into_iter().map(|x| x.1).collect();
    if level == Level::Process {
        c.sort();
    }
    Ok(c)
}

/// First difference of two canonical packages, as text.
pub fn diff(a: &Canon, b: &Canon) -> Option<String> {
    if a == b {
        return None;
    }
    let na: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
    let nb: Vec<&str> = b.iter().map(|x| x.0.as_str()).collect();
    if na != nb {
        return Some(format!("entries differ: {na:?} instead of {nb:?}"));
    }
    for (x, y) in a.iter().zip(b) {
        if x.1 != y.1 {
            let i = x.1.bytes().zip(y.1.bytes()).take_while(|(p, q)| p == q).count();
            return Some(format!("{} differs: …{} instead of …{}", x.0, cut(&x.1, i), cut(&y.1, i)));
        }
    }
    Some("differ".into())
}

pub fn cut(s: &str, i: usize) -> String {
    let mut a = i.saturating_sub(60).min(s.len());
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = (i + 100).min(s.len());
    while !s.is_char_boundary(b) {
        b += 1;
    }
    s[a..b].to_string()
}

/// An export up to a consistent renaming of generated identifiers.
pub fn canon_json(v: &serde_json::Value) -> serde_json::Value {
    let mut n = Names { level: Level::Process, map: BTreeMap::new(), count: BTreeMap::new(), toc_marks: BTreeMap::new() };
    let mut v = v.clone();
    // pictures and links are listed by id; the order follows the numbers in the ids
    let by = |v: &mut serde_json::Value, k: &str, f: &dyn Fn(&serde_json::Value) -> String| {
        if let Some(a) = v.get_mut(k).and_then(|a| a.as_array_mut()) {
            a.sort_by_key(|x| f(x));
        }
    };
    by(&mut v, "images", &|x| x[2].to_string());
    by(&mut v, "hyperlinks", &|x| x[1].to_string());
    walk_json(&mut v, &mut n);
    // copies of one picture are listed in the order of their file names, which no content depends on
    for x in v["images"].as_array_mut().into_iter().flatten() {
        if let Some((stem, _)) = x[1].as_str().and_then(|s| s.split_once('#')) {
            x[1] = stem.to_string().into();
        }
    }
    by(&mut v, "images", &|x| x.to_string());
    by(&mut v, "hyperlinks", &|x| x.to_string());
    v
}

fn walk_json(v: &mut serde_json::Value, n: &mut Names) {
    use serde_json::Value;
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| walk_json(x, n)),
        Value::Object(m) => {
            let kind = m.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
            let foot = kind == "footnoteReference";
            for (k, x) in m.iter_mut() {
                match x {
                    Value::String(s) if matches!(k.as_str(), "id" | "paragraphId" | "parentParagraphId") && s.len() == 8 && s.bytes().all(|b| b.is_ascii_hexdigit()) => {
                        *s = n.get("para", s)
                    }
                    Value::Object(d) if foot && k == "data" => {
                        if let Some(i) = d.get("id").and_then(|i| i.as_u64()) {
                            d.insert("id".into(), n.get("foot", &i.to_string()).into());
                        }
                        walk_json(x, n)
                    }
                    Value::Object(d) if k == "data" && kind.starts_with("bookmark") => {
                        let id = d.get("id").map(|i| i.to_string()).unwrap_or_default();
                        if d.get("name").and_then(|v| v.as_str()).is_some_and(|v| toc_key(v) && !v.starts_with("_Toc9")) {
                            n.toc_marks.insert(id.clone(), ());
                        }
                        if n.toc_marks.contains_key(&id) {
                            d.insert("id".into(), n.get("mark", &id).into());
                        }
                        walk_json(x, n)
                    }
                    _ => walk_json(x, n),
                }
            }
        }
        Value::String(s) => {
            if s.contains("media/rIdImage") {
                *s = media(s, n);
            } else if s.contains("rIdHyperlink") || s.contains("rIdImage") {
                *s = rid(s, n);
            } else if s.contains("_Toc") {
                *s = replace_toc(s, n);
            }
        }
        _ => {}
    }
}
