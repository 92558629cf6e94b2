//! What a document description attaches and what a saved package resolves to, in the same form.
use crate::node::{pic_bytes, Node};
use crate::pkg::{Pkg, Xml};
use simrt::prng::hash_bytes;
use std::collections::BTreeMap;

fn texts(n: &Node, out: &mut String) {
    match n.t.as_str() {
        "text" | "delText" => out.push_str(&crate::node::fill(n)),
        "cmS" | "foot" => {}
        // the result of these fields is written as "1" until a word processor updates it
        "pageNum" | "numPages" => out.push('1'),
        _ => n.c.iter().for_each(|k| texts(k, out)),
    }
}

fn text_of(n: &Node) -> String {
    let mut s = String::new();
    texts(n, &mut s);
    s
}

fn bodies(n: &Node) -> String {
    n.c.iter().map(text_of).collect::<Vec<_>>().join("|")
}

fn part_text(n: &Node) -> String {
    let mut v = vec![];
    n.c.iter().for_each(|k| spec(k, &mut v));
    format!("{:?} {:?}", n.c.iter().map(text_of).collect::<String>(), v)
}

const KINDS: [&str; 3] = ["default", "first", "even"];

fn sect(parts: &BTreeMap<(String, i64), String>, out: &mut Vec<String>) {
    for ((t, k), s) in parts {
        out.push(format!("{t} {} {s}", KINDS[(*k % 3) as usize]));
    }
    out.push("section end".into());
}

/// Attachments below a node, in document order.
pub fn spec(n: &Node, out: &mut Vec<String>) {
    match n.t.as_str() {
        "link" if n.has("url") => out.push(format!("link {} {:?}", n.str("url"), text_of(n))),
        "pic" => out.push(format!("picture {:016x}", hash_bytes(&pic_bytes(n)))),
        "foot" => {
            out.push(format!("footnote {:?}", bodies(n)));
            return;
        }
        "cmS" => {
            out.push(format!("comment {} {} {:?}", n.i("id").unwrap_or(1), n.str("author"), bodies(n)));
            return;
        }
        "p" => {
            if let Some(a) = n.sub("pp").and_then(|d| d.p.get("num").cloned()) {
                out.push(format!("list {} {}", a[0], a[1]));
            }
        }
        "toc" => {
            for after in [false, true] {
                n.c.iter().filter(|k| (k.t == "p" || k.t == "tbl") && k.has("after") == after).for_each(|k| spec(k, out));
            }
            return;
        }
        "sect" | "psect" | "ends" => {
            let mut parts = BTreeMap::new();
            for k in &n.c {
                if k.t == "header" || k.t == "footer" {
                    parts.insert((k.t.clone(), k.i("kind").unwrap_or(0)), part_text(k));
                } else {
                    spec(k, out);
                }
            }
            sect(&parts, out);
            return;
        }
        _ => {}
    }
    n.c.iter().for_each(|k| spec(k, out));
}

/// Attachments of a whole document.
pub fn spec_doc(blocks: &[Node]) -> Vec<String> {
    let mut out = vec![];
    let mut parts = BTreeMap::new();
    for k in blocks {
        if k.t == "header" || k.t == "footer" {
            parts.insert((k.t.clone(), k.i("kind").unwrap_or(0)), part_text(k));
        } else {
            spec(k, &mut out);
        }
    }
    sect(&parts, &mut out);
    out
}

/// Which abstract definition each list uses, and its levels.
pub fn spec_lists(blocks: &[Node]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for k in blocks.iter().filter(|k| k.t == "num") {
        m.insert(k.i("id").unwrap_or(1).to_string(), k.i("abs").unwrap_or(1).to_string());
    }
    m
}

pub fn pkg_lists(p: &Pkg) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(x) = p.xml.get("word/numbering.xml") {
        for n in x.all("w:num") {
            let a = n.kid("w:abstractNumId").and_then(|a| a.a("w:val")).unwrap_or("");
            m.insert(n.a("w:numId").unwrap_or("").to_string(), a.to_string());
        }
    }
    m
}

fn bodies_of(x: &Xml) -> String {
    x.kids.iter().filter(|k| !k.name.is_empty()).map(|k| k.run_text()).collect::<Vec<_>>().join("|")
}

fn by_id(p: &Pkg, part: &str, el: &str, id: &str) -> Option<Xml> {
    p.xml.get(part)?.all(el).into_iter().find(|e| e.a("w:id") == Some(id)).cloned()
}

pub fn pkg(p: &Pkg, part: &str, x: &Xml, out: &mut Vec<String>) {
    let target = |id: &str| p.rels(part).get(id).cloned();
    match x.name.as_str() {
        "w:hyperlink" => {
            if let Some(id) = x.a("r:id") {
                let t = target(id).map(|t| t.1).unwrap_or_else(|| "nowhere".into());
                out.push(format!("link {t} {:?}", x.run_text()));
            }
        }
        "a:blip" => {
            let t = x.a("r:embed").and_then(target).map(|t| Pkg::resolve(part, &t.1)).unwrap_or_default();
            match p.bytes(&t) {
                Some(b) => out.push(format!("picture {:016x}", hash_bytes(b))),
                None => out.push("picture nowhere".into()),
            }
        }
        "w:footnoteReference" => match by_id(p, "word/footnotes.xml", "w:footnote", x.a("w:id").unwrap_or("")) {
            Some(f) => out.push(format!("footnote {:?}", bodies_of(&f))),
            None => out.push("footnote nowhere".into()),
        },
        "w:commentRangeStart" => {
            let id = x.a("w:id").unwrap_or("");
            match by_id(p, "word/comments.xml", "w:comment", id) {
                Some(f) => out.push(format!("comment {id} {} {:?}", f.a("w:author").unwrap_or(""), bodies_of(&f))),
                None => out.push(format!("comment {id} nowhere")),
            }
        }
        "w:numPr" => {
            let v = |k: &str| x.kid(k).and_then(|e| e.a("w:val")).unwrap_or("").to_string();
            out.push(format!("list {} {}", v("w:numId"), v("w:ilvl")));
        }
        "w:sectPr" => {
            let mut parts = BTreeMap::new();
            for k in &x.kids {
                let t = match k.name.as_str() {
                    "w:headerReference" => "header",
                    "w:footerReference" => "footer",
                    _ => continue,
                };
                let kind = KINDS.iter().position(|s| Some(*s) == k.a("w:type")).unwrap_or(9) as i64;
                let to = k.a("r:id").and_then(target).map(|t| Pkg::resolve(part, &t.1)).unwrap_or_default();
                let s = match p.xml.get(&to) {
                    Some(h) => {
                        let mut v = vec![];
                        h.kids.iter().for_each(|y| pkg(p, &to, y, &mut v));
                        format!("{:?} {:?}", h.run_text(), v)
                    }
                    None => "nowhere".into(),
                };
                if parts.insert((t.to_string(), kind), s).is_some() {
                    out.push(format!("two {t}s of one kind"));
                }
            }
            sect(&parts, out);
            return;
        }
        _ => {}
    }
    x.kids.iter().for_each(|k| pkg(p, part, k, out));
}

pub fn pkg_doc(p: &Pkg) -> Vec<String> {
    let mut out = vec![];
    if let Some(x) = p.xml.get("word/document.xml") {
        pkg(p, "word/document.xml", x, &mut out);
    }
    out
}

/// First difference between what was attached and what the package resolves to.
pub fn compare(want: &[String], got: &[String]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let s = |v: &[String]| v.get(i).map(|s| s.chars().take(300).collect::<String>()).unwrap_or_else(|| "nothing".into());
    Some(format!("item {i} is {} instead of {}", s(got), s(want)))
}
