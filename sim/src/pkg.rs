//! Independent reading of a saved package: archive entries, a small XML parser, and the
//! reference graph between parts. Nothing here uses the library under test.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
}

pub fn unzip(bytes: &[u8]) -> Result<Vec<Entry>, String> {
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(bytes)).map_err(|e| format!("archive: {e}"))?;
    let mut out = vec![];
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| format!("entry {i}: {e}"))?;
        let mut data = vec![];
        f.read_to_end(&mut data).map_err(|e| format!("entry {}: {e}", f.name()))?;
        out.push(Entry { name: f.name().to_string(), data });
    }
    Ok(out)
}

/// Writes entries as a plain archive (used to store parts with right checksums).
pub fn rezip(entries: &[Entry], deflate: bool) -> Vec<u8> {
    use std::io::Write;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o = zip::write::SimpleFileOptions::default().compression_method(if deflate {
        zip::CompressionMethod::Deflated
    } else {
        zip::CompressionMethod::Stored
    });
    let mut seen = BTreeSet::new();
    for e in entries {
        if !seen.insert(e.name.clone()) {
            continue;
        }
        if e.name.ends_with('/') {
            z.add_directory(e.name.as_str(), o).unwrap();
        } else {
            z.start_file(e.name.as_str(), o).unwrap();
            z.write_all(&e.data).unwrap();
        }
    }
    z.finish().unwrap().into_inner()
}

/// Byte range of every entry's stored (possibly compressed) data.
pub fn data_ranges(bytes: &[u8]) -> Vec<(String, usize, usize)> {
    let mut out = vec![];
    if let Ok(mut z) = zip::ZipArchive::new(std::io::Cursor::new(bytes)) {
        for i in 0..z.len() {
            if let Ok(f) = z.by_index_raw(i) {
                if let Some(s) = f.data_start() {
                    out.push((f.name().to_string(), s as usize, s as usize + f.compressed_size() as usize));
                }
            }
        }
    }
    out
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Xml {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Xml>,
    /// Text nodes have an empty name.
    pub text: String,
}

impl Xml {
    pub fn a(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Xml)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn all<'a>(&'a self, name: &str) -> Vec<&'a Xml> {
        let mut v = vec![];
        self.walk(&mut |x| {
            if x.name == name {
                v.push(x)
            }
        });
        v
    }
    pub fn kid(&self, name: &str) -> Option<&Xml> {
        self.kids.iter().find(|k| k.name == name)
    }
    pub fn inner_text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |x| s.push_str(&x.text));
        s
    }
    /// Text of w:t and w:delText below this element.
    pub fn run_text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |x| {
            if x.name == "w:t" || x.name == "w:delText" {
                s.push_str(&x.inner_text());
            }
        });
        s
    }
}

fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        r = &r[i..];
        let e = r.find(';').ok_or_else(|| format!("bare & in {s:?}"))?;
        let name = &r[1..e];
        match name {
            "amp" => o.push('&'),
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ if name.starts_with("#x") => o.push(
                u32::from_str_radix(&name[2..], 16).ok().and_then(char::from_u32).ok_or_else(|| format!("bad reference {name}"))?,
            ),
            _ if name.starts_with('#') => {
                o.push(name[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or_else(|| format!("bad reference {name}"))?)
            }
            _ => return Err(format!("unknown entity &{name};")),
        }
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}

/// Parses a whole part. Errors on anything that is not well-formed (for the constructs the
/// library emits: declaration, elements, attributes, text).
pub fn parse(data: &[u8]) -> Result<Xml, String> {
    let s = std::str::from_utf8(data).map_err(|e| format!("utf-8: {e}"))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Xml> = vec![];
    let mut root: Option<Xml> = None;
    while i < b.len() {
        if b[i] != b'<' {
            let j = s[i..].find('<').map(|k| i + k).unwrap_or(b.len());
            let raw = &s[i..j];
            if let Some(top) = stack.last_mut() {
                if raw.contains("]]>") {
                    return Err("]]> in text".into());
                }
                let t = unescape(raw)?;
                top.kids.push(Xml { text: t, ..Default::default() });
            } else if !raw.trim().is_empty() {
                return Err("text outside the root element".into());
            }
            i = j;
            continue;
        }
        if s[i..].starts_with("<?") {
            i = i + s[i..].find("?>").ok_or("unterminated declaration")? + 2;
            continue;
        }
        if s[i..].starts_with("<!--") {
            i = i + s[i..].find("-->").ok_or("unterminated comment")? + 3;
            continue;
        }
        if s[i..].starts_with("</") {
            let j = i + s[i..].find('>').ok_or("unterminated end tag")?;
            let name = s[i + 2..j].trim();
            let e = stack.pop().ok_or("unexpected end tag")?;
            if e.name != name {
                return Err(format!("end tag {name} closes {}", e.name));
            }
            match stack.last_mut() {
                Some(p) => p.kids.push(e),
                None => {
                    if root.is_some() {
                        return Err("two root elements".into());
                    }
                    root = Some(e)
                }
            }
            i = j + 1;
            continue;
        }
        // start tag
        let mut j = i + 1;
        while j < b.len() && !b[j].is_ascii_whitespace() && b[j] != b'>' && b[j] != b'/' {
            j += 1;
        }
        let mut e = Xml { name: s[i + 1..j].to_string(), ..Default::default() };
        if e.name.is_empty() {
            return Err("empty element name".into());
        }
        let mut empty = false;
        loop {
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            if j >= b.len() {
                return Err("unterminated start tag".into());
            }
            if b[j] == b'>' {
                j += 1;
                break;
            }
            if b[j] == b'/' {
                if b.get(j + 1) != Some(&b'>') {
                    return Err("stray /".into());
                }
                empty = true;
                j += 2;
                break;
            }
            let k = j;
            while j < b.len() && b[j] != b'=' && b[j] != b'>' {
                j += 1;
            }
            let an = s[k..j].trim().to_string();
            if j >= b.len() || b[j] != b'=' || an.is_empty() || an.contains(|c: char| c.is_whitespace() || c == '"' || c == '<') {
                return Err(format!("bad attribute in {}", e.name));
            }
            j += 1;
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            let q = *b.get(j).ok_or("unterminated attribute")?;
            if q != b'"' && q != b'\'' {
                return Err(format!("unquoted attribute {an}"));
            }
            let k = j + 1;
            let end = s[k..].find(q as char).ok_or("unterminated attribute")? + k;
            let raw = &s[k..end];
            if raw.contains('<') {
                return Err(format!("< in attribute {an}"));
            }
            if e.attrs.iter().any(|x| x.0 == an) {
                return Err(format!("duplicate attribute {an}"));
            }
            let v = unescape(raw)?;
            e.attrs.push((an, v));
            j = end + 1;
        }
        i = j;
        if empty {
            match stack.last_mut() {
                Some(p) => p.kids.push(e),
                None => {
                    if root.is_some() {
                        return Err("two root elements".into());
                    }
                    root = Some(e)
                }
            }
        } else {
            stack.push(e);
        }
    }
    if let Some(e) = stack.last() {
        return Err(format!("element {} is not closed", e.name));
    }
    root.ok_or_else(|| "no root element".into())
}

/// A parsed package.
pub struct Pkg {
    pub entries: Vec<Entry>,
    pub xml: BTreeMap<String, Xml>,
}

impl Pkg {
    pub fn open(bytes: &[u8]) -> Result<Pkg, String> {
        let entries = unzip(bytes)?;
        let mut xml = BTreeMap::new();
        for e in &entries {
            if e.name.ends_with(".xml") || e.name.ends_with(".rels") {
                let x = parse(&e.data).map_err(|m| format!("{}: {}", e.name, m))?;
                xml.insert(e.name.clone(), x);
            }
        }
        Ok(Pkg { entries, xml })
    }
    pub fn bytes(&self, name: &str) -> Option<&[u8]> {
        self.entries.iter().find(|e| e.name == name).map(|e| e.data.as_slice())
    }
    /// Relationships of a part: id -> (type suffix, target, external).
    pub fn rels(&self, part: &str) -> BTreeMap<String, (String, String, bool)> {
        let (dir, file) = match part.rfind('/') {
            Some(i) => (&part[..i + 1], &part[i + 1..]),
            None => ("", part),
        };
        let mut m = BTreeMap::new();
        if let Some(x) = self.xml.get(&format!("{dir}_rels/{file}.rels")) {
            for r in x.all("Relationship") {
                let ty = r.a("Type").unwrap_or("");
                m.insert(
                    r.a("Id").unwrap_or("").to_string(),
                    (
                        ty.rsplit('/').next().unwrap_or("").to_string(),
                        r.a("Target").unwrap_or("").to_string(),
                        r.a("TargetMode") == Some("External"),
                    ),
                );
            }
        }
        m
    }
    /// Archive name of an internal relationship target.
    pub fn resolve(part: &str, target: &str) -> String {
        if let Some(t) = target.strip_prefix('/') {
            return t.to_string();
        }
        let mut dir: Vec<&str> = part.split('/').collect();
        dir.pop();
        for seg in target.split('/') {
            match seg {
                ".." => {
                    dir.pop();
                }
                "." | "" => {}
                s => dir.push(s),
            }
        }
        dir.join("/")
    }
}

/// The part a relationships entry belongs to.
fn owner(rels: &str) -> Option<String> {
    let s = rels.strip_suffix(".rels")?;
    let i = s.find("_rels/")?;
    Some(format!("{}{}", &s[..i], &s[i + 6..]))
}

/// Structural closure of a package. Returns the list of broken references.
pub fn closure(p: &Pkg) -> Vec<String> {
    let mut bad = vec![];
    let names: BTreeSet<&str> = p.entries.iter().map(|e| e.name.as_str()).collect();
    if names.len() != p.entries.len() {
        bad.push("duplicate entry names".into());
    }
    // relationships
    for (name, x) in &p.xml {
        if !name.ends_with(".rels") {
            continue;
        }
        let own = owner(name).unwrap_or_default();
        if !own.is_empty() && !names.contains(own.as_str()) {
            bad.push(format!("{name}: belongs to no part"));
        }
        let mut ids = BTreeSet::new();
        for r in x.all("Relationship") {
            let id = r.a("Id").unwrap_or("");
            if id.is_empty() || !ids.insert(id) {
                bad.push(format!("{name}: relationship id {id:?} is not unique"));
            }
            let target = r.a("Target").unwrap_or("");
            if r.a("TargetMode") == Some("External") {
                continue;
            }
            let t = Pkg::resolve(&own, target);
            if !names.contains(t.as_str()) {
                bad.push(format!("{name}: target {target:?} of {id} does not exist"));
            }
        }
    }
    // relationship ids used by parts
    for (name, x) in &p.xml {
        if name.ends_with(".rels") {
            continue;
        }
        let rels = p.rels(name);
        x.walk(&mut |e| {
            for (k, v) in &e.attrs {
                if matches!(k.as_str(), "r:id" | "r:embed" | "r:link") {
                    match rels.get(v) {
                        None => bad.push(format!("{name}: {} refers to undeclared relationship {v:?}", e.name)),
                        Some((ty, _, _)) => {
                            let want = match e.name.as_str() {
                                "w:hyperlink" => "hyperlink",
                                "a:blip" => "image",
                                "w:headerReference" => "header",
                                "w:footerReference" => "footer",
                                _ => "",
                            };
                            if !want.is_empty() && ty != want {
                                bad.push(format!("{name}: {} refers to a relationship of type {ty}", e.name));
                            }
                        }
                    }
                }
            }
        });
    }
    // content types
    if let Some(ct) = p.xml.get("[Content_Types].xml") {
        let mut defaults = BTreeSet::new();
        let mut overrides = BTreeSet::new();
        for e in ct.all("Default") {
            defaults.insert(e.a("Extension").unwrap_or("").to_ascii_lowercase());
        }
        for e in ct.all("Override") {
            let n = e.a("PartName").unwrap_or("");
            if !overrides.insert(n.to_string()) {
                bad.push(format!("content type of {n} declared twice"));
            }
        }
        for n in &names {
            if n.ends_with('/') || *n == "[Content_Types].xml" {
                continue;
            }
            let ext = n.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
            if !defaults.contains(&ext) && !overrides.contains(&format!("/{n}")) {
                bad.push(format!("{n} has no content type"));
            }
        }
        for (prefix, kind) in [("word/header", "header"), ("word/footer", "footer"), ("word/footnotes", "footnotes"), ("word/comments.xml", "comments")] {
            for n in &names {
                if n.starts_with(prefix) && n.ends_with(".xml") && !overrides.contains(&format!("/{n}")) && kind != "footnotes" {
                    bad.push(format!("{n} is not declared as a {kind} part"));
                }
            }
        }
        if let Some(x) = p.xml.get("word/footnotes.xml") {
            if !x.all("w:footnote").is_empty() && !overrides.contains("/word/footnotes.xml") {
                bad.push("footnotes are not declared as a part".into());
            }
        }
        for o in &overrides {
            let t = o.trim_start_matches('/');
            // fixed declarations the library always writes for parts it may omit are tolerated by
            // consumers; declarations of numbered parts must match a part
            let numbered = t.chars().any(|c| c.is_ascii_digit());
            if numbered && !names.contains(t) {
                bad.push(format!("content type declared for missing part {t}"));
            }
        }
    } else {
        bad.push("no content types".into());
    }
    // comments, footnotes, numbering
    let ids = |part: &str, el: &str, at: &str| -> Vec<String> {
        p.xml.get(part).map(|x| x.all(el).iter().filter_map(|e| e.a(at).map(|s| s.to_string())).collect()).unwrap_or_default()
    };
    let dup = |v: &[String]| -> Option<String> {
        let mut s = BTreeSet::new();
        v.iter().find(|x| !s.insert((*x).clone())).cloned()
    };
    let doc_rels = p.rels("word/document.xml");
    let has_rel = |ty: &str| doc_rels.values().any(|r| r.0 == ty);
    let comments = ids("word/comments.xml", "w:comment", "w:id");
    if let Some(d) = dup(&comments) {
        bad.push(format!("comment {d} is stored twice"));
    }
    let foot = ids("word/footnotes.xml", "w:footnote", "w:id");
    if let Some(d) = dup(&foot) {
        bad.push(format!("footnote {d} is stored twice"));
    }
    let nums = ids("word/numbering.xml", "w:num", "w:numId");
    let abs = ids("word/numbering.xml", "w:abstractNum", "w:abstractNumId");
    if let Some(d) = dup(&nums) {
        bad.push(format!("numbering {d} is defined twice"));
    }
    if let Some(d) = dup(&abs) {
        bad.push(format!("abstract numbering {d} is defined twice"));
    }
    if let Some(x) = p.xml.get("word/numbering.xml") {
        for n in x.all("w:num") {
            if let Some(a) = n.kid("w:abstractNumId").and_then(|a| a.a("w:val")) {
                if !abs.iter().any(|x| x == a) {
                    bad.push(format!("numbering refers to missing abstract numbering {a}"));
                }
            }
        }
    }
    let mut starts = BTreeSet::new();
    for (name, x) in &p.xml {
        if name.ends_with(".rels") {
            continue;
        }
        let story = name.starts_with("word/document") || name.starts_with("word/header") || name.starts_with("word/footer") || name.starts_with("word/footnotes");
        if story {
            for e in x.all("w:commentRangeStart").iter().chain(x.all("w:commentReference").iter()) {
                let id = e.a("w:id").unwrap_or("");
                if e.name == "w:commentRangeStart" && !starts.insert(id.to_string()) {
                    bad.push(format!("{name}: comment range {id} starts twice"));
                }
                if !comments.iter().any(|c| c == id) {
                    bad.push(format!("{name}: comment {id} is not stored"));
                }
            }
        }
        for e in x.all("w:footnoteReference") {
            let id = e.a("w:id").unwrap_or("");
            if !foot.iter().any(|c| c == id) {
                bad.push(format!("{name}: footnote {id} is not stored"));
            }
        }
        if story || name == "word/comments.xml" || name == "word/styles.xml" {
            for e in x.all("w:numId") {
                let id = e.a("w:val").unwrap_or("");
                if id == "0" {
                    continue;
                }
                if !nums.iter().any(|c| c == id) {
                    bad.push(format!("{name}: numbering {id} is not defined"));
                }
                if !has_rel("numbering") {
                    bad.push(format!("{name}: numbering is used but not related to the document"));
                }
            }
        }
    }
    if !comments.is_empty() && !has_rel("comments") {
        bad.push("comments are stored but not related to the document".into());
    }
    if !foot.is_empty() && !has_rel("footnotes") {
        bad.push("footnotes are stored but not related to the document".into());
    }
    // footnote references are used once each
    if let Some(x) = p.xml.get("word/document.xml") {
        let refs: Vec<String> = x.all("w:footnoteReference").iter().filter_map(|e| e.a("w:id").map(|s| s.to_string())).collect();
        if let Some(d) = dup(&refs) {
            bad.push(format!("footnote {d} is referenced twice"));
        }
    }
    bad.sort();
    bad.dedup();
    bad
}

/// All paragraph ids, in archive order, with the part they are in.
pub fn para_ids(p: &Pkg) -> Vec<(String, Option<String>)> {
    let mut v = vec![];
    for e in &p.entries {
        if !e.name.starts_with("word/") {
            continue;
        }
        if let Some(x) = p.xml.get(&e.name) {
            for q in x.all("w:p") {
                v.push((e.name.clone(), q.a("w14:paraId").map(|s| s.to_string())));
            }
        }
    }
    v
}
