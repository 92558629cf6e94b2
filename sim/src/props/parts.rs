//! Streaming single parts and elements to a faulty writer: C10.
use super::*;
use crate::faults::{faults, gen_hard, gen_soft};
use crate::runner::{counterfactual, Cfg};
use docx_rs::xml::writer::EmitterConfig;
use docx_rs::*;
use serde_json::json;
use simrt::prng::hash_bytes;

trait Part {
    fn mem(&self) -> Vec<u8>;
    fn put(&self, s: &mut Sink) -> Result<(), String>;
}

impl<T: BuildXML> Part for T {
    fn mem(&self) -> Vec<u8> {
        self.build()
    }
    fn put(&self, s: &mut Sink) -> Result<(), String> {
        // the configuration the library itself uses
        let c = EmitterConfig { write_document_declaration: false, perform_escaping: false, perform_indent: false, line_separator: "".into() };
        let w = self.build_to(c.create_writer(s)).map_err(|e| e.to_string())?;
        w.into_inner().map(|_| ()).map_err(|e| e.to_string())
    }
}

type Parts<'a> = Vec<(&'static str, &'a dyn Part)>;

fn of_paragraph<'a>(p: &'a Paragraph, v: &mut Parts<'a>) {
    v.push(("paragraph", p));
    v.push(("paragraph property", &p.property));
    for c in &p.children {
        match c {
            ParagraphChild::Run(r) => {
                v.push(("run", &**r));
                v.push(("run property", &r.run_property));
            }
            ParagraphChild::Insert(x) => v.push(("insert", x)),
            ParagraphChild::Delete(x) => v.push(("delete", x)),
            ParagraphChild::Hyperlink(x) => v.push(("hyperlink", x)),
            ParagraphChild::StructuredDataTag(x) => v.push(("structured data tag", &**x)),
            ParagraphChild::CommentStart(x) => v.push(("comment range start", &**x)),
            x => v.push(("paragraph child", x)),
        }
    }
}

fn parts(d: &Docx) -> Parts<'_> {
    let mut v: Parts = vec![
        ("document", &d.document),
        ("styles", &d.styles),
        ("numberings", &d.numberings),
        ("settings", &d.settings),
        ("comments", &d.comments),
        ("comments extended", &d.comments_extended),
        ("footnotes", &d.footnotes),
        ("font table", &d.font_table),
        ("content types", &d.content_type),
        ("relationships", &d.rels),
        ("document relationships", &d.document_rels),
        ("app properties", &d.doc_props.app),
        ("core properties", &d.doc_props.core),
        ("custom properties", &d.doc_props.custom),
        ("taskpanes relationships", &d.taskpanes_rels),
        ("section property", &d.document.section_property),
    ];
    if let Some(t) = &d.taskpanes {
        v.push(("taskpanes", t));
    }
    for x in &d.web_extensions {
        v.push(("web extension", x));
    }
    for x in &d.custom_items {
        v.push(("custom item", x));
    }
    for x in &d.custom_item_props {
        v.push(("custom item property", x));
    }
    for x in &d.custom_item_rels {
        v.push(("custom item relationships", x));
    }
    for x in &d.styles.styles {
        v.push(("style", x));
    }
    for x in &d.numberings.abstract_nums {
        v.push(("abstract numbering", x));
    }
    for x in &d.numberings.numberings {
        v.push(("numbering", x));
    }
    let s = &d.document.section_property;
    for x in [&s.header, &s.first_header, &s.even_header].into_iter().flatten() {
        v.push(("header", &x.1));
    }
    for x in [&s.footer, &s.first_footer, &s.even_footer].into_iter().flatten() {
        v.push(("footer", &x.1));
    }
    for x in &d.document.children {
        match x {
            DocumentChild::Paragraph(p) => of_paragraph(p, &mut v),
            DocumentChild::Table(t) => {
                v.push(("table", &**t));
                v.push(("table property", &t.property));
            }
            DocumentChild::TableOfContents(t) => v.push(("table of contents", &**t)),
            DocumentChild::StructuredDataTag(t) => v.push(("structured data tag", &**t)),
            DocumentChild::Section(t) => v.push(("section", &**t)),
            x => v.push(("document child", x)),
        }
    }
    v
}

fn c10_gen(r: &mut Rng, c: &Cfg) -> Value {
    let blocks = *r.pick(&[1, 3, 6, 12]);
    let doc = gen_doc(r, Vocab::Full, 0, blocks, false);
    let writes: Vec<Value> = (0..3)
        .map(|_| {
            let mut v = json!({"kind": r.below(1 << 20), "which": r.below(1 << 20)});
            if !c.calm {
                let mut f = vec![];
                if r.permille(500) {
                    if let Value::Array(a) = gen_soft(r) {
                        f.extend(a);
                    }
                }
                if r.permille(400) {
                    v["chop"] = json!({"seed": r.below(1 << 40), "p": *r.pick(&[50, 300, 1000]), "max": *r.pick(&[1, 3, 20, 200]), "eintr": *r.pick(&[0, 0, 20, 200])});
                }
                if r.permille(150) {
                    v["cap"] = r.below(1 << 20).into();
                } else if r.permille(450) {
                    f.push(gen_hard(r));
                }
                v["faults"] = f.into();
            }
            v
        })
        .collect();
    json!({"doc": to_value(&doc), "reload": r.permille(300), "writes": writes})
}

fn c10_exec(v: &Value, c: &mut Ctx) -> Result<(), String> {
    let mut d = build(&node_of(&v["doc"]));
    if flag(v, "reload") {
        d = read::read(&save_vec(d, 0)?, false).map_err(|e| format!("the stored package cannot be read: {e}"))?;
        c.hit("parts of a loaded document");
    }
    let all = parts(&d);
    for w in v["writes"].as_array().cloned().unwrap_or_default() {
        // the kind first, so that rare kinds are met as often as common ones
        let mut kinds: Vec<&str> = all.iter().map(|x| x.0).collect();
        kinds.sort();
        kinds.dedup();
        let pick = |k: &str, n: usize| (((int(&w, k, 0) as u128 * n as u128) >> 20) as usize).min(n - 1);
        let kind = kinds[pick("kind", kinds.len())];
        let of: Vec<&dyn Part> = all.iter().filter(|x| x.0 == kind).map(|x| x.1).collect();
        let part = of[pick("which", of.len())];
        let want = counterfactual(|| Ok(part.mem())).map_err(|e| format!("{kind} cannot be built in memory: {e}"))?;
        let calls = counterfactual(|| {
            let mut s = Sink::new();
            part.put(&mut s)?;
            Ok(s.calls.to_le_bytes().to_vec())
        })
        .map_err(|e| format!("write failed although no call failed: {kind}: {e}"))?;
        let calls = u64::from_le_bytes(calls[..8].try_into().unwrap());
        let mut s = Sink::new().plan(&faults(&w["faults"]), calls);
        if let Some(ch) = w.get("chop") {
            s = s.chopped(ch);
        }
        if let Some(cap) = w.get("cap").and_then(|x| x.as_u64()) {
            s.cap = Some((cap as u128 * want.len() as u128 >> 20) as u64);
        }
        let r = part.put(&mut s);
        absorb(c, &s);
        c.hit(&format!("wrote {kind}"));
        c.note(|| format!("{kind}: {} sink calls ({} without faults), {:?} -> {:?}", s.calls, calls, s.fired, r));
        c.seen(&s.img);
        c.mark(s.hash);
        c.mark(hash_bytes(&want));
        c.nontrivial |= !s.fired.is_empty();
        if s.errors > 0 {
            c.hit("writes that met an error");
            if r.is_ok() {
                return Err(format!("error swallowed: {kind}: the writer failed {} times ({:?}) and success was reported", s.errors, s.fired));
            }
            if !want.starts_with(&s.img) {
                return Err(format!("wrong bytes before the error: {kind}: what was written is not the beginning of the part"));
            }
            continue;
        }
        if let Err(e) = r {
            return Err(format!("write failed although no call failed: {kind}: {e}"));
        }
        if s.img != want {
            let at = s.img.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("bytes differ: {kind}: {} bytes written, {} built in memory, first difference at {at}", s.img.len(), want.len()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        gen: c10_gen,
        exec: c10_exec,
        runs: (30000, 700000),
        rule: "one run = three parts or elements of one generated (or reloaded) document, each streamed to a simulated writer with a seeded plan of short, interrupted and failing writes; non-trivial = a fault fired. Oracle: the bytes of the in-memory build from the same process state; error returned to the library implies an error returned by it.",
        measure: "hash of (fired faults with call index, bytes)",
        real: &["docx-rs element and part writers, XML event writer", "quick-xml crate as built by the library"],
        stub: &["byte sink (simulated)", "hash seed", "clock"],
        assumptions: &[],
        probes: &["fault short write", "fault interrupted write", "writes that met an error", "wrote document", "wrote header", "wrote footer", "wrote comments", "wrote table of contents", "wrote section", "wrote custom properties", "wrote web extension", "parts of a loaded document"],
    }]
}
