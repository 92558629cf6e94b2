//! Seeded generator of document descriptions. Every run draws its own subset of features
//! (swarm), so that rare combinations are met without every document containing everything.
use crate::node::Node;
use serde_json::{json, Value};
use simrt::prng::Rng;
use std::collections::BTreeMap;

/// What a check allows in its documents.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vocab {
    /// Everything the writer supports.
    Full,
    /// What writer and reader both support, so that a reload is expected to give it back.
    Session,
}

pub struct Gen {
    pub rng: Rng,
    pub vocab: Vocab,
    feat: u64,
    next_text: u64,
    next_bm: i64,
    next_cm: i64,
    next_pic: i64,
    comments: Vec<i64>,
    pub max_blocks: usize,
    depth: usize,
    nums: Vec<i64>,
    styles: Vec<String>,
    in_comment: bool,
    in_foot: bool,
    in_part: bool,
    /// paragraph ids chosen by hand, sometimes on purpose in collision with generated ones
    pub hand_ids: bool,
    pub salt: u64,
}

const WORDS: [&str; 14] =
    ["alpha", "beta", "gamma delta", "lorem", "ipsum", "x", "äöü", "日本語", "😀", " lead", "trail ", "a  b", "1.5%", "end"];
const SPECIAL: [&str; 6] = ["&", "<b>", "\"q\"", "'a'", "a&amp;b", "]]>"];
const COLORS: [&str; 5] = ["FF0000", "00FF00", "auto", "123456", "FFFFFF"];
const DATES: [&str; 3] = ["2024-01-02T03:04:05Z", "1970-01-01T00:00:00Z", "2030-12-31T23:59:59Z"];
const AUTHORS: [&str; 6] = ["alice", "bob b", "unnamed", "Ωmega", "tab\tnew\nline", "R&D <\"x\">"];

macro_rules! feat {
    ($s:expr, $n:expr) => {
        ($s.feat >> $n) & 1 == 1
    };
}

impl Gen {
    pub fn new(rng: Rng, vocab: Vocab) -> Gen {
        let mut rng = rng;
        let feat = match rng.below(4) {
            0 => u64::MAX,
            1 => rng.next() & rng.next(),
            _ => rng.next(),
        };
        Gen {
            rng,
            vocab,
            feat,
            next_text: 0,
            next_bm: 50001,
            next_cm: 1,
            next_pic: 1,
            comments: vec![],
            max_blocks: 6,
            depth: 0,
            nums: vec![],
            styles: vec![],
            in_comment: false,
            in_foot: false,
            in_part: false,
            hand_ids: false,
            salt: 0,
        }
    }

    /// Offsets hand-chosen ids (bookmarks, comments, pictures, texts) so that documents of one
    /// run do not share them.
    pub fn offset(&mut self, k: u64) {
        self.salt = k;
        self.next_bm += 1000 * k as i64;
        self.next_cm += 1000 * k as i64;
        self.next_pic += 1000 * k as i64;
    }

    fn commentable(&self) -> bool {
        !self.in_comment && !self.in_foot && !self.in_part
    }

    fn full(&self) -> bool {
        self.vocab == Vocab::Full
    }

    fn p(&mut self, permille: u32) -> bool {
        self.rng.permille(permille)
    }

    pub fn text(&mut self) -> String {
        self.next_text += 1;
        let mut s = format!("T{}x{}", self.salt, self.next_text);
        let n = self.rng.us(4);
        for _ in 0..n {
            s.push(' ');
            let w: &str = *self.rng.pick(&WORDS);
            s.push_str(w);
        }
        if feat!(self, 0) && self.p(250) {
            let w: &str = *self.rng.pick(&SPECIAL);
            s.push_str(w);
        }
        if feat!(self, 1) && self.p(60) {
            s = format!(" {} ", s);
        } else if feat!(self, 1) && self.p(60) {
            // nothing but blanks, or with a tab
            s = self.rng.pick(&[" ".to_string(), "  ".into(), "\u{a0}".into(), "\t".into(), format!("{s}\t.")]).clone();
        }
        s
    }

    fn color(&mut self) -> Value {
        let c: &str = *self.rng.pick(&COLORS);
        c.into()
    }
    fn author(&mut self) -> Value {
        let c: &str = *self.rng.pick(&AUTHORS);
        c.into()
    }
    fn date(&mut self) -> Value {
        let c: &str = *self.rng.pick(&DATES);
        c.into()
    }
    fn int(&mut self, lo: i64, hi: i64) -> Value {
        self.rng.range(lo, hi).into()
    }

    fn shd(&mut self) -> Value {
        json!({"type": self.int(0, 10), "color": self.color(), "fill": self.color()})
    }

    fn fonts(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        for k in ["ascii", "hiAnsi", "eastAsia", "cs"] {
            if self.p(400) {
                let f: &str = *self.rng.pick(&["Arial", "MS Mincho", "Calibri Light", "R&D <Sans>"]);
                m.insert(k.into(), f.into());
            }
        }
        for k in ["asciiTheme", "hiAnsiTheme", "eastAsiaTheme", "csTheme"] {
            if self.p(150) {
                m.insert(k.into(), "minorHAnsi".into());
            }
        }
        if self.p(200) {
            m.insert("hint".into(), "eastAsia".into());
        }
        if m.is_empty() {
            m.insert("ascii".into(), "Arial".into());
        }
        Value::Object(m)
    }

    pub fn rp(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        let k = 1 + self.rng.us(4);
        for _ in 0..k {
            let (n, v): (&str, Value) = match self.rng.us(19) {
                0 => ("bold", (!self.p(200)).into()),
                1 => ("italic", (!self.p(200)).into()),
                2 => ("strike", (!self.p(200)).into()),
                3 => ("dstrike", (!self.p(200)).into()),
                4 => ("caps", true.into()),
                5 => ("vanish", true.into()),
                6 => ("specVanish", true.into()),
                7 => ("size", self.int(2, 200)),
                8 => ("color", self.color()),
                9 => ("highlight", "yellow".into()),
                10 => ("underline", "single".into()),
                11 => ("vert", self.int(0, 2)),
                12 => ("spacing", self.int(-40, 200)),
                13 if self.full() => ("stretch", self.int(1, 300)),
                14 => ("fit", self.int(1, 900)),
                15 => ("fonts", self.fonts()),
                16 => ("border", json!({"type": self.int(0, 13), "size": self.int(1, 20), "space": self.int(0, 5), "color": self.color()})),
                17 => ("shd", self.shd()),
                _ => ("rstyle", self.style_ref()),
            };
            if n == "color" && self.p(300) {
                m.insert("themeColor".into(), self.int(0, 12));
                if self.p(500) {
                    m.insert("themeShade".into(), "BF".into());
                }
                if self.p(500) {
                    m.insert("themeTint".into(), "80".into());
                }
            }
            m.insert(n.into(), v);
        }
        Value::Object(m)
    }

    fn style_ref(&mut self) -> Value {
        if self.styles.is_empty() || self.p(200) {
            "Heading1".into()
        } else {
            let s = self.rng.pick(&self.styles).clone();
            s.into()
        }
    }

    fn indent(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        m.insert("start".into(), self.int(-400, 4000));
        match self.rng.us(3) {
            0 => {
                m.insert("first".into(), self.int(1, 500));
            }
            1 => {
                m.insert("hang".into(), self.int(1, 500));
            }
            _ => {}
        }
        if self.p(300) {
            m.insert("end".into(), self.int(0, 900));
        }
        if self.p(200) {
            m.insert("startChars".into(), self.int(1, 300));
        }
        if !self.full() {
        } else if self.p(100) {
            m.insert("hangChars".into(), self.int(1, 300));
        } else if self.p(100) {
            m.insert("firstChars".into(), self.int(1, 300));
        }
        Value::Object(m)
    }

    fn ls(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        for (k, lo, hi) in [("rule", 0, 2), ("before", 0, 900), ("after", 0, 900), ("beforeLines", 0, 300), ("afterLines", 0, 300), ("line", 1, 900)] {
            if self.p(350) {
                m.insert(k.into(), self.int(lo, hi));
            }
        }
        if m.is_empty() {
            m.insert("line".into(), 240.into());
        }
        Value::Object(m)
    }

    fn pp(&mut self, nested: bool) -> Value {
        let mut m = serde_json::Map::new();
        let k = 1 + self.rng.us(4);
        for _ in 0..k {
            let (n, v): (&str, Value) = match self.rng.us(19) {
                0 | 1 => ("align", self.int(0, 7)),
                2 => ("style", self.style_ref()),
                3 => ("indent", self.indent()),
                4 => ("ls", self.ls()),
                5 => ("snap", self.p(500).into()),
                6 => ("keepNext", self.p(700).into()),
                7 => ("keepLines", self.p(700).into()),
                8 => ("outline", self.int(0, 8)),
                9 => ("pbb", self.p(700).into()),
                10 => ("widow", self.p(500).into()),
                11 => {
                    let n = 1 + self.rng.us(3);
                    let t: Vec<Value> =
                        (0..n).map(|_| json!({"val": self.int(0, 8), "leader": self.int(0, 5), "pos": self.int(1, 9000)})).collect();
                    ("tabs", t.into())
                }
                12 if !nested => {
                    let mut c = self.pp(true);
                    if let Value::Object(o) = &mut c {
                        o.insert("author".into(), self.author());
                        o.insert("date".into(), self.date());
                    }
                    ("change", c)
                }
                13 => ("rp", self.rp()),
                14 => ("textAlign", self.int(0, 4)),
                15 => ("adjRight", self.int(0, 1)),
                16 if self.full() => ("bidi", self.p(500).into()),
                17 => {
                    let n = 1 + self.rng.us(3);
                    let t: Vec<Value> = (0..n)
                        .map(|_| json!({"pos": self.int(0, 5), "type": self.int(0, 13), "size": self.int(1, 9), "space": self.int(0, 9), "color": self.color()}))
                        .collect();
                    ("pbdr", t.into())
                }
                18 if self.p(500) => ("pshd", self.shd()),
                _ => ("frame", json!({"wrap": "around", "vAnchor": "text", "hAnchor": "margin", "x": self.int(0, 100), "y": self.int(0, 100), "w": self.int(1, 900), "h": self.int(1, 900), "hSpace": self.int(0, 9), "vSpace": self.int(0, 9), "xAlign": "center", "yAlign": "top", "hRule": "exact"})),
            };
            m.insert(n.into(), v);
        }
        Value::Object(m)
    }

    fn bm(&mut self, out: &mut Vec<Node>) {
        let id = self.next_bm;
        self.next_bm += 1;
        out.push(Node::new("bmS").with("id", id).with("name", bm_name(id)));
        if self.p(600) {
            let r = self.run();
            out.push(r);
        }
        out.push(Node::new("bmE").with("id", id));
    }

    fn comment(&mut self, out: &mut Vec<Node>, inner: &str) {
        let id = self.next_cm;
        self.next_cm += 1;
        let mut n = Node::new("cmS").with("id", id).with("author", self.author()).with("date", self.date());
        if feat!(self, 20) && !self.comments.is_empty() && self.p(350) {
            let par = *self.rng.pick(&self.comments);
            n = n.with("parent", par);
        }
        self.comments.push(id);
        let save = (self.in_comment, self.depth);
        self.in_comment = true;
        self.depth = 5;
        // several paragraphs only where every paragraph gets its own record
        let k = if feat!(self, 21) && self.p(250) { 2 } else { 1 };
        for _ in 0..k {
            let p = if feat!(self, 55) && self.p(300) { self.paragraph() } else { self.plain_paragraph() };
            n.c.push(p);
        }
        if feat!(self, 53) && self.full() && self.p(80) {
            let t = self.table();
            n.c.insert(0, t);
        }
        (self.in_comment, self.depth) = save;
        out.push(n);
        if inner == "block" {
            let p = self.plain_paragraph();
            out.push(p);
        } else if inner == "p" && self.p(800) || inner != "p" {
            let r = if inner == "del" { self.del_run() } else { self.run() };
            out.push(r);
        }
        out.push(Node::new("cmE").with("id", id));
    }

    fn plain_paragraph(&mut self) -> Node {
        let t = self.text();
        let mut p = Node::new("p").kids(vec![Node::new("r").kids(vec![Node::new("text").with("v", t)])]);
        self.maybe_pid(&mut p);
        p
    }

    fn maybe_pid(&mut self, p: &mut Node) {
        if self.hand_ids && self.p(250) {
            let v = match self.rng.us(3) {
                // likely to collide with generated ids
                0 => format!("{:08x}", self.rng.below(12)),
                1 => format!("{:08X}", 0x3A00_0000u64 + self.rng.below(4)),
                _ => format!("{:08X}", self.rng.below(0x7fff_ffff)),
            };
            p.p.insert("pid".into(), v.into());
        }
    }

    fn del_run(&mut self) -> Node {
        let t = self.text();
        let mut r = Node::new("r").kids(vec![Node::new("delText").with("v", t)]);
        if self.p(200) {
            r = r.with("rp", self.rp());
        }
        r
    }

    pub fn run(&mut self) -> Node {
        let mut r = Node::new("r");
        if feat!(self, 2) && self.p(400) {
            r = r.with("rp", self.rp());
        }
        let k = if self.p(750) { 1 } else { 1 + self.rng.us(3) };
        for _ in 0..k {
            let c = match self.rng.us(20) {
                0 if feat!(self, 3) => Node::new("tab"),
                1 if feat!(self, 4) => Node::new("br").with("k", self.int(0, 2)),
                2 if feat!(self, 5) => Node::new("sym").with("font", "Wingdings").with("char", "F0A7"),
                3 if feat!(self, 6) => Node::new("ptab").with("a", self.int(0, 2)).with("r", self.int(0, 1)).with("l", self.int(0, 5)),
                4 if feat!(self, 7) => Node::new("cr"),
                5 | 6 if feat!(self, 8) && !self.in_comment && !self.in_foot => self.pic(),
                7 if feat!(self, 9) && self.full() && !self.in_comment && !self.in_foot && !self.in_part => self.foot(),
                8 if feat!(self, 10) => {
                    let mut kind = self.rng.range(0, 6);
                    if kind == 4 && !self.full() {
                        kind = 5;
                    }
                    if self.p(200) {
                        r.c.push(Node::new("instrRaw").with("v", *self.rng.pick(&[" ", " PAGE ", "\\* MERGEFORMAT", "IF a<b \"x&y\""])));
                        continue;
                    }
                    let mut n = Node::new("instr").with("kind", kind);
                    match kind {
                        2 => {
                            n = n.with("ref", if self.p(200) { "R&D<x>" } else { "_Toc90000042" });
                            if self.p(500) {
                                n = n.with("h", true);
                            }
                        }
                        3 => n = n.with("text", if self.p(300) { "R&D <x>" } else { "entry" }).with("level", self.int(1, 3)),
                        4 if self.p(500) => n = n.with("label", *self.rng.pick(&["Table", "R&D <x>", "'a' > b"])),
                        6 => n = n.with("target", *self.rng.pick(&["_Toc90000042", "http://a.example/?b=1&c=<2>"])).with("anchor", self.p(300)),
                        5 if self.p(500) => n = n.with("raw", *self.rng.pick(&["IF a<b \"x&y\"", "HYPERLINK \"http://a.example/?b=1&c=2\"", "="])),
                        _ => {}
                    }
                    n
                }
                9 if feat!(self, 11) => Node::new("fld").with("k", self.int(0, 2)).with("dirty", self.p(200)),
                10 if feat!(self, 54) && self.full() => {
                    let kind = self.rng.range(0, 6);
                    let mut n = Node::new("delInstr").with("kind", kind);
                    if kind == 5 && self.p(500) {
                        n = n.with("raw", "IF a<b \"x&y\"");
                    }
                    n
                }
                _ => {
                    let t = self.text();
                    Node::new("text").with("v", t)
                }
            };
            r.c.push(c);
        }
        r
    }

    fn pic(&mut self) -> Node {
        let k = self.next_pic;
        // now and then the same bytes again
        if !(feat!(self, 13) && self.p(200)) {
            self.next_pic += 1;
        }
        let mut n = Node::new("pic").with("k", k).with("w", self.int(1, 50)).with("h", self.int(1, 50));
        if self.p(200) {
            n = n.with("decode", true);
        } else if self.p(200) {
            n = n.with("pad", self.int(1, 400));
        }
        if self.full() && self.p(200) {
            n = n.with("rot", self.int(0, 359));
        }
        if self.full() && feat!(self, 56) && self.p(400) {
            // ids chosen by hand meet each other and generated ones
            let base = if self.hand_ids { 0 } else { 9000 };
            let tail: &str = *self.rng.pick(&["", "", "_2", "_2_2"]);
            n = n.with("picId", format!("rIdImage{}{tail}", base + self.rng.range(1, 3)));
        }
        if self.p(200) {
            n = n.with("emuW", self.rng.range(1, 90) * 9525).with("emuH", self.rng.range(1, 90) * 9525);
        }
        if self.p(300) {
            if self.p(300) {
                n = n.with("overlap", true);
            }
            if self.p(300) {
                n = n.with("high", self.int(1, 90)).with("distL", self.int(1, 9));
            }
            if self.full() && self.p(300) {
                n = n.with("simple", true).with("alignH", self.int(0, 2)).with("alignV", self.int(0, 2));
            }
            n = n.with("float", true).with("x", self.int(-90, 90)).with("y", self.int(-90, 90)).with("dist", self.int(0, 9)).with("fromH", self.int(0, 5)).with("fromV", self.int(0, 5));
        }
        n
    }

    fn foot(&mut self) -> Node {
        let save = (self.in_foot, self.depth);
        self.in_foot = true;
        self.depth = 5;
        let k = if self.p(100) { 0 } else { 1 + self.rng.us(2) };
        let c = (0..k).map(|_| if feat!(self, 55) && self.p(300) { self.paragraph() } else { self.plain_paragraph() }).collect();
        (self.in_foot, self.depth) = save;
        Node::new("foot").kids(c)
    }

    fn track(&mut self, t: &str) -> Node {
        let mut n = Node::new(t).with("author", self.author()).with("date", self.date());
        let k = 1 + self.rng.us(2);
        for _ in 0..k {
            let r = if t == "del" { self.del_run() } else { self.run() };
            n.c.push(r);
        }
        if (t == "ins" || t == "mvT") && self.p(200) {
            let d = self.track("del");
            n.c.push(d);
        }
        if feat!(self, 22) && self.commentable() && self.p(150) {
            let mut v = vec![];
            self.comment(&mut v, t);
            n.c.extend(v);
        }
        n
    }

    fn link(&mut self) -> Node {
        let mut n = Node::new("link");
        if self.p(400) || self.in_comment || self.in_foot {
            n = n.with("anchor", bm_name(self.rng.range(50001, self.next_bm)));
        } else {
            let t = self.next_text;
            let amp = if self.p(200) { "&b=<2>" } else { "" };
            n = n.with("url", format!("http://h{}.example/{}?a=1{}", self.salt, t, amp));
            if feat!(self, 56) && self.p(300) {
                let base = if self.hand_ids { 0 } else { 9000 };
                let tail: &str = *self.rng.pick(&["", "", "_2", "_2_2"]);
                n = n.with("rid", format!("rIdHyperlink{}{tail}", base + self.rng.range(1, 3)));
            }
        }
        let k = 1 + self.rng.us(2);
        for _ in 0..k {
            let r = match self.rng.us(8) {
                0 if feat!(self, 23) => self.track("ins"),
                1 if feat!(self, 23) => self.track("del"),
                2 if feat!(self, 57) && self.commentable() => {
                    let mut v = vec![];
                    self.comment(&mut v, "link");
                    n.c.extend(v);
                    continue;
                }
                3 if feat!(self, 57) => {
                    let mut v = vec![];
                    self.bm(&mut v);
                    n.c.extend(v);
                    continue;
                }
                4 if feat!(self, 57) && self.full() => {
                    let mut s = Node::new("sdt");
                    self.sdt_prop(&mut s);
                    let r = self.run();
                    s.c.push(r);
                    s
                }
                _ => self.run(),
            };
            n.c.push(r);
        }
        n
    }

    pub fn paragraph(&mut self) -> Node {
        let mut p = Node::new("p");
        self.maybe_pid(&mut p);
        let mut pp = match feat!(self, 24) && self.p(350) {
            true => self.pp(false),
            false => Value::Null,
        };
        if !self.nums.is_empty() && self.p(250) {
            if pp.is_null() {
                pp = json!({});
            }
            let id = *self.rng.pick(&self.nums);
            let lvl = self.int(0, 2);
            pp.as_object_mut().unwrap().insert("num".into(), json!([id, lvl]));
        }
        if !pp.is_null() {
            p = p.with("pp", pp);
        }
        if feat!(self, 25) && self.p(60) {
            p = p.with("pdel", json!({"author": self.author(), "date": self.date()}));
        } else if feat!(self, 25) && self.p(60) {
            p = p.with("pins", json!({"author": self.author(), "date": self.date()}));
        }
        let k = self.rng.us(4);
        for _ in 0..k {
            match self.rng.us(16) {
                0 if feat!(self, 26) => p.c.push(self.track("ins")),
                1 if feat!(self, 26) => p.c.push(self.track("del")),
                2 if feat!(self, 27) => p.c.push(self.track("mvF")),
                3 if feat!(self, 27) => p.c.push(self.track("mvT")),
                4 if feat!(self, 28) => {
                    let l = self.link();
                    p.c.push(l)
                }
                5 if feat!(self, 29) => {
                    let mut v = vec![];
                    self.bm(&mut v);
                    p.c.extend(v);
                }
                6 | 7 if feat!(self, 30) && !self.in_comment && !self.in_foot && !self.in_part => {
                    let mut v = vec![];
                    self.comment(&mut v, "p");
                    p.c.extend(v);
                }
                8 if feat!(self, 31) && self.full() && self.depth < 3 => {
                    let mut s = Node::new("sdt");
                    self.sdt_prop(&mut s);
                    let r = self.run();
                    s.c.push(r);
                    p.c.push(s);
                }
                9 if feat!(self, 32) && self.vocab == Vocab::Full => p.c.push(Node::new("pageNum")),
                10 if feat!(self, 32) && self.vocab == Vocab::Full => p.c.push(Node::new("numPages")),
                _ => {
                    let r = self.run();
                    p.c.push(r)
                }
            }
        }
        p
    }

    fn sdt_prop(&mut self, s: &mut Node) {
        if !self.full() {
            return;
        }
        if self.p(500) {
            let alias = if self.p(300) { "tag \"<&>\"" } else { "tag1" };
            s.p.insert("alias".into(), alias.into());
        }
        if self.p(300) {
            s.p.insert("bind".into(), json!({"xpath": "/root/item", "prefix": "xmlns:a='b'", "store": "{06AC5857-5C65-A94A-BCEC-37356A209BC3}"}));
        }
    }

    fn sdt(&mut self) -> Node {
        let mut s = Node::new("sdt");
        self.sdt_prop(&mut s);
        self.depth += 1;
        let k = 1 + self.rng.us(2);
        for _ in 0..k {
            let c = match self.rng.us(10) {
                0 | 1 if self.depth < 3 => self.table(),
                2 if self.depth < 4 && feat!(self, 58) => self.sdt(),
                3 if feat!(self, 59) && self.full() => self.run(),
                4 if feat!(self, 60) && self.commentable() => {
                    let mut v = vec![];
                    self.comment(&mut v, "block");
                    s.c.extend(v);
                    continue;
                }
                5 if feat!(self, 60) => {
                    let id = self.next_bm;
                    self.next_bm += 1;
                    s.c.push(Node::new("bmS").with("id", id).with("name", bm_name(id)));
                    let p = self.paragraph();
                    s.c.push(p);
                    Node::new("bmE").with("id", id)
                }
                _ => self.paragraph(),
            };
            s.c.push(c);
        }
        self.depth -= 1;
        s
    }

    fn cell(&mut self) -> Node {
        let mut c = Node::new("tc");
        if feat!(self, 33) && self.p(400) {
            c = c.with("cp", self.cp());
        }
        let k = 1 + (self.rng.us(3) / 2);
        for _ in 0..k {
            let n = match self.rng.us(12) {
                0 if self.depth < 3 && feat!(self, 34) => self.table(),
                1 if self.depth < 3 && feat!(self, 35) => self.sdt(),
                2 if self.depth < 3 && self.full() && !self.in_part && !self.in_comment && feat!(self, 61) => self.toc(),
                _ => self.paragraph(),
            };
            c.c.push(n);
        }
        c
    }

    fn cp(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        let k = 1 + self.rng.us(3);
        for _ in 0..k {
            let (n, v): (&str, Value) = match self.rng.us(8) {
                0 => ("w", self.int(1, 9000)),
                1 => ("vmerge", self.int(0, 1)),
                2 => ("valign", self.int(0, 2)),
                3 => ("dir", self.int(0, 9)),
                4 => ("span", self.int(1, 5)),
                5 => ("shd", self.shd()),
                6 => {
                    let n = 1 + self.rng.us(3);
                    let t: Vec<Value> = (0..n)
                        .map(|_| json!({"pos": self.int(0, 7), "type": self.int(0, 13), "size": self.int(1, 9), "color": self.color()}))
                        .collect();
                    ("bdr", t.into())
                }
                _ => (*self.rng.pick(&["ml", "mt", "mr", "mb"]), self.int(0, 300)),
            };
            if n == "w" {
                m.insert("wt".into(), self.int(0, 2));
            }
            m.insert(n.into(), v);
        }
        Value::Object(m)
    }

    fn tp(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        let k = 1 + self.rng.us(3);
        for _ in 0..k {
            let (n, v): (&str, Value) = match self.rng.us(8) {
                0 => ("indent", self.int(-300, 900)),
                1 => ("align", self.int(0, 2)),
                2 => ("style", self.style_ref()),
                3 if self.full() => ("layout", self.int(0, 1)),
                4 => ("w", self.int(1, 9000)),
                5 => ("margins", json!({"t": self.int(0, 90), "r": self.int(0, 90), "b": self.int(0, 90), "l": self.int(0, 90)})),
                6 => {
                    let n = 1 + self.rng.us(3);
                    let t: Vec<Value> = (0..n)
                        .map(|_| json!({"pos": self.int(0, 5), "type": self.int(0, 13), "size": self.int(1, 9), "color": self.color()}))
                        .collect();
                    ("bdr", t.into())
                }
                _ => ("pos", json!({"left": self.int(0, 90), "right": self.int(0, 90), "vAnchor": "text", "hAnchor": "margin", "x": self.int(0, 900), "y": self.int(0, 900)})),
            };
            if n == "w" {
                m.insert("wt".into(), self.int(0, 2));
            }
            m.insert(n.into(), v);
        }
        Value::Object(m)
    }

    pub fn table(&mut self) -> Node {
        self.depth += 1;
        let mut t = Node::new("tbl");
        if feat!(self, 36) && self.p(400) {
            t = t.with("tp", self.tp());
        }
        if self.p(150) {
            t = t.with("noBorders", true);
        }
        let cols = 1 + self.rng.us(if self.depth > 1 { 2 } else { 3 });
        if self.p(500) {
            let g: Vec<Value> = (0..cols).map(|_| self.int(100, 4000)).collect();
            t = t.with("grid", g);
        }
        let rows = 1 + self.rng.us(2);
        for _ in 0..rows {
            let mut r = Node::new("tr");
            if feat!(self, 37) && self.p(300) {
                match self.rng.us(5) {
                    1..=3 if !self.full() => {}
                    0 => r = r.with("height", self.int(1, 900)).with("rule", self.int(0, 2)),
                    1 => r = r.with("cant", true),
                    2 if self.p(500) => r = r.with("rdel", json!({"author": self.author(), "date": self.date()})),
                    2 => r = r.with("gridAfter", self.int(1, 4)).with("widthAfter", self.int(1, 900)),
                    3 => r = r.with("gridBefore", self.int(1, 4)).with("widthBefore", self.int(1, 900)),
                    _ => r = r.with("rins", json!({"author": self.author(), "date": self.date()})),
                }
            }
            for _ in 0..cols {
                let c = self.cell();
                r.c.push(c);
            }
            t.c.push(r);
        }
        self.depth -= 1;
        t
    }

    fn toc(&mut self) -> Node {
        self.depth += 1;
        let mut t = Node::new("toc");
        if self.p(800) {
            t = t.with("to", self.int(1, 3));
        }
        if self.p(600) {
            t = t.with("auto", true);
        } else {
            for i in 0..self.rng.us(3) {
                t.c.push(Node::new("item").with("text", self.text()).with("level", self.int(1, 3)).with("key", format!("_Toc9000000{}", i)));
            }
        }
        if self.p(300) {
            t = t.with("alias", if self.p(300) { "R&D <x>" } else { "toc" });
        }
        if self.p(300) {
            t = t.with("hyper", true);
        }
        if self.p(200) {
            t = t.with("noSdt", true);
        }
        if self.p(200) {
            let p = self.paragraph();
            t.c.push(p);
        }
        if self.p(150) {
            let x = self.table();
            t.c.push(if self.p(500) { x.with("after", true) } else { x });
        }
        if self.p(150) {
            t = t.with("tdel", json!({"author": self.author(), "date": self.date()}));
        }
        if self.p(200) {
            t = t.with("dirty", true);
        }
        if self.p(200) {
            t = t.with("tc", Value::Null);
        }
        if self.p(200) {
            t = t.with("styled", if self.p(300) { "R&D <x>" } else { "style1" });
        }
        if self.p(200) {
            t = t.with("pp", self.pp(true));
        }
        self.depth -= 1;
        t
    }

    fn part_content(&mut self) -> Vec<Node> {
        let save = (self.in_part, self.depth);
        self.in_part = true;
        self.depth = 2;
        let k = 1 + self.rng.us(2);
        let c = (0..k)
            .map(|_| match self.rng.us(8) {
                0 => self.table(),
                1 if feat!(self, 38) => self.sdt(),
                _ => self.paragraph(),
            })
            .collect();
        (self.in_part, self.depth) = save;
        c
    }

    fn style(&mut self) -> Node {
        let id = format!("S{}x{}", self.salt, self.styles.len() + 1);
        let mut n = Node::new("style").with("id", id.clone()).with("type", self.int(0, 2)).with("name", format!("name {}{}", id, if self.p(150) { " <&>" } else { "" }));
        if self.p(300) {
            n = n.with("basedOn", "Normal");
        }
        if self.p(200) {
            n = n.with("link", "Heading1Char");
        }
        if self.full() {
            if self.p(200) {
                n = n.with("next", "Normal");
            }
            if self.p(300) {
                n = n.with("q", self.p(500));
            }
            if self.p(300) {
                n = n.with("ui", self.int(0, 99));
            }
            if self.p(200) {
                n = n.with("semi", true);
            }
            if self.p(200) {
                n = n.with("unhide", true);
            }
        }
        if self.p(600) {
            n = n.with("rp", self.rp());
        }
        if self.p(600) {
            n = n.with("pp", self.pp(true));
        }
        // only styles of tables store them
        let table = self.full() || n.i("type") == Some(2);
        if table && self.p(200) {
            n = n.with("tp", self.tp());
        }
        if table && self.p(200) {
            n = n.with("cp", self.cp());
        }
        self.styles.push(id);
        n
    }

    fn level(&mut self, lvl: i64) -> Node {
        let mut l = Node::new("lvl").with("lvl", lvl).with("start", self.int(0, 9)).with("fmt", "decimal").with("text", format!("%{}{}", lvl + 1, if self.p(100) { "<&>" } else { "." })).with("jc", "left");
        if self.p(500) {
            l = l.with("indent", self.indent());
        }
        if self.p(200) {
            l = l.with("pstyle", self.style_ref());
        }
        if self.p(300) {
            l = l.with("suff", self.int(0, 2));
        }
        if self.p(200) {
            l = l.with("restart", self.int(0, 3));
        }
        if self.p(200) {
            l = l.with("lgl", true);
        }
        if self.p(200) {
            l = l.with("rp", self.rp());
        }
        l
    }

    /// Numbering definitions; at least one instance, usable by later paragraphs.
    fn numbering(&mut self, out: &mut Vec<Node>) {
        let id = 2 + self.nums.len() as i64 + 20 * self.salt as i64;
        let mut a = Node::new("absnum").with("id", id);
        let k = 1 + self.rng.us(3);
        for i in 0..k {
            let l = self.level(i as i64);
            a.c.push(l);
        }
        out.push(a);
        let mut n = Node::new("num").with("id", id).with("abs", id);
        if self.p(300) {
            let mut o = Node::new("over").with("lvl", self.int(0, 2));
            if self.p(700) {
                o = o.with("start", self.int(0, 9));
            }
            if self.p(300) {
                let l = self.level(0);
                o.c.push(l);
            }
            n.c.push(o);
        }
        out.push(n);
        if !self.full() {
            // definitions are stored when something uses them
            out.push(Node::new("p").with("pp", json!({"num": [id, 0]})).with("keep", true));
        }
        self.nums.push(id);
    }

    fn section(&mut self, kinds: &mut Vec<(&'static str, i64)>) -> Node {
        let mut s = Node::new("sect");
        let k = self.rng.us(3);
        for _ in 0..k {
            let c = match self.rng.us(10) {
                0 | 1 => self.table(),
                2 if feat!(self, 62) && self.commentable() => {
                    let mut v = vec![];
                    self.comment(&mut v, "block");
                    s.c.extend(v);
                    continue;
                }
                3 if feat!(self, 62) => {
                    let id = self.next_bm;
                    self.next_bm += 1;
                    s.c.push(Node::new("bmS").with("id", id).with("name", bm_name(id)));
                    let p = self.paragraph();
                    s.c.push(p);
                    Node::new("bmE").with("id", id)
                }
                _ => self.paragraph(),
            };
            s.c.push(c);
        }
        kinds.clear();
        for part in ["header", "footer"] {
            for kind in 0..3 {
                if self.p(180) {
                    let c = self.part_content();
                    s.c.push(Node::new(part).with("kind", kind).kids(c));
                }
            }
        }
        s
    }

    /// Lets sections end with paragraphs of the document, also inside content controls.
    fn section_ends(&mut self, n: &mut Node) {
        for k in &mut n.c {
            match k.t.as_str() {
                "p" if self.p(150) && !k.has("keep") && !k.c.iter().any(|c| c.t == "ends") => {
                    let mut e = Node::new("ends");
                    for part in ["header", "footer"] {
                        for kind in 0..3 {
                            if self.p(250) {
                                let c = self.part_content();
                                e.c.push(Node::new(part).with("kind", kind).kids(c));
                            }
                        }
                    }
                    k.c.insert(0, e);
                }
                "sdt" | "sect" => self.section_ends(k),
                _ => {}
            }
        }
    }

    /// Many things of one kind.
    fn crowd(&mut self, d: &mut Node) {
        let n = *self.rng.pick(&[10, 11, 12, 17, 26]);
        let kind = self.rng.us(16);
        if kind == 14 && self.full() {
            d.c.push(Node::new("taskpanes"));
        }
        let many = if matches!(kind, 0..=2) { *self.rng.pick(&[n, 100, 130, 260]) } else { n };
        for i in 0..many {
            let one = match kind {
                0 => self.plain_paragraph(),
                1 => Node::new("p").kids(vec![self.link()]),
                2 => {
                    let t = *self.rng.pick(&["ins", "del", "mvF", "mvT"]);
                    Node::new("p").kids(vec![self.track(t)])
                }
                3 => Node::new("p").kids(vec![Node::new("r").kids(vec![self.pic()])]),
                4 if self.full() => Node::new("p").kids(vec![Node::new("r").kids(vec![self.foot()])]),
                5 => {
                    let mut v = vec![];
                    self.bm(&mut v);
                    Node::new("p").kids(v)
                }
                6 => {
                    let mut v = vec![];
                    self.comment(&mut v, "p");
                    Node::new("p").kids(v)
                }
                7 => {
                    let t = self.text();
                    Node::new("prop").with("name", format!("many{i}")).with("v", t)
                }
                8 => self.style(),
                9 if i < 15 => {
                    let mut v = vec![];
                    self.numbering(&mut v);
                    d.c.extend(v);
                    continue;
                }
                10 => {
                    let mut e = Node::new("ends");
                    for part in ["header", "footer"] {
                        if self.p(800) {
                            let (c, k) = (self.part_content(), self.int(0, 2));
                            e.c.push(Node::new(part).with("kind", k).kids(c));
                        }
                    }
                    Node::new("p").kids(vec![e])
                }
                11 => self.section(&mut vec![]),
                12 => self.sdt(),
                13 if self.full() => custom(100 + i),
                14 if self.full() => webext(100 + i),
                _ => self.table(),
            };
            d.c.push(one);
        }
    }

    /// An automatic table of contents, its styles and the headings it lists.
    fn contents(&mut self, d: &mut Node) {
        for (id, name) in [("style1", "Custom"), ("Heading2", "heading 2"), ("Heading1", "Heading 1")] {
            if !d.c.iter().any(|k| k.t == "style" && k.str("id") == id) {
                d.c.insert(0, Node::new("style").with("id", id).with("type", 0).with("name", name));
            }
        }
        let mut t = Node::new("toc").with("auto", true).with("to", 3);
        if self.p(600) {
            t = t.with("hyper", true);
        }
        if self.p(500) {
            t = t.with("styled", "style1");
        }
        d.c.push(t);
        for _ in 0..1 + self.rng.us(5) {
            let mut p = self.paragraph();
            p.p.insert("pp".into(), json!({"style": *self.rng.pick(&["Heading1", "Heading2", "style1"])}));
            d.c.push(p);
        }
    }

    /// A whole document: definitions, then blocks, with headers and footers in between.
    pub fn doc(&mut self) -> Node {
        let full = self.vocab == Vocab::Full;
        let mut d = Node::new("doc");
        if feat!(self, 40) {
            for _ in 0..self.rng.us(3) {
                let s = self.style();
                d.c.push(s);
            }
            if self.p(600) {
                // the names by which automatic tables of contents know headings
                for (id, name) in [("Heading1", "Heading 1"), ("Heading2", "heading 2"), ("style1", "Custom")] {
                    if self.p(800) {
                        d.c.push(Node::new("style").with("id", id).with("type", 0).with("name", name));
                    }
                }
            }
        }
        if feat!(self, 41) && self.p(600) {
            for _ in 0..1 + self.rng.us(2) {
                let mut v = vec![];
                self.numbering(&mut v);
                d.c.extend(v);
            }
            if feat!(self, 62) {
                let (nums, k) = (self.nums.clone(), self.rng.us(9));
                for s in d.c.iter_mut().filter(|s| s.t == "style" && s.i("type") == Some(0)).take(k % 3) {
                    let mut pp = s.p.get("pp").cloned().unwrap_or(json!({}));
                    pp["num"] = json!([nums[k % nums.len()], 0]);
                    s.p.insert("pp".into(), pp);
                }
            }
        }
        if feat!(self, 42) && self.p(400) {
            for i in 0..1 + self.rng.us(4) {
                let mut t = self.text();
                if self.p(150) {
                    t = self.rng.pick(&["", " ", "two\nlines", "\t"]).to_string();
                }
                d.c.push(Node::new("prop").with("name", format!("prop{}", i)).with("v", t));
            }
        }
        if feat!(self, 43) {
            let mut misc: BTreeMap<usize, Node> = BTreeMap::new();
            for _ in 0..self.rng.us(3) {
                let k = self.rng.us(19);
                let n = match k {
                    12 | 13 if !self.full() => continue,
                    12 => Node::new("columns").with("v", self.int(1, 4)),
                    13 => Node::new("textDir").with("v", *self.rng.pick(&["tbRl", "lrTb"])),
                    14 => Node::new("docGrid").with("t", self.int(0, 3)).with("lines", self.int(1, 500)).with("chars", self.int(-90, 90)),
                    15 => Node::new("tight"),
                    16 => Node::new("punct").with("v", self.int(0, 2)),
                    17 => Node::new("defSpacing").with("v", self.int(-9, 90)),
                    18 => {
                        let mut n = Node::new("defLs");
                        if let Value::Object(m) = self.ls() {
                            n.p = m.into_iter().collect();
                        }
                        n
                    }
                    0 | 1 if !self.full() => continue,
                    0 => Node::new("created").with("v", self.date()),
                    1 => Node::new("updated").with("v", self.date()),
                    2 => Node::new("docId").with("v", "50422BA2-5A10-4B21-A1CD-1AF6E3A9D9F4"),
                    3 => Node::new("tabStop").with("v", self.int(1, 2000)),
                    4 => Node::new("docVar").with("name", if self.p(300) { "R&D <x>" } else { "var1" }).with("v", self.text()),
                    5 => Node::new("titlePg"),
                    6 => Node::new("pageSize").with("w", self.int(1000, 20000)).with("h", self.int(1000, 20000)),
                    7 => Node::new("pageMargin").with("t", self.int(0, 3000)).with("l", self.int(0, 3000)).with("b", self.int(0, 3000)).with("r", self.int(0, 3000)).with("h", self.int(0, 900)).with("f", self.int(0, 900)).with("g", self.int(0, 300)),
                    8 if !self.full() => continue,
                    8 => Node::new("orient").with("v", self.int(0, 1)),
                    9 => Node::new("defSize").with("v", self.int(2, 90)),
                    10 => {
                        let f = self.fonts();
                        let mut n = Node::new("defFonts");
                        if let Value::Object(m) = f {
                            n.p = m.into_iter().collect();
                        }
                        n
                    }
                    _ => Node::new("pageNum").with("start", self.int(0, 20)),
                };
                misc.insert(k, n);
            }
            d.c.extend(misc.into_values());
        }
        if self.p(25) {
            self.crowd(&mut d);
        }
        let blocks = 1 + self.rng.us(self.max_blocks);
        let mut slots: Vec<(&'static str, i64)> = vec![];
        if feat!(self, 44) {
            for part in ["header", "footer"] {
                for kind in 0..3 {
                    if self.p(220) {
                        slots.push((part, kind));
                    }
                }
            }
        }
        // any order of attaching headers and footers
        for i in (1..slots.len()).rev() {
            let j = self.rng.us(i + 1);
            slots.swap(i, j);
        }
        for _ in 0..blocks {
            if !slots.is_empty() && self.p(500) {
                let (part, kind) = slots.pop().unwrap();
                let c = self.part_content();
                d.c.push(Node::new(part).with("kind", kind).kids(c));
            }
            match self.rng.us(16) {
                0 | 1 if feat!(self, 45) => {
                    let t = self.table();
                    d.c.push(t)
                }
                2 if feat!(self, 46) => {
                    let t = self.sdt();
                    d.c.push(t)
                }
                3 if feat!(self, 47) => {
                    let mut v = vec![];
                    let id = self.next_bm;
                    self.next_bm += 1;
                    v.push(Node::new("bmS").with("id", id).with("name", bm_name(id)));
                    v.push(self.paragraph());
                    v.push(Node::new("bmE").with("id", id));
                    d.c.extend(v);
                }
                7 if feat!(self, 63) => {
                    let mut v = vec![];
                    self.comment(&mut v, "block");
                    d.c.extend(v);
                }
                4 if full && feat!(self, 48) => {
                    let t = self.toc();
                    d.c.push(t);
                }
                5 if feat!(self, 49) => {
                    let mut k = vec![];
                    let s = self.section(&mut k);
                    d.c.push(s);
                }
                6 if feat!(self, 50) => {
                    // a heading, found by automatic tables of contents
                    let mut p = self.paragraph();
                    p.p.insert("pp".into(), json!({"style": *self.rng.pick(&["Heading1", "Heading1", "Heading2", "style1"])}));
                    d.c.push(p);
                }
                _ => {
                    let p = self.paragraph();
                    d.c.push(p)
                }
            }
        }
        for (part, kind) in slots {
            let c = self.part_content();
            d.c.push(Node::new(part).with("kind", kind).kids(c));
        }
        if feat!(self, 49) && self.p(500) {
            self.section_ends(&mut d);
        }
        if full && self.p(80) {
            self.contents(&mut d);
        }
        if full && feat!(self, 51) && self.p(250) {
            if !d.c.iter().any(|k| k.t == "webext") {
                d.c.push(Node::new("taskpanes"));
            }
            for i in 0..1 + self.rng.us(2) {
                d.c.push(webext(i));
            }
        }
        if full && feat!(self, 52) && self.p(250) {
            for i in 0..1 + self.rng.us(2) {
                d.c.push(custom(i));
            }
        }
        d
    }
}

fn webext(i: usize) -> Node {
    Node::new("webext")
        .with("id", format!("7f33b723-fb58-4524-8733-dbedc4b7c{:03}", i + 90))
        .with("ref", "abc")
        .with("ver", "1.0.0.0")
        .with("store", "developer")
        .with("st", "Registry")
        .kids(vec![Node::new("prop").with("name", if i == 0 { "hello" } else { "R&D <x>" }).with("v", "\"world\"")])
}

fn custom(i: usize) -> Node {
    Node::new("custom")
        .with("id", format!("06AC5857-5C65-A94A-BCEC-37356A209{:03}", i + 90))
        .with("xml", format!("<root xmlns=\"https://example.com\"><item name=\"x{}\" price=\"1\" /></root>", i))
}

/// A few names need escaping.
fn bm_name(id: i64) -> String {
    format!("bm{}{}", id, if id % 7 == 0 { "<&\">" } else { "" })
}

impl Node {
    pub fn text_nodes(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |x| {
            if x.t == "text" || x.t == "delText" {
                n += 1;
            }
        });
        n
    }
}
