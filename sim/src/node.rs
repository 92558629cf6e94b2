//! Document descriptions. A `Node` tree is a list of builder calls as data: it is what the
//! generator produces, what a replay file stores, what the shrinker edits, and what the
//! reference models read. `build_docx` turns it into a real document.
use docx_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Node {
    pub t: String,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub p: BTreeMap<String, Value>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub c: Vec<Node>,
}

impl Node {
    pub fn new(t: &str) -> Node {
        Node { t: t.to_string(), ..Default::default() }
    }
    pub fn with(mut self, k: &str, v: impl Into<Value>) -> Node {
        self.p.insert(k.to_string(), v.into());
        self
    }
    pub fn kids(mut self, c: Vec<Node>) -> Node {
        self.c = c;
        self
    }
    pub fn i(&self, k: &str) -> Option<i64> {
        self.p.get(k).and_then(|v| v.as_i64())
    }
    pub fn u(&self, k: &str) -> Option<usize> {
        self.i(k).map(|v| v.max(0) as usize)
    }
    pub fn s(&self, k: &str) -> Option<&str> {
        self.p.get(k).and_then(|v| v.as_str())
    }
    pub fn str(&self, k: &str) -> String {
        self.s(k).unwrap_or("").to_string()
    }
    pub fn has(&self, k: &str) -> bool {
        self.p.contains_key(k)
    }
    pub fn b(&self, k: &str) -> Option<bool> {
        self.p.get(k).and_then(|v| v.as_bool())
    }
    pub fn sub(&self, k: &str) -> Option<Node> {
        match self.p.get(k) {
            Some(Value::Object(m)) => Some(Node {
                t: k.to_string(),
                p: m.iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
                c: vec![],
            }),
            _ => None,
        }
    }
    pub fn list(&self, k: &str) -> Vec<Node> {
        match self.p.get(k) {
            Some(Value::Array(a)) => a
                .iter()
                .filter_map(|v| match v {
                    Value::Object(m) => Some(Node {
                        t: k.to_string(),
                        p: m.iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
                        c: vec![],
                    }),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        }
    }
    /// All nodes, preorder.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for c in &self.c {
            c.walk(f);
        }
    }
}

fn sel<T: Clone>(xs: &[T], i: i64) -> T {
    xs[(i.unsigned_abs() as usize) % xs.len()].clone()
}

pub const N_ALIGN: usize = 8;
fn align(i: i64) -> AlignmentType {
    use AlignmentType::*;
    sel(&[Both, Center, Distribute, Start, End, Left, Right, Justified], i)
}
fn border_type(i: i64) -> BorderType {
    use BorderType::*;
    sel(&[Single, Nil, None, Thick, Double, Dotted, Dashed, DotDash, DotDotDash, Triple, Wave, DoubleWave, Inset, Outset], i)
}
fn shd_type(i: i64) -> ShdType {
    use ShdType::*;
    sel(&[Clear, Nil, Solid, HorzStripe, VertStripe, DiagCross, Pct5, Pct10, Pct25, Pct50, Pct95], i)
}
fn width_type(i: i64) -> WidthType {
    use WidthType::*;
    sel(&[Dxa, Auto, Pct, Nil], i)
}
fn theme_color(i: i64) -> ThemeColor {
    use ThemeColor::*;
    sel(&[Dark1, Light1, Dark2, Light2, Accent1, Accent2, Accent6, Hyperlink, FollowedHyperlink, Background1, Text1, Background2, Text2], i)
}
fn special(n: &Node) -> Option<SpecialIndentType> {
    match (n.i("first"), n.i("hang")) {
        (Some(v), _) => Some(SpecialIndentType::FirstLine(v as i32)),
        (_, Some(v)) => Some(SpecialIndentType::Hanging(v as i32)),
        _ => Option::None,
    }
}
fn oi32(n: &Node, k: &str) -> Option<i32> {
    n.i(k).map(|v| v as i32)
}

fn fonts(n: &Node) -> RunFonts {
    let mut f = RunFonts::new();
    if let Some(v) = n.s("ascii") {
        f = f.ascii(v);
    }
    if let Some(v) = n.s("hiAnsi") {
        f = f.hi_ansi(v);
    }
    if let Some(v) = n.s("eastAsia") {
        f = f.east_asia(v);
    }
    if let Some(v) = n.s("cs") {
        f = f.cs(v);
    }
    if let Some(v) = n.s("asciiTheme") {
        f = f.ascii_theme(v);
    }
    if let Some(v) = n.s("hiAnsiTheme") {
        f = f.hi_ansi_theme(v);
    }
    if let Some(v) = n.s("eastAsiaTheme") {
        f = f.east_asia_theme(v);
    }
    if let Some(v) = n.s("csTheme") {
        f = f.cs_theme(v);
    }
    if let Some(v) = n.s("hint") {
        f = f.hint(v);
    }
    f
}

fn shading(n: &Node) -> Shading {
    let mut s = Shading::new();
    if let Some(v) = n.i("type") {
        s = s.shd_type(shd_type(v));
    }
    if let Some(v) = n.s("color") {
        s = s.color(v);
    }
    if let Some(v) = n.s("fill") {
        s = s.fill(v);
    }
    s
}

pub fn run_prop(n: &Node) -> RunProperty {
    let mut r = RunProperty::new();
    for (k, v) in &n.p {
        let on = v.as_bool().unwrap_or(false);
        let i = v.as_i64().unwrap_or(0);
        let s = v.as_str().unwrap_or("");
        r = match k.as_str() {
            "bold" => {
                if on {
                    r.bold()
                } else {
                    r.disable_bold()
                }
            }
            "italic" => {
                if on {
                    r.italic()
                } else {
                    r.disable_italic()
                }
            }
            "strike" => {
                if on {
                    r.strike()
                } else {
                    r.disable_strike()
                }
            }
            "dstrike" => {
                if on {
                    r.dstrike()
                } else {
                    r.disable_dstrike()
                }
            }
            "caps" => r.caps(),
            "vanish" => r.vanish(),
            "specVanish" => r.spec_vanish(),
            "size" => r.size(i as usize),
            "color" => {
                // the theme setters extend an existing colour
                let mut c = r.color(s);
                if let Some(t) = n.i("themeColor") {
                    c = c.theme_color(theme_color(t));
                }
                if let Some(t) = n.s("themeShade") {
                    c = c.theme_shade(t);
                }
                if let Some(t) = n.s("themeTint") {
                    c = c.theme_tint(t);
                }
                c
            }
            "highlight" => r.highlight(s),
            "underline" => r.underline(s),
            "vert" => r.vert_align(sel(&[VertAlignType::Baseline, VertAlignType::SuperScript, VertAlignType::SubScript], i)),
            "spacing" => r.character_spacing(i as i32),
            "stretch" => r.stretch(i as i32),
            "fit" => r.fit_text(i as usize, n.i("fitId").map(|x| x as u32)),
            "fonts" => match n.sub("fonts") {
                Some(f) => r.fonts(fonts(&f)),
                _ => r,
            },
            "border" => match n.sub("border") {
                Some(b) => r.text_border(
                    TextBorder::new()
                        .border_type(border_type(b.i("type").unwrap_or(0)))
                        .size(b.u("size").unwrap_or(4))
                        .space(b.u("space").unwrap_or(0))
                        .color(b.s("color").unwrap_or("auto")),
                ),
                _ => r,
            },
            "shd" => match n.sub("shd") {
                Some(b) => r.shading(shading(&b)),
                _ => r,
            },
            "rstyle" => r.style(s),
            _ => r,
        };
    }
    r
}

fn line_spacing(n: &Node) -> LineSpacing {
    let mut l = LineSpacing::new();
    if let Some(v) = n.i("rule") {
        l = l.line_rule(sel(&[LineSpacingType::Auto, LineSpacingType::AtLeast, LineSpacingType::Exact], v));
    }
    if let Some(v) = n.i("before") {
        l = l.before(v as u32);
    }
    if let Some(v) = n.i("after") {
        l = l.after(v as u32);
    }
    if let Some(v) = n.i("beforeLines") {
        l = l.before_lines(v as u32);
    }
    if let Some(v) = n.i("afterLines") {
        l = l.after_lines(v as u32);
    }
    if let Some(v) = n.i("line") {
        l = l.line(v as i32);
    }
    l
}

fn frame(n: &Node) -> FrameProperty {
    let mut f = FrameProperty::new();
    for (k, v) in &n.p {
        let s = v.as_str().unwrap_or("");
        let i = v.as_i64().unwrap_or(0);
        f = match k.as_str() {
            "wrap" => f.wrap(s),
            "vAnchor" => f.v_anchor(s),
            "hAnchor" => f.h_anchor(s),
            "hRule" => f.h_rule(s),
            "xAlign" => f.x_align(s),
            "yAlign" => f.y_align(s),
            "hSpace" => f.h_space(i as i32),
            "vSpace" => f.v_space(i as i32),
            "x" => f.x(i as i32),
            "y" => f.y(i as i32),
            "w" => f.width(i as u32),
            "h" => f.height(i as u32),
            _ => f,
        };
    }
    f
}

fn tab_value(i: i64) -> TabValueType {
    use TabValueType::*;
    sel(&[Bar, Center, Clear, Decimal, End, Right, Num, Start, Left], i)
}
fn tab_leader(i: i64) -> TabLeaderType {
    use TabLeaderType::*;
    sel(&[Dot, Heavy, Hyphen, MiddleDot, None, Underscore], i)
}

fn indent_args(n: &Node) -> (Option<i32>, Option<SpecialIndentType>, Option<i32>, Option<i32>) {
    (oi32(n, "start"), special(n), oi32(n, "end"), oi32(n, "startChars"))
}

pub fn para_prop(n: &Node) -> ParagraphProperty {
    let mut p = ParagraphProperty::new();
    for (k, v) in &n.p {
        let on = v.as_bool().unwrap_or(false);
        let i = v.as_i64().unwrap_or(0);
        let s = v.as_str().unwrap_or("");
        p = match k.as_str() {
            "align" => p.align(align(i)),
            "style" => p.style(s),
            "indent" => match n.sub("indent") {
                Some(d) => {
                    let (a, b, c, e) = indent_args(&d);
                    p.indent(a, b, c, e)
                }
                _ => p,
            },
            "num" => match v.as_array() {
                Some(a) if a.len() == 2 => p.numbering(
                    NumberingId::new(a[0].as_u64().unwrap_or(1) as usize),
                    IndentLevel::new(a[1].as_u64().unwrap_or(0) as usize),
                ),
                _ => p,
            },
            "ls" => match n.sub("ls") {
                Some(d) => p.line_spacing(line_spacing(&d)),
                _ => p,
            },
            "snap" => p.snap_to_grid(on),
            "keepNext" => p.keep_next(on),
            "keepLines" => p.keep_lines(on),
            "outline" => p.outline_lvl(i as usize),
            "pbb" => p.page_break_before(on),
            "bidi" => p.bidi(on),
            "widow" => p.widow_control(on),
            "tabs" => {
                for t in n.list("tabs") {
                    let mut tab = Tab::new();
                    if let Some(x) = t.i("val") {
                        tab = tab.val(tab_value(x));
                    }
                    if let Some(x) = t.i("leader") {
                        tab = tab.leader(tab_leader(x));
                    }
                    if let Some(x) = t.u("pos") {
                        tab = tab.pos(x);
                    }
                    p = p.add_tab(tab);
                }
                p
            }
            "change" => match n.sub("change") {
                Some(d) => {
                    let mut ch = ParagraphPropertyChange::new().property(para_prop(&d));
                    if let Some(a) = d.s("author") {
                        ch = ch.author(a);
                    }
                    if let Some(a) = d.s("date") {
                        ch = ch.date(a);
                    }
                    p.paragraph_property_change(ch)
                }
                _ => p,
            },
            "frame" => match n.sub("frame") {
                Some(d) => p.frame_property(frame(&d)),
                _ => p,
            },
            "rp" => match n.sub("rp") {
                Some(d) => p.run_property(run_prop(&d)),
                _ => p,
            },
            "textAlign" => p.text_alignment(sel(
                &[TextAlignmentType::Auto, TextAlignmentType::Baseline, TextAlignmentType::Bottom, TextAlignmentType::Center, TextAlignmentType::Top],
                i,
            )),
            "adjRight" => p.adjust_right_ind(i as isize),
            "pbdr" => {
                use ParagraphBorderPosition::*;
                let mut bs = ParagraphBorders::with_empty();
                for b in n.list("pbdr") {
                    bs = bs.set(
                        ParagraphBorder::new(sel(&[Left, Right, Top, Bottom, Between, Bar], b.i("pos").unwrap_or(0)))
                            .val(border_type(b.i("type").unwrap_or(0)))
                            .size(b.u("size").unwrap_or(4))
                            .space(b.u("space").unwrap_or(0))
                            .color(b.s("color").unwrap_or("auto")),
                    );
                }
                p.set_borders(bs)
            }
            "pshd" => match n.sub("pshd") {
                Some(d) => p.shading(shading(&d)),
                _ => p,
            },
            _ => p,
        };
    }
    // applied last: they extend the indent
    if let Some(d) = n.sub("indent") {
        if let Some(v) = oi32(&d, "hangChars") {
            if let Some(ind) = p.indent.take() {
                p.indent = Some(ind.hanging_chars(v));
            }
        }
        if let Some(v) = oi32(&d, "firstChars") {
            if let Some(ind) = p.indent.take() {
                p.indent = Some(ind.first_line_chars(v));
            }
        }
    }
    p
}

// ---------------------------------------------------------------- pictures

fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A valid 1x1 RGB PNG whose pixel encodes `k`.
pub fn png(k: u64) -> Vec<u8> {
    fn chunk(out: &mut Vec<u8>, ty: &[u8; 4], data: &[u8]) {
        out.extend_from_slice(&(data.len() as u32).to_be_bytes());
        let mut body = ty.to_vec();
        body.extend_from_slice(data);
        out.extend_from_slice(&body);
        out.extend_from_slice(&crc32(&body).to_be_bytes());
    }
    let mut o = vec![137, 80, 78, 71, 13, 10, 26, 10];
    chunk(&mut o, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0]);
    let raw = [0u8, k as u8, (k >> 8) as u8, (k >> 16) as u8];
    let mut z = vec![0x78, 0x01, 0x01, 4, 0, 0xfb, 0xff];
    z.extend_from_slice(&raw);
    let (mut a, mut b) = (1u32, 0u32);
    for &x in &raw {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    z.extend_from_slice(&((b << 16) | a).to_be_bytes());
    chunk(&mut o, b"IDAT", &z);
    chunk(&mut o, b"IEND", &[]);
    o
}

/// A 1x1 24-bit BMP.
pub fn bmp(k: u64) -> Vec<u8> {
    let mut o = b"BM".to_vec();
    o.extend_from_slice(&58u32.to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&54u32.to_le_bytes());
    o.extend_from_slice(&40u32.to_le_bytes());
    o.extend_from_slice(&1i32.to_le_bytes());
    o.extend_from_slice(&1i32.to_le_bytes());
    o.extend_from_slice(&1u16.to_le_bytes());
    o.extend_from_slice(&24u16.to_le_bytes());
    o.extend_from_slice(&[0; 24]);
    o.extend_from_slice(&[k as u8, (k >> 8) as u8, (k >> 16) as u8, 0]);
    o
}

/// The bytes a picture node attaches.
pub fn pic_bytes(n: &Node) -> Vec<u8> {
    let k = n.i("k").unwrap_or(0) as u64;
    match n.u("pad") {
        // arbitrary bytes after a PNG, so that pictures differ in size
        Some(pad) => {
            let mut v = png(k);
            // incompressible, so that a large picture really means many bytes on the medium
            v.extend((0..pad as u64).map(|i| simrt::prng::mix(k, i) as u8));
            v
        }
        _ => png(k),
    }
}

/// Text, followed by so much text that compresses badly.
pub fn fill(n: &Node) -> String {
    let mut s = n.s("v").unwrap_or("").to_string();
    for i in 0..n.i("fill").unwrap_or(0) as u64 {
        s.push((b'0' + (simrt::prng::mix(7, i) % 64) as u8) as char);
    }
    s
}

fn pic(n: &Node) -> Pic {
    let mut p = if n.has("decode") {
        Pic::new(&pic_bytes(n))
    } else {
        Pic::new_with_dimensions(pic_bytes(n), n.i("w").unwrap_or(10) as u32, n.i("h").unwrap_or(10) as u32)
    };
    if let Some(v) = n.i("rot") {
        p = p.rotate(v as u16);
    }
    if let Some(v) = n.s("picId") {
        p = p.id(v);
    }
    if n.has("float") {
        p = p.floating();
        if let Some(v) = n.i("high") {
            p = p.relative_height(v as u32);
        }
        if n.has("simple") {
            p = p.simple_pos(true);
        }
        if let Some(v) = n.i("x") {
            p = p.offset_x(v as i32);
        }
        if let Some(v) = n.i("y") {
            p = p.offset_y(v as i32);
        }
        if n.has("overlap") {
            p = p.overlapping();
        }
        if let Some(v) = n.i("dist") {
            p = p.dist_l(v as i32).dist_r(v as i32).dist_t(v as i32).dist_b(v as i32);
        }
        if let Some(v) = n.i("alignH") {
            p = p.position_h(DrawingPosition::Align(sel(&[PicAlign::Left, PicAlign::Right, PicAlign::Center], v)));
        }
        if let Some(v) = n.i("alignV") {
            p = p.position_v(DrawingPosition::Align(sel(&[PicAlign::Top, PicAlign::Bottom, PicAlign::Center], v)));
        }
        if let Some(v) = n.i("distL") {
            p = p.dist_l(v as i32).dist_r(v as i32 + 1).dist_t(v as i32 + 2).dist_b(v as i32 + 3);
        }
        if let Some(v) = n.i("fromH") {
            use RelativeFromHType::*;
            p = p.relative_from_h(sel(&[Character, Column, Margin, Page, LeftMargin, RightMargin], v));
        }
        if let Some(v) = n.i("fromV") {
            use RelativeFromVType::*;
            p = p.relative_from_v(sel(&[Line, Margin, Page, Paragraph, TopMargin, BottomMargin], v));
        }
    }
    if let Some(v) = n.i("emuW") {
        p = p.size(v as u32, n.i("emuH").unwrap_or(9525) as u32);
    }
    p
}

// ---------------------------------------------------------------- inline content

fn instr(n: &Node) -> InstrText {
    match n.i("kind").unwrap_or(0) % 7 {
        0 => InstrText::PAGE(InstrPAGE::new()),
        1 => InstrText::NUMPAGES(InstrNUMPAGES::new()),
        2 => {
            let mut r = InstrPAGEREF::new(n.s("ref").unwrap_or("_Toc1"));
            if n.has("h") {
                r = r.hyperlink();
            }
            if n.has("rel") {
                r = r.relative_position();
            }
            InstrText::PAGEREF(r)
        }
        3 => {
            let mut t = InstrTC::new(n.s("text").unwrap_or("x"));
            if let Some(l) = n.u("level") {
                t = t.level(l);
            }
            if n.has("omit") {
                t = t.omits_page_number();
            }
            InstrText::TC(t)
        }
        4 => {
            let mut t = InstrToC::new().heading_styles_range(1, n.u("to").unwrap_or(3).max(1));
            if n.has("h") {
                t = t.hyperlink();
            }
            if let Some(l) = n.s("label") {
                t = t.caption_label(l).entry_bookmark_name(l).caption_label_including_numbers(l).sequence_and_page_numbers_separator(l);
                t = t.tc_field_identifier(Some(l.to_string())).entry_and_page_number_separator(l).seq_field_identifier_for_prefix(l);
                t = t.add_style_with_level(StyleWithLevel::new(l, 1));
            }
            InstrText::TOC(t)
        }
        6 => {
            let mut l = InstrHyperlink::new(n.s("target").unwrap_or("_Toc1"));
            l.anchor = n.b("anchor").unwrap_or(false);
            InstrText::HYPERLINK(l)
        }
        _ => InstrText::Unsupported(n.s("raw").unwrap_or("DATE").to_string()),
    }
}

pub fn comment(n: &Node) -> Comment {
    let mut c = Comment::new(n.u("id").unwrap_or(1));
    if let Some(a) = n.s("author") {
        c = c.author(a);
    }
    if let Some(a) = n.s("date") {
        c = c.date(a);
    }
    if let Some(a) = n.u("parent") {
        c = c.parent_comment_id(a);
    }
    for k in &n.c {
        match k.t.as_str() {
            "p" => c = c.add_paragraph(paragraph(k)),
            "tbl" => c = c.add_table(table(k)),
            _ => {}
        }
    }
    c
}

pub fn run(n: &Node) -> Run {
    let mut r = Run::new();
    if let Some(d) = n.sub("rp") {
        r.run_property = run_prop(&d);
    }
    for k in &n.c {
        r = match k.t.as_str() {
            "text" => r.add_text(fill(k)),
            "delText" => r.add_delete_text(k.str("v")),
            "tab" => r.add_tab(),
            "ptab" => r.add_ptab(PositionalTab::new(
                sel(&[PositionalTabAlignmentType::Center, PositionalTabAlignmentType::Left, PositionalTabAlignmentType::Right], k.i("a").unwrap_or(0)),
                sel(&[PositionalTabRelativeTo::Indent, PositionalTabRelativeTo::Margin], k.i("r").unwrap_or(0)),
                tab_leader(k.i("l").unwrap_or(0)),
            )),
            "br" => r.add_break(sel(&[BreakType::Page, BreakType::Column, BreakType::TextWrapping], k.i("k").unwrap_or(0))),
            "cr" => r.add_carriage_return(),
            "sym" => r.add_sym(Sym::new(k.s("font").unwrap_or("Wingdings"), k.s("char").unwrap_or("F0A7"))),
            "pic" => r.add_image(pic(k)),
            "fld" => r.add_field_char(
                sel(&[FieldCharType::Begin, FieldCharType::Separate, FieldCharType::End], k.i("k").unwrap_or(0)),
                k.b("dirty").unwrap_or(false),
            ),
            "instr" => r.add_instr_text(instr(k)),
            "instrRaw" => {
                r.children.push(RunChild::InstrTextString(k.str("v").to_string()));
                r
            }
            "delInstr" => r.add_delete_instr_text(match instr(k) {
                InstrText::PAGEREF(x) => DeleteInstrText::PAGEREF(x),
                InstrText::TC(x) => DeleteInstrText::TC(x),
                InstrText::HYPERLINK(x) => DeleteInstrText::HYPERLINK(x),
                InstrText::TOC(x) => DeleteInstrText::TOC(x),
                InstrText::Unsupported(x) => DeleteInstrText::Unsupported(x),
                _ => DeleteInstrText::Unsupported("DATE".into()),
            }),
            "foot" => {
                let mut f = Footnote::new();
                for p in &k.c {
                    f.add_content(paragraph(p));
                }
                r.add_footnote_reference(f)
            }
            "textbox" => {
                let mut tb = TextBox::new();
                for p in &k.c {
                    match p.t.as_str() {
                        "p" => tb.children.push(TextBoxContentChild::Paragraph(Box::new(paragraph(p)))),
                        "tbl" => tb.children.push(TextBoxContentChild::Table(Box::new(table(p)))),
                        _ => {}
                    }
                }
                r.children.push(RunChild::Drawing(Box::new(Drawing::new().text_box(tb))));
                r
            }
            _ => r,
        };
    }
    r
}

fn delete(n: &Node) -> Delete {
    let mut d = Delete::new();
    if let Some(a) = n.s("author") {
        d = d.author(a);
    }
    if let Some(a) = n.s("date") {
        d = d.date(a);
    }
    for k in &n.c {
        d = match k.t.as_str() {
            "r" => d.add_run(run(k)),
            "cmS" => d.add_comment_start(comment(k)),
            "cmE" => d.add_comment_end(k.u("id").unwrap_or(1)),
            _ => d,
        };
    }
    d
}

fn insert(n: &Node) -> Insert {
    let mut d = Insert::new_with_empty();
    if let Some(a) = n.s("author") {
        d = d.author(a);
    }
    if let Some(a) = n.s("date") {
        d = d.date(a);
    }
    for k in &n.c {
        d = match k.t.as_str() {
            "r" => d.add_run(run(k)),
            "del" => d.add_delete(delete(k)),
            "cmS" => d.add_comment_start(comment(k)),
            "cmE" => d.add_comment_end(k.u("id").unwrap_or(1)),
            _ => d,
        };
    }
    d
}

fn move_from(n: &Node) -> MoveFrom {
    let mut d = MoveFrom::new();
    if let Some(a) = n.s("author") {
        d = d.author(a);
    }
    if let Some(a) = n.s("date") {
        d = d.date(a);
    }
    for k in &n.c {
        d = match k.t.as_str() {
            "r" => d.add_run(run(k)),
            "cmS" => d.add_comment_start(comment(k)),
            "cmE" => d.add_comment_end(k.u("id").unwrap_or(1)),
            _ => d,
        };
    }
    d
}

fn move_to(n: &Node) -> MoveTo {
    let mut d = MoveTo::new_with_empty();
    if let Some(a) = n.s("author") {
        d = d.author(a);
    }
    if let Some(a) = n.s("date") {
        d = d.date(a);
    }
    for k in &n.c {
        d = match k.t.as_str() {
            "r" => d.add_run(run(k)),
            "del" => d.add_delete(delete(k)),
            "cmS" => d.add_comment_start(comment(k)),
            "cmE" => d.add_comment_end(k.u("id").unwrap_or(1)),
            _ => d,
        };
    }
    d
}

pub fn link(n: &Node) -> Hyperlink {
    let mut h = if n.has("anchor") {
        Hyperlink::new(n.str("anchor"), HyperlinkType::Anchor)
    } else {
        Hyperlink::new(n.s("url").unwrap_or("http://x/"), HyperlinkType::External)
    };
    if let (Some(v), HyperlinkData::External { rid, .. }) = (n.s("rid"), &mut h.link) {
        *rid = v.to_string();
    }
    for k in &n.c {
        h = match k.t.as_str() {
            "r" => h.add_run(run(k)),
            "ins" => h.add_insert(insert(k)),
            "del" => h.add_delete(delete(k)),
            "sdt" => h.add_structured_data_tag(sdt(k)),
            "bmS" => h.add_bookmark_start(k.u("id").unwrap_or(1), k.str("name")),
            "bmE" => h.add_bookmark_end(k.u("id").unwrap_or(1)),
            "cmS" => h.add_comment_start(comment(k)),
            "cmE" => h.add_comment_end(k.u("id").unwrap_or(1)),
            _ => h,
        };
    }
    h
}

pub fn sdt(n: &Node) -> StructuredDataTag {
    let mut s = StructuredDataTag::new();
    if let Some(a) = n.s("alias") {
        s = s.alias(a);
    }
    if let Some(d) = n.sub("bind") {
        let mut b = DataBinding::new();
        if let Some(x) = d.s("xpath") {
            b = b.xpath(x);
        }
        if let Some(x) = d.s("prefix") {
            b = b.prefix_mappings(x);
        }
        if let Some(x) = d.s("store") {
            b = b.store_item_id(x);
        }
        s = s.data_binding(b);
    }
    for k in &n.c {
        s = match k.t.as_str() {
            "r" => s.add_run(run(k)),
            "p" => s.add_paragraph(paragraph(k)),
            "tbl" => s.add_table(table(k)),
            "bmS" => {
                s.children.push(StructuredDataTagChild::BookmarkStart(BookmarkStart::new(k.u("id").unwrap_or(1), k.str("name"))));
                s
            }
            "bmE" => {
                s.children.push(StructuredDataTagChild::BookmarkEnd(BookmarkEnd::new(k.u("id").unwrap_or(1))));
                s
            }
            "cmS" => {
                s.children.push(StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(comment(k)))));
                s
            }
            "cmE" => {
                s.children.push(StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(k.u("id").unwrap_or(1))));
                s
            }
            "sdt" => {
                s.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(sdt(k))));
                s
            }
            _ => s,
        };
    }
    s
}

pub fn paragraph(n: &Node) -> Paragraph {
    let mut p = Paragraph::new();
    if let Some(id) = n.s("pid") {
        p = p.id(id);
    }
    if let Some(d) = n.sub("pp") {
        p.property = para_prop(&d);
        // set through the builder: it also records that the paragraph is numbered
        if let Some(Value::Array(a)) = d.p.get("num") {
            if a.len() == 2 {
                p = p.numbering(
                    NumberingId::new(a[0].as_u64().unwrap_or(1) as usize),
                    IndentLevel::new(a[1].as_u64().unwrap_or(0) as usize),
                );
            }
        }
    }
    if let Some(d) = n.sub("pdel") {
        p = p.delete(d.str("author"), d.str("date"));
    }
    if let Some(d) = n.sub("pins") {
        p = p.insert(d.str("author"), d.str("date"));
    }
    for k in &n.c {
        p = match k.t.as_str() {
            "r" => p.add_run(run(k)),
            "ins" => p.add_insert(insert(k)),
            "del" => p.add_delete(delete(k)),
            "mvF" => p.add_move_from(move_from(k)),
            "mvT" => p.add_move_to(move_to(k)),
            "link" => p.add_hyperlink(link(k)),
            "bmS" => p.add_bookmark_start(k.u("id").unwrap_or(1), k.str("name")),
            "bmE" => p.add_bookmark_end(k.u("id").unwrap_or(1)),
            "cmS" => p.add_comment_start(comment(k)),
            "cmE" => p.add_comment_end(k.u("id").unwrap_or(1)),
            "sdt" => p.add_structured_data_tag(sdt(k)),
            "pageNum" => p.add_page_num(PageNum::new()),
            "numPages" => p.add_num_pages(NumPages::new()),
            "ends" => p.section_property(section_end(k)),
            _ => p,
        };
    }
    p
}

/// The property of a section that ends with a paragraph; the reference ids are the caller's.
fn section_end(n: &Node) -> SectionProperty {
    let mut s = SectionProperty::new();
    for (i, k) in n.c.iter().enumerate() {
        let id = format!("rIdEnd{i}");
        s = match (k.t.as_str(), k.i("kind").unwrap_or(0) % 3) {
            ("header", 0) => s.header(header(k), &id),
            ("header", 1) => s.first_header(header(k), &id),
            ("header", _) => s.even_header(header(k), &id),
            ("footer", 0) => s.footer(footer(k), &id),
            ("footer", 1) => s.first_footer(footer(k), &id),
            ("footer", _) => s.even_footer(footer(k), &id),
            _ => s,
        };
    }
    s
}

// ---------------------------------------------------------------- tables

fn table_borders(n: &Node) -> TableBorders {
    use TableBorderPosition::*;
    let mut bs = TableBorders::with_empty();
    for b in n.list("bdr") {
        bs = bs.set(
            TableBorder::new(sel(&[Left, Right, Top, Bottom, InsideH, InsideV], b.i("pos").unwrap_or(0)))
                .border_type(border_type(b.i("type").unwrap_or(0)))
                .size(b.u("size").unwrap_or(4))
                .color(b.s("color").unwrap_or("auto")),
        );
    }
    bs
}

fn cell_prop(n: &Node) -> TableCellProperty {
    let mut c = TableCellProperty::new();
    for (k, v) in &n.p {
        let i = v.as_i64().unwrap_or(0);
        c = match k.as_str() {
            "w" => c.width(i.max(0) as usize, width_type(n.i("wt").unwrap_or(0))),
            "vmerge" => c.vertical_merge(sel(&[VMergeType::Continue, VMergeType::Restart], i)),
            "valign" => c.vertical_align(sel(&[VAlignType::Top, VAlignType::Center, VAlignType::Bottom], i)),
            "dir" => {
                use TextDirectionType::*;
                c.text_direction(sel(&[Lr, LrV, Rl, RlV, Tb, TbV, TbRlV, TbRl, BtLr, LrTbV], i))
            }
            "span" => c.grid_span(i.max(1) as usize),
            "shd" => match n.sub("shd") {
                Some(d) => c.shading(shading(&d)),
                _ => c,
            },
            "bdr" => {
                use TableCellBorderPosition::*;
                let mut bs = TableCellBorders::with_empty();
                for b in n.list("bdr") {
                    bs = bs.set(
                        TableCellBorder::new(sel(&[Left, Right, Top, Bottom, InsideH, InsideV, Tl2br, Tr2bl], b.i("pos").unwrap_or(0)))
                            .border_type(border_type(b.i("type").unwrap_or(0)))
                            .size(b.u("size").unwrap_or(4))
                            .color(b.s("color").unwrap_or("auto")),
                    );
                }
                c.set_borders(bs)
            }
            "mt" => c.margin_top(i.max(0) as usize, WidthType::Dxa),
            "mr" => c.margin_right(i.max(0) as usize, WidthType::Dxa),
            "mb" => c.margin_bottom(i.max(0) as usize, WidthType::Dxa),
            "ml" => c.margin_left(i.max(0) as usize, WidthType::Dxa),
            _ => c,
        };
    }
    c
}

fn cell(n: &Node) -> TableCell {
    let mut c = TableCell::new();
    if let Some(d) = n.sub("cp") {
        c.property = cell_prop(&d);
    }
    for k in &n.c {
        c = match k.t.as_str() {
            "p" => c.add_paragraph(paragraph(k)),
            "tbl" => c.add_table(table(k)),
            "sdt" => c.add_structured_data_tag(sdt(k)),
            "toc" => c.add_table_of_contents(toc(k)),
            _ => c,
        };
    }
    c
}

fn row(n: &Node) -> TableRow {
    let mut r = TableRow::new(n.c.iter().filter(|k| k.t == "tc").map(cell).collect());
    for (k, v) in &n.p {
        let i = v.as_i64().unwrap_or(0);
        let f = i as f32;
        r = match k.as_str() {
            "gridAfter" => r.grid_after(i as u32),
            "widthAfter" => r.width_after(f),
            "gridBefore" => r.grid_before(i as u32),
            "widthBefore" => r.width_before(f),
            "height" => r.row_height(f),
            "rule" => r.height_rule(sel(&[HeightRule::Auto, HeightRule::AtLeast, HeightRule::Exact], i)),
            "cant" => r.cant_split(),
            "rdel" => match n.sub("rdel") {
                Some(d) => r.delete(delete(&d)),
                _ => r,
            },
            "rins" => match n.sub("rins") {
                Some(d) => r.insert(insert(&d)),
                _ => r,
            },
            _ => r,
        };
    }
    r
}

fn cell_margins(d: &Node) -> TableCellMargins {
    TableCellMargins::new().margin(d.u("t").unwrap_or(0), d.u("r").unwrap_or(0), d.u("b").unwrap_or(0), d.u("l").unwrap_or(0))
}

fn table_prop(n: &Node, mut t: TableProperty) -> TableProperty {
    for (k, v) in &n.p {
        let i = v.as_i64().unwrap_or(0);
        t = match k.as_str() {
            "indent" => t.indent(i as i32),
            "align" => t.align(sel(&[TableAlignmentType::Center, TableAlignmentType::Left, TableAlignmentType::Right], i)),
            "style" => t.style(v.as_str().unwrap_or("")),
            "layout" => t.layout(sel(&[TableLayoutType::Fixed, TableLayoutType::Autofit], i)),
            "w" => t.width(i.max(0) as usize, width_type(n.i("wt").unwrap_or(0))),
            "margins" => match n.sub("margins") {
                Some(d) => t.set_margins(cell_margins(&d)),
                _ => t,
            },
            "bdr" => t.set_borders(table_borders(n)),
            "pos" => match n.sub("pos") {
                Some(d) => {
                    let mut p = TablePositionProperty::new();
                    if let Some(x) = oi32(&d, "left") {
                        p = p.left_from_text(x);
                    }
                    if let Some(x) = oi32(&d, "right") {
                        p = p.right_from_text(x);
                    }
                    if let Some(x) = d.s("vAnchor") {
                        p = p.vertical_anchor(x);
                    }
                    if let Some(x) = d.s("hAnchor") {
                        p = p.horizontal_anchor(x);
                    }
                    if let Some(x) = d.s("xAlign") {
                        p = p.position_x_alignment(x);
                    }
                    if let Some(x) = d.s("yAlign") {
                        p = p.position_y_alignment(x);
                    }
                    if let Some(x) = oi32(&d, "x") {
                        p = p.position_x(x);
                    }
                    if let Some(x) = oi32(&d, "y") {
                        p = p.position_y(x);
                    }
                    t.position(p)
                }
                _ => t,
            },
            _ => t,
        };
    }
    t
}

pub fn table(n: &Node) -> Table {
    let rows: Vec<TableRow> = n.c.iter().filter(|k| k.t == "tr").map(row).collect();
    let mut t = if n.has("noBorders") { Table::without_borders(rows) } else { Table::new(rows) };
    if let Some(d) = n.sub("tp") {
        t.property = table_prop(&d, t.property.clone());
    }
    if let Some(Value::Array(a)) = n.p.get("grid") {
        t = t.set_grid(a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect());
    }
    t
}

// ---------------------------------------------------------------- document level

pub fn toc(n: &Node) -> TableOfContents {
    let mut t = TableOfContents::new();
    if let Some(to) = n.u("to") {
        t = t.heading_styles_range(1, to.max(1));
    }
    if let Some(a) = n.s("alias") {
        t = t.alias(a);
    }
    if n.has("auto") {
        t = t.auto();
    }
    if n.has("hyper") {
        t = t.hyperlink();
    }
    if n.has("dirty") {
        t = t.dirty();
    }
    if n.has("noSdt") {
        t = t.without_sdt();
    }
    if n.has("tc") {
        t = t.tc_field_identifier(n.s("tc").map(|x| x.to_string()));
    }
    if let Some(x) = n.s("styled") {
        t = t.add_style_with_level(StyleWithLevel::new(x, 2));
    }
    if let Some(d) = n.sub("pp") {
        t = t.paragraph_property(para_prop(&d));
    }
    if let Some(d) = n.sub("tdel") {
        t = t.delete(d.str("author"), d.str("date"));
    }
    for k in &n.c {
        t = match k.t.as_str() {
            "item" => t.add_item(
                TableOfContentsItem::new()
                    .text(k.str("text"))
                    .level(k.u("level").unwrap_or(1))
                    .toc_key(k.s("key").unwrap_or("_Toc90000001"))
                    .page_ref(k.s("page").unwrap_or("2")),
            ),
            "p" => {
                if k.has("after") {
                    t.add_after_paragraph(paragraph(k))
                } else {
                    t.add_before_paragraph(paragraph(k))
                }
            }
            "tbl" => {
                if k.has("after") {
                    t.add_after_table(table(k))
                } else {
                    t.add_before_table(table(k))
                }
            }
            _ => t,
        };
    }
    t
}

pub fn header(n: &Node) -> Header {
    let mut h = Header::new();
    for k in &n.c {
        h = match k.t.as_str() {
            "p" => h.add_paragraph(paragraph(k)),
            "tbl" => h.add_table(table(k)),
            "sdt" => {
                h.children.push(HeaderChild::StructuredDataTag(Box::new(sdt(k))));
                h
            }
            _ => h,
        };
    }
    h
}

pub fn footer(n: &Node) -> Footer {
    let mut h = Footer::new();
    for k in &n.c {
        h = match k.t.as_str() {
            "p" => h.add_paragraph(paragraph(k)),
            "tbl" => h.add_table(table(k)),
            "sdt" => {
                h.children.push(FooterChild::StructuredDataTag(Box::new(sdt(k))));
                h
            }
            _ => h,
        };
    }
    h
}

pub fn section(n: &Node) -> Section {
    let mut s = Section::new();
    for k in &n.c {
        s = match k.t.as_str() {
            "p" => s.add_paragraph(paragraph(k)),
            "tbl" => s.add_table(table(k)),
            "bmS" => s.add_bookmark_start(k.u("id").unwrap_or(1), k.str("name")),
            "bmE" => s.add_bookmark_end(k.u("id").unwrap_or(1)),
            "cmS" => s.add_comment_start(comment(k)),
            "cmE" => s.add_comment_end(k.u("id").unwrap_or(1)),
            "header" => match k.i("kind").unwrap_or(0) % 3 {
                0 => s.header(header(k)),
                1 => s.first_header(header(k)),
                _ => s.even_header(header(k)),
            },
            "footer" => match k.i("kind").unwrap_or(0) % 3 {
                0 => s.footer(footer(k)),
                1 => s.first_footer(footer(k)),
                _ => s.even_footer(footer(k)),
            },
            _ => s,
        };
    }
    s
}

pub fn style(n: &Node) -> Style {
    use StyleType::*;
    let mut s = Style::new(n.s("id").unwrap_or("S"), sel(&[Paragraph, Character, Table, Numbering], n.i("type").unwrap_or(0)));
    for (k, v) in &n.p {
        let t = v.as_str().unwrap_or("");
        s = match k.as_str() {
            "name" => s.name(t),
            "basedOn" => s.based_on(t),
            "next" => s.next(t),
            "link" => s.link(t),
            "q" => s.q_format(v.as_bool().unwrap_or(true)),
            "ui" => s.ui_priority(v.as_u64().unwrap_or(0) as usize),
            "semi" => s.semi_hidden(),
            "unhide" => s.unhide_when_used(),
            _ => s,
        };
    }
    if let Some(d) = n.sub("rp") {
        s.run_property = run_prop(&d);
    }
    if let Some(d) = n.sub("pp") {
        s.paragraph_property = para_prop(&d);
        if let Some([id, lvl]) = d.p.get("num").and_then(|v| v.as_array()).map(|a| &a[..]) {
            s.paragraph_property = s.paragraph_property.numbering(NumberingId::new(id.as_u64().unwrap_or(1) as usize), IndentLevel::new(lvl.as_u64().unwrap_or(0) as usize));
        }
    }
    if let Some(d) = n.sub("tp") {
        s = s.table_property(table_prop(&d, TableProperty::new()));
    }
    if let Some(d) = n.sub("cp") {
        s = s.table_cell_property(cell_prop(&d));
    }
    s
}

fn level(n: &Node) -> Level {
    let mut l = Level::new(
        n.u("lvl").unwrap_or(0),
        Start::new(n.u("start").unwrap_or(1)),
        NumberFormat::new(n.s("fmt").unwrap_or("decimal")),
        LevelText::new(n.s("text").unwrap_or("%1.")),
        LevelJc::new(n.s("jc").unwrap_or("left")),
    );
    if let Some(d) = n.sub("indent") {
        let (a, b, c, e) = indent_args(&d);
        l = l.indent(a, b, c, e);
    }
    if let Some(v) = n.s("pstyle") {
        l = l.paragraph_style(v);
    }
    if let Some(v) = n.i("suff") {
        l = l.suffix(sel(&[LevelSuffixType::Nothing, LevelSuffixType::Space, LevelSuffixType::Tab], v));
    }
    if let Some(v) = n.i("restart") {
        l = l.level_restart(v as u32);
    }
    if n.has("lgl") {
        l = l.is_lgl();
    }
    if let Some(d) = n.sub("rp") {
        l.run_property = run_prop(&d);
    }
    l
}

fn page_margin(d: &Node) -> PageMargin {
    let mut m = PageMargin::new();
    for (k, v) in &d.p {
        let i = v.as_i64().unwrap_or(0) as i32;
        m = match k.as_str() {
            "t" => m.top(i),
            "l" => m.left(i),
            "b" => m.bottom(i),
            "r" => m.right(i),
            "h" => m.header(i),
            "f" => m.footer(i),
            "g" => m.gutter(i),
            _ => m,
        };
    }
    m
}

pub const BLOCKS: [&str; 6] = ["p", "tbl", "sdt", "toc", "bmS", "bmE"];

/// Applies one document-level builder call.
pub fn apply(d: Docx, k: &Node) -> Docx {
    match k.t.as_str() {
        "p" => d.add_paragraph(paragraph(k)),
        "tbl" => d.add_table(table(k)),
        "sdt" => d.add_structured_data_tag(sdt(k)),
        "toc" => d.add_table_of_contents(toc(k)),
        "bmS" => d.add_bookmark_start(k.u("id").unwrap_or(1), k.str("name")),
        "bmE" => d.add_bookmark_end(k.u("id").unwrap_or(1)),
        "cmS" => {
            let mut d = d;
            d.document = d.document.add_comment_start(comment(k));
            d
        }
        "cmE" => {
            let mut d = d;
            d.document = d.document.add_comment_end(k.u("id").unwrap_or(1));
            d
        }
        "columns" => {
            let mut d = d;
            d.document = d.document.columns(k.u("v").unwrap_or(1));
            d
        }
        "textDir" => {
            let mut d = d;
            d.document = d.document.text_direction(k.str("v"));
            d
        }
        "docGrid" => {
            let mut g = DocGrid::with_empty();
            if let Some(t) = k.i("t") {
                g = g.grid_type(sel(&[DocGridType::Default, DocGridType::Lines, DocGridType::LinesAndChars, DocGridType::SnapToChars], t));
            }
            if let Some(t) = k.u("lines") {
                g = g.line_pitch(t);
            }
            if let Some(t) = k.i("chars") {
                g = g.char_space(t as isize);
            }
            let mut d = d;
            d.document = d.document.doc_grid(g);
            d
        }
        "tight" => {
            let mut d = d;
            d.settings = d.settings.adjust_line_height_in_table();
            d
        }
        "punct" => {
            use CharacterSpacingValues::*;
            let mut d = d;
            d.settings = d.settings.character_spacing_control(sel(&[CompressPunctuation, CompressPunctuationAndJapaneseKana, DoNotCompress], k.i("v").unwrap_or(0)));
            d
        }
        "sect" => d.add_section(section(k)),
        "header" => match k.i("kind").unwrap_or(0) % 3 {
            0 => d.header(header(k)),
            1 => d.first_header(header(k)),
            _ => d.even_header(header(k)),
        },
        "footer" => match k.i("kind").unwrap_or(0) % 3 {
            0 => d.footer(footer(k)),
            1 => d.first_footer(footer(k)),
            _ => d.even_footer(footer(k)),
        },
        "style" => d.add_style(style(k)),
        "absnum" => {
            let mut a = AbstractNumbering::new(k.u("id").unwrap_or(1));
            for l in &k.c {
                a = a.add_level(level(l));
            }
            if let Some(v) = k.s("styleLink") {
                a = a.style_link(v);
            }
            if let Some(v) = k.s("numStyleLink") {
                a = a.num_style_link(v);
            }
            d.add_abstract_numbering(a)
        }
        "num" => {
            let mut n = Numbering::new(k.u("id").unwrap_or(1), k.u("abs").unwrap_or(1));
            for o in &k.c {
                let mut lo = LevelOverride::new(o.u("lvl").unwrap_or(0));
                if let Some(s) = o.u("start") {
                    lo = lo.start(s);
                }
                if let Some(l) = o.c.first() {
                    lo = lo.level(level(l));
                }
                n = n.add_override(lo);
            }
            d.add_numbering(n)
        }
        "prop" => d.custom_property(k.str("name"), k.str("v")),
        "created" => d.created_at(k.s("v").unwrap_or("")),
        "updated" => d.updated_at(k.s("v").unwrap_or("")),
        "docId" => d.doc_id(k.s("v").unwrap_or("")),
        "tabStop" => d.default_tab_stop(k.u("v").unwrap_or(840)),
        "docVar" => d.add_doc_var(k.s("name").unwrap_or(""), k.s("v").unwrap_or("")),
        "titlePg" => d.title_pg(),
        "pageSize" => d.page_size(k.i("w").unwrap_or(100) as u32, k.i("h").unwrap_or(100) as u32),
        "pageMargin" => d.page_margin(page_margin(k)),
        "orient" => d.page_orient(sel(&[PageOrientationType::Landscape, PageOrientationType::Portrait], k.i("v").unwrap_or(0))),
        "defSize" => d.default_size(k.u("v").unwrap_or(20)),
        "defSpacing" => d.default_spacing(k.i("v").unwrap_or(0) as i32),
        "defFonts" => d.default_fonts(fonts(k)),
        "defLs" => d.default_line_spacing(line_spacing(k)),
        "pageNum" => {
            let mut p = PageNumType::new();
            if let Some(s) = k.i("start") {
                p = p.start(s as u32);
            }
            if let Some(s) = k.s("chap") {
                p = p.chap_style(s);
            }
            d.page_num_type(p)
        }
        "taskpanes" => d.taskpanes(),
        "webext" => {
            let mut w = WebExtension::new(k.str("id"), k.str("ref"), k.str("ver"), k.str("store"), k.str("st"));
            for p in &k.c {
                w = w.property(p.str("name"), p.str("v"));
            }
            d.web_extension(w)
        }
        "custom" => d.add_custom_item(k.s("id").unwrap_or("06AC5857-5C65-A94A-BCEC-37356A209BC3"), k.s("xml").unwrap_or("<root/>")),
        _ => d,
    }
}

pub fn build_docx(n: &Node) -> Docx {
    n.c.iter().fold(Docx::new(), apply)
}

/// A block made apart from its document, for instance on another thread.
#[derive(Clone)]
pub enum Piece {
    Paragraph(Paragraph),
    Table(Table),
    Sdt(StructuredDataTag),
    Toc(TableOfContents),
    Section(Section),
    Header(i64, Header),
    Footer(i64, Footer),
    /// Not a block: applied directly when the document is put together.
    Call(Node),
}

pub fn piece(k: &Node) -> Piece {
    match k.t.as_str() {
        "p" => Piece::Paragraph(paragraph(k)),
        "tbl" => Piece::Table(table(k)),
        "sdt" => Piece::Sdt(sdt(k)),
        "toc" => Piece::Toc(toc(k)),
        "sect" => Piece::Section(section(k)),
        "header" => Piece::Header(k.i("kind").unwrap_or(0), header(k)),
        "footer" => Piece::Footer(k.i("kind").unwrap_or(0), footer(k)),
        _ => Piece::Call(k.clone()),
    }
}

pub fn attach(d: Docx, p: Piece) -> Docx {
    match p {
        Piece::Paragraph(x) => d.add_paragraph(x),
        Piece::Table(x) => d.add_table(x),
        Piece::Sdt(x) => d.add_structured_data_tag(x),
        Piece::Toc(x) => d.add_table_of_contents(x),
        Piece::Section(x) => d.add_section(x),
        Piece::Header(0, x) => d.header(x),
        Piece::Header(1, x) => d.first_header(x),
        Piece::Header(_, x) => d.even_header(x),
        Piece::Footer(0, x) => d.footer(x),
        Piece::Footer(1, x) => d.first_footer(x),
        Piece::Footer(_, x) => d.even_footer(x),
        Piece::Call(n) => apply(d, &n),
    }
}
