//! Elements that other producers write and the library's own writer does not, as a small grammar.
//! Grown subtrees widen the stored packages that media faults are applied to.
use simrt::prng::Rng;

/// name, attributes, children; "#" is text.
const GRAMMAR: &[(&str, &str, &str)] = &[
    ("w:body", "", "w:p w:p w:tbl w:sdt w:sectPr w:bookmarkStart w:bookmarkEnd w:commentRangeStart w:commentRangeEnd"),
    ("w:hdr", "", "w:p w:tbl w:sdt"),
    ("w:ftr", "", "w:p w:tbl w:sdt"),
    ("w:comments", "", "w:comment"),
    ("w:comment", "w:id w:author w:date w:initials", "w:p w:tbl"),
    ("w:footnotes", "", "w:footnote"),
    ("w:footnote", "w:id w:type", "w:p"),
    ("w15:commentsEx", "", "w15:commentEx"),
    ("w15:commentEx", "w15:paraId w15:paraIdParent w15:done", ""),
    ("w:p", "w14:paraId", "w:pPr w:r w:r w:hyperlink w:ins w:del w:moveFrom w:moveTo w:bookmarkStart w:bookmarkEnd w:commentRangeStart w:commentRangeEnd w:sdt w:fldSimple mc:AlternateContent"),
    ("w:pPr", "", "w:pStyle w:ind w:jc w:numPr w:spacing w:shd w:tabs w:pBdr w:keepNext w:keepLines w:pageBreakBefore w:widowControl w:framePr w:outlineLvl w:snapToGrid w:textAlignment w:adjustRightInd w:sectPr w:rPr w:pPrChange w:divId"),
    ("w:pPrChange", "w:id w:author w:date", "w:pPr"),
    ("w:numPr", "", "w:ilvl w:numId"),
    ("w:ilvl", "w:val", ""),
    ("w:numId", "w:val", ""),
    ("w:pStyle", "w:val", ""),
    ("w:rStyle", "w:val", ""),
    ("w:tblStyle", "w:val", ""),
    ("w:ind", "w:left w:right w:start w:end w:hanging w:firstLine w:leftChars w:startChars w:hangingChars w:firstLineChars", ""),
    ("w:jc", "w:val", ""),
    ("w:spacing", "w:before w:after w:line w:lineRule w:beforeLines w:afterLines w:val", ""),
    ("w:shd", "w:val w:color w:fill", ""),
    ("w:tabs", "", "w:tab w:tab"),
    ("w:tab", "w:val w:pos w:leader", ""),
    ("w:pBdr", "", "w:top w:left w:bottom w:right w:between w:bar"),
    ("w:top", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:left", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:start", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:bottom", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:right", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:end", "w:val w:sz w:space w:color w:w w:type", ""),
    ("w:between", "w:val w:sz w:space w:color", ""),
    ("w:bar", "w:val w:sz w:space w:color", ""),
    ("w:insideH", "w:val w:sz w:space w:color", ""),
    ("w:insideV", "w:val w:sz w:space w:color", ""),
    ("w:tl2br", "w:val w:sz w:space w:color", ""),
    ("w:tr2bl", "w:val w:sz w:space w:color", ""),
    ("w:keepNext", "w:val", ""),
    ("w:keepLines", "w:val", ""),
    ("w:pageBreakBefore", "w:val", ""),
    ("w:widowControl", "w:val", ""),
    ("w:framePr", "w:w w:h w:hRule w:hAnchor w:vAnchor w:hSpace w:vSpace w:wrap w:x w:y w:xAlign w:yAlign", ""),
    ("w:outlineLvl", "w:val", ""),
    ("w:snapToGrid", "w:val", ""),
    ("w:textAlignment", "w:val", ""),
    ("w:adjustRightInd", "w:val", ""),
    ("w:divId", "w:val", ""),
    ("w:r", "", "w:rPr w:t w:t w:delText w:tab w:ptab w:br w:cr w:sym w:fldChar w:instrText w:drawing w:pict w:footnoteReference w:commentReference mc:AlternateContent w:noBreakHyphen"),
    ("w:rPr", "", "w:rStyle w:b w:bCs w:i w:iCs w:caps w:strike w:dstrike w:vanish w:specVanish w:u w:sz w:szCs w:color w:highlight w:vertAlign w:spacing w:fitText w:rFonts w:bdr w:shd w:ins w:del w:rPrChange w:lang w:position"),
    ("w:rPrChange", "w:id w:author w:date", "w:rPr"),
    ("w:b", "w:val", ""),
    ("w:bCs", "w:val", ""),
    ("w:i", "w:val", ""),
    ("w:iCs", "w:val", ""),
    ("w:caps", "w:val", ""),
    ("w:strike", "w:val", ""),
    ("w:dstrike", "w:val", ""),
    ("w:vanish", "w:val", ""),
    ("w:specVanish", "w:val", ""),
    ("w:u", "w:val w:color", ""),
    ("w:sz", "w:val", ""),
    ("w:szCs", "w:val", ""),
    ("w:color", "w:val w:themeColor w:themeTint w:themeShade", ""),
    ("w:highlight", "w:val", ""),
    ("w:vertAlign", "w:val", ""),
    ("w:fitText", "w:val w:id", ""),
    ("w:rFonts", "w:ascii w:hAnsi w:eastAsia w:cs w:asciiTheme w:hAnsiTheme w:eastAsiaTheme w:cstheme w:hint", ""),
    ("w:bdr", "w:val w:sz w:space w:color", ""),
    ("w:t", "xml:space", "#"),
    ("w:delText", "xml:space", "#"),
    ("w:ptab", "w:alignment w:relativeTo w:leader", ""),
    ("w:br", "w:type w:clear", ""),
    ("w:cr", "", ""),
    ("w:sym", "w:font w:char", ""),
    ("w:fldChar", "w:fldCharType w:dirty w:fldLock", ""),
    ("w:instrText", "xml:space", "#"),
    ("w:fldSimple", "w:instr w:dirty", "w:r"),
    ("w:footnoteReference", "w:id", ""),
    ("w:commentReference", "w:id", ""),
    ("w:hyperlink", "r:id w:anchor w:history w:tooltip", "w:r w:r w:ins w:del w:bookmarkStart w:commentRangeStart w:commentRangeEnd"),
    ("w:ins", "w:id w:author w:date", "w:r w:del w:p w:commentRangeStart w:commentRangeEnd"),
    ("w:del", "w:id w:author w:date", "w:r w:p w:commentRangeStart w:commentRangeEnd"),
    ("w:moveFrom", "w:id w:author w:date", "w:r w:del w:commentRangeStart w:commentRangeEnd"),
    ("w:moveTo", "w:id w:author w:date", "w:r w:del w:commentRangeStart w:commentRangeEnd"),
    ("w:bookmarkStart", "w:id w:name", ""),
    ("w:bookmarkEnd", "w:id", ""),
    ("w:commentRangeStart", "w:id", ""),
    ("w:commentRangeEnd", "w:id", ""),
    ("w:sdt", "", "w:sdtPr w:sdtContent"),
    ("w:sdtPr", "", "w:alias w:dataBinding w:rPr w:docPartObj"),
    ("w:sdtContent", "", "w:p w:r w:tbl w:sdt w:bookmarkStart w:commentRangeStart"),
    ("w:alias", "w:val", ""),
    ("w:dataBinding", "w:xpath w:storeItemID w:prefixMappings", ""),
    ("w:tbl", "", "w:tblPr w:tblGrid w:tr w:tr"),
    ("w:tblPr", "", "w:tblStyle w:tblW w:tblInd w:jc w:tblBorders w:tblCellMar w:tblpPr w:tblLayout w:tblPrChange"),
    ("w:tblPrChange", "w:id w:author w:date", "w:tblPr"),
    ("w:tblW", "w:w w:type", ""),
    ("w:tblInd", "w:w w:type", ""),
    ("w:tblLayout", "w:type", ""),
    ("w:tblBorders", "", "w:top w:left w:start w:bottom w:right w:end w:insideH w:insideV"),
    ("w:tblCellMar", "", "w:top w:left w:start w:bottom w:right w:end"),
    ("w:tblpPr", "w:leftFromText w:rightFromText w:topFromText w:bottomFromText w:vertAnchor w:horzAnchor w:tblpX w:tblpY w:tblpXSpec w:tblpYSpec", ""),
    ("w:tblGrid", "", "w:gridCol w:gridCol w:tblGridChange"),
    ("w:tblGridChange", "w:id", "w:tblGrid"),
    ("w:gridCol", "w:w", ""),
    ("w:tr", "", "w:trPr w:tc w:tc w:sdt w:bookmarkStart"),
    ("w:trPr", "", "w:gridAfter w:gridBefore w:wAfter w:wBefore w:trHeight w:ins w:del w:cantSplit w:trPrChange"),
    ("w:trPrChange", "w:id w:author w:date", "w:trPr"),
    ("w:gridAfter", "w:val", ""),
    ("w:gridBefore", "w:val", ""),
    ("w:wAfter", "w:w w:type", ""),
    ("w:wBefore", "w:w w:type", ""),
    ("w:trHeight", "w:val w:hRule", ""),
    ("w:cantSplit", "w:val", ""),
    ("w:tc", "", "w:tcPr w:p w:p w:tbl w:sdt"),
    ("w:tcPr", "", "w:tcW w:tcBorders w:vMerge w:gridSpan w:textDirection w:vAlign w:shd w:tcMar w:tcPrChange"),
    ("w:tcPrChange", "w:id w:author w:date", "w:tcPr"),
    ("w:tcW", "w:w w:type", ""),
    ("w:tcBorders", "", "w:top w:left w:start w:bottom w:right w:end w:insideH w:insideV w:tl2br w:tr2bl"),
    ("w:vMerge", "w:val", ""),
    ("w:gridSpan", "w:val", ""),
    ("w:textDirection", "w:val", ""),
    ("w:vAlign", "w:val", ""),
    ("w:tcMar", "", "w:top w:left w:start w:bottom w:right w:end"),
    ("w:sectPr", "", "w:headerReference w:footerReference w:type w:pgSz w:pgMar w:pgNumType w:titlePg w:docGrid w:cols w:textDirection"),
    ("w:headerReference", "w:type r:id", ""),
    ("w:footerReference", "w:type r:id", ""),
    ("w:type", "w:val", ""),
    ("w:pgSz", "w:w w:h w:orient", ""),
    ("w:pgMar", "w:top w:left w:bottom w:right w:header w:footer w:gutter", ""),
    ("w:pgNumType", "w:start w:chapStyle", ""),
    ("w:titlePg", "w:val", ""),
    ("w:docGrid", "w:type w:linePitch w:charSpace", ""),
    ("w:cols", "w:space w:num", ""),
    ("w:styles", "", "w:docDefaults w:style w:style w:latentStyles"),
    ("w:docDefaults", "", "w:rPrDefault w:pPrDefault"),
    ("w:rPrDefault", "", "w:rPr"),
    ("w:pPrDefault", "", "w:pPr"),
    ("w:style", "w:styleId w:type w:default", "w:name w:basedOn w:next w:link w:pPr w:rPr w:tblPr w:tcPr w:uiPriority w:tblStylePr"),
    ("w:tblStylePr", "w:type", "w:rPr w:tcPr w:tblPr"),
    ("w:name", "w:val", ""),
    ("w:basedOn", "w:val", ""),
    ("w:next", "w:val", ""),
    ("w:link", "w:val", ""),
    ("w:numbering", "", "w:abstractNum w:num w:num"),
    ("w:abstractNum", "w:abstractNumId", "w:lvl w:lvl w:numStyleLink w:styleLink w:multiLevelType"),
    ("w:numStyleLink", "w:val", ""),
    ("w:styleLink", "w:val", ""),
    ("w:lvl", "w:ilvl", "w:start w:numFmt w:lvlText w:lvlJc w:pStyle w:pPr w:rPr w:suff w:isLgl w:lvlRestart w:lvlPicBulletId"),
    ("w:numFmt", "w:val", ""),
    ("w:lvlText", "w:val", ""),
    ("w:lvlJc", "w:val", ""),
    ("w:suff", "w:val", ""),
    ("w:isLgl", "w:val", ""),
    ("w:lvlRestart", "w:val", ""),
    ("w:num", "w:numId", "w:abstractNumId w:lvlOverride"),
    ("w:abstractNumId", "w:val", ""),
    ("w:lvlOverride", "w:ilvl", "w:startOverride w:lvl"),
    ("w:startOverride", "w:val", ""),
    ("w:settings", "", "w:defaultTabStop w:evenAndOddHeaders w:adjustLineHeightInTable w:characterSpacingControl w:docVars w15:docId w:zoom"),
    ("w:defaultTabStop", "w:val", ""),
    ("w:evenAndOddHeaders", "w:val", ""),
    ("w:adjustLineHeightInTable", "w:val", ""),
    ("w:characterSpacingControl", "w:val", ""),
    ("w:docVars", "", "w:docVar w:docVar"),
    ("w:docVar", "w:name w:val", ""),
    ("w15:docId", "w15:val", ""),
    ("w:webSettings", "", "w:divs w:div"),
    ("w:divs", "", "w:div w:div"),
    ("w:div", "w:id", "w:marLeft w:marRight w:marTop w:marBottom w:divsChild"),
    ("w:marLeft", "w:val", ""),
    ("w:marRight", "w:val", ""),
    ("w:marTop", "w:val", ""),
    ("w:marBottom", "w:val", ""),
    ("w:divsChild", "", "w:div w:div"),
    ("w:drawing", "", "wp:inline wp:anchor"),
    ("wp:inline", "distT distB distL distR", "wp:extent wp:docPr a:graphic"),
    ("wp:anchor", "distT distB distL distR simplePos relativeHeight layoutInCell allowOverlap", "wp:simplePos wp:positionH wp:positionV wp:extent wp:effectExtent wp:wrapNone wp:docPr a:graphic"),
    ("wp:simplePos", "x y", ""),
    ("wp:positionH", "relativeFrom", "wp:posOffset wp:align"),
    ("wp:positionV", "relativeFrom", "wp:posOffset wp:align"),
    ("wp:posOffset", "", "#"),
    ("wp:align", "", "#"),
    ("wp:extent", "cx cy", ""),
    ("wp:docPr", "id name", ""),
    ("a:graphic", "", "a:graphicData"),
    ("a:graphicData", "uri", "pic:pic wps:wsp"),
    ("pic:pic", "", "pic:blipFill pic:spPr"),
    ("pic:blipFill", "", "a:blip"),
    ("a:blip", "r:embed", ""),
    ("pic:spPr", "", "a:xfrm a:prstGeom"),
    ("a:xfrm", "rot", "a:off a:ext"),
    ("a:off", "x y", ""),
    ("a:ext", "cx cy", ""),
    ("wps:wsp", "", "wps:cNvSpPr wps:spPr wps:txbx wps:bodyPr"),
    ("wps:txbx", "", "w:txbxContent"),
    ("w:txbxContent", "", "w:p w:tbl"),
    ("w:pict", "", "v:shape v:rect"),
    ("v:shape", "style id", "v:imagedata v:textbox"),
    ("v:rect", "style id", "v:textbox"),
    ("v:textbox", "style", "w:txbxContent"),
    ("v:imagedata", "r:id", ""),
    ("mc:AlternateContent", "", "mc:Choice mc:Fallback"),
    ("mc:Choice", "Requires", "w:drawing w:r"),
    ("mc:Fallback", "", "w:pict w:r"),
    ("a:themeElements", "", "a:fontScheme"),
    ("a:fontScheme", "name", "a:majorFont a:minorFont"),
    ("a:majorFont", "", "a:latin a:ea a:cs a:font"),
    ("a:minorFont", "", "a:latin a:ea a:cs a:font"),
    ("a:latin", "typeface", ""),
    ("a:ea", "typeface", ""),
    ("a:cs", "typeface", ""),
    ("a:font", "script typeface", ""),
    ("Relationships", "", "Relationship Relationship"),
    ("Relationship", "Id Type Target TargetMode", ""),
    ("Types", "", "Default Override"),
    ("Default", "Extension ContentType", ""),
    ("Override", "PartName ContentType", ""),
    ("Properties", "", "property"),
    ("property", "fmtid pid name", "vt:lpwstr vt:i4"),
    ("vt:lpwstr", "", "#"),
    ("vt:i4", "", "#"),
];

const PLAIN: &[&str] = &[
    "0", "1", "2", "3", "9", "20", "240", "720", "9000", "-360", "12.5", "10pt", "50%", "auto", "none", "nil", "single", "double", "center", "left", "right", "both", "start", "end", "top", "bottom", "decimal",
    "bullet", "dxa", "pct", "restart", "continue", "exact", "atLeast", "tbRl", "lrTb", "page", "column", "margin", "text", "default", "first", "even", "odd", "begin", "separate", "nextPage", "continuous", "lines",
    "superscript", "FF0000", "red", "Normal", "Heading1", "rId1", "rId2", "tab", "nothing", "true", "false", "on", "off", "dot", "clear", "indent", "paragraph", "character", "table", "numbering", "preserve", "F0E0",
    "12345678", "2024-01-02T03:04:05Z", "majorEastAsia", "accent1", "External", "compressPunctuation", "a b", "png",
];
pub const ODD: &[&str] = &[
    "", " ", "0", "-1", "1", "5", "+7", "1.5", "-0.0", "1e400", "NaN", "inf", "99999999999999999999", "-99999999999999999999", "4294967296", "2147483648", "true", "off", "auto", "none", "50%", "%", "é日", "x:y:z",
    "pt", "-pt", "é", "{", "x", "1:", "65536", "256", "18446744073709551615", "-2147483649", "0x10", "日本pt",
];

fn rule(name: &str) -> Option<&'static (&'static str, &'static str, &'static str)> {
    GRAMMAR.iter().find(|g| g.0 == name)
}

/// Whether something can be grown inside this element.
pub fn grows(name: &str) -> bool {
    rule(name).is_some_and(|g| !g.2.is_empty() && g.2 != "#")
}

fn one(r: &mut Rng, name: &str, odd: u32, depth: usize, out: &mut String) {
    let (attrs, kids) = rule(name).map(|g| (g.1, g.2)).unwrap_or(("", ""));
    out.push_str(&format!("<{name}"));
    let many = *r.pick(&[300, 800, 800, 1000]);
    let mut names: Vec<&str> = attrs.split_whitespace().collect();
    if names.is_empty() && kids.is_empty() && r.permille(500) {
        names.push("w:val");
    }
    for a in names {
        if r.permille(many) {
            let v: &str = if r.permille(odd) { *r.pick(ODD) } else { *r.pick(PLAIN) };
            out.push_str(&format!(" {a}=\"{v}\""));
        }
    }
    if kids.is_empty() || depth == 0 {
        out.push_str("/>");
        return;
    }
    out.push('>');
    let kids: Vec<&str> = kids.split_whitespace().collect();
    if kids == ["#"] {
        let v: &str = if r.permille(odd) { *r.pick(ODD) } else { *r.pick(PLAIN) };
        out.push_str(v);
    } else {
        for _ in 0..r.us(4) {
            let k = *r.pick(&kids);
            one(r, k, odd, depth - 1, out);
        }
    }
    out.push_str(&format!("</{name}>"));
}

/// A subtree that belongs inside the given element.
pub fn grow(r: &mut Rng, parent: &str, odd: u32) -> String {
    let mut s = String::new();
    let kids: Vec<&str> = rule(parent).map(|g| g.2).unwrap_or("").split_whitespace().collect();
    if !kids.is_empty() {
        for _ in 0..1 + r.us(3) {
            let k = *r.pick(&kids);
            let depth = 1 + r.us(4);
            one(r, k, odd, depth, &mut s);
        }
    }
    s
}

/// An element of the vocabulary wherever it may stand.
pub fn any(r: &mut Rng, odd: u32) -> String {
    let mut s = String::new();
    let k = r.pick(GRAMMAR).0;
    let depth = r.us(4);
    one(r, k, odd, depth, &mut s);
    s
}
