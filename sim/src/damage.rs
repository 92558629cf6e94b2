//! Media faults on stored bytes, at the level of bytes, archive fields, XML tokens and entries.
//! Positions are fractions (1/2^20) so that a plan stays meaningful when the document shrinks.
use crate::pkg::Entry;
use crate::vocab::{self, ODD};
use serde_json::{json, Value};
use simrt::prng::{mix, Rng};

fn pos(v: &Value, k: &str, len: usize) -> usize {
    let a = v[k].as_i64().unwrap_or(0);
    if a < 0 {
        return len.saturating_sub(a.unsigned_abs() as usize);
    }
    ((a as u128 * len as u128) >> 20) as usize
}

pub fn frac(r: &mut Rng) -> i64 {
    if r.permille(120) {
        -(r.range(1, 120))
    } else {
        r.below(1 << 20) as i64
    }
}

/// Faults of a block device or of a careless transfer.
pub fn gen_bytes(r: &mut Rng) -> Value {
    let n = *r.pick(&[1i64, 2, 4, 16, 64, 512, 512, 4096]);
    match r.us(8) {
        0 | 1 => json!({"k": "flip", "at": frac(r), "bit": r.below(8)}),
        2 => json!({"k": "zero", "at": frac(r), "n": n}),
        3 => json!({"k": "garbage", "at": frac(r), "n": n, "seed": r.below(1 << 30)}),
        4 => json!({"k": "trunc", "at": frac(r)}),
        5 => json!({"k": "drop", "at": frac(r), "n": n}),
        6 => json!({"k": "dup", "at": frac(r), "n": n}),
        _ => json!({"k": "swap", "at": frac(r), "to": frac(r), "n": n}),
    }
}

/// Applies one fault; the result says whether anything changed.
pub fn bytes(d: &mut Vec<u8>, f: &Value) -> bool {
    if d.is_empty() {
        return false;
    }
    let before = d.clone();
    let len = d.len();
    let at = pos(f, "at", len).min(len - 1);
    let n = (f["n"].as_i64().unwrap_or(1).max(1) as usize).min(len - at);
    match f["k"].as_str().unwrap_or("") {
        "flip" => d[at] ^= 1 << (f["bit"].as_i64().unwrap_or(0) & 7),
        "zero" => d[at..at + n].fill(0),
        "garbage" => {
            let s = f["seed"].as_u64().unwrap_or(0);
            for i in 0..n {
                d[at + i] = mix(s, i as u64) as u8;
            }
        }
        "trunc" => d.truncate(at),
        "drop" => {
            d.drain(at..at + n);
        }
        "dup" => {
            let b = d[at..at + n].to_vec();
            let tail = d.split_off(at + n);
            d.extend(b);
            d.extend(tail);
        }
        "swap" => {
            let to = pos(f, "to", len).min(len - n);
            for i in 0..n {
                d.swap(at + i, to + i);
            }
        }
        _ => {}
    }
    *d != before
}

const NUMBERS: [u64; 9] = [0, 1, 0xff, 0xffff, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffe, 0x1_0000, 0x100_0000];

/// A lying field near an archive record: sizes, offsets, counts, names, flags.
pub fn gen_field(r: &mut Rng) -> Value {
    json!({"k": "field", "rec": r.below(1000), "off": 4 + r.below(44), "w": *r.pick(&[1, 2, 2, 4, 4]), "v": *r.pick(&NUMBERS)})
}

pub fn field(d: &mut [u8], f: &Value) -> bool {
    let recs: Vec<usize> = (0..d.len().saturating_sub(4)).filter(|&i| d[i] == b'P' && d[i + 1] == b'K' && d[i + 2] < 9 && d[i + 3] < 9).collect();
    if recs.is_empty() {
        return false;
    }
    let at = recs[f["rec"].as_u64().unwrap_or(0) as usize % recs.len()] + f["off"].as_u64().unwrap_or(4) as usize;
    let w = f["w"].as_u64().unwrap_or(4).clamp(1, 8) as usize;
    let v = f["v"].as_u64().unwrap_or(0).to_le_bytes();
    if at + w > d.len() || d[at..at + w] == v[..w] {
        return false;
    }
    d[at..at + w].copy_from_slice(&v[..w]);
    true
}

const FRAGMENTS: [&str; 12] = [
    "<w:p/>", "<w:r><w:t>x</w:t></w:r>", "</w:p>", "<w:tbl>", "&#0;", "&bogus;", "<![CDATA[<w:p>]]>", "<!-- c -->", "<?pi?>", "]]>", "<a:b xmlns:a=\"u\"/>", "<w:sdt><w:sdtContent/></w:sdt>",
];

/// An element of the vocabulary, some of its values being damaged.
pub fn gen_grow(r: &mut Rng, odd: u32) -> Value {
    json!({"k": "grow", "at": frac(r), "seed": r.below(1 << 40), "odd": odd, "kind": r.permille(600), "main": r.permille(500)})
}

pub fn gen_token(r: &mut Rng) -> Value {
    match r.us(14) {
        10..=12 => gen_grow(r, 400),
        13 => json!({"k": "stray", "at": frac(r), "seed": r.below(1 << 40)}),
        0 => json!({"k": "dropTag", "at": frac(r)}),
        1 => json!({"k": "dupTag", "at": frac(r)}),
        2 => json!({"k": "swapTag", "at": frac(r), "to": frac(r)}),
        3 => json!({"k": "moveTag", "at": frac(r), "to": frac(r)}),
        4..=6 => json!({"k": "attr", "at": frac(r), "v": *r.pick(ODD)}),
        7 => json!({"k": "dropAttr", "at": frac(r)}),
        8 => json!({"k": "insert", "at": frac(r), "v": *r.pick(&FRAGMENTS)}),
        _ => json!({"k": "rename", "at": frac(r), "to": frac(r)}),
    }
}

/// Ranges of tags.
fn tags(d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        if d[i] == b'<' {
            if let Some(n) = d[i..].iter().position(|&b| b == b'>') {
                v.push((i, i + n + 1));
                i += n + 1;
                continue;
            }
        }
        i += 1;
    }
    v
}

/// Ranges of (whole attribute, value) in tags.
fn attrs(d: &[u8]) -> Vec<((usize, usize), (usize, usize))> {
    let mut out = vec![];
    for (a, b) in tags(d) {
        let mut i = a;
        while i + 1 < b {
            if d[i] == b'=' && d[i + 1] == b'"' {
                if let Some(n) = d[i + 2..b].iter().position(|&c| c == b'"') {
                    let mut s = i;
                    while s > a && d[s - 1] != b' ' {
                        s -= 1;
                    }
                    out.push(((s, i + 3 + n), (i + 2, i + 2 + n)));
                    i += 3 + n;
                    continue;
                }
            }
            i += 1;
        }
    }
    out
}

fn tag_name(d: &[u8], t: (usize, usize)) -> (usize, usize) {
    let mut a = t.0 + 1;
    if d.get(a) == Some(&b'/') {
        a += 1;
    }
    let mut b = a;
    while b < t.1 && !matches!(d[b], b' ' | b'>' | b'/') {
        b += 1;
    }
    (a, b)
}

pub fn token(d: &mut Vec<u8>, f: &Value) -> bool {
    let before = d.clone();
    let ts = tags(d);
    if ts.is_empty() {
        return false;
    }
    let t = ts[pos(f, "at", ts.len()).min(ts.len() - 1)];
    let u = ts[pos(f, "to", ts.len()).min(ts.len() - 1)];
    let put = |d: &mut Vec<u8>, r: (usize, usize), s: &[u8]| {
        d.splice(r.0..r.1, s.iter().copied());
    };
    match f["k"].as_str().unwrap_or("") {
        "dropTag" => put(d, t, b""),
        "dupTag" => {
            let s = d[t.0..t.1].to_vec();
            put(d, (t.1, t.1), &s)
        }
        "swapTag" if t.1 <= u.0 || u.1 <= t.0 => {
            let (a, b) = if t.0 < u.0 { (t, u) } else { (u, t) };
            let (sa, sb) = (d[a.0..a.1].to_vec(), d[b.0..b.1].to_vec());
            put(d, b, &sa);
            put(d, a, &sb);
        }
        "moveTag" => {
            let s = d[t.0..t.1].to_vec();
            put(d, (u.0, u.0), &s);
        }
        "rename" => {
            let (a, b) = (tag_name(d, t), tag_name(d, u));
            let s = d[b.0..b.1].to_vec();
            put(d, a, &s);
        }
        "attr" | "dropAttr" => {
            let at = attrs(d);
            if at.is_empty() {
                return false;
            }
            let (whole, val) = at[pos(f, "at", at.len()).min(at.len() - 1)];
            if f["k"] == "attr" {
                put(d, val, f["v"].as_str().unwrap_or("").as_bytes())
            } else {
                put(d, whole, b"")
            }
        }
        "grow" => {
            let name_of = |x: &(usize, usize)| {
                let n = tag_name(d, *x);
                String::from_utf8_lossy(&d[n.0..n.1]).into_owned()
            };
            let mut fit: Vec<(usize, usize)> = ts.iter().filter(|x| d[x.0 + 1] != b'/' && d[x.1 - 2] != b'/' && vocab::grows(&name_of(x))).copied().collect();
            if f["kind"] == true {
                // each kind of element once, however often it occurs
                let mut seen = std::collections::BTreeSet::new();
                fit.retain(|x| seen.insert(name_of(x)));
            }
            if let Some(&x) = fit.get(pos(f, "at", fit.len()).min(fit.len().max(1) - 1)) {
                let n = tag_name(d, x);
                let name = String::from_utf8_lossy(&d[n.0..n.1]).into_owned();
                let mut r = Rng::new(f["seed"].as_u64().unwrap_or(0));
                let s = vocab::grow(&mut r, &name, f["odd"].as_u64().unwrap_or(0) as u32);
                put(d, (x.1, x.1), s.as_bytes());
            }
        }
        "stray" => {
            let s = vocab::any(&mut Rng::new(f["seed"].as_u64().unwrap_or(0)), 400);
            put(d, (t.1, t.1), s.as_bytes());
        }
        "insert" => put(d, (t.1, t.1), f["v"].as_str().unwrap_or("").as_bytes()),
        _ => {}
    }
    *d != before
}

/// Faults on one stored part, the checksum being right afterwards.
pub fn gen_part(r: &mut Rng) -> Value {
    let mut f = if r.permille(700) { gen_token(r) } else { gen_bytes(r) };
    f["part"] = r.below(1 << 20).into();
    f
}

pub fn part(d: &mut Vec<u8>, f: &Value) -> bool {
    token(d, f) || bytes(d, f)
}

/// Faults on the set of entries.
pub fn gen_entry(r: &mut Rng) -> Value {
    let k = *r.pick(&["remove", "empty", "exchange", "copy", "upper"]);
    json!({"k": k, "part": r.below(1 << 20), "to": r.below(1 << 20)})
}

pub fn entry(es: &mut Vec<Entry>, f: &Value) -> bool {
    if es.is_empty() {
        return false;
    }
    let a = pos(f, "part", es.len()).min(es.len() - 1);
    let b = pos(f, "to", es.len()).min(es.len() - 1);
    match f["k"].as_str().unwrap_or("") {
        "remove" => {
            es.remove(a);
        }
        "empty" => es[a].data.clear(),
        "exchange" => {
            let (x, y) = (es[a].data.clone(), es[b].data.clone());
            es[a].data = y;
            es[b].data = x;
        }
        "copy" => es[a].data = es[b].data.clone(),
        "upper" => es[a].name = es[a].name.to_ascii_uppercase(),
        _ => return false,
    }
    true
}
