//! Generators of text and numbers shared by the checks.
use crate::src::Src;

const NASTY: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "&lt;", "]]>", "<!--", "-->", "<?xml ?>", "_x0041_", "_x000D_", "_x", "_x00_", "_X0041_", "_x0041", "_xFFFF_", "\t", "\n", "\r", "\r\n", "  ", " ", "\u{1}", "\u{8}", "\u{b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{2028}",
    "\u{200b}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{fffe}", "é", "ß", "İ", "ı", "中", "𝄞", "😀", "👩‍👩‍👧", "\u{301}", "<r>", "</r>", "<t>", "<r><t>x</t></r>", "=", "{", "}", "{=", "#", "!", "$", "%20", "\\", "/", "@", "+", "-", "1", "0", "-0", "1e5", "TRUE", "#N/A", "http://a.b/c", "mailto:x@y", "internal:A!A1", ".", ",", ";", ":",
];

/// Any text, weighted towards characters that need special handling.
pub fn text(s: &mut Src, max: usize) -> String {
    let n = s.small(0, max);
    let mut o = String::new();
    let mut len = 0;
    while len < n {
        let piece: String = match s.below(8) {
            0..=2 => ((b'a' + s.u8(0, 25)) as char).to_string(),
            3 => (s.u8(0x20, 0x7e) as char).to_string(),
            4..=5 => (*s.pick(NASTY)).to_string(),
            6 => ch(s).to_string(),
            _ => (*s.pick(&["abc", "Foo Bar", "x1", "A1", "Sheet1"])).to_string(),
        };
        len += piece.encode_utf16().count();
        if len > max {
            break;
        }
        o.push_str(&piece);
    }
    o
}

pub fn text1(s: &mut Src, max: usize) -> String {
    let t = text(s, max);
    if t.is_empty() {
        ((b'a' + s.u8(0, 25)) as char).to_string()
    } else {
        t
    }
}

/// Text restricted to characters legal in XML 1.0.
pub fn xml_text(s: &mut Src, max: usize) -> String {
    text(s, max).chars().filter(|c| crate::xml::is_xml_char(*c)).collect()
}

/// Printable text: no control characters, tabs or line breaks.
pub fn line_text(s: &mut Src, max: usize) -> String {
    text(s, max).chars().filter(|c| crate::xml::is_xml_char(*c) && !c.is_control()).collect()
}

pub fn ch(s: &mut Src) -> char {
    loop {
        let v = match s.below(5) {
            0 => s.u32(0x20, 0x7e),
            1 => s.u32(0, 0xff),
            2 => s.u32(0x100, 0xd7ff),
            3 => s.u32(0xe000, 0xffff),
            _ => s.u32(0x10000, 0x10ffff),
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

pub fn word(s: &mut Src, max: usize) -> String {
    let n = s.small(1, max);
    (0..n).map(|_| (b'a' + s.u8(0, 25)) as char).collect()
}

/// Any finite or non-finite double, weighted to interesting shapes.
pub fn any_f64(s: &mut Src) -> f64 {
    match s.below(9) {
        0 => s.int(0, 10) as f64,
        1 => s.int(-1_000_000, 1_000_000) as f64,
        2 => s.int(-10_000_000, 10_000_000) as f64 / 100.0,
        3 => *s.pick(&[0.0, -0.0, 0.1, 0.1 + 0.2, 1e15, 1e16, 123_456_789_012_345_680.0, 9_007_199_254_740_993.0, 1e21, 1e-7, 1e-5, 5e-324, 2.2250738585072014e-308, f64::MAX, f64::MIN, f64::EPSILON, 1.0 / 3.0, 1e100, 4.35, 99_999.999_999_999_99]),
        4 => f64::from_bits(s.any64()),
        5 => s.int(i64::MIN / 2, i64::MAX / 2) as f64,
        6 => 10f64.powi(s.int(-320, 308) as i32),
        7 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        _ => (s.int(1, 1 << 53) as f64) * 2f64.powi(s.int(-1070, 900) as i32),
    }
}

pub fn finite(s: &mut Src) -> f64 {
    let v = any_f64(s);
    if v.is_finite() {
        v
    } else {
        1.5
    }
}

/// Fraction with few decimals, for dimensions.
pub fn dec(s: &mut Src, lo: i64, hi: i64, den: i64) -> f64 {
    s.int(lo * den, hi * den) as f64 / den as f64
}

/// A text that is easily confused with `t` but different from it.
pub fn near(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let letters: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
    match s.below(8) {
        0..=3 if !letters.is_empty() => {
            let i = *s.pick(&letters);
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
        4 => v.push(' '),
        5 => v.insert(0, ' '),
        6 if v.len() > 1 => {
            let (i, j) = (s.idx(v.len()), s.idx(v.len()));
            if v[i] == v[j] { v.push(v[i]) } else { v.swap(i, j) }
        }
        _ => {
            let i = s.idx(v.len() + 1);
            v.insert(i, '0');
        }
    }
    v.into_iter().collect()
}
