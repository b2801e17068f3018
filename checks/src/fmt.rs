//! Generator and reference model of cell formats.
use crate::util::*;

/// A colour together with the attributes it must be stored with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Col(pub Color);

const TINT_DARK: [&str; 6] = ["", "-4.9989318521683403E-2", "-0.14999847407452621", "-0.249977111117893", "-0.34998626667073579", "-0.499984740745262"];
const TINT_LIGHT: [&str; 6] = ["", "0.499984740745262", "0.34998626667073579", "0.249977111117893", "0.14999847407452621", "4.9989318521683403E-2"];
const TINT_BG2: [&str; 6] = ["", "-9.9978637043366805E-2", "-0.249977111117893", "-0.499984740745262", "-0.749992370372631", "-0.89999084444715716"];
const TINT_ACC: [&str; 6] = ["", "0.79998168889431442", "0.59999389629810485", "0.39997558519241921", "-0.249977111117893", "-0.499984740745262"];

pub const NAMED: &[(Color, &str)] = &[
    (Color::Black, "000000"),
    (Color::Blue, "0000FF"),
    (Color::Brown, "800000"),
    (Color::Cyan, "00FFFF"),
    (Color::Gray, "808080"),
    (Color::Green, "008000"),
    (Color::Lime, "00FF00"),
    (Color::Magenta, "FF00FF"),
    (Color::Navy, "000080"),
    (Color::Orange, "FF6600"),
    (Color::Pink, "FFC0CB"),
    (Color::Purple, "800080"),
    (Color::Red, "FF0000"),
    (Color::Silver, "C0C0C0"),
    (Color::White, "FFFFFF"),
    (Color::Yellow, "FFFF00"),
];

pub fn rgb6(c: Color) -> Option<String> {
    match c {
        Color::RGB(v) => Some(format!("{v:06X}")),
        _ => NAMED.iter().find(|x| x.0 == c).map(|x| x.1.to_string()),
    }
}

/// `theme`/`tint`/`rgb` attributes of a spreadsheet colour element.
pub fn color_attrs(c: Color, mut e: Elem) -> Elem {
    match c {
        Color::Theme(t, sh) => {
            e = e.a("theme", t);
            let tab = match t {
                0 => &TINT_DARK,
                1 => &TINT_LIGHT,
                2 => &TINT_BG2,
                _ => &TINT_ACC,
            };
            if sh > 0 {
                e = e.a("tint", tab[usize::from(sh)]);
            }
            e
        }
        _ => match rgb6(c) {
            Some(x) => e.a("rgb", format!("FF{x}")),
            None => e,
        },
    }
}

/// A concrete colour: named, RGB or theme.
pub fn gen_color(s: &mut Src) -> Color {
    match s.below(5) {
        0..=1 => s.pick(NAMED).0,
        2 => Color::RGB(s.u32(0, 0xFF_FFFF)),
        3 => Color::RGB(*s.pick(&[0u32, 1, 0xFF, 0xFF00, 0xFF_0000, 0xFF_FFFF, 0x0A_0B0C])),
        _ => Color::Theme(s.u8(0, 9), s.u8(0, 5)),
    }
}
pub fn gen_rgb(s: &mut Src) -> Color {
    if s.bool() {
        s.pick(NAMED).0
    } else {
        Color::RGB(s.u32(0, 0xFF_FFFF))
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub enum Num {
    #[default]
    None,
    Id(u8),
    Code(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fm {
    pub bold: bool,
    pub italic: bool,
    pub strike: bool,
    pub underline: u8,
    pub script: u8,
    pub size: String,
    pub color: Color,
    pub name: String,
    pub family: u8,
    pub charset: u8,
    pub scheme: String,
    pub hyperlink: bool,
    pub hal: u8,
    pub val: u8,
    pub wrap: bool,
    pub shrink: bool,
    pub indent: u8,
    pub rot: i16,
    pub rdir: u8,
    pub pattern: usize,
    pub fg: Color,
    pub bg: Color,
    /// left, right, top, bottom, diagonal
    pub bstyle: [usize; 5],
    pub bcolor: [Color; 5],
    pub diag: u8,
    pub num: Num,
    pub unlocked: bool,
    pub hidden: bool,
    pub quote: bool,
    pub checkbox: bool,
}

impl Default for Fm {
    fn default() -> Fm {
        Fm {
            bold: false, italic: false, strike: false, underline: 0, script: 0, size: "11".into(), color: Color::Default, name: "Calibri".into(), family: 2, charset: 0, scheme: "minor".into(),
            hyperlink: false, hal: 0, val: 0, wrap: false, shrink: false, indent: 0, rot: 0, rdir: 0, pattern: 0, fg: Color::Default, bg: Color::Default, bstyle: [0; 5], bcolor: [Color::Default; 5],
            diag: 0, num: Num::None, unlocked: false, hidden: false, quote: false, checkbox: false,
        }
    }
}

pub const PATTERNS: &[(FormatPattern, &str)] = &[
    (FormatPattern::None, "none"), (FormatPattern::Solid, "solid"), (FormatPattern::MediumGray, "mediumGray"), (FormatPattern::DarkGray, "darkGray"), (FormatPattern::LightGray, "lightGray"),
    (FormatPattern::DarkHorizontal, "darkHorizontal"), (FormatPattern::DarkVertical, "darkVertical"), (FormatPattern::DarkDown, "darkDown"), (FormatPattern::DarkUp, "darkUp"), (FormatPattern::DarkGrid, "darkGrid"),
    (FormatPattern::DarkTrellis, "darkTrellis"), (FormatPattern::LightHorizontal, "lightHorizontal"), (FormatPattern::LightVertical, "lightVertical"), (FormatPattern::LightDown, "lightDown"), (FormatPattern::LightUp, "lightUp"),
    (FormatPattern::LightGrid, "lightGrid"), (FormatPattern::LightTrellis, "lightTrellis"), (FormatPattern::Gray125, "gray125"), (FormatPattern::Gray0625, "gray0625"),
];
pub const BORDERS: &[(FormatBorder, &str)] = &[
    (FormatBorder::None, "none"), (FormatBorder::Thin, "thin"), (FormatBorder::Medium, "medium"), (FormatBorder::Dashed, "dashed"), (FormatBorder::Dotted, "dotted"), (FormatBorder::Thick, "thick"), (FormatBorder::Double, "double"),
    (FormatBorder::Hair, "hair"), (FormatBorder::MediumDashed, "mediumDashed"), (FormatBorder::DashDot, "dashDot"), (FormatBorder::MediumDashDot, "mediumDashDot"), (FormatBorder::DashDotDot, "dashDotDot"),
    (FormatBorder::MediumDashDotDot, "mediumDashDotDot"), (FormatBorder::SlantDashDot, "slantDashDot"),
];
const HALS: &[(FormatAlign, &str)] = &[(FormatAlign::General, ""), (FormatAlign::Left, "left"), (FormatAlign::Center, "center"), (FormatAlign::Right, "right"), (FormatAlign::Fill, "fill"), (FormatAlign::Justify, "justify"), (FormatAlign::CenterAcross, "centerContinuous"), (FormatAlign::Distributed, "distributed")];
const VALS: &[(FormatAlign, &str)] = &[(FormatAlign::General, ""), (FormatAlign::Top, "top"), (FormatAlign::Bottom, ""), (FormatAlign::VerticalCenter, "center"), (FormatAlign::VerticalJustify, "justify"), (FormatAlign::VerticalDistributed, "distributed")];
const ULINES: &[(FormatUnderline, &str)] = &[(FormatUnderline::None, ""), (FormatUnderline::Single, ""), (FormatUnderline::Double, "double"), (FormatUnderline::SingleAccounting, "singleAccounting"), (FormatUnderline::DoubleAccounting, "doubleAccounting")];
const NUMS: &[&str] = &["0", "0.00", "#,##0", "0.000", "yyyy-mm-dd", "m/d/yy", "hh:mm:ss", "General", "@", "\"<&>\"0", "$#,##0.00;[Red]-$#,##0.00", "0.00 \"é\"", "0%", "[Blue]0;[Red]-0;0", "_(* #,##0_);_(* \\(#,##0\\)", "0_x0041_", "   0", "0\"\"", "d mmm yyyy", "0;;;@"];

pub fn font_size_str(v: f64) -> String {
    format!("{v}")
}

/// One random `Format` call, mirrored on the model.
fn step(s: &mut Src, f: Format, m: &mut Fm, d: &mut Vec<String>) -> Format {
    let k = s.weighted(&[6, 6, 3, 4, 3, 5, 6, 4, 2, 2, 2, 7, 3, 3, 4, 2, 2, 4, 6, 5, 4, 4, 4, 4, 3, 7, 3, 2, 2, 2, 1, 1, 3, 3, 10]);
    if k < 34 {
        return step_of(k, s, f, m, d);
    }
    // Several settings which bear on each other.
    let group: &[usize] = *s.pick(&[&[17usize, 18, 19] as &[usize], &[17, 18, 19], &[0, 1, 2, 3, 4, 6], &[5, 7, 8, 9, 10], &[11, 11, 12, 13, 14, 15, 16], &[20, 22, 23, 24], &[22, 23, 24, 24], &[27, 28, 29]]);
    let mut f = f;
    for &k in group {
        if s.chance(3, 4) {
            f = step_of(k, s, f, m, d);
        }
    }
    f
}

fn step_of(k: usize, s: &mut Src, f: Format, m: &mut Fm, d: &mut Vec<String>) -> Format {
    match k {
        0 => { m.bold = true; d.push("bold".into()); f.set_bold() }
        1 => { m.italic = true; d.push("italic".into()); f.set_italic() }
        2 => { m.strike = true; d.push("strike".into()); f.set_font_strikethrough() }
        3 => { let i = s.idx(5); m.underline = i as u8; d.push(format!("underline {i}")); f.set_underline(ULINES[i].0) }
        4 => { let i = s.idx(3); m.script = i as u8; d.push(format!("script {i}")); f.set_font_script([FormatScript::None, FormatScript::Superscript, FormatScript::Subscript][i]) }
        5 => {
            let v = *s.pick(&[8.0, 9.0, 10.0, 10.5, 11.0, 12.0, 14.25, 20.0, 72.0, 1.0, 409.0]);
            m.size = font_size_str(v); d.push(format!("size {v}")); f.set_font_size(v)
        }
        6 => {
            let c = if s.chance(1, 12) { *s.pick(&[Color::Default, Color::Automatic]) } else { gen_color(s) };
            m.color = c; d.push(format!("color {c:?}"));
            match c {
                Color::RGB(v) if v % 3 == 1 => f.set_font_color(v),
                Color::RGB(v) if v % 3 == 2 => f.set_font_color(format!("#{v:06x}").as_str()),
                c => f.set_font_color(c),
            }
        }
        7 => {
            let n = (*s.pick(&["Arial", "Calibri", "Times New Roman", "A&B <\"x\">", "游ゴシック", "Calibri Light", "Courier New"])).to_string();
            m.name = n.clone();
            if n != "Calibri" { m.scheme = String::new(); }
            d.push(format!("font {n:?}")); f.set_font_name(n)
        }
        8 => { let v = s.u8(0, 5); m.family = v; d.push(format!("family {v}")); f.set_font_family(v) }
        9 => { let v = *s.pick(&[0u8, 1, 2, 128, 204, 255]); m.charset = v; d.push(format!("charset {v}")); f.set_font_charset(v) }
        10 => { let v = *s.pick(&["", "minor", "major"]); m.scheme = v.into(); d.push(format!("scheme {v:?}")); f.set_font_scheme(v) }
        11 => {
            if s.bool() { let i = s.idx(HALS.len()); m.hal = i as u8; if i == 0 { m.val = 0 } d.push(format!("align {:?}", HALS[i].0)); f.set_align(HALS[i].0) }
            else { let i = s.idx(VALS.len()); m.val = i as u8; if i == 0 { m.hal = 0 } d.push(format!("align {:?}", VALS[i].0)); f.set_align(VALS[i].0) }
        }
        12 => { m.wrap = true; d.push("wrap".into()); f.set_text_wrap() }
        13 => { m.shrink = true; d.push("shrink".into()); f.set_shrink() }
        14 => { let v = *s.pick(&[0u8, 1, 2, 3, 15, 250]); m.indent = v; d.push(format!("indent {v}")); f.set_indent(v) }
        15 => {
            let v = *s.pick(&[0i16, 1, 30, 45, 89, 90, -1, -45, -89, -90, 270, 91, -91, 180, 360]);
            d.push(format!("rotation {v}"));
            match v { 270 => m.rot = 255, -90..=-1 => m.rot = 90 - v, 0..=90 => m.rot = v, _ => {} }
            f.set_rotation(v)
        }
        16 => { let v = s.u8(0, 3); if v < 3 { m.rdir = v; } d.push(format!("reading {v}")); f.set_reading_direction(v) }
        17 => { let i = if s.chance(1, 3) { 1 } else { s.idx(PATTERNS.len()) }; m.pattern = i; d.push(format!("pattern {:?}", PATTERNS[i].0)); f.set_pattern(PATTERNS[i].0) }
        18 => { let c = gen_color(s); m.bg = c; d.push(format!("bg {c:?}")); f.set_background_color(c) }
        19 => { let c = gen_color(s); m.fg = c; d.push(format!("fg {c:?}")); f.set_foreground_color(c) }
        20 => { let i = s.idx(BORDERS.len()); for k in 0..4 { m.bstyle[k] = i } d.push(format!("border {:?}", BORDERS[i].0)); f.set_border(BORDERS[i].0) }
        21 => { let c = border_color(s); for k in 0..4 { m.bcolor[k] = c } d.push(format!("border_color {c:?}")); f.set_border_color(c) }
        22 => {
            let (k, i) = (s.idx(5), s.idx(BORDERS.len()));
            let b = BORDERS[i].0; m.bstyle[k] = i; d.push(format!("border[{k}] {b:?}"));
            match k { 0 => f.set_border_left(b), 1 => f.set_border_right(b), 2 => f.set_border_top(b), 3 => f.set_border_bottom(b), _ => f.set_border_diagonal(b) }
        }
        23 => {
            let (k, c) = (s.idx(5), border_color(s)); m.bcolor[k] = c; d.push(format!("border_color[{k}] {c:?}"));
            match k { 0 => f.set_border_left_color(c), 1 => f.set_border_right_color(c), 2 => f.set_border_top_color(c), 3 => f.set_border_bottom_color(c), _ => f.set_border_diagonal_color(c) }
        }
        24 => {
            let i = s.idx(4); m.diag = i as u8; d.push(format!("diagonal type {i}"));
            f.set_border_diagonal_type([FormatDiagonalBorder::None, FormatDiagonalBorder::BorderUp, FormatDiagonalBorder::BorderDown, FormatDiagonalBorder::BorderUpDown][i])
        }
        25 => {
            let n = if s.chance(1, 4) { format!("0.{}", "0".repeat(s.small(1, 12))) } else { (*s.pick(NUMS)).to_string() };
            m.num = Num::Code(n.clone()); d.push(format!("num {n:?}")); f.set_num_format(n)
        }
        26 => {
            let v = if s.bool() { s.u8(1, 22) } else { s.u8(37, 49) };
            m.num = Num::Id(v); d.push(format!("num index {v}")); f.set_num_format_index(v)
        }
        27 => { m.unlocked = true; d.push("unlocked".into()); f.set_unlocked() }
        28 => { m.hidden = true; d.push("hidden".into()); f.set_hidden() }
        29 => { m.quote = true; d.push("quote".into()); f.set_quote_prefix() }
        30 => { m.checkbox = true; d.push("checkbox".into()); f.set_checkbox() }
        31 => {
            m.hyperlink = true; m.color = Color::Theme(10, 0); m.underline = 1; m.scheme = String::new();
            d.push("hyperlink".into()); f.set_hyperlink()
        }
        32 => match s.below(10) {
            0 => { m.bold = false; d.push("unset_bold".into()); f.unset_bold() }
            1 => { m.italic = false; d.push("unset_italic".into()); f.unset_italic() }
            2 => { m.strike = false; d.push("unset_strike".into()); f.unset_font_strikethrough() }
            3 => { m.wrap = false; d.push("unset_wrap".into()); f.unset_text_wrap() }
            4 => { m.shrink = false; d.push("unset_shrink".into()); f.unset_shrink() }
            5 => { m.unlocked = false; d.push("locked".into()); f.set_locked() }
            6 => { m.hidden = false; d.push("unset_hidden".into()); f.unset_hidden() }
            7 => { m.hyperlink = false; d.push("unset_hyperlink".into()); f.unset_hyperlink_style() }
            8 => { m.quote = false; d.push("unset_quote".into()); f.unset_quote_prefix() }
            _ => { m.checkbox = false; d.push("unset_checkbox".into()); f.unset_checkbox() }
        },
        _ => {
            // Arguments outside the documented limits are ignored.
            let c = *s.pick(&[Color::RGB(0x0100_0000), Color::RGB(u32::MAX), Color::Theme(10, 0), Color::Theme(0, 6), Color::Theme(255, 255)]);
            d.push(format!("invalid colours {c:?}"));
            match s.below(4) {
                0 => f.set_font_color(c),
                1 => f.set_background_color(c),
                2 => f.set_foreground_color(c),
                _ => f.set_border_color(c),
            }
        }
    }
}
fn border_color(s: &mut Src) -> Color {
    if s.chance(1, 10) {
        *s.pick(&[Color::Default, Color::Automatic])
    } else {
        gen_color(s)
    }
}

pub fn gen_fmt(s: &mut Src, max: usize) -> (Format, Fm, String) {
    let mut f = Format::new();
    let mut m = Fm::default();
    let mut d = vec![];
    for _ in 0..s.small(0, max) {
        f = step(s, f, &mut m, &mut d);
    }
    (f, m, format!("[{}]", d.join(", ")))
}

/// A pool of formats with deliberate near-duplicates.
pub fn gen_pool(s: &mut Src, n: usize, max: usize) -> Vec<(Format, Fm, String)> {
    let mut v: Vec<(Format, Fm, String)> = vec![];
    for i in 0..n {
        if i > 0 && s.chance(1, 3) {
            let (mut f, mut m, d) = v[s.idx(i)].clone();
            let mut e = vec![d];
            match m.num.clone() {
                Num::Code(n) if s.chance(1, 3) => {
                    let n = gen::near(s, &n);
                    e.push(format!("num {n:?}"));
                    m.num = Num::Code(n.clone());
                    f = f.set_num_format(n);
                }
                _ if m.name != "Calibri" && s.chance(1, 4) => {
                    let n = gen::near(s, &m.name);
                    e.push(format!("font {n:?}"));
                    m.name = n.clone();
                    if n != "Calibri" { m.scheme = String::new(); }
                    f = f.set_font_name(n);
                }
                _ => f = step(s, f, &mut m, &mut e),
            }
            v.push((f, m, format!("[{}]", e.join(", "))));
        } else if i > 1 && s.chance(1, 6) {
            let (a, b) = (s.idx(i), s.idx(i));
            let f = v[a].0.merge(&v[b].0);
            let m = v[a].1.merge(&v[b].1);
            let d = format!("{}.merge({})", v[a].2, v[b].2);
            v.push((f, m, d));
        } else {
            let mut x = gen_fmt(s, max);
            if x.1 == Fm::default() {
                x = (Format::new().set_bold(), Fm { bold: true, ..Fm::default() }, "[bold]".into());
            }
            v.push(x);
        }
    }
    v
}

impl Fm {
    /// Different settings that a reader cannot tell apart.
    pub fn same_look(&self, o: &Fm) -> bool {
        self.font("font", false) == o.font("font", false) && self.fill() == o.fill() && self.border(false) == o.border(false) && self.alignments() == o.alignments()
            && self.num == o.num && self.unlocked == o.unlocked && self.hidden == o.hidden && self.quote == o.quote && self.checkbox == o.checkbox && self.hyperlink == o.hyperlink
    }

    pub fn is_default(&self) -> bool {
        *self == Fm::default()
    }

    /// Properties of `self` win, the others fill in what is still default.
    pub fn merge(&self, o: &Fm) -> Fm {
        let d = Fm::default();
        let mut m = self.clone();
        macro_rules! fill { ($($f:ident),*) => { $( if m.$f == d.$f { m.$f = o.$f.clone(); } )* } }
        fill!(bold, italic, strike, underline, script, size, color, name, family, charset, scheme, hal, val, wrap, shrink, indent, rot, rdir, pattern, fg, bg, diag, num, unlocked, hidden, quote, checkbox);
        for k in 0..5 {
            if m.bstyle[k] == 0 {
                m.bstyle[k] = o.bstyle[k];
            }
            if m.bcolor[k] == Color::Default {
                m.bcolor[k] = o.bcolor[k];
            }
        }
        m
    }

    pub fn font(&self, tag: &str, dxf: bool) -> Elem {
        let mut e = el(tag);
        let on = |e: Elem, c: bool, n: &str| e.e_if(c, || el(n));
        e = on(e, self.bold, "b");
        e = on(e, self.italic, "i");
        e = on(e, self.strike, "strike");
        e = e.e_if(self.underline > 0, || el("u").a_if(self.underline > 1, "val", ULINES[usize::from(self.underline)].1));
        e = e.e_if(self.script > 0, || el("vertAlign").a("val", ["", "superscript", "subscript"][usize::from(self.script)]));
        if !dxf {
            e = e.e(el("sz").a("val", &self.size));
        }
        match self.color {
            Color::Automatic => {}
            Color::Default => e = e.e_if(!dxf, || el("color").a("theme", 1)),
            c => e = e.e(color_attrs(c, el("color"))),
        }
        if !dxf {
            e = e.e(el(if tag == "rPr" { "rFont" } else { "name" }).a("val", &self.name));
            e = e.e_if(self.family > 0, || el("family").a("val", self.family));
            e = e.e_if(self.charset > 0, || el("charset").a("val", self.charset));
            e = e.e_if(!self.scheme.is_empty(), || el("scheme").a("val", &self.scheme));
        }
        e
    }

    pub fn fill(&self) -> Elem {
        let (mut p, mut fg, mut bg) = (self.pattern, self.fg, self.bg);
        if p <= 1 {
            match (fg == Color::Default, bg == Color::Default) {
                (true, true) => {}
                (true, false) => {
                    p = 1;
                    fg = bg;
                    bg = Color::Default;
                }
                (false, true) => p = 1,
                (false, false) => {
                    if p == 1 {
                        std::mem::swap(&mut fg, &mut bg);
                    }
                }
            }
        }
        let mut e = el("patternFill").a("patternType", PATTERNS[p].1);
        if fg != Color::Default || bg != Color::Default {
            e = e.e_if(fg != Color::Default, || color_attrs(fg, el("fgColor")));
            e = e.e(if bg == Color::Default { el("bgColor").a("indexed", 64) } else { color_attrs(bg, el("bgColor")) });
        }
        el("fill").e(e)
    }

    pub fn border(&self, dxf: bool) -> Elem {
        let mut e = el("border").a_if(self.diag & 1 == 1, "diagonalUp", 1).a_if(self.diag & 2 == 2, "diagonalDown", 1);
        for (k, n) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
            if k == 4 && dxf {
                continue;
            }
            let b = BORDERS[self.bstyle[k]].1;
            if self.bstyle[k] == 0 {
                e = e.e(el(n));
            } else {
                let c = if matches!(self.bcolor[k], Color::Default | Color::Automatic) { el("color").a("auto", 1) } else { color_attrs(self.bcolor[k], el("color")) };
                e = e.e(el(n).a("style", b).e(c));
            }
        }
        if dxf {
            e = e.e(el("vertical")).e(el("horizontal"));
        }
        e
    }

    /// Alignment attributes; several results are accepted where the documented
    /// override of the horizontal alignment by an indent is ambiguous.
    fn alignments(&self) -> Vec<BTreeMap<String, String>> {
        let mk = |hal: &str| {
            let mut m = BTreeMap::new();
            let mut put = |c: bool, k: &str, v: String| {
                if c {
                    m.insert(k.to_string(), v);
                }
            };
            put(!hal.is_empty(), "horizontal", hal.into());
            let v = VALS[usize::from(self.val)].1;
            put(!v.is_empty(), "vertical", v.into());
            put(self.rot != 0, "textRotation", self.rot.to_string());
            put(self.indent != 0, "indent", self.indent.to_string());
            put(self.wrap, "wrapText", "1".into());
            put(self.shrink && !self.wrap && !matches!(hal, "fill" | "justify" | "distributed"), "shrinkToFit", "1".into());
            put(self.rdir != 0, "readingOrder", self.rdir.to_string());
            m
        };
        let h = HALS[usize::from(self.hal)].1;
        if self.indent > 0 && !matches!(h, "left" | "right" | "distributed") {
            match VALS[usize::from(self.val)].0 {
                FormatAlign::Top | FormatAlign::Bottom => vec![mk(h)],
                FormatAlign::VerticalDistributed => vec![mk(h), mk("left")],
                _ => vec![mk("left")],
            }
        } else {
            vec![mk(h)]
        }
    }

    pub fn num_ok(&self, got: &NumFmt) -> bool {
        match (&self.num, got) {
            (Num::None, NumFmt::Id(0)) => true,
            (Num::Id(a), NumFmt::Id(b)) => usize::from(*a) == *b,
            // "General" is the built-in default however it is spelled.
            (Num::Code(a), NumFmt::Code(b)) => a == b,
            _ => false,
        }
    }

    /// The resolved style `s` of the workbook is exactly this format.
    pub fn check(&self, b: &Book, s: usize, at: &str) -> R {
        let st = b.style(s)?;
        if let Some(d) = diff(&st.font, &self.font("font", false)) {
            fail!("font", "{at}: {d}");
        }
        if self.pattern == 0 && self.fg != Color::Default && self.bg != Color::Default {
            let p = st.fill.child("patternFill").and_then(|p| p.attr("patternType")).unwrap_or("none").to_string();
            ensure!(p == "none" || p == "solid", "fill", "{at}: pattern {p:?} but none was set");
        } else if let Some(d) = diff(&st.fill, &self.fill()) {
            fail!("fill", "{at}: {d}");
        }
        if let Some(d) = diff(&st.border, &self.border(false)) {
            fail!("border", "{at}: {d}");
        }
        ensure!(self.num_ok(&st.num), "num-format", "{at}: number format {:?}, requested {:?}", st.num, self.num);
        let xf = &st.xf;
        let al: BTreeMap<String, String> = xf.child("alignment").map(|a| a.attrs.iter().cloned().collect()).unwrap_or_default();
        let want = self.alignments();
        ensure!(want.contains(&al), "alignment", "{at}: alignment {al:?}, requested {:?}", want[0]);
        ensure!(al.is_empty() || xf.attr("applyAlignment") == Some("1"), "alignment", "{at}: alignment is not applied");
        let pr = xf.child("protection");
        let flag = |k: &str, d: &str| pr.and_then(|p| p.attr(k)).unwrap_or(d) == "1";
        ensure_eq!(flag("locked", "1"), !self.unlocked, "protection", "{at}: locked");
        ensure_eq!(flag("hidden", "0"), self.hidden, "protection", "{at}: hidden");
        ensure!(pr.is_none() || xf.attr("applyProtection") == Some("1"), "protection", "{at}: protection is not applied");
        ensure_eq!(xf.attr("quotePrefix") == Some("1"), self.quote, "quote-prefix", "{at}: quote prefix");
        ensure_eq!(xf.child("extLst").is_some(), self.checkbox, "checkbox", "{at}: checkbox");
        ensure_eq!(xf.attr("xfId") == Some("1"), self.hyperlink, "hyperlink-style", "{at}: hyperlink style");
        if self.hyperlink {
            let n = b.style_sheet()?.child("cellStyleXfs").map_or(0, |e| e.children().count());
            ensure!(n == 2, "hyperlink-style", "{at}: no hyperlink cell style ({n} cellStyleXfs)");
        }
        Ok(())
    }

    /// The differential format this format must be stored as.
    pub fn dxf(&self) -> DxfModel {
        let mut e = vec![];
        if self.bold || self.italic || self.underline > 0 || self.strike || !matches!(self.color, Color::Default | Color::Automatic) {
            e.push(self.font("font", true));
        }
        if self.pattern != 0 || self.fg != Color::Default || self.bg != Color::Default {
            let e1 = if self.pattern != 0 && self.fg == Color::Default && self.bg == Color::Default {
                el("patternFill").a("patternType", PATTERNS[self.pattern].1)
            } else {
                el("patternFill")
                    .a_if(self.pattern > 1, "patternType", PATTERNS[self.pattern].1)
                    .e_if(self.fg != Color::Default, || color_attrs(self.fg, el("fgColor")))
                    .e(if self.bg == Color::Default { el("bgColor").a("indexed", 64) } else { color_attrs(self.bg, el("bgColor")) })
            };
            e.push(el("fill").e(e1));
        }
        let d = Fm::default();
        if self.bstyle != d.bstyle || self.bcolor != d.bcolor || self.diag != d.diag {
            e.push(self.border(true));
        }
        DxfModel { parts: e, num: self.num.clone(), checkbox: self.checkbox }
    }
}

pub struct DxfModel {
    pub parts: Vec<Elem>,
    pub num: Num,
    pub checkbox: bool,
}

const BUILTIN: &[(u8, &str)] = &[
    (1, "0"), (2, "0.00"), (3, "#,##0"), (4, "#,##0.00"), (5, "($#,##0_);($#,##0)"), (6, "($#,##0_);[Red]($#,##0)"), (7, "($#,##0.00_);($#,##0.00)"), (8, "($#,##0.00_);[Red]($#,##0.00)"), (9, "0%"), (10, "0.00%"), (11, "0.00E+00"), (12, "# ?/?"), (13, "# ??/??"), (14, "m/d/yy"), (15, "d-mmm-yy"),
    (16, "d-mmm"), (17, "mmm-yy"), (18, "h:mm AM/PM"), (19, "h:mm:ss AM/PM"), (20, "h:mm"), (21, "h:mm:ss"), (22, "m/d/yy h:mm"), (37, "(#,##0_);(#,##0)"), (38, "(#,##0_);[Red](#,##0)"), (39, "(#,##0.00_);(#,##0.00)"), (40, "(#,##0.00_);[Red](#,##0.00)"), (41, "_(* #,##0_);_(* (#,##0);_(* \"-\"_);_(_)"),
    (42, "_($* #,##0_);_($* (#,##0);_($* \"-\"_);_(_)"), (43, "_(* #,##0.00_);_(* (#,##0.00);_(* \"-\"??_);_(_)"), (44, "_($* #,##0.00_);_($* (#,##0.00);_($* \"-\"??_);_(_)"), (45, "mm:ss"), (46, "[h]:mm:ss"), (47, "mm:ss.0"), (48, "##0.0E+0"), (49, "@"),
];

impl DxfModel {
    pub fn check(&self, got: &Elem, at: &str) -> R {
        let mut names: Vec<&str> = self.parts.iter().map(|e| e.name.as_str()).collect();
        for p in &self.parts {
            match got.child(&p.name) {
                None => fail!("dxf", "{at}: differential format has no <{}>: {}", p.name, got.canon()),
                Some(g) => {
                    if let Some(d) = diff(g, p) {
                        fail!("dxf", "{at}: {d}");
                    }
                }
            }
        }
        match (&self.num, got.child("numFmt")) {
            (Num::None, None) => {}
            (Num::Id(i), Some(n)) => {
                names.push("numFmt");
                ensure_eq!(n.attr("numFmtId").unwrap_or(""), i.to_string(), "dxf", "{at}: number format");
                let code = BUILTIN.iter().find(|x| x.0 == *i).map(|x| x.1);
                ensure_eq!(n.attr("formatCode"), code, "dxf", "{at}: number format code");
            }
            (Num::Code(c), Some(n)) => {
                names.push("numFmt");
                ensure_eq!(n.attr("formatCode"), Some(c.as_str()), "dxf", "{at}: number format code");
                let id: u32 = n.attr("numFmtId").and_then(|v| v.parse().ok()).unwrap_or(0);
                ensure!(id >= 164, "dxf", "{at}: custom number format with id {id}");
            }
            (a, b) => fail!("dxf", "{at}: number format {a:?} stored as {b:?}"),
        }
        if self.checkbox {
            names.push("extLst");
            ensure!(got.child("extLst").is_some(), "dxf", "{at}: no checkbox");
        }
        for k in got.children() {
            ensure!(names.contains(&k.name.as_str()), "dxf", "{at}: unexpected <{}> in differential format {}", k.name, got.canon());
        }
        Pkg::order(got, &["font", "numFmt", "fill", "alignment", "border", "protection", "extLst"], "dxf")
    }
}
use kit::xl::NumFmt;
