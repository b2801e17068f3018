//! DrawingML fills, lines, colours and fonts: generators, models and the
//! elements they must be stored as. Shared by shapes (C33) and charts (C27).
use crate::fmt::*;
use crate::util::*;

pub const DASH: &[&str] = &["solid", "sysDot", "sysDash", "dash", "dashDot", "lgDash", "lgDashDot", "lgDashDotDot"];
pub const PATT: &[&str] = &["wave", "weave", "plaid", "divot", "zigZag", "sphere", "shingle", "trellis", "smGrid", "lgGrid", "dotGrid", "dotDmnd", "diagBrick", "lgConfetti", "smConfetti", "pct5", "pct10", "pct20", "pct25", "pct30", "pct40", "pct50", "pct60", "pct70", "pct75", "pct80", "pct90", "horzBrick", "solidDmnd", "smCheck", "lgCheck", "dashDnDiag", "dkVert", "openDmnd", "ltVert", "dkHorz", "dashUpDiag", "narVert", "ltHorz", "narHorz", "dkUpDiag", "wdUpDiag", "dashVert", "ltUpDiag", "dkDnDiag", "wdDnDiag", "dashHorz", "ltDnDiag"];
const SHAPE_DASH: [ShapeLineDashType; 8] = [ShapeLineDashType::Solid, ShapeLineDashType::RoundDot, ShapeLineDashType::SquareDot, ShapeLineDashType::Dash, ShapeLineDashType::DashDot, ShapeLineDashType::LongDash, ShapeLineDashType::LongDashDot, ShapeLineDashType::LongDashDotDot];
const SHAPE_PATT: [ShapePatternFillType; 48] = [ShapePatternFillType::Wave, ShapePatternFillType::Weave, ShapePatternFillType::Plaid, ShapePatternFillType::Divot, ShapePatternFillType::Zigzag, ShapePatternFillType::Sphere, ShapePatternFillType::Shingle, ShapePatternFillType::Trellis, ShapePatternFillType::SmallGrid, ShapePatternFillType::LargeGrid, ShapePatternFillType::DottedGrid, ShapePatternFillType::DottedDiamond, ShapePatternFillType::DiagonalBrick, ShapePatternFillType::LargeConfetti, ShapePatternFillType::SmallConfetti, ShapePatternFillType::Dotted5Percent, ShapePatternFillType::Dotted10Percent, ShapePatternFillType::Dotted20Percent, ShapePatternFillType::Dotted25Percent, ShapePatternFillType::Dotted30Percent, ShapePatternFillType::Dotted40Percent, ShapePatternFillType::Dotted50Percent, ShapePatternFillType::Dotted60Percent, ShapePatternFillType::Dotted70Percent, ShapePatternFillType::Dotted75Percent, ShapePatternFillType::Dotted80Percent, ShapePatternFillType::Dotted90Percent, ShapePatternFillType::HorizontalBrick, ShapePatternFillType::SolidDiamondGrid, ShapePatternFillType::SmallCheckerboard, ShapePatternFillType::LargeCheckerboard, ShapePatternFillType::StripesBackslashes, ShapePatternFillType::VerticalStripesDark, ShapePatternFillType::OutlinedDiamondGrid, ShapePatternFillType::VerticalStripesLight, ShapePatternFillType::HorizontalStripesDark, ShapePatternFillType::StripesForwardSlashes, ShapePatternFillType::VerticalStripesNarrow, ShapePatternFillType::HorizontalStripesLight, ShapePatternFillType::HorizontalStripesNarrow, ShapePatternFillType::DiagonalStripesDarkUpwards, ShapePatternFillType::DiagonalStripesWideUpwards, ShapePatternFillType::VerticalStripesAlternating, ShapePatternFillType::DiagonalStripesLightUpwards, ShapePatternFillType::DiagonalStripesDarkDownwards, ShapePatternFillType::DiagonalStripesWideDownwards, ShapePatternFillType::HorizontalStripesAlternating, ShapePatternFillType::DiagonalStripesLightDownwards];
const CHART_DASH: [ChartLineDashType; 8] = [ChartLineDashType::Solid, ChartLineDashType::RoundDot, ChartLineDashType::SquareDot, ChartLineDashType::Dash, ChartLineDashType::DashDot, ChartLineDashType::LongDash, ChartLineDashType::LongDashDot, ChartLineDashType::LongDashDotDot];
const CHART_PATT: [ChartPatternFillType; 48] = [ChartPatternFillType::Wave, ChartPatternFillType::Weave, ChartPatternFillType::Plaid, ChartPatternFillType::Divot, ChartPatternFillType::Zigzag, ChartPatternFillType::Sphere, ChartPatternFillType::Shingle, ChartPatternFillType::Trellis, ChartPatternFillType::SmallGrid, ChartPatternFillType::LargeGrid, ChartPatternFillType::DottedGrid, ChartPatternFillType::DottedDiamond, ChartPatternFillType::DiagonalBrick, ChartPatternFillType::LargeConfetti, ChartPatternFillType::SmallConfetti, ChartPatternFillType::Dotted5Percent, ChartPatternFillType::Dotted10Percent, ChartPatternFillType::Dotted20Percent, ChartPatternFillType::Dotted25Percent, ChartPatternFillType::Dotted30Percent, ChartPatternFillType::Dotted40Percent, ChartPatternFillType::Dotted50Percent, ChartPatternFillType::Dotted60Percent, ChartPatternFillType::Dotted70Percent, ChartPatternFillType::Dotted75Percent, ChartPatternFillType::Dotted80Percent, ChartPatternFillType::Dotted90Percent, ChartPatternFillType::HorizontalBrick, ChartPatternFillType::SolidDiamondGrid, ChartPatternFillType::SmallCheckerboard, ChartPatternFillType::LargeCheckerboard, ChartPatternFillType::StripesBackslashes, ChartPatternFillType::VerticalStripesDark, ChartPatternFillType::OutlinedDiamondGrid, ChartPatternFillType::VerticalStripesLight, ChartPatternFillType::HorizontalStripesDark, ChartPatternFillType::StripesForwardSlashes, ChartPatternFillType::VerticalStripesNarrow, ChartPatternFillType::HorizontalStripesLight, ChartPatternFillType::HorizontalStripesNarrow, ChartPatternFillType::DiagonalStripesDarkUpwards, ChartPatternFillType::DiagonalStripesWideUpwards, ChartPatternFillType::VerticalStripesAlternating, ChartPatternFillType::DiagonalStripesLightUpwards, ChartPatternFillType::DiagonalStripesDarkDownwards, ChartPatternFillType::DiagonalStripesWideDownwards, ChartPatternFillType::HorizontalStripesAlternating, ChartPatternFillType::DiagonalStripesLightDownwards];

#[derive(Clone, Debug, PartialEq)]
pub struct LineM {
    pub color: Option<Color>,
    pub width: Option<f64>,
    pub tr: u8,
    pub dash: usize,
    pub hidden: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FillM {
    None,
    Solid(Color, u8),
    Pattern(usize, Option<Color>, Option<Color>),
    /// Kind (linear, radial, rectangular, path), stops, angle.
    Gradient(usize, Vec<(Color, u8)>, u16),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FmtM {
    pub fill: Option<FillM>,
    /// Some(None): explicitly no line.
    pub line: Option<Option<LineM>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FontM {
    pub bold: Option<bool>,
    pub italic: bool,
    pub underline: bool,
    pub strike: bool,
    pub size: Option<f64>,
    pub name: String,
    pub pitch: u8,
    pub charset: u8,
    pub color: Option<Color>,
    pub rot: Option<i16>,
    pub rtl: Option<bool>,
}

pub fn gen_line(s: &mut Src) -> LineM {
    LineM {
        color: s.chance(2, 3).then(|| gen_color(s)),
        width: s.chance(1, 2).then(|| *s.pick(&[0.25, 0.75, 1.0, 1.25, 1.5, 2.0, 3.1, 0.1, 0.63, 6.37, 100.0, 1584.0])),
        tr: if s.chance(1, 4) { *s.pick(&[1u8, 50, 99, 100]) } else { 0 },
        dash: if s.chance(1, 2) { s.idx(DASH.len()) } else { 0 },
        hidden: s.chance(1, 10),
    }
}

pub fn gen_fill(s: &mut Src) -> FillM {
    match s.below(6) {
        0 => FillM::None,
        1 | 2 => FillM::Solid(gen_color(s), if s.chance(1, 3) { *s.pick(&[1u8, 20, 99, 100]) } else { 0 }),
        3 => {
            let fg = s.chance(3, 4).then(|| gen_color(s));
            let bg = (fg.is_none() || s.bool()).then(|| gen_color(s));
            FillM::Pattern(s.idx(PATT.len()), fg, bg)
        }
        _ => {
            let n = if s.chance(1, 5) { 10 } else { s.small(2, 10) };
            FillM::Gradient(s.idx(4), (0..n).map(|_| (gen_color(s), *s.pick(&[0u8, 1, 33, 50, 99, 100]))).collect(), if s.bool() { s.u32(0, 359) as u16 } else { 90 })
        }
    }
}

pub fn gen_format(s: &mut Src) -> FmtM {
    FmtM {
        fill: s.chance(2, 3).then(|| gen_fill(s)),
        line: s.chance(2, 3).then(|| s.chance(4, 5).then(|| gen_line(s))),
    }
}

pub fn gen_font(s: &mut Src) -> FontM {
    let mut f = FontM::default();
    for _ in 0..s.small(1, 5) {
        match s.below(10) {
            0 => f.bold = Some(s.chance(2, 3)),
            1 => f.italic = true,
            2 => f.underline = true,
            3 => f.strike = true,
            4 => f.size = Some(*s.pick(&[8.0, 9.0, 10.5, 11.0, 12.0, 14.0, 18.0, 4.1, 16.1, 1.01, 400.0])),
            5 => f.name = (*s.pick(&["Arial", "Calibri", "A & B", "游ゴシック", "Courier New"])).to_string(),
            6 => f.pitch = *s.pick(&[2u8, 18, 34, 49, 50]),
            7 => f.charset = *s.pick(&[1u8, 2, 128, 204]),
            8 => f.color = Some(gen_color(s)),
            _ => f.rtl = Some(s.bool()),
        }
    }
    f
}

// ---------------------------------------------------------------- builders

/// A source of the order of calls, fixed by what is asked for.
pub fn order_of(m: &impl std::fmt::Debug) -> Src {
    Src::random(kit::src::hash_str(&format!("{m:?}")))
}


pub fn shape_line(m: &LineM) -> ShapeLine {
    let mut l = ShapeLine::new();
    shuffled!(&mut order_of(m);
        { if let Some(c) = m.color { l = l.set_color(c); } }
        { if let Some(w) = m.width { l = l.set_width(w); } }
        { if m.dash > 0 || m.tr % 2 == 1 { l = l.set_dash_type(SHAPE_DASH[m.dash]); } }
        { if m.tr > 0 { l = l.set_transparency(m.tr); } }
        { if m.hidden { l = l.set_hidden(true); } }
    );
    // Settings out of range are documented to be ignored.
    l = l.set_transparency(101);
    l = l.set_width(1584.5);
    l
}
pub fn shape_gradient(kind: usize, stops: &[(Color, u8)], angle: u16) -> ShapeGradientFill {
    let mut g = ShapeGradientFill::new();
    let stops: Vec<ShapeGradientStop> = stops.iter().map(|(c, p)| ShapeGradientStop::new(*c, *p)).collect();
    shuffled!(&mut order_of(&(kind, angle));
        {
            g = g.set_gradient_stops(&stops);
            g = g.set_gradient_stops(&stops[..1]);
            g = g.set_gradient_stops(&vec![stops[0].clone(); 11]);
        }
        {
            g = g.set_angle(angle);
            g = g.set_angle(361);
        }
        { g = g.set_type([ShapeGradientFillType::Linear, ShapeGradientFillType::Radial, ShapeGradientFillType::Rectangular, ShapeGradientFillType::Path][kind]); }
    );
    g
}
pub fn shape_solid(c: Color, tr: u8) -> ShapeSolidFill {
    let mut f = ShapeSolidFill::new();
    shuffled!(&mut order_of(&(c, tr));
        { f = f.set_color(c); }
        { if tr > 0 { f = f.set_transparency(tr); } }
        { f = f.set_transparency(101); }
    );
    f
}
pub fn shape_pattern(p: usize, fg: Option<Color>, bg: Option<Color>) -> ShapePatternFill {
    let mut f = ShapePatternFill::new();
    shuffled!(&mut order_of(&(p, fg, bg));
        { f = f.set_pattern(SHAPE_PATT[p]); }
        { if let Some(c) = fg { f = f.set_foreground_color(c); } }
        { if let Some(c) = bg { f = f.set_background_color(c); } }
    );
    f
}
pub fn shape_format(m: &FmtM) -> ShapeFormat {
    let mut f = ShapeFormat::new();
    shuffled!(&mut order_of(m);
        {
            match &m.fill {
                None => {}
                Some(FillM::None) => { f = f.set_no_fill(); }
                Some(FillM::Solid(c, t)) => { f = f.set_solid_fill(&shape_solid(*c, *t)); }
                Some(FillM::Pattern(p, a, b)) => { f = f.set_pattern_fill(&shape_pattern(*p, *a, *b)); }
                Some(FillM::Gradient(t, v, a)) => { f = f.set_gradient_fill(&shape_gradient(*t, v, *a)); }
            }
        }
        {
            match &m.line {
                None => {}
                Some(None) => { f = f.set_no_line(); }
                Some(Some(l)) => { f = f.set_line(&shape_line(l)); }
            }
        }
    );
    f
}
pub fn shape_font(m: &FontM) -> ShapeFont {
    let mut f = ShapeFont::new();
    shuffled!(&mut order_of(m);
        { match m.bold { Some(true) => { f = f.set_bold(); } Some(false) => { f = f.set_bold(); f = f.unset_bold(); } None => {} } }
        { if m.italic { f = f.set_italic(); } }
        { if m.underline { f = f.set_underline(); } }
        { if m.strike { f = f.set_strikethrough(); } }
        { if let Some(v) = m.size { f = f.set_size(v); } }
        { if !m.name.is_empty() { f = f.set_name(&m.name); } }
        { if m.pitch > 0 { f = f.set_pitch_family(m.pitch); } }
        { if m.charset > 0 { f = f.set_character_set(m.charset); } }
        { if let Some(c) = m.color { f = f.set_color(c); } }
        { if let Some(v) = m.rtl { f = f.set_right_to_left(v); } }
    );
    
    f
}

pub fn chart_line(m: &LineM) -> ChartLine {
    let mut l = ChartLine::new();
    shuffled!(&mut order_of(m);
        { if let Some(c) = m.color { l.set_color(c); } }
        { if let Some(w) = m.width { l.set_width(w); } }
        { if m.dash > 0 || m.tr % 2 == 1 { l.set_dash_type(CHART_DASH[m.dash]); } }
        { if m.tr > 0 { l.set_transparency(m.tr); } }
        { if m.hidden { l.set_hidden(true); } }
    );
    // Settings out of range are documented to be ignored.
    l.set_transparency(101);
    l.set_width(1584.5);
    l
}
pub fn chart_gradient(kind: usize, stops: &[(Color, u8)], angle: u16) -> ChartGradientFill {
    let mut g = ChartGradientFill::new();
    let stops: Vec<ChartGradientStop> = stops.iter().map(|(c, p)| ChartGradientStop::new(*c, *p)).collect();
    shuffled!(&mut order_of(&(kind, angle));
        {
            g.set_gradient_stops(&stops);
            g.set_gradient_stops(&stops[..1]);
            g.set_gradient_stops(&vec![stops[0].clone(); 11]);
        }
        {
            g.set_angle(angle);
            g.set_angle(361);
        }
        { g.set_type([ChartGradientFillType::Linear, ChartGradientFillType::Radial, ChartGradientFillType::Rectangular, ChartGradientFillType::Path][kind]); }
    );
    g
}
pub fn chart_solid(c: Color, tr: u8) -> ChartSolidFill {
    let mut f = ChartSolidFill::new();
    shuffled!(&mut order_of(&(c, tr));
        { f.set_color(c); }
        { if tr > 0 { f.set_transparency(tr); } }
        { f.set_transparency(101); }
    );
    f
}
pub fn chart_pattern(p: usize, fg: Option<Color>, bg: Option<Color>) -> ChartPatternFill {
    let mut f = ChartPatternFill::new();
    shuffled!(&mut order_of(&(p, fg, bg));
        { f.set_pattern(CHART_PATT[p]); }
        { if let Some(c) = fg { f.set_foreground_color(c); } }
        { if let Some(c) = bg { f.set_background_color(c); } }
    );
    f
}
pub fn chart_format(m: &FmtM) -> ChartFormat {
    let mut f = ChartFormat::new();
    shuffled!(&mut order_of(m);
        {
            match &m.fill {
                None => {}
                Some(FillM::None) => { f.set_no_fill(); }
                Some(FillM::Solid(c, t)) => { f.set_solid_fill(&chart_solid(*c, *t)); }
                Some(FillM::Pattern(p, a, b)) => { f.set_pattern_fill(&chart_pattern(*p, *a, *b)); }
                Some(FillM::Gradient(t, v, a)) => { f.set_gradient_fill(&chart_gradient(*t, v, *a)); }
            }
        }
        {
            match &m.line {
                None => {}
                Some(None) => { if m.fill.is_some() { f.set_no_border(); } else { f.set_no_line(); } }
                Some(Some(l)) => { if l.tr % 2 == 0 { f.set_line(&chart_line(l)); } else { f.set_border(&chart_line(l)); } }
            }
        }
    );
    f
}
/// Gives a format to an object: as the format itself, or as the line or fill
/// that it consists of.
macro_rules! give {
    ($f:expr, $x:ident => $call:expr) => {
        match (&$f.fill, &$f.line) {
            (Some(FillM::Solid(c, t)), None) => { let $x = &mut chart_solid(*c, *t); $call }
            (Some(FillM::Pattern(p, a, b)), None) => { let $x = &mut chart_pattern(*p, *a, *b); $call }
            (Some(FillM::Gradient(t, v, a)), None) => { let $x = &mut chart_gradient(*t, v, *a); $call }
            (None, Some(Some(l))) => { let $x = &mut chart_line(l); $call }
            _ => { let $x = &mut chart_format($f); $call }
        }
    };
}
pub(crate) use give;
pub fn chart_font(m: &FontM) -> ChartFont {
    let mut f = ChartFont::new();
    shuffled!(&mut order_of(m);
        { match m.bold { Some(true) => { f.set_bold(); } Some(false) => { f.set_bold(); f.unset_bold(); } None => {} } }
        { if m.italic { f.set_italic(); } }
        { if m.underline { f.set_underline(); } }
        { if m.strike { f.set_strikethrough(); } }
        { if let Some(v) = m.size { f.set_size(v); } }
        { if !m.name.is_empty() { f.set_name(&m.name); } }
        { if m.pitch > 0 { f.set_pitch_family(m.pitch); } }
        { if m.charset > 0 { f.set_character_set(m.charset); } }
        { if let Some(c) = m.color { f.set_color(c); } }
        { if let Some(v) = m.rtl { f.set_right_to_left(v); } }
    );
    if let Some(v) = m.rot { f.set_rotation(v); }
    f
}

// ---------------------------------------------------------------- expected

/// (lumMod, lumOff) in percent of the shades of the theme colours.
fn lum(t: u8, sh: u8) -> (u32, u32) {
    if sh == 0 {
        return (0, 0);
    }
    let i = usize::from(sh) - 1;
    match t {
        0 => ([95, 85, 75, 65, 50][i], 0),
        1 => [(50, 50), (65, 35), (75, 25), (85, 15), (95, 5)][i],
        2 => ([90, 75, 50, 25, 10][i], 0),
        _ => [(20, 80), (40, 60), (60, 40), (75, 0), (50, 0)][i],
    }
}

pub fn color(c: Color, tr: u8) -> Elem {
    let alpha = |e: Elem| e.e_if(tr > 0, || el("a:alpha").a("val", (100 - u32::from(tr)) * 1000));
    match c {
        Color::Theme(t, sh) => {
            let name = ["bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6"][usize::from(t)];
            let (m, o) = lum(t, sh);
            alpha(el("a:schemeClr").a("val", name).e_if(m > 0, || el("a:lumMod").a("val", m * 1000)).e_if(o > 0, || el("a:lumOff").a("val", o * 1000)))
        }
        _ => alpha(el("a:srgbClr").a("val", rgb6(c).unwrap_or_default())),
    }
}

pub fn solid(c: Color, tr: u8) -> Elem {
    el("a:solidFill").e(color(c, tr))
}

pub fn fill(f: &FillM) -> Elem {
    match f {
        FillM::None => el("a:noFill"),
        FillM::Solid(c, t) => solid(*c, *t),
        FillM::Pattern(p, fg, bg) => {
            let bg = bg.or(fg.map(|_| Color::White));
            el("a:pattFill").a("prst", PATT[*p]).e_opt(fg.map(|c| el("a:fgClr").e(color(c, 0)))).e_opt(bg.map(|c| el("a:bgClr").e(color(c, 0))))
        }
        FillM::Gradient(t, stops, ang) => {
            let mut e = el("a:gradFill");
            if *t > 0 {
                e = e.a("flip", "none").a("rotWithShape", "1");
            }
            e = e.e(el("a:gsLst").es(stops.iter().map(|(c, p)| el("a:gs").a("pos", u32::from(*p) * 1000).e(color(*c, 0)))));
            if *t == 0 {
                return e.e(el("a:lin").a("ang", u32::from(*ang) * 60_000).a("scaled", "0"));
            }
            let r = if *t == 3 { el("a:fillToRect").a("l", 50000).a("t", 50000).a("r", 50000).a("b", 50000) } else { el("a:fillToRect").a("l", 100_000).a("t", 100_000) };
            let tile = if *t == 3 { el("a:tileRect") } else { el("a:tileRect").a("r", "-100000").a("b", "-100000") };
            e.e(el("a:path").a("path", ["", "circle", "rect", "shape"][*t]).e(r)).e(tile)
        }
    }
}

pub fn width(w: f64) -> String {
    // To the nearest quarter of a point.
    format!("{}", ((w * 4.0).round() * 3175.0) as u64)
}
