dash=[("Solid","solid"),("RoundDot","sysDot"),("SquareDot","sysDash"),("Dash","dash"),("DashDot","dashDot"),("LongDash","lgDash"),("LongDashDot","lgDashDot"),("LongDashDotDot","lgDashDotDot")]
import re
src=open('/tmp/nc/chart.rs').read()
i=src.index('impl fmt::Display for ChartPatternFillType'); body=src[i:src.index('\n}\n',i)]
pats=re.findall(r'Self::(\w+) => write!\(f, "(\w+)"\)',body)
assert len(pats)==48
out='''//! DrawingML fills, lines, colours and fonts: generators, models and the
//! elements they must be stored as. Shared by shapes (C33) and charts (C27).
use crate::fmt::*;
use crate::util::*;

'''
out+='pub const DASH: &[&str] = &[%s];\n'%', '.join('"%s"'%d[1] for d in dash)
out+='pub const PATT: &[&str] = &[%s];\n'%', '.join('"%s"'%d[1] for d in pats)
for k in ('Shape','Chart'):
    out+='const %s_DASH: [%sLineDashType; %d] = [%s];\n'%(k.upper(),k,len(dash),', '.join('%sLineDashType::%s'%(k,d[0]) for d in dash))
    out+='const %s_PATT: [%sPatternFillType; %d] = [%s];\n'%(k.upper(),k,len(pats),', '.join('%sPatternFillType::%s'%(k,d[0]) for d in pats))
out+='''
#[derive(Clone, Debug, PartialEq)]
pub struct LineM {
    pub color: Option<Color>,
    pub width: Option<f64>,
    pub tr: u8,
    pub dash: usize,
    pub hidden: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FillM {
    None,
    Solid(Color, u8),
    Pattern(usize, Option<Color>, Option<Color>),
    /// Kind (linear, radial, rectangular, path), stops, angle.
    Gradient(usize, Vec<(Color, u8)>, u16),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FmtM {
    pub fill: Option<FillM>,
    /// Some(None): explicitly no line.
    pub line: Option<Option<LineM>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FontM {
    pub bold: Option<bool>,
    pub italic: bool,
    pub underline: bool,
    pub strike: bool,
    pub size: Option<f64>,
    pub name: String,
    pub pitch: u8,
    pub charset: u8,
    pub color: Option<Color>,
    pub rot: Option<i16>,
    pub rtl: Option<bool>,
}

pub fn gen_line(s: &mut Src) -> LineM {
    LineM {
        color: s.chance(2, 3).then(|| gen_color(s)),
        width: s.chance(1, 2).then(|| *s.pick(&[0.25, 0.75, 1.0, 1.25, 1.5, 2.0, 3.1, 0.1, 0.63, 6.37, 100.0, 1584.0])),
        tr: if s.chance(1, 4) { *s.pick(&[1u8, 50, 99, 100]) } else { 0 },
        dash: if s.chance(1, 2) { s.idx(DASH.len()) } else { 0 },
        hidden: s.chance(1, 10),
    }
}

pub fn gen_fill(s: &mut Src) -> FillM {
    match s.below(6) {
        0 => FillM::None,
        1 | 2 => FillM::Solid(gen_color(s), if s.chance(1, 3) { *s.pick(&[1u8, 20, 99, 100]) } else { 0 }),
        3 => {
            let fg = s.chance(3, 4).then(|| gen_color(s));
            let bg = (fg.is_none() || s.bool()).then(|| gen_color(s));
            FillM::Pattern(s.idx(PATT.len()), fg, bg)
        }
        _ => {
            let n = if s.chance(1, 5) { 10 } else { s.small(2, 10) };
            FillM::Gradient(s.idx(4), (0..n).map(|_| (gen_color(s), *s.pick(&[0u8, 1, 33, 50, 99, 100]))).collect(), if s.bool() { s.u32(1, 359) as u16 } else { 90 })
        }
    }
}

pub fn gen_format(s: &mut Src) -> FmtM {
    FmtM {
        fill: s.chance(2, 3).then(|| gen_fill(s)),
        line: s.chance(2, 3).then(|| s.chance(4, 5).then(|| gen_line(s))),
    }
}

pub fn gen_font(s: &mut Src) -> FontM {
    let mut f = FontM::default();
    for _ in 0..s.small(1, 5) {
        match s.below(10) {
            0 => f.bold = Some(s.chance(2, 3)),
            1 => f.italic = true,
            2 => f.underline = true,
            3 => f.strike = true,
            4 => f.size = Some(*s.pick(&[8.0, 9.0, 10.5, 11.0, 12.0, 14.0, 18.0, 4.1, 16.1, 1.01, 400.0])),
            5 => f.name = (*s.pick(&["Arial", "Calibri", "A & B", "游ゴシック", "Courier New"])).to_string(),
            6 => f.pitch = *s.pick(&[2u8, 18, 34, 49, 50]),
            7 => f.charset = *s.pick(&[1u8, 2, 128, 204]),
            8 => f.color = Some(gen_color(s)),
            _ => f.rtl = Some(s.bool()),
        }
    }
    f
}

// ---------------------------------------------------------------- builders

'''
def builder(K, st):
    # st: statement template: f(var, call)
    k=K.lower(); U=K.upper()
    o=f'''
pub fn {k}_line(m: &LineM) -> {K}Line {{
    let mut l = {K}Line::new();
    if let Some(c) = m.color {{ {st("l","set_color(c)")} }}
    if let Some(w) = m.width {{ {st("l","set_width(w)")} }}
    if m.dash > 0 || m.tr % 2 == 1 {{ {st("l",f"set_dash_type({U}_DASH[m.dash])")} }}
    if m.tr > 0 {{ {st("l","set_transparency(m.tr)")} }}
    if m.hidden {{ {st("l","set_hidden(true)")} }}
    // Settings out of range are documented to be ignored.
    {st("l","set_transparency(101)")}
    {st("l","set_width(1584.5)")}
    l
}}
pub fn {k}_gradient(kind: usize, stops: &[(Color, u8)], angle: u16) -> {K}GradientFill {{
    let mut g = {K}GradientFill::new();
    let stops: Vec<{K}GradientStop> = stops.iter().map(|(c, p)| {K}GradientStop::new(*c, *p)).collect();
    {st("g","set_gradient_stops(&stops)")}
    {st("g","set_gradient_stops(&stops[..1])")}
    {st("g","set_gradient_stops(&vec![stops[0].clone(); 11])")}
    {st("g","set_angle(angle)")}
    {st("g","set_angle(361)")}
    {st("g",f"set_type([{K}GradientFillType::Linear, {K}GradientFillType::Radial, {K}GradientFillType::Rectangular, {K}GradientFillType::Path][kind])")}
    g
}}
pub fn {k}_solid(c: Color, tr: u8) -> {K}SolidFill {{
    let mut f = {K}SolidFill::new();
    {st("f","set_color(c)")}
    if tr > 0 {{ {st("f","set_transparency(tr)")} }}
    {st("f","set_transparency(101)")}
    f
}}
pub fn {k}_pattern(p: usize, fg: Option<Color>, bg: Option<Color>) -> {K}PatternFill {{
    let mut f = {K}PatternFill::new();
    {st("f",f"set_pattern({U}_PATT[p])")}
    if let Some(c) = fg {{ {st("f","set_foreground_color(c)")} }}
    if let Some(c) = bg {{ {st("f","set_background_color(c)")} }}
    f
}}
pub fn {k}_format(m: &FmtM) -> {K}Format {{
    let mut f = {K}Format::new();
    match &m.fill {{
        None => {{}}
        Some(FillM::None) => {{ {st("f","set_no_fill()")} }}
        Some(FillM::Solid(c, t)) => {{ {st("f",f"set_solid_fill(&{k}_solid(*c, *t))")} }}
        Some(FillM::Pattern(p, a, b)) => {{ {st("f",f"set_pattern_fill(&{k}_pattern(*p, *a, *b))")} }}
        Some(FillM::Gradient(t, v, a)) => {{ {st("f",f"set_gradient_fill(&{k}_gradient(*t, v, *a))")} }}
    }}
    match &m.line {{
        None => {{}}
        Some(None) => {{ {st("f","set_no_line()")} }}
        Some(Some(l)) => {{ {st("f",f"set_line(&{k}_line(l))")} }}
    }}
    f
}}
pub fn {k}_font(m: &FontM) -> {K}Font {{
    let mut f = {K}Font::new();
    match m.bold {{ Some(true) => {{ {st("f","set_bold()")} }} Some(false) => {{ {st("f","set_bold()")} {st("f","unset_bold()")} }} None => {{}} }}
    if m.italic {{ {st("f","set_italic()")} }}
    if m.underline {{ {st("f","set_underline()")} }}
    if m.strike {{ {st("f","set_strikethrough()")} }}
    if let Some(v) = m.size {{ {st("f","set_size(v)")} }}
    if !m.name.is_empty() {{ {st("f","set_name(&m.name)")} }}
    if m.pitch > 0 {{ {st("f","set_pitch_family(m.pitch)")} }}
    if m.charset > 0 {{ {st("f","set_character_set(m.charset)")} }}
    if let Some(c) = m.color {{ {st("f","set_color(c)")} }}
    if let Some(v) = m.rtl {{ {st("f","set_right_to_left(v)")} }}
    {"if let Some(v) = m.rot { f.set_rotation(v); }" if K=="Chart" else ""}
    f
}}
'''
    return o
out+=builder('Shape', lambda v,c: f"{v} = {v}.{c};")
out+=builder('Chart', lambda v,c: f"{v}.{c};")
out+='''
// ---------------------------------------------------------------- expected

/// (lumMod, lumOff) in percent of the shades of the theme colours.
fn lum(t: u8, sh: u8) -> (u32, u32) {
    if sh == 0 {
        return (0, 0);
    }
    let i = usize::from(sh) - 1;
    match t {
        0 => ([95, 85, 75, 65, 50][i], 0),
        1 => [(50, 50), (65, 35), (75, 25), (85, 15), (95, 5)][i],
        2 => ([90, 75, 50, 25, 10][i], 0),
        _ => [(20, 80), (40, 60), (60, 40), (75, 0), (50, 0)][i],
    }
}

pub fn color(c: Color, tr: u8) -> Elem {
    let alpha = |e: Elem| e.e_if(tr > 0, || el("a:alpha").a("val", (100 - u32::from(tr)) * 1000));
    match c {
        Color::Theme(t, sh) => {
            let name = ["bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6"][usize::from(t)];
            let (m, o) = lum(t, sh);
            alpha(el("a:schemeClr").a("val", name).e_if(m > 0, || el("a:lumMod").a("val", m * 1000)).e_if(o > 0, || el("a:lumOff").a("val", o * 1000)))
        }
        _ => alpha(el("a:srgbClr").a("val", rgb6(c).unwrap_or_default())),
    }
}

pub fn solid(c: Color, tr: u8) -> Elem {
    el("a:solidFill").e(color(c, tr))
}

pub fn fill(f: &FillM) -> Elem {
    match f {
        FillM::None => el("a:noFill"),
        FillM::Solid(c, t) => solid(*c, *t),
        FillM::Pattern(p, fg, bg) => {
            let bg = bg.or(fg.map(|_| Color::White));
            el("a:pattFill").a("prst", PATT[*p]).e_opt(fg.map(|c| el("a:fgClr").e(color(c, 0)))).e_opt(bg.map(|c| el("a:bgClr").e(color(c, 0))))
        }
        FillM::Gradient(t, stops, ang) => {
            let mut e = el("a:gradFill");
            if *t > 0 {
                e = e.a("flip", "none").a("rotWithShape", "1");
            }
            e = e.e(el("a:gsLst").es(stops.iter().map(|(c, p)| el("a:gs").a("pos", u32::from(*p) * 1000).e(color(*c, 0))).collect()));
            if *t == 0 {
                return e.e(el("a:lin").a("ang", u32::from(*ang) * 60_000).a("scaled", "0"));
            }
            let r = if *t == 3 { el("a:fillToRect").a("l", 50000).a("t", 50000).a("r", 50000).a("b", 50000) } else { el("a:fillToRect").a("l", 100_000).a("t", 100_000) };
            let tile = if *t == 3 { el("a:tileRect") } else { el("a:tileRect").a("r", "-100000").a("b", "-100000") };
            e.e(el("a:path").a("path", ["", "circle", "rect", "shape"][*t]).e(r)).e(tile)
        }
    }
}

pub fn width(w: f64) -> String {
    // To the nearest quarter of a point.
    format!("{}", ((w * 4.0).round() * 3175.0) as u64)
}
'''
open('/verif/checks/src/dml.rs','w').write(out)
