//! Charts: generator, model, builder and the elements a chart must be stored
//! as. Shared by C26 (data and axes) and C27 (formatting).
use crate::dml::*;
use crate::fmt::*;
use crate::util::*;

pub const KINDS: [ChartType; 23] = [
    ChartType::Column, ChartType::Line, ChartType::Area, ChartType::AreaStacked, ChartType::AreaPercentStacked, ChartType::Bar, ChartType::BarStacked, ChartType::BarPercentStacked,
    ChartType::ColumnStacked, ChartType::ColumnPercentStacked, ChartType::Doughnut, ChartType::LineStacked, ChartType::LinePercentStacked, ChartType::Pie, ChartType::Radar,
    ChartType::RadarWithMarkers, ChartType::RadarFilled, ChartType::Scatter, ChartType::ScatterStraight, ChartType::ScatterStraightWithMarkers, ChartType::ScatterSmooth,
    ChartType::ScatterSmoothWithMarkers, ChartType::Stock,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Grp { Area, Bar, Column, Doughnut, Line, Pie, Radar, Scatter, Stock }

pub fn grp(k: ChartType) -> Grp {
    use ChartType as T;
    match k {
        T::Area | T::AreaStacked | T::AreaPercentStacked => Grp::Area,
        T::Bar | T::BarStacked | T::BarPercentStacked => Grp::Bar,
        T::Column | T::ColumnStacked | T::ColumnPercentStacked => Grp::Column,
        T::Doughnut => Grp::Doughnut,
        T::Line | T::LineStacked | T::LinePercentStacked => Grp::Line,
        T::Pie => Grp::Pie,
        T::Radar | T::RadarWithMarkers | T::RadarFilled => Grp::Radar,
        T::Stock => Grp::Stock,
        _ => Grp::Scatter,
    }
}

/// 0: plain, 1: stacked, 2: percent stacked.
fn stack(k: ChartType) -> usize {
    use ChartType as T;
    match k {
        T::AreaStacked | T::BarStacked | T::ColumnStacked | T::LineStacked => 1,
        T::AreaPercentStacked | T::BarPercentStacked | T::ColumnPercentStacked | T::LinePercentStacked => 2,
        _ => 0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Str, Num, Date }

#[derive(Clone, Debug, PartialEq)]
pub struct Rng {
    pub sheet: String,
    pub at: (u32, u16, u32, u16),
    pub kind: Kind,
}

impl Rng {
    pub fn points(&self) -> usize {
        ((self.at.2 - self.at.0 + 1) as usize).max(usize::from(self.at.3 - self.at.1) + 1)
    }
    /// The form references are compared in.
    pub fn canon(&self) -> String {
        format!("{}|{},{},{},{}", self.sheet, self.at.0, self.at.1, self.at.2, self.at.3)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub enum NameM { #[default] None, Text(String), Range(Rng) }

#[derive(Clone, Debug, PartialEq)]
pub struct LayoutM { off: Option<(f64, f64)>, dim: Option<(f64, f64)> }

#[derive(Clone, Debug, Default)]
pub struct TitleM {
    pub name: NameM,
    pub fmt: Option<FmtM>,
    pub font: Option<FontM>,
    pub layout: Option<LayoutM>,
    pub overlay: bool,
    pub hidden: bool,
}

#[derive(Clone, Debug)]
pub struct MarkM { auto: bool, none: bool, kind: Option<usize>, size: Option<u8>, fmt: Option<FmtM> }

#[derive(Clone, Debug, Default)]
pub struct LabM {
    pub value: bool, pub cat: bool, pub ser: bool, pub leader: bool, pub key: bool, pub pct: bool,
    pub pos: Option<usize>,
    pub fmt: Option<FmtM>,
    pub font: Option<FontM>,
    pub num: Option<String>,
    pub sep: Option<char>,
    pub text: NameM,
    pub hidden: bool,
}

#[derive(Clone, Debug)]
pub struct TrendM {
    kind: usize, order: u8, name: String, fmt: Option<FmtM>, lfmt: Option<FmtM>, lfont: Option<FontM>, fwd: Option<f64>, back: Option<f64>, eq: bool, r2: bool, icpt: Option<f64>, pub del: bool,
}

#[derive(Clone, Debug)]
pub enum ErrK { Std, Fixed(f64), Pct(f64), Dev(f64), Custom(Rng, Rng) }
#[derive(Clone, Debug)]
pub struct ErrM { pub kind: ErrK, dir: usize, cap: bool, fmt: Option<FmtM> }

#[derive(Clone, Debug)]
pub struct SerM {
    pub values: Rng, pub cats: Option<Rng>, pub name: NameM, pub fmt: Option<FmtM>, pub mark: Option<MarkM>, pub label: Option<LabM>, pub custom: Vec<LabM>, pub points: Vec<Option<FmtM>>,
    pub gap: Option<u16>, pub overlap: Option<i8>, pub invert: Option<Option<Color>>, pub trend: Option<TrendM>, pub xerr: Option<ErrM>, pub yerr: Option<ErrM>, pub del: bool,
    pub smooth: Option<bool>, pub second: bool, pub pushed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cross { Auto, Min, Max, Cat(u32), Val(f64) }

#[derive(Clone, Debug, Default)]
pub struct AxisM {
    pub title: TitleM, pub fmt: Option<FmtM>, pub font: Option<FontM>, pub num: Option<String>, pub reverse: bool, pub hidden: Option<bool>, pub text: bool, pub date: bool,
    pub max: Option<f64>, pub min: Option<f64>, pub major: Option<f64>, pub minor: Option<f64>, pub grid: [Option<Option<LineM>>; 2], pub nogrid: bool, pub log: u16, pub lint: u16, pub tint: u16,
    pub ticks: [Option<usize>; 2], pub du: [Option<usize>; 2], pub disp: Option<(usize, bool)>, pub cross: Option<Cross>, pub align: Option<usize>, pub lpos: Option<usize>, pub between: Option<bool>,
}

#[derive(Clone)]
pub struct ChartM {
    pub kind: ChartType, pub series: Vec<SerM>, pub title: TitleM, pub axes: [AxisM; 4], pub combined: Option<Box<ChartM>>,
    pub style: u8, pub rot: Option<u16>, pub hole: Option<u8>, pub drop: Option<Option<FmtM>>, pub hilo: Option<Option<FmtM>>, pub updown: Option<[Option<FmtM>; 2]>,
    pub table: Option<([bool; 4], Option<FmtM>, Option<FontM>)>, pub area: Option<FmtM>, pub plot: Option<FmtM>, pub plot_layout: Option<LayoutM>,
    pub leg_hidden: bool, pub leg_pos: Option<usize>, pub leg_over: bool, pub leg_fmt: Option<FmtM>, pub leg_font: Option<FontM>, pub leg_layout: Option<LayoutM>, pub leg_del: Vec<usize>,
    pub empty: Option<usize>, pub na: bool, pub show_hidden: bool,
}

impl std::fmt::Debug for ChartM {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Chart[{}] {:?} title {:?} axes {:?} drop {:?} hilo {:?} updown {:?} table {:?} area {:?} plot {:?} layout {:?} legend {:?} {:?} combined {:?}", KINDS.iter().position(|k| *k == self.kind).unwrap_or(99), self.series, self.title, self.axes, self.drop, self.hilo, self.updown, self.table, self.area, self.plot, self.plot_layout, (self.leg_hidden, self.leg_pos, self.leg_over, &self.leg_fmt, &self.leg_font, &self.leg_layout, &self.leg_del), (self.style, self.rot, self.hole, self.empty, self.na, self.show_hidden), self.combined)
    }
}

// ---------------------------------------------------------------- generators

pub type RngGen<'a> = dyn FnMut(&mut Src, Option<usize>) -> Rng + 'a;

fn ofmt(s: &mut Src, num: u64, den: u64) -> Option<FmtM> {
    s.chance(num, den).then(|| gen_format(s)).filter(|f| f.fill.is_some() || f.line.is_some())
}
fn ofont(s: &mut Src, num: u64, den: u64, rot: bool) -> Option<FontM> {
    s.chance(num, den).then(|| {
        let mut f = gen_font(s);
        if rot && s.chance(1, 3) {
            f.rot = Some(*s.pick(&[0i16, 45, -45, 90, -90, 270, 271, 1]));
        }
        f
    })
}
fn olayout(s: &mut Src, dims: bool) -> Option<LayoutM> {
    s.chance(1, 4).then(|| {
        let f = |s: &mut Src| *s.pick(&[0.0, 0.1, 0.25, 0.5, 1.0, 0.123_456_789]);
        let off = s.chance(3, 4).then(|| (f(s), f(s)));
        LayoutM { off, dim: (dims && (off.is_none() || s.bool())).then(|| (f(s), f(s))) }
    })
    .filter(|l| l.off.is_some() || l.dim.is_some())
}

/// Text that is not taken for a reference.
pub fn label_text(s: &mut Src) -> String {
    let t: String = gen::line_text(s, 10).chars().filter(|c| *c != '!').collect();
    if t.is_empty() || t.starts_with('=') { "Name".into() } else { t }
}

pub fn gen_name(s: &mut Src, rng: &mut RngGen) -> NameM {
    match s.below(3) {
        0 => NameM::None,
        1 => NameM::Text(label_text(s)),
        _ => NameM::Range(rng(s, Some(1))),
    }
}

fn gen_label(s: &mut Src, custom: bool, rng: &mut RngGen) -> LabM {
    let mut l = LabM::default();
    for _ in 0..s.small(if custom { 0 } else { 1 }, 5) {
        match s.below(12) {
            0 => l.value = true,
            1 => l.cat = true,
            2 => { l.ser = true; l.value = true; }
            3 => l.leader = true,
            4 => l.key = true,
            5 => l.pct = true,
            6 => l.pos = Some(s.idx(10)),
            7 => l.fmt = ofmt(s, 1, 1),
            8 => l.font = ofont(s, 1, 1, true),
            9 => l.num = Some((*s.pick(&["0.00", "#,##0", "\"<\"0&\"", "[Red]0"])).into()),
            10 => l.sep = Some(*s.pick(&[';', '.', ' ', '\n', ','])),
            _ if custom => match s.below(4) {
                0 => l.hidden = true,
                1 => l.text = NameM::Range(rng(s, Some(1))),
                _ => l.text = NameM::Text(label_text(s)),
            },
            _ => {}
        }
    }
    l
}

fn gen_err(s: &mut Src, n: usize, rng: &mut RngGen) -> ErrM {
    let v = |s: &mut Src| gen::dec(s, 1, 4000, 100);
    ErrM {
        kind: match s.below(6) { 0 => ErrK::Std, 1 => ErrK::Fixed(v(s)), 2 => ErrK::Pct(v(s)), 3 => ErrK::Dev(v(s)), _ => ErrK::Custom(rng(s, Some(n)), rng(s, Some(n))) },
        dir: s.idx(3),
        cap: s.chance(2, 3),
        fmt: ofmt(s, 1, 3),
    }
}

pub fn gen_series(s: &mut Src, k: ChartType, full: bool, rng: &mut RngGen) -> SerM {
    let g = grp(k);
    let values = rng(s, None);
    let n = values.points();
    let cats = (g == Grp::Scatter || s.chance(2, 3)).then(|| rng(s, Some(n)));
    let mut m = SerM { values, cats, name: gen_name(s, rng), fmt: None, mark: None, label: None, custom: vec![], points: vec![], gap: None, overlap: None, invert: None, trend: None, xerr: None, yerr: None, del: false, smooth: None, second: false, pushed: s.chance(1, 4) };
    if s.chance(1, 4) { m.yerr = Some(gen_err(s, n, rng)); }
    if s.chance(1, 4) { m.xerr = Some(gen_err(s, n, rng)); }
    if !full { return m; }
    for _ in 0..s.small(0, 5) {
        match s.below(14) {
            0..=2 => m.fmt = ofmt(s, 1, 1),
            3 | 4 if matches!(g, Grp::Line | Grp::Scatter | Grp::Radar | Grp::Stock) => {
                let mut x = MarkM { auto: s.chance(1, 8), none: false, kind: None, size: None, fmt: None };
                if !x.auto {
                    if s.chance(1, 5) { x.none = true; } else {
                        x.kind = Some(s.idx(9));
                        x.size = s.bool().then(|| *s.pick(&[2u8, 5, 10, 72]));
                        x.fmt = ofmt(s, 1, 2);
                    }
                }
                m.mark = Some(x);
            }
            5 | 6 => m.label = Some(gen_label(s, false, rng)),
            7 => m.custom = (0..s.small(1, 4)).map(|_| gen_label(s, true, rng)).collect(),
            8 if s.chance(1, 4) => m.points = (0..s.small(1, 5)).map(|_| Some(FmtM { fill: Some(FillM::Solid(gen_color(s), 0)), line: None })).collect(),
            8 => m.points = (0..s.small(1, 5)).map(|_| ofmt(s, 2, 3)).collect(),
            9 => {
                if matches!(g, Grp::Bar | Grp::Column) {
                    if s.bool() { m.gap = Some(*s.pick(&[0u16, 1, 50, 150, 300, 500])); } else { m.overlap = Some(*s.pick(&[-100i8, -1, 0, 50, 100])); }
                }
            }
            10 if matches!(g, Grp::Bar | Grp::Column) => m.invert = Some(s.bool().then(|| gen_color(s))),
            11 | 12 if stack(k) == 0 && !matches!(g, Grp::Pie | Grp::Doughnut | Grp::Radar) => {
                let kind = s.idx(6);
                m.trend = Some(TrendM {
                    kind, order: if kind == 3 { s.u32(2, 6) as u8 } else { s.u32(2, 4) as u8 }, name: if s.bool() { label_text(s) } else { String::new() }, fmt: ofmt(s, 1, 2), lfmt: ofmt(s, 1, 3), lfont: ofont(s, 1, 3, true),
                    fwd: s.chance(1, 3).then(|| gen::dec(s, 1, 40, 4)), back: s.chance(1, 3).then(|| gen::dec(s, 1, 40, 4)), eq: s.bool(), r2: s.bool(), icpt: s.chance(1, 3).then(|| gen::dec(s, -40, 40, 4)), del: s.chance(1, 3),
                });
            }
            13 if matches!(g, Grp::Line | Grp::Scatter) => m.smooth = Some(s.bool()),
            _ => m.del = s.bool(),
        }
    }
    m
}

fn gen_axis(s: &mut Src, cat: bool, can_date: bool, rng: &mut RngGen) -> AxisM {
    let mut a = AxisM::default();
    let num = |s: &mut Src| gen::dec(s, -4000, 4000, 8);
    for _ in 0..s.small(0, 6) {
        match s.below(20) {
            0 | 1 => {
                a.title.name = gen_name(s, rng);
                a.title.font = ofont(s, 1, 2, true);
                a.title.layout = olayout(s, false);
            }
            2 => a.fmt = ofmt(s, 1, 1),
            3 => a.font = ofont(s, 1, 1, true),
            4 => a.num = Some((*s.pick(&["0.00", "#,##0", "dd/mm/yyyy", "\"<\"0&\""])).into()),
            5 => a.reverse = true,
            6 => a.hidden = Some(s.chance(2, 3)),
            7 if cat && can_date => a.date = true,
            7 if cat => a.text = true,
            8 => a.max = Some(num(s)),
            9 => a.min = Some(num(s)),
            10 => a.major = Some(num(s).abs()),
            11 => a.minor = Some(num(s).abs()),
            12 => { let i = s.idx(2); a.grid[i] = Some(s.bool().then(|| gen_line(s))); }
            13 => a.nogrid = true,
            14 if !cat => { if s.bool() { a.log = *s.pick(&[2u16, 10, 1000]); } else { a.disp = Some((1 + s.idx(9), s.bool())); } }
            14 => { if s.bool() { a.lint = *s.pick(&[1u16, 2, 500]); } else { a.tint = *s.pick(&[1u16, 2, 500]); } }
            15 => { let i = s.idx(2); a.ticks[i] = Some(s.idx(4)); }
            16 if cat => { let i = s.idx(2); a.du[i] = Some(s.idx(3)); }
            17 => a.cross = Some(match s.below(5) { 0 => Cross::Auto, 1 => Cross::Min, 2 => Cross::Max, 3 => Cross::Cat(s.u32(1, 20)), _ => Cross::Val(num(s)) }),
            18 if cat => a.align = Some(s.idx(3)),
            18 => a.between = Some(s.bool()),
            19 => a.lpos = Some(s.idx(4)),
            _ => a.between = Some(s.bool()),
        }
    }
    if a.date && a.text { a.text = false; }
    a
}

/// `full`: with formatting options.
pub fn gen_chart_m(s: &mut Src, full: bool, rng: &mut RngGen) -> ChartM {
    let kind = *s.pick(&KINDS);
    let mut m = gen_one(s, kind, full, rng);
    let g = grp(kind);
    if !matches!(g, Grp::Pie | Grp::Doughnut | Grp::Radar) {
        if s.chance(1, 3) {
            let other = *s.pick(&KINDS);
            if !matches!(grp(other), Grp::Pie | Grp::Doughnut | Grp::Radar) && (g != Grp::Bar && grp(other) != Grp::Bar || g == grp(other)) {
                let mut c = gen_one(s, other, full, rng);
                let second = s.bool();
                // Some of its series may stay on the primary axes.
                let mixed = second && s.chance(1, 3);
                for x in &mut c.series { x.second = second && !(mixed && s.bool()); }
                m.combined = Some(Box::new(c));
            }
        }
        // Both charts can use the secondary axes if these suit them.
        let odd = |g: Grp| matches!(g, Grp::Bar | Grp::Scatter);
        let fits = m.combined.as_ref().is_none_or(|c| grp(c.kind) == g || !odd(g) && !odd(grp(c.kind)));
        let p = if m.combined.is_some() { 4 } else { 2 };
        if fits && m.series.len() > 1 && s.chance(1, p) {
            let keep = s.idx(m.series.len());
            for i in 0..m.series.len() { if i != keep && s.bool() { m.series[i].second = true; } }
        }
        let c = g == Grp::Bar;
        let has2 = m.has_second();
        if full {
            let cats = g != Grp::Scatter;
            m.axes[0] = gen_axis(s, cats && !c, !c, rng);
            m.axes[1] = gen_axis(s, c, true, rng);
            if has2 {
                // The group the secondary axes belong to.
                let g2 = m.combined.as_ref().map_or(g, |x| grp(x.kind));
                m.axes[2] = gen_axis(s, g2 != Grp::Scatter && g2 != Grp::Bar, false, rng);
                m.axes[3] = gen_axis(s, g2 == Grp::Bar, false, rng);
            }
        }
    } else if full && g == Grp::Radar {
        m.axes[0] = gen_axis(s, true, false, rng);
        m.axes[1] = gen_axis(s, false, false, rng);
    }
    m
}

impl ChartM {
    pub fn has_second(&self) -> bool {
        self.series.iter().any(|x| x.second) || self.combined.as_ref().is_some_and(|c| c.series.iter().any(|x| x.second))
    }
    /// Series in the order they are written.
    pub fn written(&self) -> Vec<&SerM> {
        let mut v: Vec<&SerM> = vec![];
        for c in std::iter::once(self).chain(self.combined.as_deref()) {
            v.extend(c.series.iter().filter(|x| !x.second));
            v.extend(c.series.iter().filter(|x| x.second));
        }
        v
    }
}

fn gen_one(s: &mut Src, kind: ChartType, full: bool, rng: &mut RngGen) -> ChartM {
    let n = s.span(1, 4, 30);
    let series = (0..n).map(|_| gen_series(s, kind, full, rng)).collect();
    let mut m = ChartM { kind, series, title: TitleM::default(), axes: Default::default(), combined: None, style: 2, rot: None, hole: None, drop: None, hilo: None, updown: None, table: None, area: None, plot: None, plot_layout: None, leg_hidden: false, leg_pos: None, leg_over: false, leg_fmt: None, leg_font: None, leg_layout: None, leg_del: vec![], empty: None, na: false, show_hidden: false };
    if s.chance(1, 2) { m.title.name = gen_name(s, rng); }
    if !full { return m; }
    if s.chance(1, 3) {
        m.title.fmt = ofmt(s, 1, 2);
        m.title.font = ofont(s, 1, 2, true);
        m.title.layout = olayout(s, false);
        m.title.overlay = s.chance(1, 3);
        m.title.hidden = s.chance(1, 5);
    }
    for _ in 0..s.small(0, 5) {
        match s.below(18) {
            0 => m.style = *s.pick(&[1u8, 2, 3, 34, 48]),
            1 => m.rot = Some(*s.pick(&[0u16, 1, 180, 360])),
            2 => m.hole = Some(*s.pick(&[0u8, 10, 33, 90])),
            3 => m.drop = Some(ofmt(s, 1, 2)),
            4 => m.hilo = Some(ofmt(s, 1, 2)),
            5 => m.updown = Some([ofmt(s, 1, 2), ofmt(s, 1, 2)]),
            6 => m.table = Some(([s.bool(), s.bool(), s.bool(), s.bool()], ofmt(s, 1, 3), ofont(s, 1, 3, true))),
            7 => m.area = ofmt(s, 1, 1),
            8 => m.plot = ofmt(s, 1, 1),
            9 => m.plot_layout = olayout(s, true),
            10 => m.leg_hidden = s.bool(),
            11 => m.leg_pos = Some(s.idx(5)),
            12 => m.leg_over = true,
            13 => m.leg_fmt = ofmt(s, 1, 1),
            14 => m.leg_font = ofont(s, 1, 1, true),
            15 => m.leg_layout = olayout(s, true),
            16 => if s.bool() { m.leg_del = (0..s.small(1, 3)).map(|_| s.idx(6)).collect(); m.leg_del.sort_unstable(); m.leg_del.dedup(); },
            _ => match s.below(3) { 0 => m.empty = Some(s.idx(3)), 1 => m.na = true, _ => m.show_hidden = true },
        }
    }
    m
}

// ---------------------------------------------------------------- builder

fn layout(m: &LayoutM) -> ChartLayout {
    let mut l = ChartLayout::new();
    if let Some((x, y)) = m.off { l = l.set_offset(x, y); }
    if let Some((x, y)) = m.dim { l = l.set_dimensions(x, y); }
    l.set_offset(1.5, 0.5).set_dimensions(0.5, -0.1)
}

fn title(s: &mut Src, t: &mut ChartTitle, m: &TitleM) {
    shuffled!(s;
        {
            match &m.name {
                NameM::None => {}
                NameM::Text(x) => { t.set_name(x.as_str()); }
                NameM::Range(r) => { t.set_name(&chart_range(s, &r.sheet, r.at)); }
            }
        }
        { if let Some(f) = &m.font { t.set_font(&chart_font(f)); } }
        { if let Some(f) = &m.fmt { give!(f, y0 => t.set_format(y0)); } }
        { if let Some(l) = &m.layout { t.set_layout(&layout(l)); } }
        { if m.overlay { t.set_overlay(true); } }
        { if m.hidden { t.set_hidden(); } }
    );
}

const POS: [ChartDataLabelPosition; 10] = [
    ChartDataLabelPosition::Default, ChartDataLabelPosition::Center, ChartDataLabelPosition::Right, ChartDataLabelPosition::Left, ChartDataLabelPosition::Above, ChartDataLabelPosition::Below,
    ChartDataLabelPosition::InsideBase, ChartDataLabelPosition::InsideEnd, ChartDataLabelPosition::OutsideEnd, ChartDataLabelPosition::BestFit,
];
const POS_X: [&str; 10] = ["", "ctr", "r", "l", "t", "b", "inBase", "inEnd", "outEnd", "bestFit"];

fn label(s: &mut Src, m: &LabM) -> ChartDataLabel {
    let mut l = ChartDataLabel::new();
    shuffled!(s;
        { if m.value { if s.bool() { l.show_value(); } else { l.show_y_value(); } } }
        { if m.cat { if s.bool() { l.show_category_name(); } else { l.show_x_value(); } } }
        { if m.ser { l.show_series_name(); } }
        { if m.leader { l.show_leader_lines(); } }
        { if m.key { l.show_legend_key(); } }
        { if m.pct { l.show_percentage(); } }
        { if let Some(p) = m.pos { l.set_position(POS[p]); } }
        { if let Some(f) = &m.fmt { give!(f, y0 => l.set_format(y0)); } }
        { if let Some(f) = &m.font { l.set_font(&chart_font(f)); } }
        { if let Some(f) = &m.num { l.set_num_format(f); } }
        { if let Some(c) = m.sep { l.set_separator(c); } }
        {
            match &m.text {
                NameM::None => {}
                NameM::Text(x) => { l.set_value(x.as_str()); }
                NameM::Range(r) => { l.set_value(&chart_range(s, &r.sheet, r.at)); }
            }
        }
        { if m.hidden { l.set_hidden(); } }
    );
    l
}

fn errbars(s: &mut Src, m: &ErrM) -> ChartErrorBars {
    let mut e = ChartErrorBars::new();
    e.set_type(match &m.kind {
        ErrK::Std => ChartErrorBarsType::StandardError,
        ErrK::Fixed(v) => ChartErrorBarsType::FixedValue(*v),
        ErrK::Pct(v) => ChartErrorBarsType::Percentage(*v),
        ErrK::Dev(v) => ChartErrorBarsType::StandardDeviation(*v),
        ErrK::Custom(a, b) => ChartErrorBarsType::Custom(chart_range(s, &a.sheet, a.at), chart_range(s, &b.sheet, b.at)),
    });
    e.set_type(ChartErrorBarsType::FixedValue(0.0));
    e.set_type(ChartErrorBarsType::Percentage(-1.0));
    shuffled!(s;
        { e.set_direction([ChartErrorBarsDirection::Both, ChartErrorBarsDirection::Minus, ChartErrorBarsDirection::Plus][m.dir]); }
        { e.set_end_cap(m.cap); }
        { if let Some(f) = &m.fmt { give!(f, y0 => e.set_format(y0)); } }
    );
    e
}

fn trend_type(m: &TrendM) -> ChartTrendlineType {
    match m.kind {
        0 => ChartTrendlineType::Linear,
        1 => ChartTrendlineType::Exponential,
        2 => ChartTrendlineType::Logarithmic,
        3 => ChartTrendlineType::Polynomial(m.order),
        4 => ChartTrendlineType::Power,
        _ => ChartTrendlineType::MovingAverage(m.order),
    }
}

const MARK: [(ChartMarkerType, &str); 9] = [
    (ChartMarkerType::Square, "square"), (ChartMarkerType::Diamond, "diamond"), (ChartMarkerType::Triangle, "triangle"), (ChartMarkerType::X, "x"), (ChartMarkerType::Star, "star"),
    (ChartMarkerType::ShortDash, "dot"), (ChartMarkerType::LongDash, "dash"), (ChartMarkerType::Circle, "circle"), (ChartMarkerType::PlusSign, "plus"),
];

fn series(s: &mut Src, x: &mut ChartSeries, m: &SerM) {
    shuffled!(s;
        { x.set_values(&chart_range(s, &m.values.sheet, m.values.at)); }
        { if let Some(c) = &m.cats { x.set_categories(&chart_range(s, &c.sheet, c.at)); } }
        {
            match &m.name {
                NameM::None => {}
                NameM::Text(t) => { x.set_name(t.as_str()); }
                NameM::Range(r) => { x.set_name(&chart_range(s, &r.sheet, r.at)); }
            }
        }
        { if let Some(f) = &m.fmt { give!(f, y0 => x.set_format(y0)); } }
        {
            if let Some(k) = &m.mark {
                let mut y = ChartMarker::new();
                if k.auto { y.set_automatic(); }
                if k.none { y.set_none(); }
                if let Some(t) = k.kind { y.set_type(MARK[t].0); }
                if let Some(v) = k.size { y.set_size(v); }
                if let Some(f) = &k.fmt { give!(f, y0 => y.set_format(y0)); }
                x.set_marker(&y);
            }
        }
        { if let Some(l) = &m.label { x.set_data_label(&label(s, l)); } }
        {
            if !m.custom.is_empty() {
                let v: Vec<ChartDataLabel> = m.custom.iter().map(|l| label(s, l)).collect();
                x.set_custom_data_labels(&v);
            }
            let plain: Vec<Color> = m.points.iter().filter_map(|p| match p { Some(FmtM { fill: Some(FillM::Solid(c, 0)), line: None }) => Some(*c), _ => None }).collect();
            if !m.points.is_empty() && plain.len() == m.points.len() && s.bool() {
                x.set_point_colors(&plain);
            } else if !m.points.is_empty() {
                let v: Vec<ChartPoint> = m.points.iter().map(|p| p.as_ref().map_or(ChartPoint::new(), |f| give!(f, y0 => ChartPoint::new().set_format(y0)))).collect();
                x.set_points(&v);
            }
        }
        { if let Some(v) = m.gap { x.set_gap(v); x.set_gap(501); } }
        { if let Some(v) = m.overlap { x.set_overlap(v); x.set_overlap(101); x.set_overlap(-101); } }
        { match m.invert { None => {} Some(None) => { x.set_invert_if_negative(); } Some(Some(c)) => { x.set_invert_if_negative_color(c); } } }
        {
            if let Some(t) = &m.trend {
                let mut y = ChartTrendline::new();
                y.set_type(trend_type(t));
                if !t.name.is_empty() { y.set_name(&t.name); }
                if let Some(f) = &t.fmt { give!(f, y0 => y.set_format(y0)); }
                if let Some(f) = &t.lfmt { y.set_label_format(&mut chart_format(f)); }
                if let Some(f) = &t.lfont { y.set_label_font(&chart_font(f)); }
                if let Some(v) = t.fwd { y.set_forward_period(v); }
                if let Some(v) = t.back { y.set_backward_period(v); }
                if t.eq { y.display_equation(true); }
                if t.r2 { y.display_r_squared(true); }
                if let Some(v) = t.icpt { y.set_intercept(v); }
                if t.del { y.delete_from_legend(true); }
                x.set_trendline(&y);
            }
        }
        { if let Some(e) = &m.xerr { x.set_x_error_bars(&errbars(s, e)); } }
        { if let Some(e) = &m.yerr { x.set_y_error_bars(&errbars(s, e)); } }
        { if m.del { x.delete_from_legend(true); } }
        { if let Some(b) = m.smooth { x.set_smooth(b); } }
        { if m.second { x.set_secondary_axis(true); } }
    );
}

const TICK: [ChartAxisTickType; 4] = [ChartAxisTickType::None, ChartAxisTickType::Inside, ChartAxisTickType::Outside, ChartAxisTickType::Cross];
const DU: [ChartAxisDateUnitType; 3] = [ChartAxisDateUnitType::Days, ChartAxisDateUnitType::Months, ChartAxisDateUnitType::Years];
const DISP: [ChartAxisDisplayUnitType; 10] = [
    ChartAxisDisplayUnitType::None, ChartAxisDisplayUnitType::Hundreds, ChartAxisDisplayUnitType::Thousands, ChartAxisDisplayUnitType::TenThousands, ChartAxisDisplayUnitType::HundredThousands,
    ChartAxisDisplayUnitType::Millions, ChartAxisDisplayUnitType::TenMillions, ChartAxisDisplayUnitType::HundredMillions, ChartAxisDisplayUnitType::Billions, ChartAxisDisplayUnitType::Trillions,
];
const DISP_X: [&str; 10] = ["", "hundreds", "thousands", "tenThousands", "hundredThousands", "millions", "tenMillions", "hundredMillions", "billions", "trillions"];

fn axis(s: &mut Src, a: &mut ChartAxis, m: &AxisM) {
    shuffled!(s;
        {
            match &m.title.name {
                NameM::None => {}
                NameM::Text(x) => { a.set_name(x.as_str()); }
                NameM::Range(r) => { a.set_name(&chart_range(s, &r.sheet, r.at)); }
            }
        }
        { if let Some(f) = &m.title.font { a.set_name_font(&chart_font(f)); } }
        { if let Some(l) = &m.title.layout { a.set_label_layout(&layout(l)); } }
        { if let Some(f) = &m.fmt { give!(f, y0 => a.set_format(y0)); } }
        { if let Some(f) = &m.font { a.set_font(&chart_font(f)); } }
        { if let Some(f) = &m.num { a.set_num_format(f); } }
        { if m.reverse { a.set_reverse(); } }
        { if let Some(b) = m.hidden { a.set_hidden(b); } }
        {
            if m.text { if s.bool() { a.set_text_axis(true); } else { a.set_automatic_axis(true); } }
            if m.date { a.set_date_axis(true); }
            let day = |s: &mut Src, v: f64| (v >= 1.0 && v == v.floor() && s.bool()).then(|| ExcelDateTime::from_serial_datetime(v).ok()).flatten();
            if let Some(v) = m.max { match day(s, v) { Some(d) => a.set_max_date(&d), None => a.set_max(v) }; }
            if let Some(v) = m.min { match day(s, v) { Some(d) => a.set_min_date(&d), None => a.set_min(v) }; }
        }
        {
            if let Some(v) = m.major { a.set_major_unit(v); a.set_major_unit(-1); }
            if let Some(v) = m.minor { a.set_minor_unit(v); a.set_minor_unit(-0.5); }
        }
        {
            if m.nogrid { a.set_major_gridlines(false); a.set_minor_gridlines(false); }
            match &m.grid[0] { None => {} Some(None) => { a.set_major_gridlines(true); } Some(Some(l)) => { a.set_major_gridlines_line(&chart_line(l)); } }
            match &m.grid[1] { None => {} Some(None) => { a.set_minor_gridlines(true); } Some(Some(l)) => { a.set_minor_gridlines_line(&chart_line(l)); } }
        }
        { if m.log > 0 { a.set_log_base(m.log); a.set_log_base(1); } }
        { if m.lint > 0 { a.set_label_interval(m.lint); } }
        { if m.tint > 0 { a.set_tick_interval(m.tint); } }
        { if let Some(t) = m.ticks[0] { a.set_major_tick_type(TICK[t]); } }
        { if let Some(t) = m.ticks[1] { a.set_minor_tick_type(TICK[t]); } }
        { if let Some(t) = m.du[0] { a.set_major_unit_date_type(DU[t]); } }
        { if let Some(t) = m.du[1] { a.set_minor_unit_date_type(DU[t]); } }
        { if let Some((t, v)) = m.disp { a.set_display_unit_type(DISP[t]); a.set_display_units_visible(v); } }
        {
            if let Some(c) = m.cross {
                a.set_crossing(match c { Cross::Auto => ChartAxisCrossing::Automatic, Cross::Min => ChartAxisCrossing::Min, Cross::Max => ChartAxisCrossing::Max, Cross::Cat(n) => ChartAxisCrossing::CategoryNumber(n), Cross::Val(v) => ChartAxisCrossing::AxisValue(v) });
            }
        }
        { if let Some(x) = m.align { a.set_label_alignment([ChartAxisLabelAlignment::Center, ChartAxisLabelAlignment::Left, ChartAxisLabelAlignment::Right][x]); } }
        { if let Some(x) = m.lpos { a.set_label_position([ChartAxisLabelPosition::NextTo, ChartAxisLabelPosition::High, ChartAxisLabelPosition::Low, ChartAxisLabelPosition::None][x]); } }
        { if let Some(b) = m.between { a.set_position_between_ticks(b); } }
    );
}

pub fn build(s: &mut Src, m: &ChartM) -> Chart {
    let mut c = match m.kind {
        ChartType::Column if s.bool() => Chart::new_column(),
        ChartType::Scatter if s.bool() => Chart::new_scatter(),
        ChartType::Bar if s.bool() => Chart::new_bar(),
        ChartType::Pie if s.bool() => Chart::new_pie(),
        ChartType::Area if s.bool() => Chart::new_area(),
        ChartType::Doughnut if s.bool() => Chart::new_doughnut(),
        ChartType::Line if s.bool() => Chart::new_line(),
        ChartType::Radar if s.bool() => Chart::new_radar(),
        ChartType::Stock if s.bool() => Chart::new_stock(),
        k => Chart::new(k),
    };
    shuffled!(s;
        {
            for x in &m.series {
                if x.pushed {
                    let mut y = ChartSeries::new();
                    series(s, &mut y, x);
                    c.push_series(&y);
                } else {
                    series(s, c.add_series(), x);
                }
            }
        }
        { title(s, c.title(), &m.title); }
        { axis(s, c.x_axis(), &m.axes[0]); }
        { axis(s, c.y_axis(), &m.axes[1]); }
        { axis(s, c.x2_axis(), &m.axes[2]); }
        { axis(s, c.y2_axis(), &m.axes[3]); }
        {
            if m.style != 2 { c.set_style(m.style); }
            c.set_style(0).set_style(49);
        }
        { if let Some(v) = m.rot { c.set_rotation(v); } }
        {
            if let Some(v) = m.hole { c.set_hole_size(v); }
            c.set_rotation(361).set_hole_size(91);
        }
        { match &m.drop { None => {} Some(None) => { c.set_drop_lines(true); } Some(Some(f)) => { c.set_drop_lines_format(&mut chart_format(f)); } } }
        { match &m.hilo { None => {} Some(None) => { c.set_high_low_lines(true); } Some(Some(f)) => { c.set_high_low_lines_format(&mut chart_format(f)); } } }
        {
            if let Some(v) = &m.updown {
                c.set_up_down_bars(true);
                if let Some(f) = &v[0] { c.set_up_bar_format(&mut chart_format(f)); }
                if let Some(f) = &v[1] { c.set_down_bar_format(&mut chart_format(f)); }
            }
        }
        {
            if let Some((b, f, n)) = &m.table {
                let mut t = ChartDataTable::new().show_horizontal_borders(b[0]).show_vertical_borders(b[1]).show_outline_borders(b[2]).show_legend_keys(b[3]);
                if let Some(f) = f { t = give!(f, y0 => t.set_format(y0)); }
                if let Some(n) = n { t = t.set_font(&chart_font(n)); }
                c.set_data_table(&t);
            }
        }
        { if let Some(f) = &m.area { give!(f, y0 => c.chart_area().set_format(y0)); } }
        { if let Some(f) = &m.plot { give!(f, y0 => c.plot_area().set_format(y0)); } }
        { if let Some(l) = &m.plot_layout { c.plot_area().set_layout(&layout(l)); } }
        { if m.leg_hidden { c.legend().set_hidden(); } }
        { if let Some(p) = m.leg_pos { c.legend().set_position([ChartLegendPosition::Right, ChartLegendPosition::Left, ChartLegendPosition::Top, ChartLegendPosition::Bottom, ChartLegendPosition::TopRight][p]); } }
        { if m.leg_over { c.legend().set_overlay(true); } }
        { if let Some(f) = &m.leg_fmt { give!(f, y0 => c.legend().set_format(y0)); } }
        { if let Some(f) = &m.leg_font { c.legend().set_font(&chart_font(f)); } }
        { if let Some(l) = &m.leg_layout { c.legend().set_layout(&layout(l)); } }
        { if !m.leg_del.is_empty() { c.legend().delete_entries(&m.leg_del); } }
        { if let Some(e) = m.empty { c.show_empty_cells_as([ChartEmptyCells::Gaps, ChartEmptyCells::Zero, ChartEmptyCells::Connected][e]); } }
        { if m.na { c.show_na_as_empty_cell(); } }
        { if m.show_hidden { c.show_hidden_data(); } }
        {
            if let Some(x) = &m.combined {
                let y = build(s, x);
                c.combine(&y);
            }
        }
    );
    c
}

// ---------------------------------------------------------------- expected

fn val(n: &str, v: impl ToString) -> Elem { el(n).a("val", v) }

fn ln(l: &LineM) -> Elem {
    let mut e = el("a:ln").a_opt("w", l.width.map(width));
    if l.hidden { return e.e(el("a:noFill")); }
    if let Some(c) = l.color { e = e.e(solid(c, l.tr)); }
    e.e_if(l.dash > 0, || val("a:prstDash", DASH[l.dash]))
}

fn sppr(f: &Option<FmtM>) -> Option<Elem> {
    let f = f.as_ref()?;
    let e = el("c:spPr").e_opt(f.fill.as_ref().map(fill));
    Some(match &f.line { None => e, Some(None) => e.e(el("a:ln").e(el("a:noFill"))), Some(Some(l)) => e.e(ln(l)) })
}

fn rpr(tag: &str, f: &FontM) -> Elem {
    let mut e = el(tag).a_opt("sz", f.size.map(|v| (v * 100.0).round())).a_opt("b", f.bold.map(u8::from)).a_if(f.italic, "i", 1).a_if(f.underline, "u", "sng").a_if(f.strike, "strike", "sngStrike");
    if let Some(c) = f.color { e = e.e(solid(c, 0)); }
    if !f.name.is_empty() || f.pitch > 0 || f.charset > 0 {
        e = e.e(el("a:latin").a_if(!f.name.is_empty(), "typeface", &f.name).a_if(f.pitch > 0, "pitchFamily", f.pitch).a_if(f.charset > 0, "charset", f.charset));
    }
    e
}

fn body(f: &FontM) -> Elem {
    let e = el("a:bodyPr");
    match f.rot { None => e, Some(270) => e.a("rot", 0).a("vert", "wordArtVert"), Some(271) => e.a("rot", 0).a("vert", "eaVert"), Some(r) => e.a("rot", i32::from(r) * 60_000).a("vert", "horz") }
}

fn ppr(f: &FontM) -> Elem { el("a:pPr").a_opt("rtl", f.rtl.map(u8::from)).e(rpr("a:defRPr", f)) }

fn txpr(f: &FontM) -> Elem {
    el("c:txPr").e(body(f)).e(el("a:lstStyle")).e(el("a:p").e(ppr(f)).e(el("a:endParaRPr").a("lang", "en-US")))
}

fn rich(t: &str, f: &FontM) -> Elem {
    el("c:tx").e(el("c:rich").e(body(f)).e(el("a:lstStyle")).e(el("a:p").e(ppr(f)).e(el("a:r").e(rpr("a:rPr", f).a("lang", "en-US")).e(el("a:t").t(t)))))
}

fn refr(r: &Rng) -> Elem { el("c:ref").e(el("c:f").t(r.canon())) }

fn lay(l: &Option<LayoutM>, dims: bool, inner: bool) -> Option<Elem> {
    let l = l.as_ref()?;
    let mut e = el("c:manualLayout").e_if(inner, || val("c:layoutTarget", "inner")).e(val("c:xMode", "edge")).e(val("c:yMode", "edge"));
    if let Some((x, y)) = l.off { e = e.e(val("c:x", x)).e(val("c:y", y)); }
    if let (true, Some((x, y))) = (dims, l.dim) { e = e.e(val("c:w", x)).e(val("c:h", y)); }
    Some(el("c:layout").e(e))
}

fn title_el(t: &TitleM) -> Option<Elem> {
    let d = FontM::default();
    let f = t.font.as_ref().unwrap_or(&d);
    let tail = |e: Elem| e.e_opt(lay(&t.layout, false, false)).e_if(t.overlay, || val("c:overlay", 1)).e_opt(sppr(&t.fmt));
    match &t.name {
        NameM::Text(x) => Some(tail(el("c:title").e(rich(x, f)))),
        NameM::Range(r) => {
            let e = tail(el("c:title").e(el("c:tx").e(refr(r))));
            Some(e.e_if(t.fmt.is_none() || t.font.is_some(), || txpr(f)))
        }
        NameM::None => t.fmt.as_ref().map(|_| tail(el("c:title"))),
    }
}

fn series_name(n: &NameM) -> Option<Elem> {
    match n { NameM::None => None, NameM::Text(t) => Some(el("c:tx").e(el("c:v").t(t))), NameM::Range(r) => Some(el("c:tx").e(refr(r))) }
}

fn default_pos(g: Grp) -> &'static str {
    match g { Grp::Area | Grp::Radar => "ctr", Grp::Bar | Grp::Column => "outEnd", Grp::Doughnut | Grp::Pie => "bestFit", Grp::Line | Grp::Scatter | Grp::Stock => "r" }
}

fn label_body(mut e: Elem, l: &LabM, custom: bool, font: Option<&FontM>, g: Grp) -> Elem {
    if let Some(n) = &l.num { e = e.e(el("c:numFmt").a("formatCode", n).a("sourceLinked", 0)); }
    e = e.e_opt(sppr(&l.fmt)).e_opt(font.map(txpr));
    if let Some(p) = l.pos { e = e.e_if(p > 0 && POS_X[p] != default_pos(g), || val("c:dLblPos", POS_X[p])); }
    let value = l.value || l.text != NameM::None || !custom && !l.cat && !l.pct;
    e = e.e_if(l.key, || val("c:showLegendKey", 1)).e_if(value, || val("c:showVal", 1)).e_if(l.cat, || val("c:showCatName", 1)).e_if(l.ser, || val("c:showSerName", 1)).e_if(l.pct, || val("c:showPercent", 1));
    if let Some(c) = l.sep { if c != ',' { e = e.e(el("c:separator").t(if c == ' ' || c == '\n' { c.to_string() } else { format!("{c} ") })); } }
    // Leader lines are an option of all labels only.
    if l.leader && !custom {
        e = e.e(if matches!(g, Grp::Pie | Grp::Doughnut) { val("c:showLeaderLines", 1) } else {
            el("c:extLst").e(el("c:ext").a("uri", "{CE6537A1-D6FC-4f65-9D91-7224C49458BB}").a("xmlns:c15", "http://schemas.microsoft.com/office/drawing/2012/chart").e(val("c15:showLeaderLines", 1)))
        });
    }
    e
}

fn is_default(l: &LabM) -> bool {
    !(l.value || l.cat || l.ser || l.leader || l.key || l.pct || l.hidden) && l.pos.unwrap_or(0) == 0 && l.fmt.is_none() && l.font.is_none() && l.num.is_none() && l.sep.unwrap_or(',') == ',' && l.text == NameM::None
}

fn labels(m: &SerM, g: Grp) -> Option<Elem> {
    if m.label.is_none() && m.custom.is_empty() { return None; }
    let mut e = el("c:dLbls");
    for (i, l) in m.custom.iter().enumerate().take(m.values.points()) {
        if is_default(l) { continue; }
        let mut x = el("c:dLbl").e(val("c:idx", i));
        if l.hidden {
            x = x.e(val("c:delete", 1));
        } else {
            let d = FontM::default();
            let mut font = l.font.as_ref();
            match &l.text {
                NameM::None => {}
                NameM::Text(t) => { x = x.e(rich(t, l.font.as_ref().unwrap_or(&d))); font = None; }
                NameM::Range(r) => x = x.e(el("c:tx").e(refr(r))),
            }
            x = label_body(x, l, true, font, g);
        }
        e = e.e(x);
    }
    let d = LabM::default();
    let l = m.label.as_ref().unwrap_or(&d);
    Some(label_body(e, l, false, l.font.as_ref(), g))
}

fn trend(t: &TrendM) -> Elem {
    let mut e = el("c:trendline").e_if(!t.name.is_empty(), || el("c:name").t(&t.name)).e_opt(sppr(&t.fmt)).e(val("c:trendlineType", ["linear", "exp", "log", "poly", "power", "movingAvg"][t.kind]));
    if t.kind == 3 { e = e.e(val("c:order", t.order)); }
    if t.kind == 5 { e = e.e(val("c:period", t.order)); }
    if let Some(v) = t.fwd { e = e.e_if(v > 0.0, || val("c:forward", v)); }
    if let Some(v) = t.back { e = e.e_if(v > 0.0, || val("c:backward", v)); }
    if let Some(v) = t.icpt { e = e.e(val("c:intercept", v)); }
    e = e.e_if(t.r2, || val("c:dispRSqr", 1));
    if t.eq {
        e = e.e(val("c:dispEq", 1)).e(el("c:trendlineLbl").e(el("c:numFmt").a("formatCode", "General").a("sourceLinked", 0)).e_opt(sppr(&t.lfmt)).e_opt(t.lfont.as_ref().map(txpr)));
    }
    e
}

fn errbar_el(dir: &str, m: &ErrM) -> Elem {
    let (k, v) = match &m.kind { ErrK::Std => ("stdErr", None), ErrK::Fixed(v) => ("fixedVal", Some(v)), ErrK::Pct(v) => ("percentage", Some(v)), ErrK::Dev(v) => ("stdDev", Some(v)), ErrK::Custom(..) => ("cust", None) };
    let mut e = el("c:errBars").e_if(!dir.is_empty(), || val("c:errDir", dir)).e(val("c:errBarType", ["both", "minus", "plus"][m.dir])).e(val("c:errValType", k)).e_if(!m.cap, || val("c:noEndCap", 1));
    if let Some(v) = v { e = e.e(val("c:val", v)); }
    if let ErrK::Custom(a, b) = &m.kind { e = e.e(el("c:plus").e(refr(a))).e(el("c:minus").e(refr(b))); }
    e.e_opt(sppr(&m.fmt))
}

fn series_el(m: &SerM, k: ChartType, i: usize) -> Elem {
    let g = grp(k);
    let mut fmt = m.fmt.clone();
    if k == ChartType::Scatter {
        // Markers only: the line is hidden unless the user asks for one.
        let f = fmt.get_or_insert_with(FmtM::default);
        f.line.get_or_insert_with(|| Some(LineM { color: None, width: Some(2.25), tr: 0, dash: 0, hidden: true }));
    }
    let mut e = el("c:ser").e(val("c:idx", i)).e(val("c:order", i)).e_opt(series_name(&m.name)).e_opt(sppr(&fmt));
    match &m.mark {
        Some(x) if x.auto => {}
        Some(x) => {
            let sym = x.kind.map_or("none", |t| MARK[t].1);
            e = e.e(el("c:marker").e(val("c:symbol", sym)).e_opt(x.size.map(|v| val("c:size", v))).e_opt(sppr(&x.fmt)));
        }
        None if matches!(k, ChartType::ScatterStraight | ChartType::ScatterSmooth | ChartType::Radar) || g == Grp::Line => e = e.e(el("c:marker").e(val("c:symbol", "none"))),
        None => {}
    }
    e = e.e_if(m.invert.is_some(), || val("c:invertIfNegative", 1));
    for (i, p) in m.points.iter().enumerate().take(m.values.points()) {
        if let Some(x) = sppr(p) {
            let x = if matches!(g, Grp::Line | Grp::Scatter) { el("c:marker").e(x) } else { x };
            e = e.e(el("c:dPt").e(val("c:idx", i)).e(x));
        }
    }
    e = e.e_opt(labels(m, g)).e_opt(m.trend.as_ref().map(trend));
    let (x, y) = (m.xerr.as_ref(), m.yerr.as_ref());
    e = match g {
        Grp::Bar => e.e_opt(x.map(|v| errbar_el("", v))),
        Grp::Column => e.e_opt(y.map(|v| errbar_el("", v))),
        Grp::Scatter => e.e_opt(x.map(|v| errbar_el("x", v))).e_opt(y.map(|v| errbar_el("y", v))),
        _ => e.e_opt(y.map(|v| errbar_el("y", v))),
    };
    let (cn, vn) = if g == Grp::Scatter { ("c:xVal", "c:yVal") } else { ("c:cat", "c:val") };
    e = e.e_opt(m.cats.as_ref().map(|c| el(cn).e(refr(c)))).e(el(vn).e(refr(&m.values)));
    let smooth = matches!(g, Grp::Line | Grp::Scatter) && m.smooth.unwrap_or(matches!(k, ChartType::ScatterSmooth | ChartType::ScatterSmoothWithMarkers));
    e = e.e_if(smooth, || val("c:smooth", 1));
    if let Some(Some(c)) = m.invert {
        let ns = "http://schemas.microsoft.com/office/drawing/2007/8/2/chart";
        e = e.e(el("c:extLst").e(el("c:ext").a("uri", "{6F2FDCE9-48DA-4B69-8628-5D25D57E5C99}").a("xmlns:c14", ns).e(el("c14:invertSolidFillFmt").e(el("c14:spPr").a("xmlns:c14", ns).e(solid(c, 0))))));
    }
    e
}

fn lines(tag: &str, v: &Option<Option<FmtM>>) -> Option<Elem> {
    v.as_ref().map(|f| el(tag).e_opt(sppr(f)))
}

fn group(m: &ChartM, ser: &[&SerM], first: usize, ids: [&str; 2], primary: bool) -> Elem {
    let g = grp(m.kind);
    let st = ["standard", "stacked", "percentStacked"][stack(m.kind)];
    let ax = |e: Elem| e.e(val("c:axId", ids[0])).e(val("c:axId", ids[1]));
    let body = |e: Elem| e.es(ser.iter().enumerate().map(|(i, x)| series_el(x, m.kind, first + i)));
    let drop = lines("c:dropLines", &m.drop);
    let hilo = lines("c:hiLowLines", &m.hilo);
    let updown = m.updown.as_ref().map(|v| el("c:upDownBars").e(val("c:gapWidth", 150)).e(el("c:upBars").e_opt(sppr(&v[0]))).e(el("c:downBars").e_opt(sppr(&v[1]))));
    match g {
        Grp::Area => ax(body(el("c:areaChart").e(val("c:grouping", st))).e_opt(drop)),
        Grp::Bar | Grp::Column => {
            let st = if stack(m.kind) == 0 { "clustered" } else { st };
            let mut e = body(el("c:barChart").e(val("c:barDir", if g == Grp::Bar { "bar" } else { "col" })).e(val("c:grouping", st)));
            let gap = ser.iter().filter_map(|x| x.gap).filter(|v| *v != 150).last().unwrap_or(150);
            let over = ser.iter().filter_map(|x| x.overlap).last().or((stack(m.kind) > 0).then_some(100));
            e = e.e_if(gap != 150, || val("c:gapWidth", gap)).e_opt(over.map(|v| val("c:overlap", v)));
            ax(e)
        }
        Grp::Line => ax(body(el("c:lineChart").e(val("c:grouping", st))).e_opt(drop).e_opt(hilo).e_opt(updown).e(val("c:marker", 1))),
        Grp::Stock => ax(body(el("c:stockChart")).e_opt(drop).e_opt(if primary { hilo } else { None }).e_opt(updown)),
        Grp::Radar => ax(body(el("c:radarChart").e(val("c:radarStyle", if m.kind == ChartType::RadarFilled { "filled" } else { "marker" })))),
        Grp::Scatter => ax(body(el("c:scatterChart").e(val("c:scatterStyle", if matches!(m.kind, ChartType::ScatterSmooth | ChartType::ScatterSmoothWithMarkers) { "smoothMarker" } else { "lineMarker" })))),
        Grp::Pie => body(el("c:pieChart").e(val("c:varyColors", 1))).e(val("c:firstSliceAng", m.rot.unwrap_or(0))),
        Grp::Doughnut => body(el("c:doughnutChart").e(val("c:varyColors", 1))).e(val("c:firstSliceAng", m.rot.unwrap_or(0))).e(val("c:holeSize", m.hole.unwrap_or(50))),
    }
}

/// An axis with the defaults of the chart kind applied.
#[derive(Clone)]
struct Ax { m: AxisM, cat: bool, date: bool, auto: bool, pos: usize, hidden: bool, between: bool, major_grid: bool, cross: Cross, lpos: usize, tick: Option<usize> }

fn resolve(m: &ChartM) -> [Ax; 4] {
    let g = grp(m.kind);
    let base = |i: usize| Ax { m: m.axes[i].clone(), cat: false, date: false, auto: false, pos: 1, hidden: false, between: true, major_grid: false, cross: Cross::Auto, lpos: 0, tick: None };
    let mut a = [base(0), base(1), base(2), base(3)];
    a[1].pos = 2;
    if g != Grp::Radar { a[3].pos = 2; }
    match g {
        Grp::Bar => { a[1].cat = true; a[0].major_grid = true; a[2].cat = true; a[3].cross = Cross::Max; a[3].hidden = true; a[3].lpos = 3; }
        Grp::Pie | Grp::Doughnut => {}
        Grp::Radar => { a[0].cat = true; a[0].major_grid = true; a[1].major_grid = true; a[1].tick = Some(3); }
        _ => {
            a[1].major_grid = true;
            a[2].cross = Cross::Max;
            a[2].hidden = true;
            a[2].lpos = 3;
            let c = !matches!(g, Grp::Scatter | Grp::Stock);
            a[0].cat = c;
            a[2].cat = c;
            if g == Grp::Stock { for i in [0, 2] { a[i].date = true; a[i].auto = true; } }
            if g == Grp::Area { a[0].between = false; a[2].between = false; }
            if g == Grp::Scatter { for x in &mut a { x.between = false; } }
        }
    }
    for x in &mut a {
        let m = &x.m;
        if m.date { x.date = true; x.cat = false; x.auto = false; }
        if m.text { x.auto = true; }
        if let Some(b) = m.hidden { x.hidden = b; }
        if let Some(b) = m.between { x.between = b; }
        if m.nogrid { x.major_grid = false; }
        if m.grid[0].is_some() { x.major_grid = true; }
        if let Some(c) = m.cross { x.cross = c; }
        if let Some(p) = m.lpos { x.lpos = p; }
        if m.ticks[0].is_some() { x.tick = m.ticks[0]; }
    }
    a
}

fn cross_el(c: Cross, cat_value: bool) -> Elem {
    match c {
        Cross::Auto => val("c:crosses", "autoZero"),
        Cross::Min => val("c:crosses", "min"),
        Cross::Max => val("c:crosses", "max"),
        Cross::Cat(n) if cat_value => val("c:crossesAt", n),
        Cross::Cat(_) => val("c:crosses", "autoZero"),
        Cross::Val(v) => val("c:crossesAt", v),
    }
}

/// `tag`: c:catAx, c:dateAx or c:valAx; `x`: the axis, `y`: the one it crosses.
fn axis_el(tag: &str, x: &Ax, y: &Ax, ids: [&str; 2], m: &ChartM, horizontal: bool) -> Elem {
    let a = &x.m;
    let mut sc = el("c:scaling").e_if(!x.cat && a.log >= 2, || val("c:logBase", a.log)).e(val("c:orientation", if a.reverse { "maxMin" } else { "minMax" }));
    if !x.cat {
        sc = sc.e_opt(a.max.map(|v| val("c:max", v))).e_opt(a.min.map(|v| val("c:min", v)));
    }
    // An axis is drawn on the far side if the other one runs backwards or is crossed at its end.
    let flip = y.m.reverse || y.cross == Cross::Max;
    let pos = if flip { [1, 0, 3, 2][x.pos] } else { x.pos };
    let grid = |t: &str, on: bool, l: &Option<Option<LineM>>| on.then(|| el(t).e_opt(l.clone().flatten().map(|l| el("c:spPr").e(ln(&l)))));
    let mut e = el(tag).e(val("c:axId", ids[0])).e(sc).e_if(x.hidden, || val("c:delete", 1)).e(val("c:axPos", ["t", "b", "l", "r"][pos]));
    e = e.e_opt(grid("c:majorGridlines", x.major_grid, &a.grid[0])).e_opt(grid("c:minorGridlines", a.grid[1].is_some(), &a.grid[1])).e_opt(title_el(&a.title));
    let is_val = tag == "c:valAx";
    let numeric = {
        let mut w: Vec<&SerM> = m.series.iter().filter(|s| !s.second).collect();
        w.extend(m.series.iter().filter(|s| s.second));
        grp(m.kind) != Grp::Scatter && w.iter().rev().find_map(|s| s.cats.as_ref()).is_some_and(|c| c.kind != Kind::Str)
    };
    let nf = |c: &str, l: u8| el("c:numFmt").a("formatCode", c).a("sourceLinked", l);
    if let Some(n) = &a.num { e = e.e(nf(n, 0)); }
    else if is_val { e = e.e(nf(if stack(m.kind) == 2 { "0%" } else { "General" }, 1)); }
    else if numeric { e = e.e(nf(if tag == "c:dateAx" { "dd/mm/yyyy" } else { "General" }, 1)); }
    let tick = ["none", "in", "out", "cross"];
    e = e.e_opt(x.tick.map(|t| val("c:majorTickMark", tick[t]))).e_opt(a.ticks[1].map(|t| val("c:minorTickMark", tick[t]))).e(val("c:tickLblPos", ["nextTo", "high", "low", "none"][x.lpos])).e_opt(sppr(&a.fmt));
    if let Some(f) = &a.font {
        let mut f = f.clone();
        if f.italic && f.bold.is_none() { f.bold = Some(false); }
        e = e.e(txpr(&f));
    }
    e = e.e(val("c:crossAx", ids[1]));
    if is_val {
        // A category number only makes sense on a category axis.
        e = e.e(cross_el(y.cross, !horizontal));
        e = e.e(val("c:crossBetween", if y.between { "between" } else { "midCat" }));
        if !x.cat { e = e.e_opt(a.major.map(|v| val("c:majorUnit", v))).e_opt(a.minor.map(|v| val("c:minorUnit", v))); }
        if let Some((t, v)) = a.disp { e = e.e(el("c:dispUnits").e(val("c:builtInUnit", DISP_X[t])).e_if(v, || el("c:dispUnitsLbl"))); }
        return e;
    }
    let has_crosses = !matches!(grp(m.kind), Grp::Area | Grp::Bar | Grp::Stock);
    e = e.e_if(has_crosses || !x.hidden, || cross_el(y.cross, false));
    if tag == "c:catAx" {
        e = e.e_if(!x.auto, || val("c:auto", 1)).e(val("c:lblAlgn", ["ctr", "l", "r"][a.align.unwrap_or(0)]));
    } else {
        e = e.e_if(x.auto, || val("c:auto", 1));
    }
    e = e.e(val("c:lblOffset", 100)).e_if(tag == "c:catAx" && a.lint > 1, || val("c:tickLblSkip", a.lint)).e_if(tag == "c:catAx" && a.tint > 1, || val("c:tickMarkSkip", a.tint));
    if tag == "c:dateAx" {
        let u = ["days", "months", "years"];
        e = e.e_opt(a.major.map(|v| val("c:majorUnit", v))).e_opt(a.du[0].map(|t| val("c:majorTimeUnit", u[t]))).e_opt(a.minor.map(|v| val("c:minorUnit", v))).e_opt(a.du[1].map(|t| val("c:minorTimeUnit", u[t])));
    }
    e
}

/// The whole chart part, with references as `canon()` and symbolic axis ids.
pub fn expected(m: &ChartM, chartsheet: bool, protected: bool) -> Elem {
    let p = ["p0", "p1"];
    let q = ["s0", "s1"];
    let mut pa = el("c:plotArea").e_opt(lay(&m.plot_layout, true, true));
    let mut first = 0;
    for c in std::iter::once(m).chain(m.combined.as_deref()) {
        for second in [false, true] {
            let v: Vec<&SerM> = c.series.iter().filter(|x| x.second == second).collect();
            if !v.is_empty() {
                pa = pa.e(group(c, &v, first, if second { q } else { p }, !second));
                first += v.len();
            }
        }
    }
    let g = grp(m.kind);
    let [x, y, x2, y2] = resolve(m);
    let (x, y) = if g == Grp::Bar { (y, x) } else { (x, y) };
    let date = x.date;
    let rev = |v: [&'static str; 2]| [v[1], v[0]];
    let cat_tag = if date { "c:dateAx" } else { "c:catAx" };
    match g {
        Grp::Pie | Grp::Doughnut => {}
        Grp::Scatter => pa = pa.e(axis_el("c:valAx", &x, &y, p, m, false)).e(axis_el("c:valAx", &y, &x, rev(p), m, false)),
        _ => pa = pa.e(axis_el(cat_tag, &x, &y, p, m, true)).e(axis_el("c:valAx", &y, &x, rev(p), m, false)),
    }
    if m.has_second() {
        let g2 = m.combined.as_ref().map_or(g, |c| grp(c.kind));
        let (x, y) = if g2 == Grp::Bar { (y2, x2) } else { (x2, y2) };
        match g2 {
            Grp::Pie | Grp::Doughnut => {}
            Grp::Scatter => {
                let (a, b) = (axis_el("c:valAx", &x, &y, q, m, false), axis_el("c:valAx", &y, &x, rev(q), m, false));
                pa = if m.combined.is_some() { pa.e(b).e(a) } else { pa.e(a).e(b) };
            }
            _ => pa = pa.e(axis_el("c:valAx", &y, &x, rev(q), m, false)).e(axis_el(cat_tag, &x, &y, q, m, true)),
        }
    }
    if let Some((b, f, n)) = &m.table {
        pa = pa.e(el("c:dTable").e_if(b[0], || val("c:showHorzBorder", 1)).e_if(b[1], || val("c:showVertBorder", 1)).e_if(b[2], || val("c:showOutline", 1)).e_if(b[3], || val("c:showKeys", 1)).e_opt(sppr(f)).e_opt(n.as_ref().map(txpr)));
    }
    pa = pa.e_opt(sppr(&m.plot));

    let mut ch = el("c:chart");
    ch = if m.title.hidden { ch.e(val("c:autoTitleDeleted", 1)) } else { ch.e_opt(title_el(&m.title)) };
    ch = ch.e(pa);
    if !m.leg_hidden {
        let mut del = m.leg_del.clone();
        if del.is_empty() {
            let w = m.written();
            del = w.iter().enumerate().filter(|(_, x)| x.del).map(|(i, _)| i).collect();
            del.extend(w.iter().filter_map(|x| x.trend.as_ref()).enumerate().filter(|(_, t)| t.del).map(|(i, _)| w.len() + i));
        }
        let mut l = el("c:legend").e(val("c:legendPos", ["r", "l", "t", "b", "tr"][m.leg_pos.unwrap_or(0)])).es(del.iter().map(|i| el("c:legendEntry").e(val("c:idx", i)).e(val("c:delete", 1))));
        l = l.e_opt(lay(&m.leg_layout, true, false)).e_if(m.leg_over, || val("c:overlay", 1)).e_opt(sppr(&m.leg_fmt));
        let mut font = m.leg_font.clone();
        if matches!(g, Grp::Pie | Grp::Doughnut) { font.get_or_insert_with(FontM::default).rtl.get_or_insert(false); }
        ch = ch.e(l.e_opt(font.as_ref().map(txpr)));
    }
    ch = ch.e_if(!m.show_hidden, || val("c:plotVisOnly", 1)).e_opt(m.empty.map(|i| val("c:dispBlanksAs", ["gap", "zero", "span"][i])));
    if m.na {
        ch = ch.e(el("c:extLst").e(el("c:ext").a("uri", "{56B9EC1D-385E-4148-901F-78D8002777C0}").a("xmlns:c16r3", "http://schemas.microsoft.com/office/drawing/2017/03/chart").e(el("c16r3:dataDisplayOptions16").e(val("c16r3:dispNaAsBlank", 1)))));
    }
    el("c:chartSpace").e(val("c:lang", "en-US")).e_if(m.style != 2, || val("c:style", m.style)).e_if(protected, || el("c:protection")).e(ch).e_opt(sppr(&m.area)).e_if(!chartsheet, || el("c:printSettings"))
}

/// A model's debug text without unset options.
pub fn short(m: &ChartM) -> String {
    let t = format!("{m:?}");
    let mut o = String::new();
    for p in t.split(", ") {
        if p.ends_with(": None") || p.ends_with(": false") || p.ends_with(": []") { continue; }
        if !o.is_empty() { o.push_str(", "); }
        o.push_str(p);
    }
    o
}
