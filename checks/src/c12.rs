//! C12: conditional formats are stored with the right rule, range and priority.
use crate::fmt::*;
use crate::util::*;

type Pool = [(Format, Fm, String)];

/// A threshold: type and value ("" where the type has none).
type Vo = (String, String, bool);

#[derive(Clone, Debug, PartialEq)]
pub struct Icons {
    set: String,
    only: bool,
    reverse: bool,
    vo: Vec<Vo>,
    icons: Vec<(String, String)>,
    custom: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bar {
    min: (String, String),
    max: (String, String),
    fill: Elem,
    neg: Elem,
    border: Option<(Elem, Elem)>,
    solid: bool,
    only: bool,
    dir: String,
    axis: String,
    axis_color: Option<Elem>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// The rule element without priority and dxfId.
    Plain(Elem),
    Bar(Bar),
    Icons(Icons),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub sqref: String,
    pub kind: Kind,
    pub stop: bool,
    pub fmt: Option<Fm>,
}

/// A value with its stored text, and whether it is a bare string.
fn value(s: &mut Src) -> (ConditionalFormatValue, String, bool) {
    match s.below(10) {
        0..=2 => {
            let n = s.int(-1000, 1000) as i32;
            let v: ConditionalFormatValue = match s.below(16) {
                0 => return ((n as u8).into(), (n as u8).to_string(), false),
                1 => return ((n as i8).into(), (n as i8).to_string(), false),
                2 => return ((n as u16).into(), (n as u16).to_string(), false),
                3 => (n as i16).into(),
                4 => return ((n as u32).into(), (n as u32).to_string(), false),
                5 => (n as f32).into(),
                6 => f64::from(n).into(),
                _ => n.into(),
            };
            (v, n.to_string(), false)
        }
        3 => {
            let n = s.int(-100_000, 100_000) as f64 / 64.0;
            (n.into(), n.to_string(), false)
        }
        4 => {
            let (f, t) = *s.pick(&[("=$B$1", "$B$1"), ("Sheet1!$A$1:$A$3", "Sheet1!$A$1:$A$3"), ("=A1&\"<x>\"", "A1&\"<x>\""), ("SUM(A1:A2)", "SUM(A1:A2)")]);
            (Formula::new(f).into(), t.into(), false)
        }
        5 => {
            let b = s.bool();
            (b.into(), if b { "TRUE" } else { "FALSE" }.into(), false)
        }
        6 if s.bool() => {
            // Days and 64ths of a day, which are stored exactly.
            use chrono::{NaiveDate, NaiveTime};
            let day = NaiveDate::from_ymd_opt(s.int(1901, 9999) as i32, s.u32(1, 12), s.u32(1, 28)).unwrap();
            let n = (day - NaiveDate::from_ymd_opt(1899, 12, 30).unwrap()).num_days() as f64;
            let part = s.u32(0, 63);
            let time = NaiveTime::from_num_seconds_from_midnight_opt(part * 1350, 0).unwrap();
            let frac = f64::from(part) / 64.0;
            match s.below(3) {
                0 => ((&day).into(), n.to_string(), false),
                1 => ((&day.and_time(time)).into(), (n + frac).to_string(), false),
                _ => ((&time).into(), frac.to_string(), false),
            }
        }
        6 => {
            let (d, t) = match s.below(3) {
                0 => (ExcelDateTime::from_ymd(2024, 1, 1), "45292"),
                1 => (ExcelDateTime::from_hms(12, 0, 0), "0.5"),
                _ => (ExcelDateTime::from_ymd(1999, 12, 31), "36525"),
            };
            let d = d.unwrap();
            (if s.bool() { (&d).into() } else { d.into() }, t.into(), false)
        }
        _ => {
            let mut t = match s.below(4) {
                0 => (*s.pick(&["say \"hi\"", "a\"b", "x&y<z>", "Foo", "it's", "\""])).to_string(),
                _ => gen::line_text(s, 10),
            };
            if t.is_empty() {
                t = "x".into();
            }
            // Text in quotes may be given as it is to be stored.
            let q = if t.len() > 1 && t.starts_with('"') && t.ends_with('"') { t.clone() } else { format!("\"{}\"", t.replace('"', "\"\"")) };
            (t.into(), q, true)
        }
    }
}

/// A threshold type with its stored name.
fn vtype(s: &mut Src) -> (ConditionalFormatType, &'static str) {
    *s.pick(&[
        (ConditionalFormatType::Number, "num"),
        (ConditionalFormatType::Percent, "percent"),
        (ConditionalFormatType::Formula, "formula"),
        (ConditionalFormatType::Percentile, "percentile"),
        (ConditionalFormatType::Lowest, "min"),
        (ConditionalFormatType::Highest, "max"),
        (ConditionalFormatType::Automatic, "auto"),
    ])
}

/// A setting of a threshold: `None` when the documentation says it is ignored.
fn threshold(s: &mut Src) -> (ConditionalFormatType, ConditionalFormatValue, Option<(String, String)>) {
    let (t, n) = vtype(s);
    let (v, txt, string) = value(s);
    let mut ok = !string;
    if matches!(t, ConditionalFormatType::Percent | ConditionalFormatType::Percentile) {
        if let Ok(x) = txt.parse::<f64>() {
            ok &= (0.0..=100.0).contains(&x);
        }
    }
    (t, v, ok.then(|| (n.to_string(), txt)))
}

fn color_el(tag: &str, c: Color) -> Elem {
    color_attrs(c, el(tag))
}

/// The range argument and its stored form.
fn multi(s: &mut Src) -> (String, String) {
    let n = s.small(1, 3);
    let (mut a, mut b) = (vec![], vec![]);
    let dollar = s.bool();
    for _ in 0..n {
        let (r, c, r2, c2) = range_near(s, 4, 4);
        let t = range_name(r, c.into(), r2, c2.into());
        b.push(t.clone());
        a.push(if dollar {
            let x = abs_range(r, c.into(), r2, c2.into());
            x
        } else {
            t
        });
    }
    (a.join(if s.bool() { " " } else { "," }), b.join(" "))
}

fn text_rule(s: &mut Src) -> String {
    match s.below(4) {
        0 => (*s.pick(&["é", "日本", "a\"b", "\"", "x<&>y", "😀", " lead", "ﬁ"])).to_string(),
        _ => gen::line_text(s, 8),
    }
}

macro_rules! icon_types { ($($n:ident $t:literal),*) => { &[$((ConditionalFormatIconType::$n, $t)),*] } }
const ICONS: &[(ConditionalFormatIconType, &str)] = icon_types!(
    ThreeArrows "3Arrows", ThreeArrowsGray "3ArrowsGray", ThreeFlags "3Flags", ThreeTrafficLights "3TrafficLights1", ThreeTrafficLightsWithRim "3TrafficLights2", ThreeSigns "3Signs",
    ThreeSymbolsCircled "3Symbols", ThreeSymbols "3Symbols2", ThreeStars "3Stars", ThreeTriangles "3Triangles", FourArrows "4Arrows", FourArrowsGray "4ArrowsGray", FourRedToBlack "4RedToBlack",
    FourHistograms "4Rating", FourTrafficLights "4TrafficLights", FiveArrows "5Arrows", FiveArrowsGray "5ArrowsGray", FiveHistograms "5Rating", FiveQuadrants "5Quarters", FiveBoxes "5Boxes"
);

fn n_icons(t: &str) -> usize {
    usize::from(t.as_bytes()[0] - b'0')
}

/// Adds one random conditional format to the sheet.
pub fn add(s: &mut Src, ws: &mut Worksheet, pool: &Pool, c: &mut Ctx) -> R<Rule> {
    let at = range_near(s, 3, 3);
    add_at(s, ws, pool, c, at)
}

fn add_at(s: &mut Src, ws: &mut Worksheet, pool: &Pool, c: &mut Ctx, (r1, c1, r2, c2): (u32, u16, u32, u16)) -> R<Rule> {
    let own = range_name(r1, c1.into(), r2, c2.into());
    let (mrange, stored) = if s.chance(1, 5) { multi(s) } else { (String::new(), own.clone()) };
    let anchor = stored.split([' ', ':']).next().unwrap_or("").to_string();
    let stop = s.chance(1, 3);
    let f = if s.chance(1, 2) { Some(s.idx(pool.len())) } else { None };
    let mut fmt = f.map(|i| pool[i].1.clone());
    // A format may also be given as a number format only.
    let code = if f.is_some() && s.chance(1, 6) { Some(*s.pick(&["0.000", "yyyy-mm-dd", "\"<\"0\">\"", "0%"])) } else { None };
    if let Some(n) = code {
        fmt = Some(Fm { num: Num::Code(n.to_string()), ..Fm::default() });
    }
    let owned = s.below(3);
    macro_rules! common {
        ($x:expr) => {{
            let mut x = $x;
            if !mrange.is_empty() {
                x = x.set_multi_range(&mrange);
            }
            if stop {
                x = x.set_stop_if_true(true);
            }
            x
        }};
    }
    macro_rules! finish {
        ($x:expr, $q:expr) => {{
            let mut x = $x;
            shuffled!(s;
                { x = x.set_rule($q.clone()); }
                { x = common!(x); }
                {
                    x = match (f, code, owned) {
                        (None, ..) => x,
                        (Some(i), None, 0) => x.set_format(pool[i].0.clone()),
                        (Some(i), None, _) => x.set_format(&pool[i].0),
                        (_, Some(n), 0) => x.set_format(n),
                        (_, Some(n), 1) => x.set_format(&n.to_string()),
                        (_, Some(n), _) => x.set_format(n.to_string()),
                    };
                }
            );
            must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &x).map(|_| ()))?;
        }};
        ($x:expr) => {{
            let mut x = $x;
            shuffled!(s;
                { x = common!(x); }
                {
                    x = match (f, code, owned) {
                        (None, ..) => x,
                        (Some(i), None, 0) => x.set_format(pool[i].0.clone()),
                        (Some(i), None, _) => x.set_format(&pool[i].0),
                        (_, Some(n), 0) => x.set_format(n),
                        (_, Some(n), 1) => x.set_format(&n.to_string()),
                        (_, Some(n), _) => x.set_format(n.to_string()),
                    };
                }
            );
            must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &x).map(|_| ()))?;
        }};
    }
    let head = |t: &str| el("cfRule").a("type", t).a_if(stop, "stopIfTrue", 1);
    let k = s.below(12);
    let kind = match k {
        0 => {
            use ConditionalFormatCellRule as Q;
            let (a, at, _) = value(s);
            let (b, bt, _) = value(s);
            let (q, op, two) = match s.below(8) {
                0 => (Q::EqualTo(a), "equal", false),
                1 => (Q::NotEqualTo(a), "notEqual", false),
                2 => (Q::GreaterThan(a), "greaterThan", false),
                3 => (Q::GreaterThanOrEqualTo(a), "greaterThanOrEqual", false),
                4 => (Q::LessThan(a), "lessThan", false),
                5 => (Q::LessThanOrEqualTo(a), "lessThanOrEqual", false),
                6 => (Q::Between(a, b), "between", true),
                _ => (Q::NotBetween(a, b), "notBetween", true),
            };
            finish!(ConditionalFormatCell::new(), q);
            Kind::Plain(head("cellIs").a("operator", op).e(el("formula").t(at)).e_if(two, || el("formula").t(bt)))
        }
        1 => {
            let inv = s.bool();
            let x = ConditionalFormatBlank::new();
            finish!(if inv { x.invert() } else { x });
            let (t, q) = if inv { ("notContainsBlanks", ">0") } else { ("containsBlanks", "=0") };
            Kind::Plain(head(t).e(el("formula").t(format!("LEN(TRIM({anchor})){q}"))))
        }
        2 => {
            let inv = s.bool();
            let x = ConditionalFormatError::new();
            finish!(if inv { x.invert() } else { x });
            Kind::Plain(if inv { head("notContainsErrors").e(el("formula").t(format!("NOT(ISERROR({anchor}))"))) } else { head("containsErrors").e(el("formula").t(format!("ISERROR({anchor})"))) })
        }
        3 => {
            let inv = s.bool();
            let x = ConditionalFormatDuplicate::new();
            finish!(if inv { x.invert() } else { x });
            Kind::Plain(head(if inv { "uniqueValues" } else { "duplicateValues" }))
        }
        4 => {
            let (q, t) = *s.pick(&[("=ISODD(B3)", "ISODD(B3)"), ("B3>\"a<b\"", "B3>\"a<b\""), ("=$A1=1", "$A1=1")]);
            finish!(ConditionalFormatFormula::new(), q);
            Kind::Plain(head("expression").e(el("formula").t(t)))
        }
        5 => {
            use ConditionalFormatAverageRule as Q;
            let (q, above, equal, sd) = s
                .pick(&[
                    (Q::AboveAverage, true, false, 0),
                    (Q::BelowAverage, false, false, 0),
                    (Q::EqualOrAboveAverage, true, true, 0),
                    (Q::EqualOrBelowAverage, false, true, 0),
                    (Q::OneStandardDeviationAbove, true, false, 1),
                    (Q::OneStandardDeviationBelow, false, false, 1),
                    (Q::TwoStandardDeviationsAbove, true, false, 2),
                    (Q::TwoStandardDeviationsBelow, false, false, 2),
                    (Q::ThreeStandardDeviationsAbove, true, false, 3),
                    (Q::ThreeStandardDeviationsBelow, false, false, 3),
                ])
                .clone();
            finish!(ConditionalFormatAverage::new(), q);
            Kind::Plain(head("aboveAverage").a_if(!above, "aboveAverage", 0).a_if(equal, "equalAverage", 1).a_if(sd > 0, "stdDev", sd))
        }
        6 => {
            use ConditionalFormatTopRule as Q;
            let pc = s.bool();
            let bottom = s.bool();
            let n = if pc { *s.pick(&[1u16, 100, 50]) } else { s.u16(1, 1000) };
            let q = match (pc, bottom) {
                (false, false) => Q::Top(n),
                (false, true) => Q::Bottom(n),
                (true, false) => Q::TopPercent(n),
                (true, true) => Q::BottomPercent(n),
            };
            finish!(ConditionalFormatTop::new(), q);
            Kind::Plain(head("top10").a_if(pc, "percent", 1).a_if(bottom, "bottom", 1).a("rank", n))
        }
        7 => {
            use ConditionalFormatTextRule as Q;
            let t = text_rule(s);
            let d = t.replace('"', "\"\"");
            let n = t.encode_utf16().count();
            let (q, ty, op, fo) = match s.below(4) {
                0 => (Q::Contains(t.clone()), "containsText", "containsText", format!("NOT(ISERROR(SEARCH(\"{d}\",{anchor})))")),
                1 => (Q::DoesNotContain(t.clone()), "notContainsText", "notContains", format!("ISERROR(SEARCH(\"{d}\",{anchor}))")),
                2 => (Q::BeginsWith(t.clone()), "beginsWith", "beginsWith", format!("LEFT({anchor},{n})=\"{d}\"")),
                _ => (Q::EndsWith(t.clone()), "endsWith", "endsWith", format!("RIGHT({anchor},{n})=\"{d}\"")),
            };
            finish!(ConditionalFormatText::new(), q);
            Kind::Plain(head(ty).a("operator", op).a("text", t).e(el("formula").t(fo)))
        }
        8 => {
            use ConditionalFormatDateRule as Q;
            let a = &anchor;
            let (q, p, fo) = match s.below(10) {
                0 => (Q::Yesterday, "yesterday", format!("FLOOR({a},1)=TODAY()-1")),
                1 => (Q::Today, "today", format!("FLOOR({a},1)=TODAY()")),
                2 => (Q::Tomorrow, "tomorrow", format!("FLOOR({a},1)=TODAY()+1")),
                3 => (Q::Last7Days, "last7Days", format!("AND(TODAY()-FLOOR({a},1)<=6,FLOOR({a},1)<=TODAY())")),
                4 => (Q::LastWeek, "lastWeek", format!("AND(TODAY()-ROUNDDOWN({a},0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN({a},0)<(WEEKDAY(TODAY())+7))")),
                5 => (Q::ThisWeek, "thisWeek", format!("AND(TODAY()-ROUNDDOWN({a},0)<=WEEKDAY(TODAY())-1,ROUNDDOWN({a},0)-TODAY()<=7-WEEKDAY(TODAY()))")),
                6 => (Q::NextWeek, "nextWeek", format!("AND(ROUNDDOWN({a},0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN({a},0)-TODAY()<(15-WEEKDAY(TODAY())))")),
                7 => (Q::LastMonth, "lastMonth", format!("AND(MONTH({a})=MONTH(TODAY())-1,OR(YEAR({a})=YEAR(TODAY()),AND(MONTH({a})=1,YEAR({a})=YEAR(TODAY())-1)))")),
                8 => (Q::ThisMonth, "thisMonth", format!("AND(MONTH({a})=MONTH(TODAY()),YEAR({a})=YEAR(TODAY()))")),
                _ => (Q::NextMonth, "nextMonth", format!("AND(MONTH({a})=MONTH(TODAY())+1,OR(YEAR({a})=YEAR(TODAY()),AND(MONTH({a})=12,YEAR({a})=YEAR(TODAY())+1)))")),
            };
            finish!(ConditionalFormatDate::new(), q);
            Kind::Plain(head("timePeriod").a("timePeriod", p).e(el("formula").t(fo)))
        }
        9 => {
            fmt = None;
            let three = s.bool();
            let mut vo: Vec<(String, String)> = vec![("min".into(), String::new()), ("percentile".into(), "50".into()), ("max".into(), String::new())];
            let mut cols = if three { [Color::RGB(0xF8_696B), Color::RGB(0xFF_EB84), Color::RGB(0x63_BE7B)] } else { [Color::RGB(0xFF_EF9C), Color::Black, Color::RGB(0x63_BE7B)] };
            let (mut x2, mut x3) = (ConditionalFormat2ColorScale::new(), ConditionalFormat3ColorScale::new());
            for _ in 0..s.small(0, 4) {
                let i = if three { s.idx(3) } else { s.idx(2) * 2 };
                if s.bool() {
                    let col = gen_color(s);
                    cols[i] = col;
                    (x2, x3) = match i {
                        0 => (x2.set_minimum_color(col), x3.set_minimum_color(col)),
                        1 => (x2, x3.set_midpoint_color(col)),
                        _ => (x2.set_maximum_color(col), x3.set_maximum_color(col)),
                    };
                } else {
                    let (t, v, w) = threshold(s);
                    if let Some(w) = w {
                        // The extremes are only defaults.
                        if !matches!(t, ConditionalFormatType::Lowest | ConditionalFormatType::Highest | ConditionalFormatType::Automatic) {
                            vo[i] = w;
                        }
                    }
                    (x2, x3) = match i {
                        0 => (x2.set_minimum(t, v.clone()), x3.set_minimum(t, v)),
                        1 => (x2, x3.set_midpoint(t, v)),
                        _ => (x2.set_maximum(t, v.clone()), x3.set_maximum(t, v)),
                    };
                }
            }
            if three {
                must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &common!(x3)).map(|_| ()))?;
            } else {
                must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &common!(x2)).map(|_| ()))?;
            }
            let ix: &[usize] = if three { &[0, 1, 2] } else { &[0, 2] };
            let sc = el("colorScale")
                .es(ix.iter().map(|&i| el("cfvo").a("type", &vo[i].0).a_if(!vo[i].1.is_empty(), "val", &vo[i].1)))
                .es(ix.iter().map(|&i| color_el("color", cols[i])));
            Kind::Plain(head("colorScale").e(sc))
        }
        10 => {
            fmt = None;
            let mut x = ConditionalFormatDataBar::new();
            let mut lim = [("auto".to_string(), String::new()), ("auto".to_string(), String::new())];
            // fill, border, negative fill, negative border, axis
            let mut col = [Color::RGB(0x63_8EC6), Color::RGB(0x63_8EC6), Color::Red, Color::Red, Color::Black];
            let (mut solid, mut off, mut only, mut dir, mut axis) = (false, false, false, "context", "automatic");
            for _ in 0..s.small(0, 6) {
                let b = s.bool();
                match s.below(12) {
                    i @ 0..=1 => {
                        let (t, v, w) = threshold(s);
                        let bad = if i == 0 { t == ConditionalFormatType::Highest } else { t == ConditionalFormatType::Lowest };
                        if let (Some(mut w), false) = (w, bad) {
                            if matches!(w.0.as_str(), "min" | "max" | "auto") {
                                w.1.clear();
                            }
                            lim[i as usize] = w;
                        }
                        x = if i == 0 { x.set_minimum(t, v) } else { x.set_maximum(t, v) };
                    }
                    2 => { let q = gen_color(s); x = x.set_fill_color(q); col[0] = q; col[1] = q; }
                    3 => { let q = gen_color(s); x = x.set_border_color(q); col[1] = q; }
                    4 => { let q = if b { col[0] } else { gen_color(s) }; x = x.set_negative_fill_color(q); col[2] = q; col[3] = q; }
                    5 => { let q = if b { *s.pick(&[col[0], col[1]]) } else { gen_color(s) }; x = x.set_negative_border_color(q); col[3] = q; }
                    6 => { x = x.set_solid_fill(b); solid = b; }
                    7 => { x = x.set_border_off(b); off = b; }
                    8 => { x = x.set_bar_only(b); only = b; }
                    9 => {
                        let (d, n) = s.pick(&[(ConditionalFormatDataBarDirection::Context, "context"), (ConditionalFormatDataBarDirection::LeftToRight, "leftToRight"), (ConditionalFormatDataBarDirection::RightToLeft, "rightToLeft")]).clone();
                        x = x.set_direction(d);
                        dir = n;
                    }
                    10 => {
                        let (d, n) = s.pick(&[(ConditionalFormatDataBarAxisPosition::Automatic, "automatic"), (ConditionalFormatDataBarAxisPosition::Midpoint, "middle"), (ConditionalFormatDataBarAxisPosition::None, "none")]).clone();
                        x = x.set_axis_position(d);
                        axis = n;
                    }
                    _ => { let q = gen_color(s); x = x.set_axis_color(q); col[4] = q; }
                }
            }
            must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &common!(x)).map(|_| ()))?;
            let k = |i: usize| color_el("c", col[i]);
            Kind::Bar(Bar { min: lim[0].clone(), max: lim[1].clone(), fill: k(0), neg: k(2), border: (!off).then(|| (k(1), k(3))), solid, only, dir: dir.into(), axis: axis.into(), axis_color: (axis != "none").then(|| k(4)) })
        }
        _ => {
            fmt = None;
            let mut x = ConditionalFormatIconSet::new();
            let (it, set) = s.pick(ICONS).clone();
            let n = n_icons(set);
            x = x.set_icon_type(it);
            let per: &[u32] = match n { 3 => &[0, 33, 67], 4 => &[0, 25, 50, 75], _ => &[0, 20, 40, 60, 80] };
            let mut vo: Vec<Vo> = per.iter().map(|p| ("percent".into(), p.to_string(), true)).collect();
            let mut icons: Vec<(String, String)> = (0..n).map(|i| (set.to_string(), i.to_string())).collect();
            let (mut only, mut rev, mut custom) = (false, false, false);
            if s.bool() {
                let mut v = vec![];
                vo.clear();
                for i in 0..n {
                    let mut ic = ConditionalFormatCustomIcon::new();
                    let mut w: Vo = ("percent".into(), "0".into(), true);
                    if s.bool() {
                        let (t, val, q) = threshold(s);
                        ic = ic.set_rule(t, val);
                        if let Some(q) = q {
                            if !matches!(q.0.as_str(), "min" | "max" | "auto") {
                                w = (q.0, q.1, w.2);
                            }
                        }
                    }
                    if s.chance(1, 3) {
                        ic = ic.set_greater_than(true);
                        w.2 = false;
                    }
                    if s.chance(1, 4) {
                        let (jt, js) = s.pick(ICONS).clone();
                        let j = s.u8(0, 5);
                        ic = ic.set_icon_type(jt, j);
                        if usize::from(j) < n_icons(js) {
                            icons[i] = (js.into(), j.to_string());
                            custom = true;
                        }
                    }
                    if s.chance(1, 8) {
                        ic = ic.set_no_icon(true);
                        icons[i] = ("NoIcons".into(), "0".into());
                        custom = true;
                    }
                    if i == 0 {
                        w = ("percent".into(), "0".into(), true);
                    }
                    v.push(ic);
                    vo.push(w);
                }
                x = x.set_icons(&v);
            }
            for _ in 0..s.small(0, 2) {
                let b = s.bool();
                if s.bool() {
                    x = x.show_icons_only(b);
                    only = b;
                } else if !custom {
                    x = x.reverse_icons(b);
                    rev = b;
                }
            }
            must("add_conditional_format", ws.add_conditional_format(r1, c1, r2, c2, &common!(x)).map(|_| ()))?;
            Kind::Icons(Icons { set: set.into(), only, reverse: rev, vo, icons, custom })
        }
    };
    let r = Rule { sqref: stored, kind, stop, fmt };
    c.d(|| format!("rule on {own} multi {mrange:?} stop {stop} format {:?}: {:?}", f, match &r.kind { Kind::Plain(e) => e.canon(), k => format!("{k:?}") }));
    c.label(["cell", "blank", "error", "duplicate", "formula", "average", "top", "text", "date", "color scale", "data bar", "icons"][k as usize]);
    Ok(r)
}

struct Found {
    sqref: String,
    main: Option<Elem>,
    ext: Option<Elem>,
    prio: u64,
}

fn vo(e: &Elem) -> (String, String, bool) {
    let t = e.attr("type").unwrap_or("").to_string();
    let none = matches!(t.as_str(), "min" | "max" | "autoMin" | "autoMax");
    let v = if none { String::new() } else { e.attr("val").map(str::to_string).or_else(|| e.child("xm:f").map(|f| f.text())).unwrap_or_default() };
    (t, v, e.attr("gte").unwrap_or("1") != "0")
}

fn recolor(e: Option<&Elem>) -> Elem {
    let mut x = e.cloned().unwrap_or_default();
    x.name = "c".into();
    x
}

fn read_icons(e: &Elem, p: &str) -> Icons {
    let set = e.attr("iconSet").unwrap_or("3TrafficLights1").to_string();
    let vo: Vec<Vo> = e.all(&format!("{p}cfvo")).map(vo).collect();
    let custom = e.attr("custom") == Some("1");
    let icons = if custom { e.all(&format!("{p}cfIcon")).map(|i| (i.attr("iconSet").unwrap_or("").to_string(), i.attr("iconId").unwrap_or("").to_string())).collect() } else { (0..n_icons(&set)).map(|i| (set.clone(), i.to_string())).collect() };
    Icons { only: e.attr("showValue") == Some("0"), reverse: e.attr("reverse") == Some("1"), vo, icons, custom, set }
}

fn drop_attr(e: &Elem, names: &[&str]) -> Elem {
    let mut x = e.clone();
    x.attrs.retain(|a| !names.contains(&a.0.as_str()));
    x
}

pub fn check(b: &Book, i: usize, rules: &[Rule]) -> R {
    let x = b.sheet(i)?;
    let mut found: Vec<Found> = vec![];
    for cf in x.all("conditionalFormatting") {
        let sq = cf.attr("sqref").unwrap_or("").to_string();
        ensure!(cf.children().count() > 0, "empty", "sheet {i}: conditional formatting of {sq} has no rules");
        for r in cf.children() {
            ensure!(r.name == "cfRule", "element", "sheet {i}: <{}>", r.name);
            found.push(Found { sqref: sq.clone(), prio: r.attr("priority").and_then(|p| p.parse().ok()).unwrap_or(0), main: Some(r.clone()), ext: None });
        }
    }
    let exts: Vec<&Elem> = x.child("extLst").map(|e| e.all("ext").filter(|e| e.attr("uri") == Some("{78C0D931-6437-407d-A8EE-F0AAD7539E65}")).collect()).unwrap_or_default();
    ensure!(exts.len() <= 1, "ext", "sheet {i}: {} conditional format extensions", exts.len());
    let mut seen = HashSet::new();
    if let Some(e) = exts.first() {
        let all = match e.child("x14:conditionalFormattings") { Some(a) => a, None => fail!("ext", "sheet {i}: empty extension") };
        for cf in all.children() {
            let sq = cf.child("xm:sqref").map(|e| e.text()).unwrap_or_default();
            let mut n = 0;
            for r in cf.all("x14:cfRule") {
                n += 1;
                let id = r.attr("id").unwrap_or("").to_string();
                ensure!(!id.is_empty() && seen.insert(id.clone()), "id", "sheet {i}: rule id {id:?} is not unique");
                let mate = found.iter_mut().find(|f| f.main.as_ref().is_some_and(|m| m.at("extLst/ext/x14:id").is_some_and(|e| e.text() == id)));
                match mate {
                    Some(m) => {
                        ensure!(m.sqref == sq, "pair", "sheet {i}: rule {id} is for {} and for {sq}", m.sqref);
                        ensure!(m.ext.is_none(), "pair", "sheet {i}: rule {id} twice");
                        let p = r.attr("priority").and_then(|p| p.parse().ok());
                        ensure!(p.is_none() || p == Some(m.prio), "pair", "sheet {i}: priorities of the two halves of {id} differ");
                        m.ext = Some(r.clone());
                    }
                    None => found.push(Found { sqref: sq.clone(), main: None, prio: r.attr("priority").and_then(|p| p.parse().ok()).unwrap_or(0), ext: Some(r.clone()) }),
                }
            }
            ensure!(n > 0, "empty", "sheet {i}: extension for {sq} has no rules");
        }
    }
    for f in &found {
        if let Some(m) = &f.main {
            ensure!(m.child("extLst").is_none() || f.ext.is_some(), "pair", "sheet {i}: rule on {} refers to a missing extension", f.sqref);
        }
    }
    ensure_eq!(found.len(), rules.len(), "count", "sheet {i}: number of rules");
    found.sort_by_key(|f| f.prio);
    for w in found.windows(2) {
        ensure!(w[0].prio < w[1].prio, "priority", "sheet {i}: priority {} used twice", w[0].prio);
    }
    ensure!(found.is_empty() || found[0].prio >= 1, "priority", "sheet {i}: rule without priority");
    for (k, (f, w)) in found.iter().zip(rules).enumerate() {
        let at = format!("sheet {i} rule {k} on {}", w.sqref);
        ensure_eq!(f.sqref, w.sqref, "range", "{at}: range");
        let any = f.main.as_ref().or(f.ext.as_ref()).unwrap();
        ensure_eq!(any.attr("stopIfTrue") == Some("1"), w.stop, "stop", "{at}: stop if true");
        match &w.kind {
            Kind::Plain(want) => {
                let m = match &f.main { Some(m) => m, None => fail!("rule", "{at}: stored as an extension only") };
                let mut got = drop_attr(m, &["priority", "dxfId"]);
                // The stored value of the extremes carries no meaning.
                for k in &mut got.kids {
                    if let kit::xml::Node::E(sc) = k {
                        for v in &mut sc.kids {
                            if let kit::xml::Node::E(v) = v {
                                if v.name == "cfvo" && matches!(v.attr("type"), Some("min" | "max")) {
                                    v.attrs.retain(|a| a.0 != "val");
                                }
                            }
                        }
                    }
                }
                if let Some(d) = diff(&got, want) {
                    fail!("rule", "{at}: {d}");
                }
                let dx = m.attr("dxfId").and_then(|v| v.parse().ok());
                match (&w.fmt, dx) {
                    (None, None) => {}
                    (Some(f), Some(d)) => f.dxf().check(b.dxf(d)?, &at)?,
                    (a, g) => fail!("format", "{at}: dxfId {g:?} where format {a:?} was given"),
                }
            }
            Kind::Icons(want) => {
                let got = match (&f.main, &f.ext) {
                    (Some(m), None) => {
                        ensure!(m.attr("type") == Some("iconSet"), "rule", "{at}: type {:?}", m.attr("type"));
                        read_icons(m.child("iconSet").unwrap_or(&Elem::default()), "")
                    }
                    (None, Some(m)) => {
                        ensure!(m.attr("type") == Some("iconSet"), "rule", "{at}: type {:?}", m.attr("type"));
                        read_icons(m.child("x14:iconSet").unwrap_or(&Elem::default()), "x14:")
                    }
                    _ => fail!("rule", "{at}: icon set stored twice"),
                };
                let need = want.custom || matches!(want.set.as_str(), "3Stars" | "3Triangles" | "5Boxes");
                ensure!(!need || f.ext.is_some(), "rule", "{at}: icon set {} stored as a classic rule", want.set);
                let mut got = got;
                got.custom = want.custom;
                ensure_eq!(got, *want, "icons", "{at}: icons");
            }
            Kind::Bar(want) => {
                let (m, e) = match (&f.main, &f.ext) { (Some(m), Some(e)) => (m, e), _ => fail!("rule", "{at}: data bar is not stored in two halves") };
                ensure!(m.attr("type") == Some("dataBar") && e.attr("type") == Some("dataBar"), "rule", "{at}: types {:?} {:?}", m.attr("type"), e.attr("type"));
                let (mb, eb) = match (m.child("dataBar"), e.child("x14:dataBar")) { (Some(a), Some(b)) => (a, b), _ => fail!("rule", "{at}: no data bar") };
                ensure_eq!(mb.attr("showValue") == Some("0"), want.only, "bar", "{at}: bar only");
                let mv: Vec<Vo> = mb.all("cfvo").map(vo).collect();
                let ev: Vec<Vo> = eb.all("x14:cfvo").map(vo).collect();
                ensure!(mv.len() == 2 && ev.len() == 2, "bar", "{at}: {} and {} limits", mv.len(), ev.len());
                for (k, lim) in [&want.min, &want.max].into_iter().enumerate() {
                    let (a, b) = if lim.0 == "auto" { (["min", "max"][k], ["autoMin", "autoMax"][k]) } else { (lim.0.as_str(), lim.0.as_str()) };
                    ensure!(mv[k].0 == a && mv[k].1 == lim.1, "bar", "{at}: limit {:?} where {lim:?} expected", mv[k]);
                    ensure!(ev[k].0 == b && ev[k].1 == lim.1, "bar", "{at}: extended limit {:?} where {lim:?} expected", ev[k]);
                }
                let fill = recolor(mb.child("color"));
                ensure_eq!(fill, want.fill, "bar", "{at}: fill colour");
                let neg = if eb.attr("negativeBarColorSameAsPositive") == Some("1") { fill.clone() } else { recolor(eb.child("x14:negativeFillColor")) };
                ensure_eq!(neg, want.neg, "bar", "{at}: negative fill colour");
                let border = (eb.attr("border") == Some("1")).then(|| {
                    let bc = recolor(eb.child("x14:borderColor"));
                    let nb = if eb.attr("negativeBarBorderColorSameAsPositive") == Some("0") { recolor(eb.child("x14:negativeBorderColor")) } else { bc.clone() };
                    (bc, nb)
                });
                ensure_eq!(border, want.border, "bar", "{at}: border colours");
                ensure_eq!(eb.attr("gradient") == Some("0"), want.solid, "bar", "{at}: solid fill");
                ensure_eq!(eb.attr("direction").unwrap_or("context"), want.dir, "bar", "{at}: direction");
                ensure_eq!(eb.attr("axisPosition").unwrap_or("automatic"), want.axis, "bar", "{at}: axis position");
                let ac = eb.child("x14:axisColor").map(|e| recolor(Some(e)));
                ensure_eq!(ac, want.axis_color, "bar", "{at}: axis colour");
                Pkg::order(eb, &["x14:cfvo", "x14:fillColor", "x14:borderColor", "x14:negativeFillColor", "x14:negativeBorderColor", "x14:axisColor"], "data bar")?;
            }
        }
    }
    Ok(())
}

fn rules(s: &mut Src, c: &mut Ctx) -> R {
    // Now and then many rules with many different formats.
    let many = s.chance(1, 30);
    let pool = if many { gen_pool(s, 30, 4) } else { gen_pool(s, 3, 3) };
    c.label_if(many, "many formats");
    // Many rules for a few ranges.
    let few: Vec<_> = if s.chance(1, 8) { (0..s.small(1, 2)).map(|_| range_near(s, 3, 3)).collect() } else { vec![] };
    c.label_if(!few.is_empty(), "few ranges");
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} {}", p.2));
    }
    let ns = s.small(1, 2);
    let mut wb = Workbook::new();
    let mut m: Vec<Vec<Rule>> = vec![vec![]; ns];
    for _ in 0..ns {
        wb.add_worksheet();
    }
    for _ in 0..if many { s.small(30, 70) } else { s.small(1, 12) } {
        let i = s.idx(ns);
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        if s.chance(1, 15) {
            // Sparklines share the extension list, formats the dxf table.
            must("add_sparkline", ws.add_sparkline(0, 20, &Sparkline::new().set_range("Sheet1!A1:A3")).map(|_| ()))?;
            c.label("with sparkline");
            continue;
        }
        c.d(|| format!("sheet {i}"));
        let at = if !few.is_empty() && s.chance(9, 10) { *s.pick(&few) } else { range_near(s, 3, 3) };
        let r = add_at(s, ws, &pool, c, at)?;
        m[i].push(r);
    }
    if m.iter().any(|v| v.len() > 1) {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    let mut ids = HashSet::new();
    for i in 0..ns {
        check(&b, i, &m[i])?;
        for r in b.sheet(i)?.descendants("x14:cfRule") {
            ensure!(ids.insert(r.attr("id").unwrap_or("").to_string()), "id", "rule id {:?} is used on two sheets", r.attr("id"));
        }
    }
    Ok(())
}

/// Incomplete or out of range rules are refused, others accepted.
fn invalid(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    c.hit();
    let k = s.below(6);
    let n = *s.pick(&[0u16, 1, 99, 100, 101, 999, 1000, 1001, 65535]);
    let ni = s.small(0, 6);
    let (it, set) = s.pick(ICONS).clone();
    c.d(|| format!("kind {k} n {n} icons {ni} of {set}"));
    let icons = vec![ConditionalFormatCustomIcon::new(); ni];
    let (r, ok) = guard("add_conditional_format", || match k {
        0 => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatCell::new()).map(|_| ()), false),
        1 => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatText::new()).map(|_| ()), false),
        2 => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatFormula::new()).map(|_| ()), false),
        3 => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatTop::new().set_rule(if n % 2 == 0 { ConditionalFormatTopRule::Top(n) } else { ConditionalFormatTopRule::Bottom(n) })).map(|_| ()), (1..=1000).contains(&n)),
        4 => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatTop::new().set_rule(if n % 2 == 0 { ConditionalFormatTopRule::TopPercent(n) } else { ConditionalFormatTopRule::BottomPercent(n) })).map(|_| ()), (1..=100).contains(&n)),
        _ => (ws.add_conditional_format(0, 0, 1, 1, &ConditionalFormatIconSet::new().set_icon_type(it).set_icons(&icons)).map(|_| ()), ni == n_icons(set)),
    })?;
    ensure!(r.is_ok() == ok, "validity", "kind {k} n {n} icons {ni} of {set}: accepted {} where {ok} expected", r.is_ok());
    let b = save_book(&mut wb, c)?;
    let x = b.sheet(0)?;
    ensure!(ok || (x.all("conditionalFormatting").count() == 0 && x.child("extLst").is_none()), "trace", "a refused rule was stored");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a sheet has at least two rules (rules); every case (invalid)",
        level: "exploration",
        assumptions: &["text in a cell rule that is already in double quotes is taken as it is", "a custom icon set is not reversed", "Excel counts text lengths in UTF-16 units"],
        families: vec![fam("rules", 12000, 300_000, rules), fam("invalid", 2000, 20_000, invalid)],
        known: vec![],
    }
}
