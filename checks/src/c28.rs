//! C28: sparklines are stored on their cells with the requested data and options.
use crate::fmt::*;
use crate::util::*;

type Rng = (u32, u16, u32, u16);

#[derive(Clone, Debug)]
pub struct Sm {
    /// Data and location pairs in order.
    pairs: Vec<(Rng, (u32, u16))>,
    sheet: String,
    date: Option<(String, Rng)>,
    typ: &'static str,
    attrs: BTreeMap<&'static str, String>,
    /// series, negative, axis, markers, first, last, high, low
    colors: [Color; 8],
}

const PTS: [&str; 6] = ["high", "low", "first", "last", "negative", "markers"];

fn style(n: u8, c: &mut [Color; 8]) {
    let t = Color::Theme;
    let rgb = Color::RGB;
    // series, negative, markers, first, last, high, low
    let v: [Color; 7] = match n {
        1..=6 => {
            let a = n + 3;
            let nx = if n == 6 { 4 } else { a + 1 };
            [t(a, 5), t(nx, 0), t(a, 5), t(a, 3), t(a, 3), t(a, 0), t(a, 0)]
        }
        7..=12 => {
            let a = n - 3;
            let nx = if n == 12 { 4 } else { a + 1 };
            [t(a, 4), t(nx, 0), t(nx, 4), t(nx, 4), t(nx, 4), t(nx, 4), t(nx, 4)]
        }
        13..=18 => {
            let a = n - 9;
            let nx = if n == 18 { 4 } else { a + 1 };
            [t(a, 0), t(nx, 0), t(a, 4), t(a, 4), t(a, 4), t(a, 4), t(a, 4)]
        }
        19..=24 => {
            let a = n - 15;
            [t(a, 3), t(0, 5), t(a, 1), t(a, 4), t(a, 4), t(a, 5), t(a, 5)]
        }
        25 => [t(1, 1), t(1, 3), t(1, 3), t(1, 3), t(1, 3), t(1, 3), t(1, 3)],
        26 => [t(1, 2), t(0, 3), t(0, 3), t(0, 3), t(0, 3), t(0, 3), t(0, 3)],
        27 | 29 => {
            let r = rgb(0xD00000);
            [rgb(if n == 27 { 0x323232 } else { 0x376092 }), r, r, r, r, r, r]
        }
        28 => {
            let r = rgb(0x0070C0);
            [rgb(0), r, r, r, r, r, r]
        }
        30 => {
            let r = rgb(0);
            [rgb(0x0070C0), r, r, r, r, r, r]
        }
        31 => [rgb(0x5F5F5F), rgb(0xFFB620), rgb(0xD70077), rgb(0x5687C2), rgb(0x359CEB), rgb(0x56BE79), rgb(0xFF5055)],
        32 => [rgb(0x5687C2), rgb(0xFFB620), rgb(0xD70077), rgb(0x777777), rgb(0x359CEB), rgb(0x56BE79), rgb(0xFF5055)],
        33 => [rgb(0xC6EFCE), rgb(0xFFC7CE), rgb(0x8CADD6), rgb(0xFFDC47), rgb(0xFFEB9C), rgb(0x60D276), rgb(0xFF5367)],
        34 => [rgb(0x00B050), rgb(0xFF0000), rgb(0x0070C0), rgb(0xFFC000), rgb(0xFFC000), rgb(0x00B050), rgb(0xFF0000)],
        35 | 36 => [t(if n == 35 { 3 } else { 1 }, 0), t(9, 0), t(8, 0), t(4, 0), t(5, 0), t(6, 0), t(7, 0)],
        _ => return,
    };
    *c = [v[0], v[1], c[2], v[2], v[3], v[4], v[5], v[6]];
}

fn num(s: &mut Src) -> f64 {
    match s.below(3) {
        0 => s.int(-100, 100) as f64,
        1 => gen::dec(s, -10, 10, 100),
        _ => gen::finite(s),
    }
}

/// Options without a location.
fn gen_options(s: &mut Src, sheets: &[String], c: &mut Ctx) -> (Sparkline, Sm) {
    let mut k = Sparkline::new();
    let mut m = Sm { pairs: vec![], sheet: String::new(), date: None, typ: "line", attrs: BTreeMap::new(), colors: [Color::Black; 8] };
    style(1, &mut m.colors);
    let mut on: BTreeMap<&str, bool> = BTreeMap::new();
    // (custom, group) for minimum and maximum.
    let mut lim: [(Option<f64>, bool); 2] = [(None, false); 2];
    let mut weight = None;
    let mut empty = "gap";
    for _ in 0..s.span(0, 10, 40) {
        let b = s.bool();
        match s.below(16) {
            0 => {
                let (t, n) = *s.pick(&[(SparklineType::Line, "line"), (SparklineType::Column, "column"), (SparklineType::WinLose, "stacked")]);
                k = k.set_type(t);
                m.typ = n;
            }
            1..=3 => {
                let p = s.idx(6);
                k = match p {
                    0 => k.show_high_point(b),
                    1 => k.show_low_point(b),
                    2 => k.show_first_point(b),
                    3 => k.show_last_point(b),
                    4 => k.show_negative_points(b),
                    _ => k.show_markers(b),
                };
                on.insert(PTS[p], b);
            }
            4 => {
                k = k.show_axis(b);
                on.insert("displayXAxis", b);
            }
            5 => {
                k = k.show_hidden_data(b);
                on.insert("displayHidden", b);
            }
            6 => {
                let (t, n) = *s.pick(&[(0, "gap"), (1, "zero"), (2, "span")]);
                k = k.show_empty_cells_as([ChartEmptyCells::Gaps, ChartEmptyCells::Zero, ChartEmptyCells::Connected][t].clone());
                empty = n;
            }
            7 => {
                k = k.set_right_to_left(b);
                on.insert("rightToLeft", b);
            }
            8..=10 => {
                // A colour of a point also shows the point.
                let col = gen_color(s);
                let p = s.idx(7);
                let (nk, at, name) = match p {
                    0 => (k.set_sparkline_color(col), 0, ""),
                    1 => (k.set_negative_points_color(col), 1, "negative"),
                    2 => (k.set_markers_color(col), 3, "markers"),
                    3 => (k.set_first_point_color(col), 4, "first"),
                    4 => (k.set_last_point_color(col), 5, "last"),
                    5 => (k.set_high_point_color(col), 6, "high"),
                    _ => (k.set_low_point_color(col), 7, "low"),
                };
                k = nk;
                m.colors[at] = col;
                if !name.is_empty() {
                    on.insert(name, true);
                }
            }
            11 => {
                let w = gen::dec(s, 0, 8, 4);
                k = k.set_line_weight(w);
                weight = Some(w);
            }
            12 | 13 => {
                let hi = s.bool();
                if s.bool() {
                    let v = num(s);
                    k = if hi { k.set_custom_max(v) } else { k.set_custom_min(v) };
                    lim[usize::from(hi)] = (Some(v), false);
                } else {
                    k = if hi { k.set_group_max(b) } else { k.set_group_min(b) };
                    let l = &mut lim[usize::from(hi)];
                    l.1 = b;
                    if b {
                        l.0 = None;
                    }
                }
            }
            14 => {
                let n = s.u8(1, 36);
                k = k.set_style(n);
                style(n, &mut m.colors);
            }
            _ => {
                let sh = s.pick(sheets).clone();
                let (r, col) = (row_near(s), col_near(s));
                let r = if s.bool() { (r, col, r, col + s.u16(0, 9)) } else { (r, col, r + s.u32(0, 9), col) };
                k = k.set_date_range(&chart_range(s, &sh, r));
                m.date = Some((sh, r));
            }
        }
    }
    for (n, b) in on {
        if b {
            m.attrs.insert(n, "1".into());
        }
    }
    if empty != "zero" {
        m.attrs.insert("displayEmptyCellsAs", empty.into());
    }
    if m.date.is_some() {
        m.attrs.insert("dateAxis", "1".into());
    }
    if let Some(w) = weight {
        m.attrs.insert("lineWeight", w.to_string());
    }
    for (i, (t, v)) in [("minAxisType", "manualMin"), ("maxAxisType", "manualMax")].into_iter().enumerate() {
        if let Some(x) = lim[i].0 {
            m.attrs.insert(t, "custom".into());
            m.attrs.insert(v, format!("{x:?}"));
        } else if lim[i].1 {
            m.attrs.insert(t, "group".into());
        }
    }
    c.label(m.typ);
    (k, m)
}

/// Adds one sparkline or group to the sheet.
pub fn add(s: &mut Src, ws: &mut Worksheet, sheets: &[String], c: &mut Ctx) -> R<Sm> {
    let (mut k, mut m) = gen_options(s, sheets, c);
    m.sheet = s.pick(sheets).clone();
    if s.bool() {
        let (r, col) = (row(s), col(s));
        let d = if s.bool() { (r, col, r, (col + s.u16(0, 9)).min(MAXC - 1)) } else { (r, col, (r + s.u32(0, 9)).min(MAXR - 1), col) };
        k = k.set_range(&chart_range(s, &m.sheet, d));
        if s.chance(1, 6) {
            // The order is only meaningful for groups.
            k = k.set_column_order(s.bool());
        }
        let at = (row(s), self::col(s));
        m.pairs = vec![(d, at)];
        c.d(|| format!("{m:?}"));
        c.label("single");
        must("add_sparkline", guard("add_sparkline", || ws.add_sparkline(at.0, at.1, &k).map(|_| ()))?)?;
    } else {
        let by_col = s.bool();
        if by_col || s.chance(1, 4) {
            k = k.set_column_order(by_col);
        }
        let n = s.u32(1, 6).max(2);
        let len = s.u32(1, 8).max(2);
        let r0 = s.pick(&[0u32, 1, 5, 1000, MAXR - 8]).to_owned();
        let c0 = s.pick(&[0u16, 1, 25, 700, MAXC - 8]).to_owned();
        let (h, w) = if by_col { (len, n) } else { (n, len) };
        let d = (r0, c0, r0 + h - 1, c0 + w as u16 - 1);
        k = k.set_range(&chart_range(s, &m.sheet, d));
        let down = s.bool();
        let (ar, ac) = (s.pick(&[0u32, 3, MAXR - 6]).to_owned(), s.pick(&[0u16, 7, MAXC - 6]).to_owned());
        for i in 0..n {
            let data = if by_col { (d.0, d.1 + i as u16, d.2, d.1 + i as u16) } else { (d.0 + i, d.1, d.0 + i, d.3) };
            let at = if down { (ar + i, ac) } else { (ar, ac + i as u16) };
            m.pairs.push((data, at));
        }
        let last = m.pairs[m.pairs.len() - 1].1;
        c.d(|| format!("group of {d:?} at ({ar},{ac})..{last:?} columns {by_col} {m:?}"));
        c.label("group");
        must("add_sparkline_group", guard("add_sparkline_group", || ws.add_sparkline_group(ar, ac, last.0, last.1, &k).map(|_| ()))?)?;
    }
    Ok(m)
}

pub fn check(b: &Book, i: usize, want: &[Sm]) -> R {
    let x = b.sheet(i)?;
    let mut groups = vec![];
    let mut n_ext = 0;
    if let Some(l) = x.child("extLst") {
        for e in l.children() {
            if let Some(g) = e.child("x14:sparklineGroups") {
                n_ext += 1;
                ensure_eq!(e.attr("uri"), Some("{05C60535-1F16-4fd2-B633-F4F36F0B64E0}"), "ext", "sheet {i}: extension id");
                groups.extend(g.children());
            }
        }
    }
    ensure!(n_ext == usize::from(!want.is_empty()), "ext", "sheet {i}: {n_ext} sparkline extensions for {} groups", want.len());
    ensure_eq!(groups.len(), want.len(), "count", "sheet {i}: number of groups");
    // Excel stores the newest group first.
    for (k, (g, m)) in groups.iter().rev().zip(want).enumerate() {
        let at = format!("sheet {i} group {k}");
        ensure_eq!(g.name, "x14:sparklineGroup", "group", "{at}");
        ensure_eq!(g.attr("type").unwrap_or("line"), m.typ, "type", "{at}: type");
        for (n, v) in &g.attrs {
            if n == "type" {
                continue;
            }
            let off = matches!(v.as_str(), "0" | "false") || (n == "displayEmptyCellsAs" && v == "zero") || (n.ends_with("AxisType") && v == "individual");
            ensure!(off || m.attrs.contains_key(n.as_str()), "option", "{at}: {n}={v} was not requested");
        }
        for (n, v) in &m.attrs {
            let got = g.attr(n);
            let ok = match got {
                Some(x) => x == v || matches!((x.parse::<f64>(), v.parse::<f64>()), (Ok(a), Ok(b)) if a == b),
                None => *n == "lineWeight" && v == "0.75",
            };
            ensure!(ok, "option", "{at}: {n} is {got:?} where {v} expected");
        }
        let names = ["x14:colorSeries", "x14:colorNegative", "x14:colorAxis", "x14:colorMarkers", "x14:colorFirst", "x14:colorLast", "x14:colorHigh", "x14:colorLow"];
        Pkg::order(g, &[&names[..], &["xm:f", "x14:sparklines"]].concat(), &at)?;
        for (n, col) in names.iter().zip(&m.colors) {
            let Some(e) = g.child(n) else { fail!("color", "{at}: {n} missing") };
            if let Some(d) = diff(e, &color_attrs(*col, el(n))) {
                fail!("color", "{at}: {d}");
            }
        }
        match (&m.date, g.child("xm:f")) {
            (None, None) => {}
            (Some((sh, r)), Some(f)) => {
                let got = read_ref(&f.text())?;
                ensure!(got.0 == *sh && got.1 == (r.0, r.1.into(), r.2, r.3.into()), "date", "{at}: date range {:?} where {sh:?} {r:?} expected", f.text());
            }
            (a, e) => fail!("date", "{at}: date range {:?} where {a:?} expected", e.map(|e| e.text())),
        }
        let Some(list) = g.child("x14:sparklines") else { fail!("data", "{at}: no sparklines") };
        ensure_eq!(list.children().count(), m.pairs.len(), "data", "{at}: number of sparklines");
        for (e, (d, loc)) in list.children().zip(&m.pairs) {
            Pkg::order(e, &["xm:f", "xm:sqref"], &at)?;
            let f = e.child("xm:f").map(|x| x.text()).unwrap_or_default();
            let got = read_ref(&f)?;
            ensure!(got.0 == m.sheet && got.1 == (d.0, d.1.into(), d.2, d.3.into()), "data", "{at}: data {f:?} where {:?} {d:?} expected", m.sheet);
            let q = e.child("xm:sqref").map(|x| x.text()).unwrap_or_default();
            ensure_eq!(parse_cell(&q)?, (loc.0, u32::from(loc.1)), "location", "{at}: location of {f}");
        }
    }
    Ok(())
}

fn groups(s: &mut Src, c: &mut Ctx) -> R {
    let ns = s.span(1, 3, 12);
    let mut used = HashSet::new();
    let mut names = vec![];
    let mut wb = Workbook::new();
    for _ in 0..ns {
        let n = sheet_name(s, &mut used);
        must("set_name", wb.add_worksheet().set_name(&n).map(|_| ()))?;
        c.d(|| format!("sheet {n:?}"));
        names.push(n);
    }
    let mut m = vec![vec![]; ns];
    for _ in 0..s.span(1, 6, 40) {
        let i = s.idx(ns);
        let ws = must("sheet", wb.worksheet_from_index(i))?;
        c.d(|| format!("on sheet {i}"));
        if s.chance(1, 10) {
            c.label("with conditional format");
            let cf = ConditionalFormatDataBar::new();
            must("add_conditional_format", ws.add_conditional_format(0, 0, 3, 3, &cf).map(|_| ()))?;
            continue;
        }
        let x = add(s, ws, &names, c)?;
        m[i].push(x);
    }
    if m.iter().map(|v| v.len()).sum::<usize>() > 1 || m.iter().flatten().any(|x| x.pairs.len() > 1 || x.attrs.len() > 2) {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    for (i, m) in m.iter().enumerate() {
        check(&b, i, m)?;
    }
    Ok(())
}

/// Wrong shapes and ranges are refused and leave nothing behind.
fn invalid(s: &mut Src, c: &mut Ctx) -> R {
    c.hit();
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let k = s.below(8);
    let one = Sparkline::new().set_range(("Sheet1", 0, 0, 0, 4));
    let two = |h: u32, w: u16| Sparkline::new().set_range(("Sheet1", 0, 0, h - 1, w - 1));
    let (h, w, n) = (s.u32(2, 5), s.u16(2, 5), s.u32(1, 6));
    let by_col = s.bool();
    c.d(|| format!("kind {k} data {h}x{w} cells {n} columns {by_col}"));
    let (r, ok) = guard("add", || match k {
        0 => (ws.add_sparkline(0, 0, &Sparkline::new()).map(|_| ()), false),
        1 => (ws.add_sparkline(0, 0, &two(h, w)).map(|_| ()), false),
        2 => (ws.add_sparkline_group(0, 0, n - 1, 0, &one).map(|_| ()), false),
        3 | 4 => {
            let sp = two(h, w).set_column_order(by_col);
            let r = if k == 3 { ws.add_sparkline_group(0, 9, n - 1, 9, &sp).map(|_| ()) } else { ws.add_sparkline_group(0, 9, 0, 8 + n as u16, &sp).map(|_| ()) };
            (r, n == if by_col { u32::from(w) } else { h })
        }
        5 => (ws.add_sparkline(MAXR, 0, &one).map(|_| ()), false),
        6 => (ws.add_sparkline(0, MAXC, &one).map(|_| ()), false),
        _ => {
            let bad = *s.pick(&["Sheet1!A0", "Sheet1!A1048577", "Sheet1!XFE1", "A1:A5", "Sheet1!B1:A1", "Sheet1!A5:A1", "'Bad[name]'!A1:A4", "!A1", "''!A1", "'!A1", "", "Sheet1!ABCDEFG1", "Sheet1!A99999999999", "Sheet1!", "Sheet1!A", "Sheet1!1", "Sheet1!A1:B2:C3", "Sheet1!A:A1", "='a", "Sheet1!a1:b1"]);
            c.d(|| format!("range {bad:?}"));
            (ws.add_sparkline(0, 0, &Sparkline::new().set_range(bad)).map(|_| ()), false)
        }
    })?;
    ensure_eq!(r.is_ok(), ok, "validity", "kind {k} data {h}x{w} cells {n} columns {by_col}: accepted");
    let b = save_book(&mut wb, c)?;
    ensure!(ok || b.sheet(0)?.child("extLst").is_none(), "trace", "a refused sparkline was stored");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "more than one group, a group of several cells or more than two options (groups); every case (invalid)",
        level: "exploration",
        assumptions: &["the newest group is stored first, as Excel does", "a line weight of 0.75 is the default"],
        families: vec![fam("groups", 12000, 400_000, groups), fam("invalid", 2500, 20_000, invalid)],
        known: vec![],
    }
}
