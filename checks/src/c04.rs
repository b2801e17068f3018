//! C04: every cell displays with exactly the requested format.
use crate::fmt::*;
use crate::util::*;

#[derive(Default)]
pub struct Sh {
    /// Own format of each stored cell; `None` when it has none.
    cells: BTreeMap<(u32, u16), Option<Fm>>,
    rows: BTreeMap<u32, Fm>,
    cols: BTreeMap<u16, Fm>,
    merged: Vec<(u32, u16, u32, u16)>,
}

impl Sh {
    fn own(&mut self, r: u32, c: u16, f: &Fm) {
        self.cells.insert((r, c), if f.is_default() { None } else { Some(f.clone()) });
    }
    /// A write without a format: the intersection of a formatted row and
    /// column combines both formats.
    fn plain(&mut self, r: u32, c: u16) {
        let f = match (self.rows.get(&r), self.cols.get(&c)) {
            (Some(a), Some(b)) => a.merge(b),
            _ => Fm::default(),
        };
        self.own(r, c, &f);
    }
    fn resolved(&self, r: u32, c: u16) -> Fm {
        if let Some(Some(f)) = self.cells.get(&(r, c)) {
            return f.clone();
        }
        match self.rows.get(&r) {
            Some(f) if !f.is_default() => f.clone(),
            _ => self.cols.get(&c).cloned().unwrap_or_default(),
        }
    }
}

fn edge(f: &Fm, b: &Fm, l: bool, r: bool, t: bool, bt: bool) -> Fm {
    let mut m = f.clone();
    for (k, on) in [(0, l), (1, r), (2, t), (3, bt)] {
        if on {
            m.bstyle[k] = b.bstyle[k];
            m.bcolor[k] = b.bcolor[k];
        }
    }
    m
}

type Pool = Vec<(Format, Fm, String)>;

pub fn op(s: &mut Src, ws: &mut Worksheet, m: &mut Sh, pool: &Pool, c: &mut Ctx) -> R {
    let (r, k) = (row_near(s), col_near(s));
    let pi = s.idx(pool.len());
    let (f, fm, _) = &pool[pi];
    let kind = s.weighted(&[10, 4, 4, 4, 6, 8, 5, 5, 6, 5, 6, 3, 3, 3, 2, 2, 2, 2, 2, 3]);
    c.d(|| format!("op {kind} at ({r},{k}) format #{pi}"));
    match kind {
        0 => {
            must("write_number_with_format", ws.write_number_with_format(r, k, 1.5, f))?;
            m.own(r, k, fm);
            if fm.is_default() { m.own(r, k, &Fm::default()) }
        }
        1 => { must("write_string_with_format", ws.write_string_with_format(r, k, "x", f))?; m.own(r, k, fm) }
        2 => { must("write_boolean_with_format", ws.write_boolean_with_format(r, k, true, f))?; m.own(r, k, fm) }
        3 => {
            must("write_formula_with_format", ws.write_formula_with_format(r, k, *s.pick(&["A1+1", "UNIQUE(B1:B3)", "SUM(A1:A2)"]), f))?;
            m.own(r, k, fm);
        }
        4 => {
            must("write_blank", ws.write_blank(r, k, f))?;
            if fm.is_default() { m.plain(r, k) } else { m.own(r, k, fm) }
        }
        5 => {
            match s.below(4) {
                0 => must("write_number", ws.write_number(r, k, 2))?,
                1 => must("write_string", ws.write_string(r, k, "y"))?,
                2 => must("write_boolean", ws.write_boolean(r, k, false))?,
                _ => must("write_formula", ws.write_formula(r, k, *s.pick(&["A1+1", "UNIQUE(B1:B3)"])))?,
            };
            m.plain(r, k);
        }
        6 => {
            must("set_row_format", ws.set_row_format(r, f))?;
            m.rows.insert(r, fm.clone());
        }
        7 => {
            if s.chance(1, 4) {
                let k2 = k + s.u16(0, 3);
                must("set_column_range_format", ws.set_column_range_format(k, k2, f))?;
                for x in k..=k2 { m.cols.insert(x, fm.clone()); }
            } else {
                must("set_column_format", ws.set_column_format(k, f))?;
                m.cols.insert(k, fm.clone());
            }
        }
        8 => { must("set_cell_format", ws.set_cell_format(r, k, f))?; m.own(r, k, fm) }
        9 => {
            let (r2, k2) = (r + s.u32(0, 3), k + s.u16(0, 3));
            must("set_range_format", ws.set_range_format(r, k, r2, k2, f))?;
            for y in r..=r2 { for x in k..=k2 { m.own(y, x, fm) } }
        }
        10 => {
            let (r2, k2) = (r + s.u32(0, 3), k + s.u16(0, 3));
            let (g, gm, _) = s.pick(pool).clone();
            must("set_range_format_with_border", ws.set_range_format_with_border(r, k, r2, k2, f, &g))?;
            for y in r..=r2 {
                for x in k..=k2 {
                    m.own(y, x, &edge(fm, &gm, x == k, x == k2, y == r, y == r2));
                }
            }
        }
        11 => {
            ws.clear_cell_format(r, k);
            if let Some(x) = m.cells.get_mut(&(r, k)) { *x = None }
        }
        12 => { ws.clear_cell(r, k); m.cells.remove(&(r, k)); }
        13 => {
            let (r2, k2) = (r + s.u32(0, 2), k + s.u16(1, 3));
            if m.merged.iter().all(|q| r > q.2 || r2 < q.0 || k > q.3 || k2 < q.1) {
                must("merge_range", ws.merge_range(r, k, r2, k2, "merged", f))?;
                m.merged.push((r, k, r2, k2));
                for y in r..=r2 { for x in k..=k2 {
                    if fm.is_default() && (y, x) != (r, k) { m.plain(y, x) } else { m.own(y, x, fm) }
                } }
            }
        }
        14 => {
            must("write_row_with_format", ws.write_row_with_format(r, k, [1, 2, 3], f))?;
            for x in k..k + 3 { m.own(r, x, fm) }
        }
        15 => {
            must("write_column_with_format", ws.write_column_with_format(r, k, ["a", "b"], f))?;
            for y in r..r + 2 { m.own(y, k, fm) }
        }
        16 => {
            let (r2, k2) = (r + s.u32(0, 1), k + s.u16(0, 2));
            let (fs, dy) = (s.bool(), s.bool());
            match (fs, dy) {
                (true, false) => must("write_array_formula_with_format", ws.write_array_formula_with_format(r, k, r2, k2, "{=A1:B2*2}", f))?,
                (false, false) => must("write_array_formula", ws.write_array_formula(r, k, r2, k2, "{=A1:B2*2}"))?,
                (true, true) => must("write_dynamic_array_formula_with_format", ws.write_dynamic_array_formula_with_format(r, k, r2, k2, "=SORT(A1:A3)", f))?,
                (false, true) => must("write_dynamic_array_formula", ws.write_dynamic_array_formula(r, k, r2, k2, "=SORT(A1:A3)"))?,
            };
            for y in r..=r2 { for x in k..=k2 { if fs { m.own(y, x, fm) } else { m.plain(y, x) } } }
        }
        17 => {
            if s.bool() {
                must("write_url_with_format", ws.write_url_with_format(r, k, "http://a.b/c", f))?;
                m.own(r, k, fm);
            } else {
                must("write_url", ws.write_url(r, k, "http://a.b/c"))?;
                let h = Fm { hyperlink: true, color: Color::Theme(10, 0), underline: 1, scheme: String::new(), ..Fm::default() };
                m.own(r, k, &h);
            }
        }
        18 => {
            if s.bool() {
                must("write_rich_string_with_format", ws.write_rich_string_with_format(r, k, &[(&Format::new(), "a"), (&Format::new().set_bold(), "b")], f))?;
                m.own(r, k, fm);
            } else {
                must("insert_checkbox", ws.insert_checkbox(r, k, true))?;
                m.own(r, k, &Fm { checkbox: true, ..Fm::default() });
            }
        }
        _ => {
            let d = must("date", ExcelDateTime::from_ymd(2024, 1, 2))?;
            if s.bool() {
                must("write_datetime_with_format", ws.write_datetime_with_format(r, k, &d, f))?;
                m.own(r, k, fm);
            } else {
                must("write_datetime", ws.write_datetime(r, k, &d))?;
                m.plain(r, k);
            }
        }
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(2, 9);
    let pool = gen_pool(s, n, 5);
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} = {}", p.2));
    }
    let nsheets = 1 + usize::from(s.chance(1, 3)) + usize::from(s.chance(1, 5));
    let mut wb = Workbook::new();
    let mut models = vec![];
    let mut detached: Vec<Option<Worksheet>> = vec![];
    for i in 0..nsheets {
        let det = s.chance(1, 3);
        c.d(|| format!("sheet {i} detached={det}"));
        c.label_if(det, "detached worksheet");
        models.push(Sh::default());
        detached.push(if det { Some(Worksheet::new()) } else { None });
    }
    // Attached sheets come first, in order.
    let mut order = vec![];
    for i in 0..nsheets {
        if detached[i].is_none() {
            wb.add_worksheet();
            order.push(i);
        }
    }
    let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(p, i)| (*i, p)).collect();
    for _ in 0..s.span(1, 22, 120) {
        let i = s.idx(nsheets);
        c.d(|| format!("-- sheet {i}"));
        match &mut detached[i] {
            Some(w) => op(s, w, &mut models[i], &pool, c)?,
            None => {
                let w = must("worksheet_from_index", wb.worksheet_from_index(pos[&i]))?;
                op(s, w, &mut models[i], &pool, c)?;
            }
        }
    }
    for (i, d) in detached.into_iter().enumerate() {
        if let Some(w) = d {
            wb.push_worksheet(w);
            order.push(i);
        }
    }
    let b = save_book(&mut wb, c)?;
    if models.iter().map(|m| m.cells.len()).sum::<usize>() >= 2 && models.iter().any(|m| m.cells.values().flatten().count() > 0 || !m.rows.is_empty() || !m.cols.is_empty()) {
        c.hit();
    }
    for (p, i) in order.iter().enumerate() {
        verify(&b, p, &models[*i], c)?;
    }
    b.pkg.audit()
}

fn verify(b: &Book, p: usize, m: &Sh, c: &mut Ctx) -> R {
    let cells = b.cells(p)?;
    let x = b.sheet(p)?;
    // Column and row styles first.
    let mut cols: BTreeMap<u16, usize> = BTreeMap::new();
    for k in x.child("cols").map(|k| k.children().collect::<Vec<_>>()).unwrap_or_default() {
        let g = |n: &str| k.attr(n).and_then(|v| v.parse::<u32>().ok()).unwrap_or(0);
        for q in g("min")..=g("max") {
            cols.insert(q as u16 - 1, g("style") as usize);
        }
    }
    let mut rows: BTreeMap<u32, usize> = BTreeMap::new();
    for k in x.child("sheetData").map(|k| k.children().collect::<Vec<_>>()).unwrap_or_default() {
        let g = |n: &str| k.attr(n).and_then(|v| v.parse::<u32>().ok()).unwrap_or(0);
        if g("s") > 0 {
            ensure!(k.attr("customFormat") == Some("1"), "row-format", "row {} has a style that is not applied", g("r"));
            rows.insert(g("r") - 1, g("s") as usize);
        }
    }
    for (r, f) in &m.rows {
        f.check(b, rows.get(r).copied().unwrap_or(0), &format!("sheet {p} row {r}"))?;
    }
    for (k, f) in &m.cols {
        f.check(b, cols.get(k).copied().unwrap_or(0), &format!("sheet {p} column {k}"))?;
    }
    for r in rows.keys() {
        ensure!(m.rows.contains_key(r), "row-format", "sheet {p}: row {r} has a format that was not set");
    }
    for (k, st) in &cols {
        ensure!(*st == 0 || m.cols.contains_key(k), "column-format", "sheet {p}: column {k} has a format that was not set");
    }
    for (r, k) in m.cells.keys() {
        let want = m.resolved(*r, *k);
        match cells.get(&(*r, u32::from(*k))) {
            Some(g) => {
                c.label_if(m.cells[&(*r, *k)].is_none() && !want.is_default(), "inherited row/column format");
                want.check(b, g.s, &format!("sheet {p} cell {}", cell_name(*r, u32::from(*k))))?;
            }
            // A cell without content or format of its own need not be stored.
            None => {
                ensure!(m.cells[&(*r, *k)].is_none(), "cell", "sheet {p}: cell ({r},{k}) is missing");
            }
        }
    }
    for (r, k) in cells.keys() {
        ensure!(m.cells.contains_key(&(*r, *k as u16)), "cell", "sheet {p}: unexpected cell ({r},{k})");
    }
    Ok(())
}

/// Many formats at once: every pair that differs must stay apart.
fn many(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(5, 60);
    let pool = gen_pool(s, n, 6);
    let mut wb = Workbook::new();
    let det = s.bool();
    let mut w = if det { Worksheet::new() } else { Worksheet::new() };
    let ws = if det { &mut w } else { wb.add_worksheet() };
    let mut m = Sh::default();
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("row {i} = {}", p.2));
        must("write", ws.write_number_with_format(i as u32, 0, 1, &p.0))?;
        m.own(i as u32, 0, &p.1);
    }
    let distinct = pool.iter().enumerate().filter(|(i, p)| pool[..*i].iter().all(|q| q.1 != p.1)).count();
    if distinct > 3 {
        c.hit();
    }
    if det {
        wb.push_worksheet(w);
    }
    let b = save_book(&mut wb, c)?;
    verify(&b, 0, &m, c)?;
    // Equal formats share one index, so behave identically.
    let cells = b.cells(0)?;
    for i in 0..pool.len() {
        for j in 0..i {
            if pool[i].1 != pool[j].1 && !pool[i].1.same_look(&pool[j].1) {
                ensure!(cells[&(i as u32, 0)].s != cells[&(j as u32, 0)].s, "conflated", "formats {} and {} share a style", pool[i].2, pool[j].2);
            }
        }
    }
    b.pkg.audit()
}

/// Every type that a cell can be written from, through `write()` and
/// `write_with_format()`: value and format both arrive.
fn typed(s: &mut Src, c: &mut Ctx) -> R {
    use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime};
    use std::borrow::Cow;
    let n = s.small(1, 5);
    let pool = gen_pool(s, n, 5);
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} = {}", p.2));
    }
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut m = Sh::default();
    let mut want: BTreeMap<(u32, u16), Option<V>> = BTreeMap::new();
    if s.chance(1, 3) {
        let (k, i) = (s.u16(0, 3), s.idx(pool.len()));
        must("set_column_format", ws.set_column_format(k, &pool[i].0))?;
        m.cols.insert(k, pool[i].1.clone());
        c.d(|| format!("column {k} has format #{i}"));
    }
    if s.chance(1, 3) {
        let (r, i) = (s.u32(0, 5), s.idx(pool.len()));
        must("set_row_format", ws.set_row_format(r, &pool[i].0))?;
        m.rows.insert(r, pool[i].1.clone());
        c.d(|| format!("row {r} has format #{i}"));
    }
    let count = s.small(2, 14);
    for _ in 0..count {
        let (r, k) = (s.u32(0, 5), s.u16(0, 3));
        let pi = s.idx(pool.len());
        let (f, fm, _) = &pool[pi];
        let kind = s.below(30);
        let with = s.chance(2, 3);
        c.d(|| format!("type {kind} at ({r},{k}) {}", if with { format!("format #{pi}") } else { "plain".into() }));
        macro_rules! w {
            ($v:expr) => {
                if with { must("write_with_format", ws.write_with_format(r, k, $v, f))?; } else { must("write", ws.write(r, k, $v))?; }
            };
        }
        let text = format!("t{}", s.below(1000));
        let v = s.int(-2_000_000_000, 2_000_000_000);
        let (year, month, day) = (s.int(1900, 9999) as i32, s.u32(1, 12), s.u32(1, 28));
        let (hh, mm, ss, ms) = (s.u32(0, 23), s.u32(0, 59), s.u32(0, 59), s.u32(0, 999));
        let date = NaiveDate::from_ymd_opt(year, month, day).unwrap();
        let days = (date - NaiveDate::from_ymd_opt(1899, 12, 31).unwrap()).num_days();
        let serial = (if days >= 60 { days + 1 } else { days }) as f64;
        let fraction = (f64::from(hh * 3600 + mm * 60 + ss) + f64::from(ms) / 1000.0) / 86400.0;
        let time = NaiveTime::from_hms_milli_opt(hh, mm, ss, ms).unwrap();
        // A style that a link has by default.
        let link = Fm { hyperlink: true, color: Color::Theme(10, 0), underline: 1, scheme: String::new(), ..Fm::default() };
        let mut stored = true;
        let mut base: Option<Fm> = None;
        let val = match kind {
            0 => { w!(text.as_str()); V::Str(text) }
            1 => { w!(&text); V::Str(text) }
            2 => { w!(text.clone()); V::Str(text) }
            3 => { w!(Cow::Borrowed(text.as_str())); V::Str(text) }
            4 => { w!(Cow::<str>::Owned(text.clone())); V::Str(text) }
            5 => { w!(v as u8); V::Num(f64::from(v as u8)) }
            6 => { w!(v as i8); V::Num(f64::from(v as i8)) }
            7 => { w!(v as u16); V::Num(f64::from(v as u16)) }
            8 => { w!(v as i16); V::Num(f64::from(v as i16)) }
            9 => { w!(v as u32); V::Num(f64::from(v as u32)) }
            10 => { w!(v as i32); V::Num(v as f64) }
            11 => { w!(v * 1_000_000); V::Num((v * 1_000_000) as f64) }
            12 => { w!((v as i64).unsigned_abs() * 1_000_000); V::Num(((v as i64).unsigned_abs() * 1_000_000) as f64) }
            13 => { w!(v as f32 / 8.0); V::Num(f64::from(v as f32 / 8.0)) }
            14 => { w!(v as f64 / 1024.0); V::Num(v as f64 / 1024.0) }
            15 => { w!(v > 0); V::Bool(v > 0) }
            16 | 17 => {
                let d = must("date", ExcelDateTime::from_ymd(year as u16, month as u8, day as u8).and_then(|d| d.and_hms_milli(hh as u16, mm as u8, ss as u8, ms as u16)))?;
                if kind == 16 { w!(&d); } else { w!(d); }
                V::Num(serial + fraction)
            }
            18 => { w!(&NaiveDateTime::new(date, time)); V::Num(serial + fraction) }
            19 => { w!(&date); V::Num(serial) }
            20 => { w!(&time); V::Num(fraction) }
            21 => { w!(rust_decimal::Decimal::new(v, 3)); V::Num(format!("{}e-3", v).parse().unwrap()) }
            22 | 23 => {
                let fx = Formula::new(format!("=A1+{}", v.abs())).set_result("7");
                if kind == 22 { w!(&fx); } else { w!(fx); }
                V::Formula { text: format!("A1+{}", v.abs()), kind: String::new(), rng: String::new(), dynamic: false, result: Box::new(V::Num(7.0)) }
            }
            24 | 25 => {
                let u = Url::new("http://a.b/c").set_text(&text);
                if kind == 24 { w!(&u); } else { w!(u); }
                base = Some(link);
                V::Str(text)
            }
            26 => { w!(Some(v as i32)); V::Num(v as f64) }
            27 => {
                w!(None::<i32>);
                stored = with;
                V::Blank
            }
            28 => { w!(Ok::<i32, String>(v as i32)); V::Num(v as f64) }
            _ => { w!(Err::<i32, String>(text.clone())); V::Str(text) }
        };
        if !stored {
            continue;
        }
        // An unformatted blank is not stored: the cell is as it was.
        if kind == 27 && fm.is_default() {
            m.plain(r, k);
            want.insert((r, k), None);
            continue;
        }
        match (with, base) {
            (true, _) => m.own(r, k, fm),
            (false, Some(l)) => m.own(r, k, &l),
            (false, None) => m.plain(r, k),
        }
        want.insert((r, k), Some(val));
        if with && !fm.is_default() {
            c.hit();
        }
    }
    let b = save_book(&mut wb, c)?;
    verify(&b, 0, &m, c)?;
    let cells = b.cells(0)?;
    for ((r, k), v) in &want {
        let Some(v) = v else { continue };
        let Some(g) = cells.get(&(*r, u32::from(*k))) else { fail!("typed", "({r},{k}): no cell, expected {v:?}") };
        let same = match (&g.v, v) {
            (V::Num(a), V::Num(b)) => (a - b).abs() <= b.abs() * 1e-13 + 1e-11 * f64::from(u8::from(b.fract() != 0.0)),
            (V::Formula { text: a, result: ra, .. }, V::Formula { text: b, result: rb, .. }) => a == b && format!("{ra:?}") == format!("{rb:?}"),
            (a, b) => format!("{a:?}") == format!("{b:?}"),
        };
        ensure!(same, "typed", "({r},{k}) is {:?}, expected {v:?}", g.v);
    }
    b.pkg.audit()
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "at least two cells and one non-default format (history), or four distinct formats (many), or a value of some type written with a format (typed)",
        level: "exploration",
        assumptions: &["styles are resolved by the harness's own reader: cellXfs -> font/fill/border/numFmt records", "automatic colours are not combined with fills"],
        families: vec![fam("history", 8000, 200_000, history), fam("many", 1500, 40_000, many), fam("typed", 3000, 60_000, typed)],
        known: vec![],
    }
}
