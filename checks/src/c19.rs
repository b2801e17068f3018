//! C19: automatic column widths follow the widest cell.
use crate::util::*;

/// Pixel widths of the characters of the default font.
fn char_px(c: char) -> u32 {
    const T: &[(u32, &str)] = &[
        (3, " '"),
        (4, ",.:;I`ijl"),
        (5, "!()-J[]frt{}"),
        (6, "\"/L\\csz"),
        (7, "#$*+0123456789<=>?EFSTYZ^_agkvxy|~"),
        (9, "ADGHUV"),
        (10, "&NOQ"),
        (11, "%w"),
        (12, "Mm"),
        (13, "@W"),
    ];
    T.iter().find(|(_, l)| l.contains(c)).map_or(8, |(w, _)| *w)
}

const LIMIT: u32 = 1790;

fn line_px(t: &str) -> u32 {
    if t.chars().count() > 233 { LIMIT } else { t.chars().map(char_px).sum::<u32>().min(LIMIT) }
}

fn text_px(t: &str) -> u32 {
    t.split('\n').map(|l| line_px(l.strip_suffix('\r').unwrap_or(l))).max().unwrap_or(0)
}

/// Least and greatest width of the content of a cell.
type W = (u32, u32);

fn exact(w: u32) -> W {
    (w, w)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Col {
    /// Width given by the user, in characters and pixels.
    User(f64, u32),
    Auto(u32),
    /// Other settings but no width.
    Other,
    /// Not determined.
    Open,
}

#[derive(Default, Clone)]
struct Sh {
    cells: BTreeMap<(u32, u16), W>,
    filter: BTreeSet<(u32, u16)>,
    heads: BTreeSet<(u32, u16)>,
    tables: Vec<(u32, u16, u32, u16)>,
    cols: BTreeMap<u16, Col>,
    hidden: BTreeSet<u16>,
}

impl Sh {
    /// Least and greatest widths that the data of the columns need.
    fn need(&self, max: u32) -> BTreeMap<u16, W> {
        let mut out: BTreeMap<u16, W> = BTreeMap::new();
        for (at, w) in &self.cells {
            let button = self.filter.contains(at) || self.heads.contains(at);
            let f = |w: u32| if w == 0 { 0 } else { (w + 7 + if button { 16 } else { 0 }).min(max).min(LIMIT) };
            let e = out.entry(at.1).or_default();
            e.0 = e.0.max(f(w.0));
            e.1 = e.1.max(f(w.1));
        }
        out
    }

    fn fit(&mut self, max: u32) {
        for (k, (lo, hi)) in self.need(max) {
            if hi == 0 {
                continue;
            }
            let was = self.cols.get(&k).copied();
            let new = |px: u32| match was {
                _ if px == 0 => was,
                None | Some(Col::Auto(_)) => Some(Col::Auto(px)),
                Some(Col::User(w, _)) if chars_of(px) > w => Some(Col::Auto(px)),
                Some(Col::User(..)) => was,
                Some(Col::Other) if px > 64 => Some(Col::Auto(px)),
                Some(_) => Some(Col::Open),
            };
            let (a, b) = (new(lo), new(hi));
            match if a == b { a } else { Some(Col::Open) } {
                Some(c) => self.cols.insert(k, c),
                None => self.cols.remove(&k),
            };
        }
    }
}

fn px_of(w: f64) -> u32 {
    let w = w.min(255.0);
    if w < 1.0 { (w * 12.0).round() as u32 } else { (w * 7.0).round() as u32 + 5 }
}

fn chars_of(px: u32) -> f64 {
    if px < 12 { f64::from(px) / 12.0 } else { (f64::from(px) - 5.0) / 7.0 }
}

fn a_line(s: &mut Src) -> String {
    let n = match s.below(12) {
        0 => s.small(100, 300),
        1 => *s.pick(&[137usize, 138, 179, 224, 232, 233, 234, 235, 447, 448]),
        2 => 0,
        _ => s.small(1, 24),
    };
    match s.below(5) {
        // One character repeated, for the limits.
        0 => (*s.pick(&['W', 'i', ' ', '0', 'm', 'é', '%', '_'])).to_string().repeat(n),
        1 => (0..n).map(|_| *s.pick(&['é', 'Ω', '日', '😀', 'ß', 'A', ' ', '\u{301}', '€'])).collect(),
        _ => (0..n).map(|_| char::from(s.u8(32, 126))).collect(),
    }
}

fn a_text(s: &mut Src) -> String {
    let mut t = a_line(s);
    if s.chance(1, 4) {
        for _ in 0..s.small(1, 4) {
            t.push_str(if s.chance(1, 6) { "\r\n" } else { "\n" });
            t.push_str(&a_line(s));
        }
    }
    t
}

fn a_number(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => f64::from(s.below(2000) as u32) - 1000.0 + if s.bool() { 0.5 } else { 0.0 },
        1 => f64::from(s.below(100_000_000) as u32) / 100.0,
        2 => *s.pick(&[1e10, 1e15, 1e16, 1e20, -1e-7, 1e100, 1e300, 5e-324, 0.1, 123456.789, -12345678901234.5, 1.0 / 3.0]),
        3 => gen::finite(s),
        _ => f64::from(s.below(30) as u32),
    }
}

fn num_px(v: f64) -> u32 {
    7 * v.to_string().len() as u32
}

#[derive(Clone, Debug)]
enum Cell {
    Text(String),
    Num(f64),
    Int(i64),
    Bool(bool),
    Blank,
    Date(u32),
    Formula(String, u8),
    Rich(Vec<String>),
    Url(String),
    UrlText(String, String),
    Error,
}

fn a_cell(s: &mut Src) -> Cell {
    match s.below(22) {
        0..=5 => Cell::Text(a_text(s)),
        6 | 7 => Cell::Num(a_number(s)),
        8 => Cell::Int(*s.pick(&[0i64, 1, -1, 1000, 123456789, -99999999999, 4503599627370496])),
        9 | 10 => Cell::Bool(s.bool()),
        11 => Cell::Blank,
        12 | 13 => Cell::Date(s.below(6) as u32),
        14..=16 => Cell::Formula(
            match s.below(7) {
                0 => String::new(),
                1 => "0".into(),
                2 => a_text(s),
                3 => (*s.pick(&["TRUE", "FALSE", "#N/A", "00", "0.0", "-0", " "])).into(),
                4 => a_number(s).to_string(),
                _ => a_line(s),
            },
            s.u8(0, 3),
        ),
        17 => {
            let n = s.small(2, 4);
            Cell::Rich((0..n).map(|_| { let t = a_text(s); if t.is_empty() { "x".into() } else { t } }).collect())
        }
        18 => Cell::Url(format!("https://example.com/{}", gen::word(s, 12))),
        19 => Cell::UrlText("https://example.com/a".into(), { let n = s.small(1, 40); gen::word(s, n) }),
        20 => Cell::Error,
        _ => Cell::Text(gen::word(s, 8)),
    }
}

fn cell_px(c: &Cell) -> W {
    match c {
        Cell::Text(t) | Cell::Url(t) | Cell::UrlText(_, t) => exact(text_px(t)),
        Cell::Num(v) if *v == 0.0 => (7, num_px(*v)),
        Cell::Num(v) => exact(num_px(*v)),
        Cell::Int(v) => exact(num_px(*v as f64)),
        Cell::Bool(b) => exact(if *b { 31 } else { 36 }),
        Cell::Blank => exact(0),
        Cell::Date(_) => exact(68),
        // Results of 0 are the value of formulas that aren't calculated yet.
        Cell::Formula(t, _) if t == "0" => (0, 7),
        // The lines of results needn't be told apart.
        Cell::Formula(t, _) => {
            let (lo, hi) = (text_px(t), line_px(t));
            (lo.min(hi), hi.max(lo))
        }
        Cell::Rich(l) => exact(text_px(&l.concat())),
        // Errors needn't be taken into account.
        Cell::Error => (0, 60),
    }
}

fn put(ws: &mut Worksheet, r: u32, k: u16, c: &Cell) -> R {
    let bold = Format::new().set_bold();
    match c {
        Cell::Text(t) if t.is_empty() => must("write_blank", ws.write_string_with_format(r, k, t, &bold))?,
        Cell::Text(t) => must("write_string", ws.write_string(r, k, t))?,
        Cell::Num(v) => must("write_number", ws.write_number(r, k, *v))?,
        Cell::Int(v) => must("write", ws.write(r, k, *v))?,
        Cell::Bool(b) => must("write_boolean", ws.write_boolean(r, k, *b))?,
        Cell::Blank => must("write_blank", ws.write_blank(r, k, &bold))?,
        Cell::Date(n) => {
            let d = must("date", ExcelDateTime::from_ymd(2000 + *n as u16, 1 + *n as u8, 28))?;
            let f = Format::new().set_num_format("yyyy-mm-dd");
            match n {
                0 => must("write_datetime", ws.write_datetime(r, k, &d))?,
                1 => must("write", ws.write(r, k, &d))?,
                2 => must("write", ws.write_with_format(r, k, &chrono::NaiveDate::from_ymd_opt(2024, 2, 29).unwrap(), &f))?,
                _ => must("write_datetime", ws.write_datetime_with_format(r, k, &d, &f))?,
            }
        }
        Cell::Formula(t, how) => {
            let f = Formula::new("=A1+1").set_result(t.as_str());
            match how {
                0 => must("write_array_formula", ws.write_array_formula(r, k, r, k, f))?,
                1 => must("write_dynamic_formula", ws.write_dynamic_formula(r, k, f))?,
                2 => must("write", ws.write(r, k, f))?,
                _ => {
                    must("write_formula", ws.write_formula(r, k, "=A1+1"))?;
                    ws.set_formula_result(r, k, t.as_str())
                }
            }
        }
        Cell::Rich(l) => {
            let fs = [Format::new(), bold];
            let parts: Vec<(&Format, &str)> = l.iter().enumerate().map(|(i, t)| (&fs[i % 2], t.as_str())).collect();
            must("write_rich_string", ws.write_rich_string(r, k, &parts))?
        }
        Cell::Url(u) => must("write_url", ws.write_url(r, k, u.as_str()))?,
        Cell::UrlText(u, t) => must("write_url_with_text", ws.write_url_with_text(r, k, u.as_str(), t.as_str()))?,
        Cell::Error => must("write_number", ws.write_number(r, k, f64::NAN))?,
    };
    Ok(())
}

fn a_row(s: &mut Src) -> u32 {
    if s.chance(1, 150) { *s.pick(&[70_000, 5000, 66_000]) } else { s.below(12) as u32 }
}
fn a_col(s: &mut Src) -> u16 {
    if s.chance(1, 15) { *s.pick(&[MAXC - 1, 255, 256]) } else { s.below(7) as u16 }
}

fn op(s: &mut Src, ws: &mut Worksheet, m: &mut Sh, serial: &mut u32, log: &mut Vec<String>) -> R {
    let (r, k) = (a_row(s), a_col(s));
    match s.below(30) {
        0..=15 => {
            let c = a_cell(s);
            // The cells of table headers are left alone.
            if m.tables.iter().any(|t| t.0 <= r && r <= t.2 && t.1 <= k && k <= t.3) {
                return Ok(());
            }
            put(ws, r, k, &c)?;
            m.cells.insert((r, k), cell_px(&c));
            log.push(format!("{} {c:?} {:?}", cell_name(r, k.into()), cell_px(&c)));
        }
        16 => {
            if m.tables.iter().any(|t| t.0 <= r && r <= t.2 && t.1 <= k && k <= t.3) {
                return Ok(());
            }
            ws.clear_cell(r, k);
            m.cells.remove(&(r, k));
            log.push(format!("clear {}", cell_name(r, k.into())));
        }
        17 | 18 => {
            let (w, px) = if s.bool() {
                let w = f64::from(s.below(400) as u32 + 1) / 8.0;
                must("set_column_width", ws.set_column_width(k, w))?;
                (w, px_of(w))
            } else {
                let px = s.u16(1, 400);
                must("set_column_width_pixels", ws.set_column_width_pixels(k, px))?;
                (chars_of(u32::from(px)), u32::from(px))
            };
            m.cols.insert(k, Col::User(w, px));
            log.push(format!("col {k} width {w} ({px})"));
        }
        19 => {
            if s.bool() {
                must("set_column_format", ws.set_column_format(k, &Format::new().set_italic()))?;
            } else {
                must("set_column_hidden", ws.set_column_hidden(k))?;
                m.hidden.insert(k);
            }
            m.cols.entry(k).or_insert(Col::Other);
            log.push(format!("col {k} settings"));
        }
        20 | 21 => {
            let k2 = k.saturating_add(s.u16(0, 4)).min(MAXC - 1);
            let r2 = r + s.u32(0, 6);
            if (k..=k2).any(|k| m.heads.contains(&(r, k))) {
                return Ok(());
            }
            must("autofilter", ws.autofilter(r, k, r2, k2))?;
            m.filter = (k..=k2).map(|k| (r, k)).collect();
            log.push(format!("filter {}", range_name(r, k.into(), r2, k2.into())));
        }
        22 | 23 => {
            let t = (r, k, r + s.u32(2, 5), k.saturating_add(s.u16(0, 3)).min(MAXC - 1));
            let header = !s.chance(1, 5);
            let button = header && !s.chance(1, 3);
            let total = s.chance(1, 3);
            if m.tables.iter().any(|u| u.0 <= t.2 && t.0 <= u.2 && u.1 <= t.3 && t.1 <= u.3)
                || (button && (t.1..=t.3).any(|k| m.filter.contains(&(t.0, k))))
                || (t.0..=t.2).any(|r| (t.1..=t.3).any(|k| m.cells.contains_key(&(r, k))))
            {
                return Ok(());
            }
            let mut cols = vec![];
            let mut heads = vec![];
            for i in t.1..=t.3 {
                *serial += 1;
                let h = format!("{}{serial}", gen::word(s, 9));
                let mut c = TableColumn::new().set_header(h.as_str());
                let mut tl = exact(0);
                if total {
                    match s.below(3) {
                        0 => {
                            let l = gen::word(s, 9);
                            c = c.set_total_label(l.as_str());
                            tl = exact(text_px(&l));
                        }
                        1 => {
                            c = c.set_total_function(TableFunction::Sum);
                            tl = (0, 7);
                        }
                        _ => {}
                    }
                }
                cols.push(c);
                heads.push((i, h, tl));
            }
            let table = Table::new().set_columns(&cols).set_header_row(header).set_autofilter(button).set_total_row(total);
            let table = if header { table } else { table.set_autofilter(false) };
            must("add_table", ws.add_table(t.0, t.1, t.2, t.3, &table))?;
            for (i, h, tl) in &heads {
                if header {
                    m.cells.insert((t.0, *i), exact(text_px(h)));
                }
                if button {
                    m.heads.insert((t.0, *i));
                }
                if total {
                    m.cells.insert((t.2, *i), *tl);
                }
            }
            m.tables.push(t);
            log.push(format!("table {} header {header} button {button} total {total} {heads:?}", range_name(t.0, t.1.into(), t.2, t.3.into())));
        }
        24..=26 => {
            ws.autofit();
            m.fit(LIMIT);
            log.push("autofit".into());
        }
        27 | 28 => {
            let max = *s.pick(&[0u16, 1, 20, 64, 100, 300, 1789, 1790, 1791, 5000, 65535]);
            let max = if s.bool() { max } else { s.u16(5, 400) };
            ws.autofit_to_max_width(max);
            m.fit(u32::from(max));
            log.push(format!("autofit to {max}"));
        }
        _ => {
            let px = s.u16(1, 400);
            must("set_column_autofit_width", ws.set_column_autofit_width(k, px))?;
            let was = m.cols.get(&k).copied();
            let new = match was {
                None | Some(Col::Auto(_)) => Col::Auto(u32::from(px)),
                Some(Col::User(w, _)) if chars_of(u32::from(px)) > w => Col::Auto(u32::from(px)),
                Some(Col::User(w, p)) => Col::User(w, p),
                Some(Col::Other) if px > 64 => Col::Auto(u32::from(px)),
                Some(_) => Col::Open,
            };
            m.cols.insert(k, new);
            log.push(format!("col {k} autofit width {px}"));
        }
    }
    Ok(())
}

/// Stored width and automatic flag of every stored column.
fn stored(b: &Book, i: usize) -> R<BTreeMap<u16, (f64, bool, bool)>> {
    let mut out = BTreeMap::new();
    for e in b.sheet(i)?.child("cols").into_iter().flat_map(|d| d.children()) {
        let n = |k: &str| e.attr(k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(f64::NAN);
        let yes = |k: &str| matches!(e.attr(k), Some("1" | "true"));
        for k in n("min") as u32..=n("max") as u32 {
            out.insert((k - 1) as u16, (n("width"), yes("bestFit"), yes("customWidth")));
        }
    }
    Ok(out)
}

fn width_of(px: u32) -> f64 {
    (u64::from(px) * 256 / 7) as f64 / 256.0
}

fn verify(b: &Book, i: usize, m: &Sh, ctx: &mut Ctx, what: &dyn Fn() -> String) -> R {
    let got = stored(b, i)?;
    for k in got.keys() {
        ensure!(m.cols.contains_key(k), "extra", "column {k} has no data and wasn't set but is stored, {}", what());
    }
    for (k, c) in &m.cols {
        let g = got.get(k);
        match c {
            Col::Open => {}
            Col::Other => {}
            Col::User(_, px) | Col::Auto(px) => {
                let auto = matches!(c, Col::Auto(_));
                let want = width_of(*px);
                let default = *px == 64;
                let sig = if auto { "fitted" } else { "kept" };
                match g {
                    None => ensure!(default, sig, "column {k} isn't stored but needs {px} pixels, {}", what()),
                    Some((w, fit, custom)) => {
                        let ok = *w == want || (default && m.hidden.contains(k) && *w == 0.0);
                        ensure!(ok, sig, "column {k} has width {w} instead of {want} ({c:?}), {}", what());
                        ensure!(default || *custom, sig, "the width of column {k} is not applied, {}", what());
                        ensure_eq!(*fit, auto, "flag", "column {k} is marked as fitted, {}", what());
                    }
                }
                ctx.label_if(auto, "fitted column");
                ctx.label_if(auto && *px == LIMIT, "fitted to the limit");
            }
        }
    }
    ctx.label_if(!m.heads.is_empty(), "table buttons");
    ctx.label_if(!m.filter.is_empty(), "filter buttons");
    Ok(())
}

fn model(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + usize::from(s.chance(1, 5));
    let mut wb = Workbook::new();
    let mut ms = vec![Sh::default(); n];
    let mut log = vec![];
    let mut serial = 0;
    for _ in 0..n {
        wb.add_worksheet();
    }
    for k in 0..1 + usize::from(s.chance(1, 6)) {
        for _ in 0..s.small(1, 26) {
            let i = s.idx(n);
            if n > 1 {
                log.push(format!("@{i}"));
            }
            op(s, must("sheet", wb.worksheet_from_index(i))?, &mut ms[i], &mut serial, &mut log)?;
        }
        if !s.chance(1, 8) {
            for (i, m) in ms.iter_mut().enumerate() {
                must("sheet", wb.worksheet_from_index(i))?.autofit();
                m.fit(LIMIT);
            }
            log.push("autofit all".into());
        }
        ctx.d(|| format!("save {k}: {log:?}"));
        if ms.iter().map(|m| m.cols.values().filter(|c| matches!(c, Col::Auto(_))).count()).sum::<usize>() > 1 {
            ctx.hit();
        }
        let b = save_book(&mut wb, ctx)?;
        for (i, m) in ms.iter().enumerate() {
            verify(&b, i, m, ctx, &|| format!("sheet {i} save {k} {log:?}"))?;
        }
    }
    Ok(())
}

/// Widths don't depend on the order of the cells, on what they held before, or
/// on earlier fits, and don't fall when cells are added.
fn relations(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cells: BTreeMap<(u32, u16), Cell> = BTreeMap::new();
    for _ in 0..s.small(1, 14) {
        cells.insert((a_row(s), a_col(s)), a_cell(s));
    }
    let filter = s.opt(|s| (s.below(4) as u32, s.below(4) as u16, s.u16(0, 5)));
    let max = if s.chance(1, 3) { Some(s.u16(10, 400)) } else { None };
    let fit = |ws: &mut Worksheet| {
        match max {
            Some(m) => ws.autofit_to_max_width(m),
            None => ws.autofit(),
        };
    };
    let filt = |ws: &mut Worksheet| -> R {
        if let Some((r, k, w)) = filter {
            must("autofilter", ws.autofilter(r, k, r + 3, k + w))?;
        }
        Ok(())
    };
    ctx.d(|| format!("cells {cells:?}, filter {filter:?}, max {max:?}"));
    if cells.len() > 3 {
        ctx.hit();
    }
    // As listed.
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    for ((r, k), c) in &cells {
        put(ws, *r, *k, c)?;
    }
    filt(ws)?;
    fit(ws);
    let plain = stored(&save_book(&mut wb, ctx)?, 0)?;
    // Another order, with other contents, filters and fits before.
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut order: Vec<_> = cells.clone().into_iter().collect();
    s.shuffle(&mut order);
    let early = s.bool();
    if early {
        filt(ws)?;
    }
    for ((r, k), c) in &order {
        if s.chance(1, 3) {
            put(ws, *r, *k, &a_cell(s))?;
        }
        if s.chance(1, 8) {
            put(ws, *r, *k, c)?;
            fit(ws);
        }
        put(ws, *r, *k, c)?;
    }
    if !early {
        filt(ws)?;
    }
    fit(ws);
    let other = stored(&save_book(&mut wb, ctx)?, 0)?;
    ensure_eq!(&other, &plain, "order", "widths after writing {order:?} in another order, filter {filter:?}, max {max:?}");
    // More cells.
    let ws = must("sheet", wb.worksheet_from_index(0))?;
    let mut more = vec![];
    for _ in 0..s.small(1, 6) {
        let at = (a_row(s), a_col(s));
        if cells.contains_key(&at) {
            continue;
        }
        let c = a_cell(s);
        put(ws, at.0, at.1, &c)?;
        cells.insert(at, c.clone());
        more.push((at, c));
    }
    fit(ws);
    let grown = stored(&save_book(&mut wb, ctx)?, 0)?;
    for (k, g) in &plain {
        let Some(n) = grown.get(k) else { fail!("narrower", "column {k} lost its width after adding {more:?} to {order:?}") };
        ensure!(n.0 >= g.0, "narrower", "column {k} fell from {} to {} after adding {more:?}, max {max:?}", g.0, n.0);
        if !more.iter().any(|(at, _)| at.1 == *k) {
            ensure_eq!(n, g, "other-column", "column {k} after adding {more:?} elsewhere, max {max:?}");
        }
    }
    for k in grown.keys() {
        ensure!(plain.contains_key(k) || more.iter().any(|(at, _)| at.1 == *k), "other-column", "column {k} got a width after adding {more:?}");
    }
    if let Some(m) = max {
        for (k, g) in &grown {
            ensure!(g.0 <= width_of(u32::from(m)), "max", "column {k} has width {} beyond {m} pixels", g.0);
        }
    }
    ctx.label_if(filter.is_some(), "with a filter");
    ctx.label_if(max.is_some(), "with a maximum");
    Ok(())
}

/// Fitting a column by hand with the public helper gives what autofit gives.
fn helper(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.small(1, 8);
    let texts: Vec<String> = (0..n).map(|_| a_line(s)).filter(|t| !t.is_empty() && !t.contains(['\n', '\r'])).collect();
    if texts.is_empty() {
        return Ok(());
    }
    let k = a_col(s);
    ctx.d(|| format!("column {k}: {texts:?}"));
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    for (r, t) in texts.iter().enumerate() {
        must("write", ws.write(r as u32, k, t))?;
    }
    ws.autofit();
    let ws = wb.add_worksheet();
    let px = texts.iter().map(|t| rust_xlsxwriter::cell_autofit_width(t)).max().unwrap();
    must("set_column_autofit_width", ws.set_column_autofit_width(k, px))?;
    let b = save_book(&mut wb, ctx)?;
    let (a, h) = (stored(&b, 0)?, stored(&b, 1)?);
    ensure!(a == h, "helper", "column {k} of {texts:?}: autofit gives {a:?}, cell_autofit_width() ({px}) gives {h:?}");
    ctx.hit();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "more than one automatically fitted column (model), more than three cells (relations)",
        level: "randomised exploration against a reference model and relations between runs",
        assumptions: &[
            "widths are those of the default font, numbers and dates without regard to their format, as documented",
            "errors, results of 0, and the lines of formula results may be taken into account or not",
            "a narrower automatic width in a column with other settings is left open",
        ],
        known: vec![],
        families: vec![fam("model", 6000, 300000, model), fam("relations", 2500, 120000, relations), fam("helper", 2000, 60000, helper)],
    }
}
