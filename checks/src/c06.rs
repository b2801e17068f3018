//! C06: sheets in constant and low memory mode store what normal sheets store.
use crate::draw::*;
use crate::fmt::*;
use crate::kitchen::resolved;
use crate::util::*;
use rust_xlsxwriter::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Normal,
    Constant,
    Low,
}

#[derive(Clone, Default)]
struct Sh {
    /// The row that can be written.
    row: u32,
    /// The last row with cells, settings or cells written ahead.
    end: u32,
    data: bool,
    /// The row reached by writing cells, the only one that formats can be set on later.
    here: Option<u32>,
    busy: Vec<(u32, u16, u32, u16)>,
    filter: Option<u32>,
    hide: bool,
    /// Ranges with cells written ahead, which a format set later doesn't reach.
    ahead: Vec<(u32, u16, u32, u16)>,
    formulas: Vec<u16>,
    tables: u32,
    notes: BTreeSet<(u32, u16)>,
}

struct Run {
    wb: Workbook,
    st: Vec<Sh>,
    log: Vec<String>,
    /// Whether the log is kept.
    pool: Vec<Format>,
    serial: u32,
    kinds: BTreeSet<&'static str>,
}

fn a_text(s: &mut Src) -> String {
    match s.below(8) {
        0 => gen::text1(s, 30),
        1 => (*s.pick(&[" lead", "trail ", "\ttab", "line\nbreak", "\nfirst", "last\n", "_x0041_", "a<b&c>\"d'", "\u{1}\u{1f}", "]]>", " ", "\r", "a\r\nb", "<r>x</r>", "\u{a0}", "😀"])).to_string(),
        2 => gen::xml_text(s, 20) + "x",
        _ => gen::word(s, 5),
    }
}

fn free(m: &Sh, r: u32, k: u16, r2: u32, k2: u16) -> bool {
    apart(&m.busy, r, k, r2, k2)
}

fn apart(l: &[(u32, u16, u32, u16)], r: u32, k: u16, r2: u32, k2: u16) -> bool {
    !l.iter().any(|b| b.0 <= r2 && r <= b.2 && b.1 <= k2 && k <= b.3)
}

impl Run {
    fn start(s: &mut Src, modes: &[Mode], pushed: &[bool]) -> R<Run> {
        let pool = gen_pool(s, 4, 3).into_iter().map(|p| p.0).collect();
        let mut wb = Workbook::new();
        let mut st = vec![];
        for (i, (m, p)) in modes.iter().zip(pushed).enumerate() {
            if *p {
                let mut ws = match m {
                    Mode::Normal => Worksheet::new(),
                    Mode::Constant => wb.new_worksheet_with_constant_memory(),
                    Mode::Low => wb.new_worksheet_with_low_memory(),
                };
                must("set_name", ws.set_name(format!("Sheet{}", i + 1)).map(|_| ()))?;
                wb.push_worksheet(ws);
            } else {
                match m {
                    Mode::Normal => wb.add_worksheet(),
                    Mode::Constant => wb.add_worksheet_with_constant_memory(),
                    Mode::Low => wb.add_worksheet_with_low_memory(),
                };
            }
            st.push(Sh::default());
        }
        let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
        wb.set_properties(&DocProperties::new().set_creation_datetime(&date));
        Ok(Run { wb, st, log: vec![], pool, serial: 0, kinds: BTreeSet::new() })
    }

    /// Settings that come before the data.
    fn head(&mut self, s: &mut Src, i: usize) -> R {
        let ws = must("sheet", self.wb.worksheet_from_index(i))?;
        if s.chance(1, 3) {
            let k = s.u16(0, 6);
            let f = &self.pool[s.idx(self.pool.len())];
            must("set_column_format", ws.set_column_format(k, f).map(|_| ()))?;
            self.log.push(format!("@{i} column {k} format"));
        }
        if s.chance(1, 6) {
            let h = f64::from(s.u32(1, 60));
            ws.set_default_row_height(h);
            self.log.push(format!("@{i} default height {h}"));
        }
        if s.chance(1, 10) {
            ws.hide_unused_rows(true);
            self.st[i].hide = true;
            self.log.push(format!("@{i} hide unused"));
        }
        if s.chance(1, 8) {
            ws.set_formula_result_default("7");
            self.log.push(format!("@{i} default result"));
        }
        Ok(())
    }

    fn step(&mut self, s: &mut Src, i: usize) -> R {
        let Run { wb, st, log, pool, serial, kinds } = self;
        let ws = must("sheet", wb.worksheet_from_index(i))?;
        let m = &mut st[i];
        let pi = s.idx(pool.len());
        let f = pool[pi].clone();
        let r = m.row;
        let k = if s.chance(1, 12) { *s.pick(&[25u16, 26, 27, 255, 702, MAXC - 1]) } else { s.u16(0, 7) };
        let what;
        match s.below(60) {
            0..=8 => {
                let with = s.bool();
                let t = a_text(s);
                match (s.below(3), with) {
                    (0, true) => must("write_with_format", ws.write_with_format(r, k, &t, &f).map(|_| ()))?,
                    (0, _) => must("write", ws.write(r, k, &t).map(|_| ()))?,
                    (_, true) => must("write_string", ws.write_string_with_format(r, k, &t, &f).map(|_| ()))?,
                    _ => must("write_string", ws.write_string(r, k, &t).map(|_| ()))?,
                }
                what = format!("text {t:?} format {with} {pi}");
                kinds.insert("text");
                m.data = true;
                if !t.is_empty() {
                    m.here = Some(r);
                }
            }
            9..=13 => {
                let v = match s.below(4) {
                    0 => gen::any_f64(s),
                    1 => gen::finite(s),
                    2 => *s.pick(&[0.0, -0.0, 1e15, 1e16, 1e21, -1e-5, 1e-7, 0.1, 1e300, 5e-324, f64::MAX, 9007199254740993.0]),
                    _ => f64::from(s.u32(0, 100)),
                };
                let with = s.bool();
                if with {
                    must("write_number", ws.write_number_with_format(r, k, v, &f).map(|_| ()))?;
                } else {
                    must("write_number", ws.write_number(r, k, v).map(|_| ()))?;
                }
                what = format!("number {v:?} format {with} {pi}");
                kinds.insert("number");
                m.data = true;
                m.here = Some(r);
            }
            14 | 15 => {
                let b = s.bool();
                match s.below(4) {
                    0 => must("insert_checkbox", ws.insert_checkbox(r, k, b).map(|_| ()))?,
                    1 => must("insert_checkbox", ws.insert_checkbox_with_format(r, k, b, &f).map(|_| ()))?,
                    2 => must("write_boolean", ws.write_boolean_with_format(r, k, b, &f).map(|_| ()))?,
                    _ => must("write_boolean", ws.write_boolean(r, k, b).map(|_| ()))?,
                }
                what = format!("boolean {b}");
                kinds.insert("boolean");
                m.data = true;
                m.here = Some(r);
            }
            16 | 17 => {
                must("write_blank", ws.write_blank(r, k, &f).map(|_| ()))?;
                what = format!("blank {pi}");
                m.data = true;
                m.here = Some(r);
            }
            18 | 19 => {
                let d = must("date", ExcelDateTime::from_ymd(s.u16(1900, 2500), s.u8(1, 12), s.u8(1, 28)))?;
                if s.bool() {
                    must("write_datetime", ws.write_datetime_with_format(r, k, &d, &f).map(|_| ()))?;
                } else {
                    must("write", ws.write(r, k, &d).map(|_| ()))?;
                }
                what = "date".to_string();
                kinds.insert("date");
                m.data = true;
                m.here = Some(r);
            }
            20..=22 => {
                let mut x = Formula::new(*s.pick(&["=A1+1", "=SUM(A1:B2)", "\"<&>\"", "=UNIQUE(A1:A3)", "=IF(A1>1,\"a\",\"b\")"]));
                if s.bool() {
                    let t = if s.bool() { a_text(s) } else { (*s.pick(&["1", "TRUE", "#N/A", "1.5", ""])).to_string() };
                    x = x.set_result(t);
                }
                let with = s.bool();
                if with {
                    must("write_formula", ws.write_formula_with_format(r, k, x, &f).map(|_| ()))?;
                } else {
                    must("write_formula", ws.write_formula(r, k, x).map(|_| ()))?;
                }
                m.formulas.push(k);
                what = format!("formula format {with}");
                kinds.insert("formula");
                m.data = true;
                m.here = Some(r);
            }
            23 => {
                let Some(k) = m.formulas.last().copied() else { return Ok(()) };
                let t = gen::word(s, 4);
                ws.set_formula_result(r, k, &t);
                what = format!("result of column {k} {t:?}");
            }
            24..=26 => {
                let (r2, k2) = (r + s.u32(0, 4), k.saturating_add(s.u16(0, 3)).min(MAXC - 1));
                let with = s.bool();
                let x = Formula::new("=ROW(A1:A9)").set_result(if s.bool() { "3" } else { "" });
                match (s.bool(), with) {
                    (true, true) => must("array", ws.write_array_formula_with_format(r, k, r2, k2, x, &f).map(|_| ()))?,
                    (true, _) => must("array", ws.write_array_formula(r, k, r2, k2, x).map(|_| ()))?,
                    (_, true) => must("array", ws.write_dynamic_array_formula_with_format(r, k, r2, k2, x, &f).map(|_| ()))?,
                    _ => must("array", ws.write_dynamic_array_formula(r, k, r2, k2, x).map(|_| ()))?,
                }
                what = format!("array {} format {with}", range_name(r, k.into(), r2, k2.into()));
                kinds.insert("array formula");
                m.end = m.end.max(r2);
                m.ahead.push((r, k, r2, k2));
                m.data = true;
                m.here = Some(r);
            }
            27 | 28 => {
                let l: Vec<String> = (0..s.small(2, 4)).map(|_| a_text(s) + "x").collect();
                let fs: Vec<Format> = (0..l.len()).map(|_| pool[s.idx(pool.len())].clone()).collect();
                let parts: Vec<(&Format, &str)> = fs.iter().zip(&l).map(|(f, t)| (f, t.as_str())).collect();
                if s.bool() {
                    must("write_rich_string", ws.write_rich_string_with_format(r, k, &parts, &f).map(|_| ()))?;
                } else {
                    must("write_rich_string", ws.write_rich_string(r, k, &parts).map(|_| ()))?;
                }
                what = format!("rich {l:?}");
                kinds.insert("rich text");
                m.data = true;
                m.here = Some(r);
            }
            29 | 30 => {
                let u = *s.pick(&["https://example.com/a?b=1", "internal:Sheet1!A1", "mailto:a@example.com", "file:///C:/x.xlsx"]);
                let u = Url::new(u);
                let u = if s.bool() { u.set_text(a_text(s)) } else { u };
                if s.bool() {
                    must("write_url", ws.write_url_with_format(r, k, u, &f).map(|_| ()))?;
                } else {
                    must("write_url", ws.write_url(r, k, u).map(|_| ()))?;
                }
                what = "link".to_string();
                kinds.insert("link");
                m.data = true;
                m.here = Some(r);
            }
            31 | 32 => {
                if m.here != Some(r) {
                    return Ok(());
                }
                match s.below(3) {
                    0 => must("set_cell_format", ws.set_cell_format(r, k, &f).map(|_| ()))?,
                    1 => {
                        let k2 = k.saturating_add(s.u16(0, 3)).min(MAXC - 1);
                        must("set_range_format", ws.set_range_format(r, k, r, k2, &f).map(|_| ()))?;
                    }
                    _ => {
                        let k2 = k.saturating_add(s.u16(0, 3)).min(MAXC - 1);
                        must("set_range_format_with_border", ws.set_range_format_with_border(r, k, r, k2, &f, &pool[0]).map(|_| ()))?;
                    }
                }
                what = format!("cell format {pi}");
                kinds.insert("cell format");
                m.data = true;
            }
            33 => {
                if m.here != Some(r) {
                    return Ok(());
                }
                if s.bool() {
                    ws.clear_cell(r, k);
                } else {
                    ws.clear_cell_format(r, k);
                }
                what = "clear".to_string();
            }
            34..=37 => {
                let at = r + if s.bool() { 0 } else { s.u32(0, 6) };
                match s.below(7) {
                    0 => must("row height", ws.set_row_height(at, f64::from(s.u32(1, 50))).map(|_| ()))?,
                    1 => must("row format", ws.set_row_format(at, &f).map(|_| ()))?,
                    2 => must("row hidden", ws.set_row_hidden(at).map(|_| ()))?,
                    3 => must("row unhidden", ws.set_row_unhidden(at).map(|_| ()))?,
                    4 => must("group rows", ws.group_rows(at, at + s.u32(0, 3)).map(|_| ())).unwrap_or(()),
                    5 => must("group rows", ws.group_rows_collapsed(at, at + s.u32(0, 3)).map(|_| ())).unwrap_or(()),
                    _ => must("row height", ws.set_row_height_pixels(at, s.u16(1, 50)).map(|_| ()))?,
                }
                m.end = m.end.max(at + 4);
                what = format!("row {at} settings");
                kinds.insert("row settings");
            }
            38..=40 => {
                let (r2, k2) = (r + s.u32(0, 4), k.saturating_add(s.u16(0, 3)).min(MAXC - 1));
                if (r, k) == (r2, k2) || !free(m, r, k, r2, k2) {
                    return Ok(());
                }
                let t = if s.chance(1, 4) { String::new() } else { a_text(s) };
                must("merge_range", ws.merge_range(r, k, r2, k2, &t, &f).map(|_| ()))?;
                m.busy.push((r, k, r2, k2));
                m.end = m.end.max(r2);
                m.data = true;
                m.here = Some(r);
                what = format!("merge {} {t:?}", range_name(r, k.into(), r2, k2.into()));
                kinds.insert("merged range");
            }
            41..=43 => {
                let (r2, k2) = (r + s.u32(2, 6), k.saturating_add(s.u16(0, 3)).min(MAXC - 1));
                if !free(m, r, k, r2, k2) || !apart(&m.ahead, r, k, r2, k2) || m.filter == Some(r) {
                    return Ok(());
                }
                let total = s.bool();
                let mut cols = vec![];
                for kk in k..=k2 {
                    *serial += 1;
                    let mut c = TableColumn::new();
                    if s.chance(1, 4) {
                        // The header comes from the cell.
                        must("write", ws.write(r, kk, format!("Head {serial}")).map(|_| ()))?;
                        m.here = Some(r);
                        kinds.insert("header from cell");
                    } else {
                        c = c.set_header(format!("H{serial}"));
                    }
                    if s.bool() {
                        c = c.set_format(pool[s.idx(pool.len())].clone());
                    }
                    if s.chance(1, 3) {
                        c = c.set_formula("=A1+1");
                    }
                    if total {
                        c = if s.bool() { c.set_total_label("Sum <&>") } else { c.set_total_function(TableFunction::Average) };
                    }
                    cols.push(c);
                }
                m.tables += 1;
                *serial += 1;
                let t = Table::new().set_name(format!("Tab_{serial}")).set_columns(&cols).set_total_row(total).set_header_row(!s.chance(1, 5));
                must("add_table", ws.add_table(r, k, r2, k2, &t).map(|_| ()))?;
                m.busy.push((r, k, r2, k2));
                m.end = m.end.max(r2);
                m.data = true;
                what = format!("table {} total {total}", range_name(r, k.into(), r2, k2.into()));
                kinds.insert("table");
            }
            44 => {
                let im = gen_image(s, *serial);
                let im = must("image", Image::new_from_buffer(&im.bytes))?;
                must("insert_image", ws.insert_image(s.u32(0, 20), k, &im).map(|_| ()))?;
                what = "image".to_string();
                kinds.insert("image");
            }
            45 => {
                // A note shows its row in one of the modes only.
                if m.hide {
                    return Ok(());
                }
                let at = (s.u32(0, 20), s.u16(0, 7));
                must("insert_note", ws.insert_note(at.0, at.1, &Note::new(a_text(s))).map(|_| ()))?;
                m.notes.insert(at);
                what = format!("note {at:?}");
                kinds.insert("note");
            }
            46 => {
                let v = DataValidation::new().allow_whole_number(DataValidationRule::GreaterThan(3));
                must("add_data_validation", ws.add_data_validation(s.u32(0, 20), k, 30, k, &v).map(|_| ()))?;
                what = "validation".to_string();
                kinds.insert("validation");
            }
            47 => {
                let c = ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(2)).set_format(&f);
                must("add_conditional_format", ws.add_conditional_format(s.u32(0, 20), k, 30, k, &c).map(|_| ()))?;
                what = "conditional format".to_string();
                kinds.insert("conditional format");
            }
            48 => {
                let at = s.u32(0, 20);
                if m.tables > 0 {
                    return Ok(());
                }
                must("autofilter", ws.autofilter(at, 0, at + 3, 3).map(|_| ()))?;
                m.filter = Some(at);
                // Tables are kept away from the filter.
                m.busy.push((at, 0, at + 3, 3));
                what = format!("filter at {at}");
                kinds.insert("filter");
            }
            49 => {
                let mut c = Chart::new(ChartType::Column);
                c.add_series().set_values(("Sheet1", 0, 0, 4, 0));
                must("insert_chart", ws.insert_chart(s.u32(0, 20), k, &c).map(|_| ()))?;
                what = "chart".to_string();
                kinds.insert("chart");
            }
            50 => {
                match s.below(4) {
                    0 => must("column width", ws.set_column_width(k, f64::from(s.u32(1, 40))).map(|_| ()))?,
                    1 => must("column hidden", ws.set_column_hidden(k).map(|_| ()))?,
                    2 => must("freeze", ws.set_freeze_panes(s.u32(0, 5), s.u16(0, 3)).map(|_| ()))?,
                    _ => {
                        ws.protect();
                    }
                }
                what = "sheet settings".to_string();
            }
            51 => {
                let sp = Sparkline::new().set_range(("Sheet1", 0, 0, 0, 4));
                must("add_sparkline", ws.add_sparkline(s.u32(0, 20), k, &sp).map(|_| ()))?;
                what = "sparkline".to_string();
                kinds.insert("sparkline");
            }
            52 => {
                // A whole row at once.
                let l: Vec<f64> = (0..s.small(0, 6)).map(|i| i as f64).collect();
                if s.bool() {
                    must("write_row", ws.write_row(r, k.min(MAXC - 8), l.clone()).map(|_| ()))?;
                } else {
                    must("write_row", ws.write_row_with_format(r, k.min(MAXC - 8), l.clone(), &f).map(|_| ()))?;
                }
                m.data |= !l.is_empty();
                what = "row of cells".to_string();
            }
            _ => {
                let by = match s.below(12) {
                    0 => s.u32(10, 40),
                    1 if s.chance(1, 10) => 70_000,
                    2 => s.u32(3, 10),
                    _ => s.u32(1, 2),
                };
                m.row += by;
                m.formulas.clear();
                what = format!("to row {}", m.row);
                log.push(format!("@{i} {what}"));
                return Ok(());
            }
        }
        m.end = m.end.max(r);
        log.push(format!("@{i} {} {what}", cell_name(r, k.into())));
        Ok(())
    }

    fn save(&mut self, c: &mut Ctx) -> R<Book> {
        let b = save_book(&mut self.wb, c)?;
        // The rows stored are closed.
        for m in &mut self.st {
            m.row = m.row.max(m.end) + 1;
            m.formulas.clear();
        }
        self.log.push("save".into());
        Ok(b)
    }
}

/// Data kept by charts from cells that a sheet may not remember.
fn drop_cache(e: &mut Elem) {
    e.kids.retain(|k| !matches!(k, kit::xml::Node::E(x) if matches!(x.name.as_str(), "c:numCache" | "c:strCache")));
    for k in &mut e.kids {
        if let kit::xml::Node::E(x) = k {
            drop_cache(x);
        }
    }
    // A reference of text or numbers is told by the data.
    if e.name == "c:strRef" {
        e.name = "c:numRef".into();
    }
}

fn styles(b: &Book) -> R<Vec<String>> {
    // The styles as `resolved` shows them: by a sheet of one row per style.
    let n = b.style_sheet()?.child("cellXfs").map_or(0, |x| x.children().count());
    (0..n)
        .map(|i| {
            let mut s = b.style(i)?;
            s.xf.attrs.retain(|(k, _)| !matches!(k.as_str(), "fontId" | "fillId" | "borderId" | "numFmtId"));
            Ok(format!("{s:?}"))
        })
        .collect()
}

fn compare(a: &Book, b: &Book, what: &str) -> R {
    let (x, y) = (resolved(a)?, resolved(b)?);
    let names = |b: &Book| -> BTreeSet<String> { b.pkg.names.iter().filter(|n| *n != "xl/sharedStrings.xml").cloned().collect() };
    ensure_eq!(names(b), names(a), "parts", "{what}: list of parts");
    let (sa, sb) = (styles(a)?, styles(b)?);
    for (i, sheet) in a.sheets.iter().enumerate() {
        // Cells.
        let (ca, cb) = (a.cells(i)?, b.cells(i)?);
        for (at, p) in &ca {
            let name = cell_name(at.0, at.1);
            let Some(q) = cb.get(at) else { fail!("cell", "{what}: cell {name} of sheet {i} ({:?}) is missing", p.v) };
            ensure!(same_value(&p.v, &q.v), "value", "{what}: cell {name} of sheet {i} holds {:?} instead of {:?}", q.v, p.v);
            ensure!(sa.get(p.s) == sb.get(q.s), "format", "{what}: cell {name} of sheet {i} has the format {:?} instead of {:?}", sb.get(q.s), sa.get(p.s));
            ensure!(p.cm == q.cm && p.vm == q.vm, "metadata", "{what}: cell {name} of sheet {i} has metadata {:?} {:?} instead of {:?} {:?}", q.cm, q.vm, p.cm, p.vm);
        }
        for at in cb.keys() {
            ensure!(ca.contains_key(at), "cell", "{what}: extra cell {} in sheet {i}", cell_name(at.0, at.1));
        }
        // Rows.
        let rows = |b: &Book, st: &[String]| -> R<BTreeMap<u32, BTreeMap<String, String>>> {
            let mut out = BTreeMap::new();
            for e in b.sheet(i)?.child("sheetData").into_iter().flat_map(|d| d.children()) {
                let n: u32 = e.attr("r").and_then(|v| v.parse().ok()).unwrap_or(0);
                let mut m = BTreeMap::new();
                for (k, v) in &e.attrs {
                    if matches!(k.as_str(), "r" | "spans") || k.ends_with("dyDescent") {
                        continue;
                    }
                    m.insert(k.clone(), if k == "s" { v.parse::<usize>().ok().and_then(|i| st.get(i)).cloned().unwrap_or_default() } else { v.clone() });
                }
                // Rows that say nothing needn't be stored.
                if !m.is_empty() || e.children().count() > 0 {
                    ensure!(out.insert(n, m).is_none(), "row", "row {n} is stored twice");
                }
            }
            Ok(out)
        };
        let default = b.sheet(i)?.child("sheetFormatPr").and_then(|e| e.attr("defaultRowHeight")).unwrap_or("15").to_string();
        let (mut ra, mut rb) = (rows(a, &sa)?, rows(b, &sb)?);
        for r in [&mut ra, &mut rb] {
            // A row with a note and no cell may only state the default height.
            let hide = b.sheet(i)?.child("sheetFormatPr").and_then(|e| e.attr("zeroHeight")).is_some();
            let cells = &ca;
            r.retain(|n, m| hide || cells.range((n - 1, 0)..(*n, 0)).next().is_some() || m.iter().any(|(k, v)| !(k == "customHeight" || (k == "ht" && *v == default))));
        }
        ensure_eq!(rb, ra, "row", "{what}: rows of sheet {i}");
        // The area used: within that of the other mode and around all cells. Objects on
        // rows already stored don't count.
        let area = |b: &Book| -> R<(u32, u32, u32, u32)> {
            let text = b.sheet(i)?.child("dimension").and_then(|e| e.attr("ref")).unwrap_or("A1").to_string();
            parse_range(&text)
        };
        let (da, db) = (area(a)?, area(b)?);
        ensure!(da.0 <= db.0 && da.1 <= db.1 && da.2 >= db.2 && da.3 >= db.3, "dimension", "{what}: sheet {i} has the dimension {db:?} instead of {da:?}");
        for (r, k) in cb.keys() {
            // A whole first row is stored as A1.
            ensure!(db == (0, 0, 0, 0) && *r == 0 || db.0 <= *r && *r <= db.2 && db.1 <= *k && *k <= db.3, "dimension", "{what}: cell {} of sheet {i} is outside of its dimension {db:?}", cell_name(*r, *k));
        }
        // Everything else in the sheet.
        let strip = |m: &BTreeMap<String, Elem>| -> R<Elem> {
            let mut e = match m.get(&sheet.part) {
                Some(e) => e.clone(),
                None => fail!("parts", "no part {}", sheet.part),
            };
            e.kids.retain(|k| !matches!(k, kit::xml::Node::E(x) if x.name == "sheetData"));
            // The area used is checked below.
            e.kids.retain(|k| !matches!(k, kit::xml::Node::E(x) if x.name == "dimension"));
            // The shown text of a link is that of the cell, which may have been dropped.
            for k in &mut e.kids {
                if let kit::xml::Node::E(x) = k {
                    if x.name == "hyperlinks" {
                        for k in &mut x.kids {
                            if let kit::xml::Node::E(h) = k {
                                h.attrs.retain(|(k, _)| k != "display");
                            }
                        }
                    }
                }
            }
            Ok(e)
        };
        if let Some(d) = diff(&strip(&y)?, &strip(&x)?) {
            fail!("sheet", "{what}: sheet {i}: {d}");
        }
    }
    for (n, e) in &x {
        if a.sheets.iter().any(|s| s.part == *n) {
            continue;
        }
        let Some(f) = y.get(n) else { fail!("parts", "{what}: part {n} is missing") };
        let (mut e, mut f) = (e.clone(), f.clone());
        drop_cache(&mut e);
        drop_cache(&mut f);
        if n == "xl/_rels/workbook.xml.rels" {
            // Without a part of shared strings the later numbers differ.
            for e in [&mut e, &mut f] {
                e.kids.retain(|k| !matches!(k, kit::xml::Node::E(x) if x.attr("Type").is_some_and(|t| t.ends_with("/sharedStrings"))));
                for k in &mut e.kids {
                    if let kit::xml::Node::E(x) = k {
                        x.attrs.retain(|(k, _)| k != "Id");
                    }
                }
            }
        }
        if let Some(d) = diff(&f, &e) {
            fail!("content", "{what}: part {n}: {d}");
        }
    }
    for (n, v) in &a.pkg.bytes {
        if !x.contains_key(n) && n != "xl/styles.xml" && n != "xl/sharedStrings.xml" {
            ensure!(b.pkg.bytes.get(n) == Some(v), "content", "{what}: part {n} differs");
        }
    }
    Ok(())
}

fn same_value(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(x), V::Num(y)) => x == y,
        _ => format!("{a:?}") == format!("{b:?}"),
    }
}

fn modes(s: &mut Src, n: usize) -> (Vec<Mode>, Vec<bool>) {
    let mut m: Vec<Mode> = (0..n).map(|_| *s.pick(&[Mode::Constant, Mode::Low, Mode::Normal])).collect();
    if m.iter().all(|m| *m == Mode::Normal) {
        m[0] = if s.bool() { Mode::Constant } else { Mode::Low };
    }
    let p = (0..n).map(|_| s.chance(1, 6)).collect();
    (m, p)
}

/// The same calls on normal sheets and on sheets of other modes.
fn pairs(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 3);
    let (m, p) = modes(s, n);
    let steps = s.small(1, 45);
    let every = if s.chance(1, 4) { s.small(1, steps) } else { usize::MAX };
    let mut saved: Vec<Vec<Book>> = vec![];
    let from = s.rec.len();
    let mut log = vec![];
    let mut kinds = BTreeSet::new();
    for normal in [true, false] {
        let rec;
        let mut again;
        let src: &mut Src = if normal {
            &mut *s
        } else {
            rec = s.rec[from..].to_vec();
            again = Src::replay(&rec);
            &mut again
        };
        let ms = if normal { vec![Mode::Normal; n] } else { m.clone() };
        let mut run = Run::start(src, &ms, &p)?;
        for i in 0..n {
            run.head(src, i)?;
        }
        let mut out = vec![];
        let turn = src.chance(1, 2);
        for k in 0..steps {
            let i = if turn { src.idx(n) } else { k * n / steps };
            guard("operation", || run.step(src, i))??;
            if k % every == every - 1 {
                out.push(run.save(c)?);
            }
        }
        out.push(run.save(c)?);
        if src.chance(1, 6) {
            out.push(run.save(c)?);
        }
        saved.push(out);
        log = run.log;
        kinds = run.kinds;
        if normal {
            c.d(|| format!("modes {m:?} pushed {p:?} {log:?}"));
        }
    }
    for k in &kinds {
        c.label(k);
    }
    c.label_if(saved[0].len() > 1, "saved more than once");
    c.label_if(m.contains(&Mode::Constant), "constant memory");
    c.label_if(m.contains(&Mode::Low), "low memory");
    if kinds.len() > 2 {
        c.hit();
    }
    for (i, (a, b)) in saved[0].iter().zip(&saved[1]).enumerate() {
        compare(a, b, &format!("save {i}")).map_err(|e| Fail { msg: format!("{} | modes {m:?} pushed {p:?} {log:?}", e.msg), ..e })?;
    }
    Ok(())
}

/// Writes to rows that are already stored leave all other cells as they are.
fn late(s: &mut Src, c: &mut Ctx) -> R {
    let (m, p) = modes(s, 1);
    let steps = s.small(3, 30);
    let from = s.rec.len();
    let mut saved: Vec<Book> = vec![];
    let mut log = vec![];
    let mut touched: BTreeSet<(u32, u32)> = BTreeSet::new();
    // The late calls come from a source of their own.
    let extra = s.any64();
    let mark = s.rec.len() - from;
    for with in [false, true] {
        let rec;
        let mut again;
        let src: &mut Src = if with {
            rec = s.rec[from + mark..].to_vec();
            again = Src::replay(&rec);
            &mut again
        } else {
            &mut *s
        };
        let mut x = Src::random(extra);
        let mut run = Run::start(src, &m, &p)?;
        run.head(src, 0)?;
        for _ in 0..steps {
            guard("operation", || run.step(src, 0))??;
            let m = &run.st[0];
            if with && m.row > 0 && m.data && x.chance(1, 2) {
                let (r, k) = (x.below(u64::from(m.row.min(30))) as u32, x.u16(0, 7));
                let cur = m.row;
                let f = run.pool[x.idx(run.pool.len())].clone();
                let ws = must("sheet", run.wb.worksheet_from_index(0))?;
                // Only rows before the last one written are certain to be stored.
                let mut cell = (r, k);
                let what = match x.below(9) {
                    0 => { let _ = ws.write_string(r, k, "late").map(|_| ()); "string" }
                    1 => { let _ = ws.write_number_with_format(r, k, 77, &f).map(|_| ()); "number" }
                    2 => { let _ = ws.write_formula(r, k, "=9").map(|_| ()); "formula" }
                    3 => { let _ = ws.set_cell_format(r, k, &f).map(|_| ()); "cell format" }
                    4 => { ws.clear_cell(r, k); "clear" }
                    5 => { ws.clear_cell_format(r, k); "clear format" }
                    6 => { let _ = ws.write_blank(r, k, &f).map(|_| ()); "blank" }
                    7 => { let _ = ws.write_rich_string(r, k, &[(&f, "late"), (&f, "text")]).map(|_| ()); "rich" }
                    _ => { let _ = ws.write_boolean(r, k, true).map(|_| ()); "boolean" }
                };
                cell.0 = r;
                touched.insert((cell.0, u32::from(cell.1)));
                run.log.push(format!("LATE {what} {} at row {cur}", cell_name(r, k.into())));
            }
        }
        saved.push(run.save(c)?);
        log = run.log;
    }
    c.d(|| format!("modes {m:?} {log:?}"));
    if touched.len() > 1 {
        c.hit();
    }
    let (a, b) = (&saved[0], &saved[1]);
    let (sa, sb) = (styles(a)?, styles(b)?);
    let (ca, cb) = (a.cells(0)?, b.cells(0)?);
    for at in ca.keys().chain(cb.keys()) {
        if touched.contains(at) {
            continue;
        }
        let f = |c: Option<&kit::xl::Cell>, st: &[String]| c.map(|c| (format!("{:?}", c.v), st.get(c.s).cloned()));
        let (x, y) = (f(ca.get(at), &sa), f(cb.get(at), &sb));
        ensure!(x == y, "late", "cell {} is {y:?} instead of {x:?} after writes to stored rows, modes {m:?} {log:?}", cell_name(at.0, at.1));
    }
    Ok(())
}

/// Recorded finding: the result of a formula in a stored row goes to the current row.
fn late_result(_: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet_with_constant_memory();
    must("write_formula", ws.write_formula(0, 1, "=1").map(|_| ()))?;
    must("write_formula", ws.write_formula(1, 1, "=2").map(|_| ()))?;
    ws.set_formula_result(0, 1, "late");
    let b = save_book(&mut wb, c)?;
    match b.cells(0)?.get(&(1, 1)).map(|c| &c.v) {
        Some(V::Formula { result, .. }) => ensure!(**result == V::Num(0.0), "constant-formula-result", "set_formula_result for B1 of a stored row set the result of B2 to {result:?}"),
        v => fail!("cell", "cell B2 is {v:?}"),
    }
    Ok(())
}

/// Recorded finding: an embedded image on a row that isn't the last one panics.
fn embedded(_: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet_with_constant_memory();
    let im = gen_image(&mut Src::replay(&[]), 1);
    let im = must("image", Image::new_from_buffer(&im.bytes))?;
    must("embed_image", ws.embed_image(0, 0, &im).map(|_| ()))?;
    guard("write_number on the row after an embedded image", || ws.write_number(1, 0, 1).map(|_| ()))?.ok();
    let b = save_book(&mut wb, c)?;
    ensure!(b.cells(0)?.contains_key(&(0, 0)), "constant-embedded-image", "cell A1 is missing");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "more than two kinds of content (pairs), more than one late write (late)",
        level: "randomised exploration, normal sheets as the reference for the other modes",
        assumptions: &[
            "column formats, the default row height and the default result are set before the data",
            "the data that charts keep from cells, widths fitted automatically and rows hidden by filters need the cells and aren't compared",
            "after a save, writing goes on below all rows that have content or settings",
        ],
        known: vec![("constant-formula-result", late_result), ("constant-embedded-image", embedded)],
        families: vec![fam("pairs", 2500, 150000, pairs), fam("late", 1200, 60000, late)],
    }
}
