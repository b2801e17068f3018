//! C07: invalid arguments are refused with an error and no effect.
use crate::draw::gen_image;
use crate::kitchen::*;
use crate::util::*;
use crate::*;

/// Outcome of a call: accepted, or the error.
type Out = Result<(), String>;

fn o<T>(r: Result<T, XlsxError>) -> Out {
    r.map(|_| ()).map_err(|e| e.to_string())
}

/// A cell outside the sheet.
fn outside(s: &mut Src) -> (u32, u16) {
    match s.below(7) {
        0 => (MAXR, 0),
        1 => (0, MAXC),
        2 => (MAXR, MAXC),
        3 => (u32::MAX, s.u16(0, 5)),
        4 => (s.u32(0, 5), u16::MAX),
        5 => (MAXR + s.u32(0, 9), s.u16(0, 9)),
        _ => (s.u32(0, 9), MAXC + s.u16(0, 9)),
    }
}
/// A range that is outside the sheet or runs backwards.
fn bad_range(s: &mut Src) -> (u32, u16, u32, u16) {
    let (r, c) = (s.u32(0, 9), s.u16(0, 9));
    match s.below(6) {
        0 => {
            let (a, b) = outside(s);
            (a, b, a.saturating_add(1), b.saturating_add(1))
        }
        1 => (r, c, MAXR, c + 1),
        2 => (r, c, r + 1, MAXC),
        3 => (r + 1 + s.u32(0, 40), c, r, c + 2),
        4 => (r, c + 1 + s.u16(0, 40), r + 2, c),
        _ => (MAXR - 1, MAXC - 1, r, c),
    }
}
fn long(n: usize, s: &mut Src) -> String {
    let ch = if s.chance(1, 3) { "é" } else { "x" };
    ch.repeat(n + s.u32(1, 3) as usize)
}

const N: u64 = 74;

/// A call with an invalid argument: what it is, and how it went.
fn bad(s: &mut Src, which: u64, wb: &mut Workbook, i: usize) -> R<(String, Out)> {
    let f = Format::new().set_bold();
    let (r, k) = outside(s);
    let g = bad_range(s);
    let (vr, vk) = (s.u32(0, 9), s.u16(0, 9));
    let ok = (vr, vk, vr + s.u32(0, 3), vk + s.u16(1, 3));
    let at = format!("({r},{k})");
    let rg = format!("{g:?}");
    let img = gen_image(s, 0);
    let im = must("image", Image::new_from_buffer(&img.bytes))?;
    // Rows or columns only.
    let br = if s.bool() { MAXR } else { u32::MAX };
    let bc = if s.bool() { MAXC } else { u16::MAX };
    let w = match which {
        0 => "define_name",
        _ => "",
    };
    if !w.is_empty() {
        let n = (*s.pick(&["", "1a", "a b", "!x", "Sheet1!", "Sheet1!1", "a!b c", "é b", ".a", "?a"])).to_string();
        return Ok((format!("define_name({n:?})"), o(wb.define_name(n.as_str(), "=1"))));
    }
    if which == 1 {
        return Ok(match s.below(2) {
            0 => ("worksheet_from_index".into(), o(wb.worksheet_from_index(1000))),
            _ => ("worksheet_from_name".into(), o(wb.worksheet_from_name("no such sheet").map(|_| ()))),
        });
    }
    let ws = must("sheet", wb.worksheet_from_index(i))?;
    let d = must("date", ExcelDateTime::from_ymd(2024, 1, 1))?;
    let (name, out): (&str, Out) = match which {
        2 => ("write_number", o(ws.write_number(r, k, 1))),
        3 => ("write_number_with_format", o(ws.write_number_with_format(r, k, 1, &f))),
        4 => ("write_string", o(ws.write_string(r, k, "a"))),
        5 => ("write_string_with_format", o(ws.write_string_with_format(r, k, "a", &f))),
        6 => {
            let t = long(32767, s);
            return Ok(("write_string too long".into(), o(if s.bool() { ws.write_string(vr, vk, &t) } else { ws.write_string_with_format(r.min(60), k.min(60), &t, &f) })));
        }
        7 => ("write_formula", o(ws.write_formula(r, k, "=1"))),
        8 => ("write_formula_with_format", o(ws.write_formula_with_format(r, k, "=1", &f))),
        9 => ("write_array_formula", o(ws.write_array_formula(g.0, g.1, g.2, g.3, "=1"))),
        10 => ("write_array_formula_with_format", o(ws.write_array_formula_with_format(g.0, g.1, g.2, g.3, "=1", &f))),
        11 => ("write_dynamic_array_formula", o(ws.write_dynamic_array_formula(g.0, g.1, g.2, g.3, "=SORT(A1)"))),
        12 => ("write_dynamic_formula", o(ws.write_dynamic_formula(r, k, "=SORT(A1)"))),
        13 => ("write_blank", o(ws.write_blank(r, k, &f))),
        14 => ("write_boolean", o(if s.bool() { ws.write_boolean(r, k, true) } else { ws.write_boolean_with_format(r, k, true, &f) })),
        15 => ("write_datetime", o(if s.bool() { ws.write_datetime(r, k, &d) } else { ws.write_datetime_with_format(r, k, &d, &f) })),
        16 => ("write_url", o(match s.below(4) {
            0 => ws.write_url(r, k, "https://a.b"),
            1 => ws.write_url_with_text(r, k, "https://a.b", "t"),
            2 => ws.write_url_with_format(r, k, "https://a.b", &f),
            _ => ws.write_url_with_options(r, k, "https://a.b", "t", "p", Some(&f)),
        })),
        17 => {
            let u = match s.below(5) {
                0 => format!("https://{}", long(2080, s)),
                1 => "foo://x".to_string(),
                2 => "no scheme".to_string(),
                3 => String::new(),
                _ => format!("file:///{}", long(2080, s)),
            };
            return Ok((format!("write_url({:.30})", u), o(match s.below(3) {
                0 => ws.write_url(vr, vk, u.as_str()),
                1 => ws.write_url_with_text(vr, vk, u.as_str(), "text"),
                _ => ws.write_url_with_format(vr, vk, u.as_str(), &f),
            })));
        }
        18 => {
            let t = long(255, s);
            ("write_url tip", o(ws.write_url_with_options(vr, vk, "https://a.b", "t", t, None)))
        }
        19 => {
            let t = long(32767, s);
            ("write_url text", o(ws.write_url_with_text(vr, vk, "https://a.b", t)))
        }
        20 => ("write_rich_string", o(ws.write_rich_string(r, k, &[(&f, "a"), (&f, "b")]))),
        21 => {
            let t = long(32766, s);
            match s.below(3) {
                0 => ("write_rich_string empty", o(ws.write_rich_string(vr, vk, &[]))),
                1 => ("write_rich_string empty part", o(ws.write_rich_string(vr, vk, &[(&f, "a"), (&f, "")]))),
                _ => ("write_rich_string too long", o(ws.write_rich_string_with_format(vr, vk, &[(&f, "a"), (&f, &t)], &f))),
            }
        }
        22 => ("merge_range", o(ws.merge_range(g.0, g.1, g.2, g.3, "a", &f))),
        23 => ("merge_range one cell", o(ws.merge_range(vr, vk, vr, vk, "a", &f))),
        24 => {
            let t = long(32767, s);
            ("merge_range text", o(ws.merge_range(100 + vr, 100, 102 + vr, 101, &t, &f)))
        }
        25 => ("add_table", o(ws.add_table(g.0, g.1, g.2, g.3, &Table::new()))),
        26 => ("add_table without rows", o(ws.add_table(vr + 50, vk, vr + 50, vk + 2, &Table::new()))),
        27 => {
            let mut t = Table::new();
            let cols = match s.below(2) {
                0 => vec![TableColumn::new().set_header("Dup"), TableColumn::new().set_header("dup")],
                _ => vec![TableColumn::new().set_header("Column2"), TableColumn::new()],
            };
            t = t.set_columns(&cols);
            ("add_table headers", o(ws.add_table(60 + vr, 60, 63 + vr, 61, &t)))
        }
        28 => ("autofilter", o(ws.autofilter(g.0, g.1, g.2, g.3))),
        29 => {
            let c = FilterCondition::new().add_list_filter(1);
            match s.below(2) {
                0 => ("filter_column", o(ws.filter_column(bc, &c))),
                _ => ("filter_column outside", o(ws.filter_column(500, &c))),
            }
        }
        30 => ("set_cell_format", o(ws.set_cell_format(r, k, &f))),
        31 => ("set_range_format", o(ws.set_range_format(g.0, g.1, g.2, g.3, &f))),
        32 => ("set_range_format_with_border", o(ws.set_range_format_with_border(g.0, g.1, g.2, g.3, &f, &f))),
        33 => ("set_row_height", o(match s.below(5) {
            0 => ws.set_row_height(br, 20),
            1 => ws.set_row_height_pixels(br, 20),
            2 => ws.set_row_format(br, &f),
            3 => ws.set_row_hidden(br),
            _ => ws.set_row_unhidden(br),
        })),
        34 => ("set_column_width", o(match s.below(5) {
            0 => ws.set_column_width(bc, 20),
            1 => ws.set_column_width_pixels(bc, 20),
            2 => ws.set_column_format(bc, &f),
            3 => ws.set_column_hidden(bc),
            _ => ws.set_column_autofit_width(bc, 20),
        })),
        35 => {
            let (a, b) = if s.bool() { (vk + 1 + s.u16(0, 9), vk) } else { (vk, bc) };
            return Ok((format!("set_column_range ({a},{b})"), o(match s.below(4) {
                0 => ws.set_column_range_width(a, b, 20),
                1 => ws.set_column_range_width_pixels(a, b, 20),
                2 => ws.set_column_range_format(a, b, &f),
                _ => ws.set_column_range_hidden(a, b),
            })));
        }
        36 => {
            let (a, b) = if s.bool() { (vr + 1 + s.u32(0, 9), vr) } else { (vr, br) };
            return Ok((format!("group_rows ({a},{b})"), o(if s.bool() { ws.group_rows(a, b) } else { ws.group_rows_collapsed(a, b) })));
        }
        37 => {
            let (a, b) = if s.bool() { (vk + 1 + s.u16(0, 9), vk) } else { (vk, bc) };
            return Ok((format!("group_columns ({a},{b})"), o(if s.bool() { ws.group_columns(a, b) } else { ws.group_columns_collapsed(a, b) })));
        }
        38 => ("set_selection", o(ws.set_selection(r, k, r, k))),
        39 => ("set_top_left_cell", o(ws.set_top_left_cell(r, k))),
        40 => ("set_freeze_panes", o(ws.set_freeze_panes(r, k))),
        41 => ("set_freeze_panes_top_cell", o(ws.set_freeze_panes_top_cell(r, k))),
        42 => ("set_print_area", o(ws.set_print_area(g.0, g.1, g.2, g.3))),
        43 => {
            let (a, b) = if s.bool() { (vr + 1 + s.u32(0, 9), vr) } else { (vr, br) };
            ("set_repeat_rows", o(ws.set_repeat_rows(a, b)))
        }
        44 => {
            let (a, b) = if s.bool() { (vk + 1 + s.u16(0, 9), vk) } else { (vk, bc) };
            ("set_repeat_columns", o(ws.set_repeat_columns(a, b)))
        }
        45 => {
            let v: Vec<u32> = if s.bool() { vec![3, br, 4] } else { (1..=1024).collect() };
            ("set_page_breaks", o(ws.set_page_breaks(&v)))
        }
        46 => {
            let v: Vec<u32> = if s.bool() { vec![3, u32::from(MAXC), 4] } else { (1..=1024).collect() };
            ("set_vertical_page_breaks", o(ws.set_vertical_page_breaks(&v)))
        }
        47 => ("insert_image", o(if s.bool() { ws.insert_image(r, k, &im) } else { ws.insert_image_with_offset(r, k, &im, 5, 5) })),
        48 => ("insert_image_fit_to_cell", o(ws.insert_image_fit_to_cell(r, k, &im, s.bool()))),
        49 => ("embed_image", o(if s.bool() { ws.embed_image(r, k, &im) } else { ws.embed_image_with_format(r, k, &im, &f) })),
        50 => {
            let mut ch = Chart::new(ChartType::Line);
            ch.add_series().set_values(("Sheet1", 0, 0, 2, 0));
            ("insert_chart", o(if s.bool() { ws.insert_chart(r, k, &ch) } else { ws.insert_chart_with_offset(r, k, &ch, 3, 3) }))
        }
        51 => {
            let mut ch = Chart::new(ChartType::Line);
            match s.below(5) {
                0 => {}
                1 => {
                    ch.add_series().set_categories(("Sheet1", 0, 0, 2, 0));
                }
                2 => {
                    ch.add_series().set_values(("Sheet1", 5, 0, 2, 0));
                }
                3 => {
                    ch.add_series().set_values(("Sheet1", 0, 0, 2, MAXC));
                }
                _ => {
                    ch = Chart::new(ChartType::Scatter);
                    ch.add_series().set_values(("Sheet1", 0, 0, 2, 0)).set_categories(("Sheet1", 0, 5, 2, 0));
                }
            }
            ("insert_chart invalid", o(ws.insert_chart(vr, vk, &ch)))
        }
        52 => ("insert_note", o(ws.insert_note(r, k, &Note::new("a")))),
        53 => {
            let t = long(32767, s);
            ("insert_note too long", o(ws.insert_note(vr, vk, &Note::new(t).add_author_prefix(s.bool()))))
        }
        54 => ("insert_shape", o(if s.bool() { ws.insert_shape(r, k, &Shape::textbox()) } else { ws.insert_shape_with_offset(r, k, &Shape::textbox(), 1, 1) })),
        55 => ("insert_button", o(if s.bool() { ws.insert_button(r, k, &Button::new()) } else { ws.insert_button_with_offset(r, k, &Button::new(), 1, 1) })),
        56 => ("insert_checkbox", o(if s.bool() { ws.insert_checkbox(r, k, true) } else { ws.insert_checkbox_with_format(r, k, true, &f) })),
        57 => ("add_conditional_format", o(ws.add_conditional_format(g.0, g.1, g.2, g.3, &ConditionalFormatDuplicate::new().set_format(&f)))),
        58 => ("add_conditional_format invalid", o(match s.below(4) {
            0 => ws.add_conditional_format(ok.0, ok.1, ok.2, ok.3, &ConditionalFormatCell::new().set_format(&f)),
            1 => ws.add_conditional_format(ok.0, ok.1, ok.2, ok.3, &ConditionalFormatText::new().set_format(&f)),
            2 => ws.add_conditional_format(ok.0, ok.1, ok.2, ok.3, &ConditionalFormatFormula::new().set_format(&f)),
            _ => ws.add_conditional_format(ok.0, ok.1, ok.2, ok.3, &ConditionalFormatTop::new().set_rule(ConditionalFormatTopRule::Top(0)).set_format(&f)),
        })),
        59 => ("add_data_validation", o(ws.add_data_validation(g.0, g.1, g.2, g.3, &DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1))))),
        60 => ("add_sparkline", o(ws.add_sparkline(r, k, &Sparkline::new().set_range(("Sheet1", 0, 0, 0, 4))))),
        61 => ("add_sparkline invalid", o(match s.below(3) {
            0 => ws.add_sparkline(vr, vk, &Sparkline::new()),
            1 => ws.add_sparkline(vr, vk, &Sparkline::new().set_range(("Sheet1", 0, 0, 3, 3))),
            _ => ws.add_sparkline_group(vr, vk, vr + 2, vk, &Sparkline::new().set_range(("Sheet1", 0, 0, 1, 4))),
        })),
        62 => ("add_sparkline_group", o(ws.add_sparkline_group(g.0, g.1, g.2, g.3, &Sparkline::new().set_range(("Sheet1", 0, 0, 1, 4))))),
        63 => ("unprotect_range", o(ws.unprotect_range(g.0, g.1, g.2, g.3))),
        64 => ("unprotect_range_with_options", o(ws.unprotect_range_with_options(g.0, g.1, g.2, g.3, "name", "pw"))),
        65 => ("ignore_error_range", o(ws.ignore_error_range(g.0, g.1, g.2, g.3, IgnoreError::NumberStoredAsText))),
        66 => ("ignore_error", o(ws.ignore_error(r, k, IgnoreError::FormulaDiffers))),
        67 => ("write_date_with_format", o(ws.write_date_with_format(r, k, &d, &f))),
        68 => {
            let n = match s.below(7) {
                0 => String::new(),
                1 => "a".repeat(32),
                2 => "a[b".to_string(),
                3 => "'a".to_string(),
                4 => "a'".to_string(),
                5 => format!("a{}b", s.pick(&['[', ']', ':', '*', '?', '/', '\\'])),
                _ => "é".repeat(32),
            };
            ("set_name", o(ws.set_name(n)))
        }
        69 => {
            let n = match s.below(4) {
                0 => String::new(),
                1 => "a".repeat(32),
                2 => "a b".to_string(),
                _ => "1a".to_string(),
            };
            ("set_vba_name", o(ws.set_vba_name(n)))
        }
        70 => ("write array of values at the end", o(if s.bool() { ws.write_row(r, k, [1, 2, 3]) } else { ws.write_column(r, k, [1, 2, 3]) })),
        71 => ("write", o(match s.below(3) {
            0 => ws.write(r, k, "a"),
            1 => ws.write_with_format(r, k, 1.5, &f),
            _ => ws.write(r, k, f64::NAN),
        })),
        72 => ("write_time_with_format", o(ws.write_time_with_format(r, k, &d, &f))),
        _ => {
            #[derive(serde::Serialize)]
            struct Rec {
                a: u8,
                b: String,
            }
            let rec = Rec { a: 1, b: "x".into() };
            ("serialize_headers", o(ws.serialize_headers(r, k, &rec)))
        }
    };
    Ok((format!("{name} {at} {rg} valid part {ok:?}"), out))
}

fn one(s: &mut Src, c: &mut Ctx, which: impl Fn(&mut Src) -> u64, ops: usize) -> R {
    // Operation tapes of both builds; bad calls are kept apart.
    let a = s.rec.len();
    let mut k = K::start(s)?;
    let mut plan = Plan { init: s.rec[a..].to_vec(), ops: vec![] };
    let mut bads = 0;
    let mut log = vec![];
    for _ in 0..ops {
        if s.chance(1, 2) {
            let a = s.rec.len();
            let d = k.op(s, c)?;
            c.d(|| format!("{d:?}"));
            plan.ops.push(s.rec[a..].to_vec());
        } else {
            let i = s.idx(k.st.len());
            if k.st[i].chart {
                continue;
            }
            let w = which(s);
            let (what, out) = guard("invalid call", || bad(s, w, &mut k.wb, i))??;
            c.d(|| format!("sheet {i}: {what} -> {out:?}"));
            ensure!(out.is_err(), "accepted", "sheet {i}: {what} is invalid and was accepted");
            c.label(what.split([' ', '(']).next().unwrap_or(""));
            log.push(what);
            bads += 1;
        }
    }
    if bads > 0 {
        c.hit();
    }
    let x = try_save(&mut k.wb, c)?;
    let mut k2 = build(&plan, |_, _, _| Ok(()))?;
    let y = try_save(&mut k2.wb, c)?;
    match (x, y) {
        (Ok(x), Ok(y)) => same_parts(&Pkg::open(&y)?, &Pkg::open(&x)?, &format!("without / with the refused calls {log:?}")),
        (x, y) => {
            let (x, y) = (x.map(|_| ()), y.map(|_| ()));
            ensure!(x == y, "trace", "saving differs: {x:?} with, {y:?} without the refused calls {log:?}");
            Ok(())
        }
    }
}

fn mixed(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 24);
    one(s, c, |s| s.below(N), n)
}

/// Each kind of invalid call in turn on a sheet with little on it.
fn kinds(s: &mut Src, c: &mut Ctx) -> R {
    let w = s.below(N);
    let n = s.small(1, 4);
    one(s, c, move |_| w, n)
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "at least one call was made with an argument outside the limits, or next to one",
        level: "checked on generated histories",
        assumptions: &["each item of a call that takes a sequence of values counts as a call of its own"],
        families: vec![fam("mixed", 1500, 80_000, mixed), fam("kinds", 3000, 100_000, kinds), fam("edges", 12_000, 400_000, crate::edges::edges)],
        known: vec![],
    }
}
