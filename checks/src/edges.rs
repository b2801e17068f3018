//! Arguments on and next to every documented limit: accepted on one side, refused without
//! a trace on the other. Used by C07.
use crate::draw::gen_image;
use crate::util::*;
use crate::*;

type Out = Result<(), String>;
type Cell = fn(&mut Worksheet, u32, u16) -> Out;
type Range = fn(&mut Worksheet, u32, u16, u32, u16) -> Out;
type Row = fn(&mut Worksheet, u32) -> Out;
type Col = fn(&mut Worksheet, u16) -> Out;
type Rows = fn(&mut Worksheet, u32, u32) -> Out;
type Cols = fn(&mut Worksheet, u16, u16) -> Out;

fn o<T>(r: Result<T, XlsxError>) -> Out {
    r.map(|_| ()).map_err(|e| e.to_string())
}
fn bold() -> Format {
    Format::new().set_bold()
}
fn day() -> ExcelDateTime {
    ExcelDateTime::parse_from_str("2024-05-06").unwrap_or_default()
}
fn png() -> Image {
    let img = gen_image(&mut Src::random(7), 0);
    Image::new_from_buffer(&img.bytes).unwrap_or_else(|e| panic!("image: {e}"))
}
fn line() -> Chart {
    let mut ch = Chart::new(ChartType::Line);
    ch.add_series().set_values(("Sheet1", 0, 0, 2, 0));
    ch
}

const CELLS: &[(&str, Cell)] = &[
    ("write_number", |w, r, c| o(w.write_number(r, c, 1))),
    ("write_number_with_format", |w, r, c| o(w.write_number_with_format(r, c, 1, &bold()))),
    ("write_string", |w, r, c| o(w.write_string(r, c, "a"))),
    ("write_string_with_format", |w, r, c| o(w.write_string_with_format(r, c, "a", &bold()))),
    ("write", |w, r, c| o(w.write(r, c, 2.5))),
    ("write_with_format", |w, r, c| o(w.write_with_format(r, c, "x", &bold()))),
    ("write None", |w, r, c| o(w.write_with_format(r, c, None::<f64>, &bold()))),
    ("write_rich_string", |w, r, c| o(w.write_rich_string(r, c, &[(&bold(), "a"), (&Format::new(), "b")]))),
    ("write_rich_string_with_format", |w, r, c| o(w.write_rich_string_with_format(r, c, &[(&bold(), "a"), (&Format::new(), "b")], &bold()))),
    ("write_formula", |w, r, c| o(w.write_formula(r, c, "=1"))),
    ("write_formula_with_format", |w, r, c| o(w.write_formula_with_format(r, c, "=1", &bold()))),
    ("write_dynamic_formula", |w, r, c| o(w.write_dynamic_formula(r, c, "=LEN(A1:A3)"))),
    ("write_dynamic_formula_with_format", |w, r, c| o(w.write_dynamic_formula_with_format(r, c, "=LEN(A1:A3)", &bold()))),
    ("write_array_formula", |w, r, c| o(w.write_array_formula(r, c, r, c, "=SUM(A1:A3)"))),
    ("write_blank", |w, r, c| o(w.write_blank(r, c, &bold()))),
    ("write_boolean", |w, r, c| o(w.write_boolean(r, c, true))),
    ("write_boolean_with_format", |w, r, c| o(w.write_boolean_with_format(r, c, true, &bold()))),
    ("write_datetime", |w, r, c| o(w.write_datetime(r, c, day()))),
    ("write_datetime_with_format", |w, r, c| o(w.write_datetime_with_format(r, c, day(), &bold()))),
    ("write_date_with_format", |w, r, c| o(w.write_date_with_format(r, c, day(), &bold()))),
    ("write_time_with_format", |w, r, c| o(w.write_time_with_format(r, c, day(), &bold()))),
    ("write_url", |w, r, c| o(w.write_url(r, c, "https://a.b"))),
    ("write_url_with_text", |w, r, c| o(w.write_url_with_text(r, c, "https://a.b", "t"))),
    ("write_url_with_format", |w, r, c| o(w.write_url_with_format(r, c, "internal:Sheet1!A1", &bold()))),
    ("write_url_with_options", |w, r, c| o(w.write_url_with_options(r, c, "https://a.b", "t", "tip", Some(&bold())))),
    ("write Url", |w, r, c| o(w.write(r, c, Url::new("mailto:a@b.c")))),
    ("write_row one", |w, r, c| o(w.write_row(r, c, [1]))),
    ("write_column one", |w, r, c| o(w.write_column(r, c, ["x"]))),
    ("write_row_with_format one", |w, r, c| o(w.write_row_with_format(r, c, [1], &bold()))),
    ("write_column_with_format one", |w, r, c| o(w.write_column_with_format(r, c, [true], &bold()))),
    ("write_row_matrix one", |w, r, c| o(w.write_row_matrix(r, c, [[1]]))),
    ("write_column_matrix one", |w, r, c| o(w.write_column_matrix(r, c, [[1]]))),
    ("set_cell_format", |w, r, c| o(w.set_cell_format(r, c, &bold()))),
    ("clear_cell_format", |w, r, c| {
        w.clear_cell_format(r, c);
        if r >= MAXR || c >= MAXC { Err("nothing to clear".into()) } else { Ok(()) }
    }),
    ("insert_image", |w, r, c| o(w.insert_image(r, c, &png()))),
    ("insert_image_with_offset", |w, r, c| o(w.insert_image_with_offset(r, c, &png(), 2, 3))),
    ("insert_image_fit_to_cell", |w, r, c| o(w.insert_image_fit_to_cell(r, c, &png(), true))),
    ("embed_image", |w, r, c| o(w.embed_image(r, c, &png()))),
    ("embed_image_with_format", |w, r, c| o(w.embed_image_with_format(r, c, &png(), &bold()))),
    ("insert_chart", |w, r, c| o(w.insert_chart(r, c, &line()))),
    ("insert_chart_with_offset", |w, r, c| o(w.insert_chart_with_offset(r, c, &line(), 5, 5))),
    ("insert_note", |w, r, c| o(w.insert_note(r, c, &Note::new("n")))),
    ("insert_shape", |w, r, c| o(w.insert_shape(r, c, &Shape::textbox()))),
    ("insert_shape_with_offset", |w, r, c| o(w.insert_shape_with_offset(r, c, &Shape::textbox(), 4, 4))),
    ("insert_button", |w, r, c| o(w.insert_button(r, c, &Button::new()))),
    ("insert_button_with_offset", |w, r, c| o(w.insert_button_with_offset(r, c, &Button::new(), 4, 4))),
    ("insert_checkbox", |w, r, c| o(w.insert_checkbox(r, c, true))),
    ("insert_checkbox_with_format", |w, r, c| o(w.insert_checkbox_with_format(r, c, false, &bold()))),
    ("add_sparkline", |w, r, c| o(w.add_sparkline(r, c, &Sparkline::new().set_range(("Sheet1", 0, 0, 0, 4))))),
    ("ignore_error", |w, r, c| o(w.ignore_error(r, c, IgnoreError::FormulaDiffers))),
    ("set_top_left_cell", |w, r, c| o(w.set_top_left_cell(r, c))),
    ("set_freeze_panes", |w, r, c| o(w.set_freeze_panes(r, c))),
    ("set_freeze_panes_top_cell", |w, r, c| {
        o(w.set_freeze_panes_top_cell(r, c))
    }),
];

/// Ranges; the flag tells whether a large one is cheap.
const RANGES: &[(&str, bool, Range)] = &[
    ("write_array_formula", false, |w, a, b, c, d| o(w.write_array_formula(a, b, c, d, "=1"))),
    ("write_array_formula_with_format", false, |w, a, b, c, d| o(w.write_array_formula_with_format(a, b, c, d, "=1", &bold()))),
    ("write_dynamic_array_formula", false, |w, a, b, c, d| o(w.write_dynamic_array_formula(a, b, c, d, "=SORT(A1:A3)"))),
    ("write_dynamic_array_formula_with_format", false, |w, a, b, c, d| o(w.write_dynamic_array_formula_with_format(a, b, c, d, "=SORT(A1:A3)", &bold()))),
    ("merge_range", false, |w, a, b, c, d| o(w.merge_range(a, b, c, d, "m", &bold()))),
    ("add_table", false, |w, a, b, c, d| o(w.add_table(a, b, c, d, &Table::new()))),
    ("autofilter", true, |w, a, b, c, d| o(w.autofilter(a, b, c, d))),
    ("set_range_format", false, |w, a, b, c, d| o(w.set_range_format(a, b, c, d, &bold()))),
    ("set_range_format_with_border", false, |w, a, b, c, d| o(w.set_range_format_with_border(a, b, c, d, &bold(), &Format::new().set_border(FormatBorder::Thin)))),
    ("add_conditional_format", true, |w, a, b, c, d| o(w.add_conditional_format(a, b, c, d, &ConditionalFormatDuplicate::new().set_format(bold())))),
    ("add_data_validation", true, |w, a, b, c, d| o(w.add_data_validation(a, b, c, d, &DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1))))),
    ("set_selection", true, |w, a, b, c, d| o(w.set_selection(a, b, c, d))),
    ("set_print_area", true, |w, a, b, c, d| o(w.set_print_area(a, b, c, d))),
    ("unprotect_range", true, |w, a, b, c, d| o(w.unprotect_range(a, b, c, d))),
    ("unprotect_range_with_options", true, |w, a, b, c, d| o(w.unprotect_range_with_options(a, b, c, d, "area", "pw"))),
    ("ignore_error_range", true, |w, a, b, c, d| o(w.ignore_error_range(a, b, c, d, IgnoreError::NumberStoredAsText))),
    ("add_sparkline_group", false, |w, a, b, c, d| {
        // As many ranges as cells, when there are so many.
        let n = (c.wrapping_sub(a).wrapping_add(1)).max(u32::from(d.wrapping_sub(b).wrapping_add(1))).clamp(2, 50);
        o(w.add_sparkline_group(a, b, c, d, &Sparkline::new().set_range(("Sheet1", 0, 0, n - 1, 4))))
    }),
];

const ROWS1: &[(&str, Row)] = &[
    ("set_row_height", |w, r| o(w.set_row_height(r, 30))),
    ("set_row_height_pixels", |w, r| o(w.set_row_height_pixels(r, 30))),
    ("set_row_format", |w, r| o(w.set_row_format(r, &bold()))),
    ("set_row_hidden", |w, r| o(w.set_row_hidden(r))),
    ("set_row_unhidden", |w, r| {
        o(w.set_row_unhidden(r))
    }),
    ("set_page_breaks", |w, r| o(w.set_page_breaks(&[r]))),
];
const COLS1: &[(&str, Col)] = &[
    ("set_column_width", |w, c| o(w.set_column_width(c, 20))),
    ("set_column_width_pixels", |w, c| o(w.set_column_width_pixels(c, 20))),
    ("set_column_format", |w, c| o(w.set_column_format(c, &bold()))),
    ("set_column_hidden", |w, c| o(w.set_column_hidden(c))),
    ("set_column_autofit_width", |w, c| o(w.set_column_autofit_width(c, 20))),
    ("set_vertical_page_breaks", |w, c| o(w.set_vertical_page_breaks(&[u32::from(c)]))),
];
const ROWS2: &[(&str, Rows)] = &[
    ("group_rows", |w, a, b| o(w.group_rows(a, b))),
    ("group_rows_collapsed", |w, a, b| o(w.group_rows_collapsed(a, b))),
    ("set_repeat_rows", |w, a, b| o(w.set_repeat_rows(a, b))),
];
const COLS2: &[(&str, Cols)] = &[
    ("group_columns", |w, a, b| o(w.group_columns(a, b))),
    ("group_columns_collapsed", |w, a, b| o(w.group_columns_collapsed(a, b))),
    ("set_repeat_columns", |w, a, b| o(w.set_repeat_columns(a, b))),
    ("set_column_range_width", |w, a, b| o(w.set_column_range_width(a, b, 20))),
    ("set_column_range_width_pixels", |w, a, b| o(w.set_column_range_width_pixels(a, b, 20))),
    ("set_column_range_format", |w, a, b| o(w.set_column_range_format(a, b, &bold()))),
    ("set_column_range_hidden", |w, a, b| o(w.set_column_range_hidden(a, b))),
];

/// A line next to the limit: the last few, or just beyond.
fn near(s: &mut Src, max: u32, top: u32, over: bool) -> u32 {
    match (over, s.below(4)) {
        (false, 0) => 0,
        (false, 1) => s.u32(0, 40),
        (false, _) => max - 1 - s.u32(0, 2),
        (true, 0) => top,
        (true, 1) => max + s.u32(0, 300).min(top - max),
        (true, _) => max,
    }
}
fn row(s: &mut Src, over: bool) -> u32 {
    near(s, MAXR, u32::MAX, over)
}
fn col(s: &mut Src, over: bool) -> u16 {
    near(s, u32::from(MAXC), 65535, over) as u16
}

/// A text of a number of characters around a limit.
fn text(s: &mut Src, limit: usize, over: bool) -> String {
    let n = if over { limit + 1 + s.idx(3) } else if s.chance(1, 4) { s.idx(limit.min(300) + 1).max(1) } else { limit - s.idx(3).min(limit - 1) };
    let a = *s.pick(&['x', 'é', '日']);
    let b = *s.pick(&['y', 'ß', '本']);
    let cut = s.idx(n + 1);
    (0..n).map(|i| if i < cut { a } else { b }).collect()
}

pub struct Edge {
    pub what: String,
    pub setup: Box<dyn Fn(&mut Workbook)>,
    pub call: Box<dyn Fn(&mut Workbook) -> Out>,
}

fn ws(wb: &mut Workbook) -> &mut Worksheet {
    wb.worksheet_from_index(0).unwrap_or_else(|e| panic!("sheet: {e}"))
}
fn on(what: String, f: impl Fn(&mut Worksheet) -> Out + 'static) -> Edge {
    Edge { what, setup: Box::new(|_| ()), call: Box::new(move |wb| f(ws(wb))) }
}
fn on2<T>(what: String, setup: impl Fn(&mut Worksheet) -> Result<T, XlsxError> + 'static, f: impl Fn(&mut Worksheet) -> Out + 'static) -> Edge {
    Edge {
        what,
        setup: Box::new(move |wb| {
            setup(ws(wb)).unwrap_or_else(|e| panic!("setup refused: {e}"));
        }),
        call: Box::new(move |wb| f(ws(wb))),
    }
}

/// A range inside the sheet, or with one thing wrong.
fn range(s: &mut Src, over: bool, big: bool, two_rows: bool) -> (u32, u16, u32, u16) {
    let (hr, hc) = (s.u32(u32::from(two_rows), 3), s.u16(1, 3));
    let (mut a, mut b, mut c, mut d) = match s.below(5) {
        0 => (MAXR - 1 - hr, s.u16(0, 9), MAXR - 1, 0),
        1 => (s.u32(0, 9), MAXC - 1 - hc, 0, MAXC - 1),
        2 => (MAXR - 1 - hr, MAXC - 1 - hc, MAXR - 1, MAXC - 1),
        _ => (s.u32(0, 20), s.u16(0, 20), 0, 0),
    };
    c = c.max(a + hr);
    d = d.max(b + hc);
    if big && s.chance(1, 3) {
        (a, b) = (0, 0);
        if s.bool() {
            (c, d) = (MAXR - 1, MAXC - 1);
        }
    }
    if over {
        match s.below(6) {
            0 => c = row(s, true),
            1 => d = col(s, true),
            2 => {
                a = row(s, true);
                c = a.saturating_add(hr);
            }
            3 => {
                b = col(s, true);
                d = b.saturating_add(hc);
            }
            4 => {
                // One line backwards.
                c = a;
                a += 1;
            }
            _ => {
                d = b;
                b += 1;
            }
        }
    }
    (a, b, c, d)
}

pub const KINDS: u64 = 45;

pub fn edge(s: &mut Src, kind: u64, over: bool) -> Edge {
    match kind {
        0..=9 => {
            let (name, f) = *s.pick(CELLS);
            let (r, c) = match (over, s.below(3)) {
                (false, _) => (row(s, false), col(s, false)),
                (true, 0) => (row(s, true), col(s, false)),
                (true, 1) => (row(s, false), col(s, true)),
                (true, _) => (row(s, true), col(s, true)),
            };
            on(format!("{name} ({r}, {c})"), move |w| f(w, r, c))
        }
        10..=15 => {
            let (name, big, f) = *s.pick(RANGES);
            let line = name == "add_sparkline_group";
            let (mut a, mut b, mut c, mut d) = range(s, over, big, name == "add_table" || line);
            if line && !over {
                d = b;
            }
            if line && over && c >= a && d >= b && c < MAXR {
                // In one column.
                b = d;
            }
            // A selection may run backwards.
            if name == "set_selection" && over && (a > c || b > d) && c < MAXR && d < MAXC && a < MAXR && b < MAXC {
                (a, c) = (a, MAXR);
            }
            on(format!("{name} ({a}, {b}, {c}, {d})"), move |w| f(w, a, b, c, d))
        }
        16 | 17 => {
            let (name, f) = *s.pick(ROWS1);
            let r = row(s, over);
            on(format!("{name} ({r})"), move |w| f(w, r))
        }
        18 | 19 => {
            let (name, f) = *s.pick(COLS1);
            let c = col(s, over);
            on(format!("{name} ({c})"), move |w| f(w, c))
        }
        20 => {
            let (name, f) = *s.pick(ROWS2);
            let (mut a, mut b) = (s.u32(0, 20), 0);
            b = b.max(a + s.u32(0, 5));
            if s.chance(1, 3) {
                (a, b) = (MAXR - 1 - s.u32(0, 4), MAXR - 1);
            }
            if over {
                match s.below(3) {
                    0 => b = row(s, true),
                    1 => (a, b) = (a + 1, a),
                    _ => (a, b) = (MAXR, MAXR),
                }
            }
            on(format!("{name} ({a}, {b})"), move |w| f(w, a, b))
        }
        21 => {
            let (name, f) = *s.pick(COLS2);
            let a0 = s.u16(0, 20);
            let (mut a, mut b) = (a0, a0 + s.u16(0, 5));
            if s.chance(1, 3) {
                (a, b) = (MAXC - 1 - s.u16(0, 4), MAXC - 1);
            }
            if over {
                match s.below(3) {
                    0 => b = col(s, true),
                    1 => (a, b) = (a + 1, a),
                    _ => (a, b) = (MAXC, MAXC),
                }
            }
            on(format!("{name} ({a}, {b})"), move |w| f(w, a, b))
        }
        // A filter on the columns of the autofilter and their neighbours.
        22 | 23 => {
            let first = s.u16(0, 30);
            let last = first + s.u16(0, 30);
            let c = match (over, s.below(3)) {
                (false, 0) => first,
                (false, 1) => last,
                (false, _) => s.u16(first, last),
                (true, 0) if first > 0 => first - 1,
                (true, 1) => last + 1 + s.u16(0, first),
                (true, _) => last + 1,
            };
            on2(format!("filter_column({c}) of an autofilter of columns {first} to {last}"), move |w| w.autofilter(2, first, 9, last).map(|_| ()), move |w| o(w.filter_column(c, &FilterCondition::new().add_list_filter("x"))))
        }
        24 => {
            let which = s.below(7);
            // Notes keep room for the name of the author.
            let t = text(s, if which == 4 && !over { 32713 } else { 32767 }, over);
            on(format!("text of {} characters, way {which}", t.chars().count()), move |w| match which {
                0 => o(w.write_string(3, 3, &t)),
                1 => o(w.write_string_with_format(3, 3, &t, &bold())),
                2 => o(w.write(3, 3, t.as_str())),
                3 => o(w.merge_range(3, 3, 4, 4, &t, &bold())),
                4 => o(w.insert_note(3, 3, &Note::new(&t).add_author_prefix(false))),
                5 => o(w.write_url_with_text(3, 3, "https://a.b", &t)),
                _ => o(w.write_with_format(3, 3, t.clone(), &bold())),
            })
        }
        25 => {
            // The parts of a rich text together.
            let t = text(s, 32767, over);
            let n = t.chars().count();
            let cut = if n < 2 { return edge(s, kind, over) } else { 1 + s.idx(n - 1) };
            let (a, b): (String, String) = (t.chars().take(cut).collect(), t.chars().skip(cut).collect());
            let f = s.bool();
            on(format!("rich text of {cut} and {} characters", n - cut), move |w| {
                let p = [(&bold(), a.as_str()), (&Format::new(), b.as_str())];
                if f { o(w.write_rich_string_with_format(2, 2, &p, &bold())) } else { o(w.write_rich_string(2, 2, &p)) }
            })
        }
        26 => {
            // Addresses, whose scheme counts.
            let scheme = *s.pick(&["https://", "http://", "ftp://", "mailto:"]);
            let n = if over { 2081 + s.idx(3) } else { 2080 - s.idx(3) };
            // The characters of the address and of the place in it count apart.
            let c = *s.pick(&["a", "é", "日"]);
            let part = s.below(3);
            let u = match part {
                1 if scheme != "mailto:" => format!("{scheme}b#{}", c.repeat(n)),
                2 => format!("internal:{}", c.repeat(if over { n } else { n - 9 })),
                _ => format!("{scheme}{}", c.repeat(n - scheme.len())),
            };
            let way = s.below(4);
            on(format!("{scheme} link, {n} times {c} in part {part}, way {way}"), move |w| match way {
                0 => o(w.write_url_with_text(1, 1, u.as_str(), "t")),
                1 => o(w.write_url(1, 1, u.as_str())),
                2 => o(w.write_url_with_options(1, 1, u.as_str(), "t", "tip", None)),
                _ => o(Shape::textbox().set_url(u.as_str())),
            })
        }
        27 => {
            let t = text(s, 255, over);
            let way = s.below(2);
            on(format!("tip of {} characters", t.chars().count()), move |w| match way {
                0 => o(w.write_url_with_options(1, 1, "https://a.b", "t", &t, None)),
                _ => o(w.write(1, 1, Url::new("https://a.b").set_tip(&t))),
            })
        }
        28 => {
            let t = text(s, 31, over);
            on(format!("sheet name of {} characters", t.chars().count()), move |w| o(w.set_name(&t)))
        }
        29 => {
            let c = if over { *s.pick(&['[', ']', ':', '*', '?', '/', '\\']) } else { *s.pick(&['(', ')', ';', '+', '!', '|', '$', '#', '"', '<', '&', ' ', '.', '\'']) };
            let at = if c == '\'' { 1 } else { s.below(3) };
            let t = match at {
                0 => format!("{c}ab"),
                1 => format!("a{c}b"),
                _ => format!("ab{c}"),
            };
            on(format!("sheet name {t:?}"), move |w| o(w.set_name(&t)))
        }
        30 => {
            let t = if over { (*s.pick(&["'a", "a'", "'", "''", ""])).to_string() } else { (*s.pick(&["a", "a'b", "ab", "1", "日本", "a''b", "ﬁ", "e\u{301}"])).to_string() };
            on(format!("sheet name {t:?}"), move |w| o(w.set_name(&t)))
        }
        31 => {
            let t = if over {
                match s.below(4) {
                    0 => format!("a{}", text(s, 30, true)),
                    1 => (*s.pick(&["", "1a", "_a", "é b", "a-b", "a.b", "a b", "a!"])).to_string(),
                    _ => format!("a{}b", s.pick(&[' ', '-', '.', '!', '$', '(', '\''])),
                }
            } else {
                match s.below(3) {
                    0 => format!("a{}", text(s, 30, false)),
                    1 => (*s.pick(&["a", "Z_", "a1", "é", "日本", "x_1_2", "ThisSheet"])).to_string(),
                    _ => format!("a_{}", text(s, 29, false)),
                }
            };
            let book = s.chance(1, 3);
            Edge {
                what: format!("code name {t:?} of {} characters", t.chars().count()),
                setup: Box::new(|_| ()),
                call: Box::new(move |wb| if book { o(wb.set_vba_name(t.as_str())) } else { o(ws(wb).set_vba_name(t.as_str())) }),
            }
        }
        32 => {
            let percent = s.bool();
            let top = if percent { 100 } else { 1000 };
            let v: u16 = if over { *s.pick(&[0, top + 1, top + 2, 65535]) } else { *s.pick(&[1, 2, top - 1, top]) };
            let bottom = s.bool();
            on(format!("{} {v}{}", if bottom { "bottom" } else { "top" }, if percent { "%" } else { "" }), move |w| {
                let rule = match (bottom, percent) {
                    (false, false) => ConditionalFormatTopRule::Top(v),
                    (false, true) => ConditionalFormatTopRule::TopPercent(v),
                    (true, false) => ConditionalFormatTopRule::Bottom(v),
                    (true, true) => ConditionalFormatTopRule::BottomPercent(v),
                };
                o(w.add_conditional_format(0, 0, 5, 5, &ConditionalFormatTop::new().set_rule(rule).set_format(bold())))
            })
        }
        33 => {
            let (t, n) = *s.pick(&[
                (ConditionalFormatIconType::ThreeArrows, 3usize),
                (ConditionalFormatIconType::ThreeSymbols, 3),
                (ConditionalFormatIconType::ThreeStars, 3),
                (ConditionalFormatIconType::FourArrows, 4),
                (ConditionalFormatIconType::FourTrafficLights, 4),
                (ConditionalFormatIconType::FourHistograms, 4),
                (ConditionalFormatIconType::FiveArrows, 5),
                (ConditionalFormatIconType::FiveQuadrants, 5),
                (ConditionalFormatIconType::FiveBoxes, 5),
            ]);
            let k = if over { *s.pick(if n == 3 { &[2usize, 4, 5, 1] } else if n == 4 { &[3, 5, 1, 2] } else { &[4, 3, 6, 1] }) } else { n };
            on(format!("{k} icons of {n}"), move |w| {
                let icons: Vec<ConditionalFormatCustomIcon> = (0..k).map(|i| ConditionalFormatCustomIcon::new().set_rule(ConditionalFormatType::Percent, i as u32 * 15)).collect();
                o(w.add_conditional_format(0, 0, 5, 5, &ConditionalFormatIconSet::new().set_icon_type(t).set_icons(&icons)))
            })
        }
        34 => {
            let n = if over { 1024 + s.u32(0, 2) } else { 1023 - s.u32(0, 2) };
            let vertical = s.bool();
            let from = u32::from(s.chance(3, 4));
            // A break at line 0 doesn't count.
            let v: Vec<u32> = (from..n + 1).collect();
            on(format!("{n} page breaks"), move |w| if vertical { o(w.set_vertical_page_breaks(&v)) } else { o(w.set_page_breaks(&v)) })
        }
        35 => {
            let way = s.below(4);
            let t = text(s, if way < 2 { 32 } else { 255 }, over);
            on(format!("validation text of {} characters, way {way}", t.chars().count()), move |w| {
                let v = DataValidation::new().allow_whole_number(DataValidationRule::GreaterThan(1));
                let v = match way {
                    0 => v.set_input_title(&t),
                    1 => v.set_error_title(&t),
                    2 => v.set_input_message(&t),
                    _ => v.set_error_message(&t),
                };
                match v {
                    Ok(v) => o(w.add_data_validation(0, 0, 3, 3, &v)),
                    Err(e) => Err(e.to_string()),
                }
            })
        }
        36 => {
            // The commas count.
            let n = if over { 256 + s.idx(3) } else { 255 - s.idx(3) };
            let mut left = n;
            let mut l = vec![];
            while left > 0 {
                let k = (1 + s.idx(60)).min(left);
                l.push(s.pick(&["x", "é", "日"]).repeat(k));
                left -= k;
                if left == 1 {
                    // No room for a comma and an item.
                    if let Some(x) = l.last_mut() {
                        x.push('z');
                    }
                    left = 0;
                } else if left > 0 {
                    left -= 1;
                }
            }
            let total: usize = l.iter().map(|x| x.chars().count()).sum::<usize>() + l.len() - 1;
            assert_eq!(total, n);
            on(format!("list of {} items, {n} characters", l.len()), move |w| match DataValidation::new().allow_list_strings(&l) {
                Ok(v) => o(w.add_data_validation(0, 0, 3, 3, &v)),
                Err(e) => Err(e.to_string()),
            })
        }
        37 => {
            // Seven levels of groups.
            let rows = s.bool();
            let (a, b) = (s.u32(3, 9), s.u32(10, 14));
            let levels = if over { 7 } else { 6 - s.idx(3) };
            let (x, y) = if over || s.bool() {
                // Touches the innermost one by a line.
                *s.pick(&[(a, b), (0, a), (b, 30), (a + 1, a + 1)])
            } else {
                (a, b)
            };
            let collapsed = s.bool();
            on2(
                format!("group of lines {x} to {y} above {levels} levels of {a} to {b}, rows: {rows}"),
                move |w| {
                    for _ in 0..levels {
                        if rows { w.group_rows(a, b)? } else { w.group_columns(a as u16, b as u16)? };
                    }
                    Ok(())
                },
                move |w| match (rows, collapsed) {
                    (true, false) => o(w.group_rows(x, y)),
                    (true, true) => o(w.group_rows_collapsed(x, y)),
                    (false, false) => o(w.group_columns(x as u16, y as u16)),
                    (false, true) => o(w.group_columns_collapsed(x as u16, y as u16)),
                },
            )
        }
        38 => {
            // Two areas that touch or share a line.
            let (a, b) = (s.u32(5, 9), s.u16(5, 9));
            let (h, v) = (s.u32(1, 4), s.u16(1, 4));
            let (c, d) = (a + h, b + v);
            let (nh, nv) = (s.u32(1, 4), s.u16(1, 4));
            let (x, y) = match (over, s.below(4)) {
                (false, 0) => (c + 1, s.u16(0, d + 1)),
                (false, 1) => (s.u32(0, c + 1), d + 1),
                (false, 2) if a > nh => (a - nh - 1, s.u16(0, d)),
                (false, _) => (a, d + 1),
                (true, 0) => (c, d),
                (true, 1) => (s.u32(a, c), s.u16(b, d)),
                (true, 2) => (a - nh, s.u16(b, d)),
                (true, _) => (s.u32(a, c), b - nv),
            };
            let kind = s.below(4);
            // A filter and a table may not share header cells; other overlaps are left open.
            let x = if over && kind > 1 { a } else { x };
            let (p, q) = (x + nh, y + nv);
            on2(
                format!("area ({x}, {y}, {p}, {q}) by ({a}, {b}, {c}, {d}), way {kind}"),
                move |w| match kind {
                    0 => w.merge_range(a, b, c, d, "", &bold()).map(|_| ()),
                    1 | 2 => w.add_table(a, b, c, d, &Table::new()).map(|_| ()),
                    _ => w.autofilter(a, b, c, d).map(|_| ()),
                },
                move |w| match kind {
                    0 => o(w.merge_range(x, y, p, q, "", &bold())),
                    2 => o(w.autofilter(x, y, p, q)),
                    _ => o(w.add_table(x, y, p, q, &Table::new())),
                },
            )
        }
        39 => {
            // Names.
            let n = if over {
                match s.below(3) {
                    0 => format!("a{}b", s.pick(&[' ', ',', '/', '*', '[', ']', ':', '"', '\''])),
                    1 => format!("{}a", s.pick(&['1', '.', '?', '-', '(', '$', '9'])),
                    _ => (*s.pick(&["!a", "Sheet1!", "Sheet1!1a", "Sheet1!a b", ""])).to_string(),
                }
            } else {
                match s.below(3) {
                    0 => format!("{}ab", s.pick(&['_', '\\', 'é', '日', 'Z', 'ß'])),
                    1 => format!("ab{}", s.pick(&['1', '_', '.', 'é', '?', '\\'])),
                    _ => (*s.pick(&["Sheet1!ab_", "Sheet1!_x", "'Sheet1'!abc", "Sheet1!\\xy"])).to_string(),
                }
            };
            Edge { what: format!("name {n:?}"), setup: Box::new(|_| ()), call: Box::new(move |wb| o(wb.define_name(n.as_str(), "=Sheet1!$A$1"))) }
        }
        40 => {
            // As many ranges as cells.
            let (r, c) = (s.u32(1, 6), s.u16(1, 6));
            let across = s.bool();
            let columns = s.bool();
            let n = u32::from(c).max(r);
            let (h, v) = if across { (1, r.max(u32::from(c))) } else { (n, 1) };
            let k = if over { *s.pick(&[n + 1, n + 2, n.saturating_sub(1).max(1)]) } else { n };
            if (over && k == n) || (n == 1 && !over) {
                return edge(s, kind, over);
            }
            // Data of k lines in two dimensions.
            let m = s.u32(2, 5);
            if over && !columns && k < 2 || columns && k < 2 {
                return edge(s, kind, over);
            }
            on(format!("sparklines in {h} x {v} cells of {k} ranges, by columns: {columns}"), move |w| {
                let (dr, dc) = if columns { (m, k as u16) } else { (k, m as u16) };
                let sp = Sparkline::new().set_range(("Sheet1", 10, 0, 10 + dr - 1, dc - 1)).set_column_order(columns);
                o(w.add_sparkline_group(0, 0, h - 1, v as u16 - 1, &sp))
            })
        }
        41 => {
            // A range of data for charts and sparklines.
            let (a, b, c, d) = range(s, over, true, false);
            let chart = s.bool();
            let d = if chart && !over { b } else { d };
            if chart {
                on(format!("chart of ({a}, {b}, {c}, {d})"), move |w| {
                    let mut ch = Chart::new(ChartType::Column);
                    ch.add_series().set_values(("Sheet1", a, b, c, d));
                    o(w.insert_chart(1, 1, &ch))
                })
            } else {
                let one = s.bool();
                let (c, d) = match (over, one) {
                    (false, true) => (a, d),
                    (false, false) => (c, b),
                    _ => (c, d),
                };
                on(format!("sparkline of ({a}, {b}, {c}, {d})"), move |w| o(w.add_sparkline(1, 1, &Sparkline::new().set_range(("Sheet1", a, b, c, d)))))
            }
        }
        42 => {
            // The picture of a header needs its place.
            let head = s.bool();
            let pos = s.idx(3);
            let position = move || match pos {
                0 => HeaderImagePosition::Left,
                1 => HeaderImagePosition::Center,
                _ => HeaderImagePosition::Right,
            };
            let mark = *s.pick(&["&G", "&[Picture]"]);
            let want = ["&L", "&C", "&R"][pos];
            let others: Vec<&str> = ["&L", "&C", "&R"].into_iter().filter(|x| *x != want).collect();
            let t = if over { format!("{}{mark}{want}x", others[s.idx(2)]) } else { format!("{want}a{mark}b") };
            // Sections in another order are taken as they come.
            let t = if over && s.chance(1, 3) { "&Lno&Cplace&Rhere".to_string() } else { t };
            let what = format!("picture in {t:?} {want}, header: {head}");
            let t2 = t.clone();
            on2(
                what,
                move |w| {
                    if head { w.set_header(&t2) } else { w.set_footer(&t2) };
                    Ok(())
                },
                move |w| if head { o(w.set_header_image(&png(), position())) } else { o(w.set_footer_image(&png(), position())) },
            )
        }
        43 => {
            // What a chart needs, as the only chart or as the one combined with it.
            let rule = s.below(5);
            let order = match (rule, over) {
                (0, false) => s.u8(2, 6),
                (0, true) => *s.pick(&[0u8, 1, 7, 255]),
                (_, false) => s.u8(2, 4),
                (_, true) => *s.pick(&[0u8, 1, 5, 255]),
            };
            let (second, more) = (s.chance(2, 3), s.chance(1, 2));
            let bad = *s.pick(&["A[1]", "B*", "C?D", "E/F", "'G", "H'", "I:J"]);
            on(format!("chart rule {rule} order {order} combined: {second} other series first: {more} {bad}"), move |w| {
                let scatter = rule == 4;
                let kind = if scatter { ChartType::Scatter } else { ChartType::Line };
                let mut ch = Chart::new(kind);
                let ok = |ch: &mut Chart| {
                    ch.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 1, 3, 1));
                };
                if more && !(rule == 2 && over) {
                    ok(&mut ch);
                }
                let mut trend = ChartTrendline::new();
                match rule {
                    0 => { trend.set_type(ChartTrendlineType::Polynomial(order)); }
                    1 => { trend.set_type(ChartTrendlineType::MovingAverage(order)); }
                    _ => {}
                }
                match (rule, over) {
                    (0 | 1, _) => { ch.add_series().set_values(("Sheet1", 0, 1, 3, 1)).set_trendline(&trend); }
                    (2, true) => {}
                    (3, true) => {
                        // The name of a sheet, or no values at all.
                        if order > 1 { ch.add_series().set_values((bad, 0, 1, 3, 1)); } else { ch.add_series().set_categories(("Sheet1", 0, 1, 3, 1)); }
                    }
                    (4, true) => { ch.add_series().set_values(("Sheet1", 0, 1, 3, 1)); }
                    _ => ok(&mut ch),
                }
                if second {
                    let mut first = Chart::new(if scatter { ChartType::Scatter } else { ChartType::Column });
                    ok(&mut first);
                    first.combine(&ch);
                    ch = first;
                }
                o(w.insert_chart(1, 1, &ch))
            })
        }
        _ => {
            // Rows of values that run over the edge, one call per value as documented.
            let (n, rows) = (s.u32(2, 4), s.bool());
            let (r, c) = if over { if rows { (5, MAXC) } else { (MAXR, 5) } } else if rows { (5, MAXC - n as u16) } else { (MAXR - n, 5) };
            let way = s.below(2);
            on(format!("{n} values at ({r}, {c}), rows: {rows}"), move |w| {
                let v: Vec<u32> = (0..n).collect();
                match (rows, way) {
                    (true, 0) => o(w.write_row(r, c, v)),
                    (true, _) => o(w.write_row_with_format(r, c, v, &bold())),
                    (false, 0) => o(w.write_column(r, c, v)),
                    (false, _) => o(w.write_column_with_format(r, c, v, &bold())),
                }
            })
        }
    }
}

fn start(e: &Edge, s: &[u64]) -> R<Workbook> {
    let mut wb = Workbook::new();
    let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
    wb.set_properties(&DocProperties::new().set_creation_datetime(&date));
    let w = wb.add_worksheet();
    let mut s = Src::replay(s);
    for _ in 0..s.below(4) {
        let (r, c) = (s.u32(0, 6), s.u16(0, 6));
        must("write", w.write_number(r, c, s.u32(0, 99)))?;
    }
    wb.add_worksheet();
    (e.setup)(&mut wb);
    Ok(wb)
}

/// Calls that come later and are valid.
fn later(wb: &mut Workbook) -> R {
    let w = wb.worksheet_from_index(0).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    must("later write", w.write_string(40, 40, "later"))?;
    must("later merge", w.merge_range(50, 50, 51, 51, "m", &bold()))?;
    must("later table", w.add_table(60, 60, 63, 62, &Table::new()))?;
    must("later image", w.insert_image(70, 3, &png()))?;
    must("later note", w.insert_note(70, 9, &Note::new("later")))?;
    Ok(())
}

pub fn edges(s: &mut Src, c: &mut Ctx) -> R {
    let kind = s.below(KINDS);
    let over = s.bool();
    let e = edge(s, kind, over);
    let tape: Vec<u64> = (0..9).map(|_| s.below(1000)).collect();
    c.d(|| format!("{}: {}", if over { "to refuse" } else { "to accept" }, e.what));
    let mut a = start(&e, &tape)?;
    let out = guard(&e.what, || (e.call)(&mut a))?;
    if over {
        ensure!(out.is_err(), "accepted", "{} is outside the limits and was accepted", e.what);
    } else {
        ensure!(out.is_ok(), "refused", "{} is inside the limits and was refused: {out:?}", e.what);
    }
    c.hit();
    c.label(if over { "beyond a limit" } else { "inside the limits" });
    if over {
        later(&mut a)?;
    }
    let a = must("save", a.save_to_buffer())?;
    let a = Pkg::open(&a)?;
    if over {
        let mut b = start(&e, &tape)?;
        later(&mut b)?;
        let b = must("save", b.save_to_buffer())?;
        crate::kitchen::same_parts(&Pkg::open(&b)?, &a, &format!("without / with the refused call: {}", e.what))?;
    }
    Ok(())
}
