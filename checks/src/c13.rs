//! C13: data validations are stored exactly as configured.
use crate::util::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Opnd {
    Num(f64),
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Dv {
    typ: &'static str,
    op: &'static str,
    args: Vec<Opnd>,
    list: Option<Vec<String>>,
    style: &'static str,
    blank: bool,
    dropdown: bool,
    show_in: bool,
    show_err: bool,
    in_t: String,
    in_m: String,
    err_t: String,
    err_m: String,
    multi: String,
    /// The ranges covered, in order.
    ranges: Vec<(u32, u32, u32, u32)>,
}

const FORMULAS: &[(&str, &str)] = &[
    ("=D1", "D1"),
    ("$A$1+1", "$A$1+1"),
    ("=Sheet1!$A$1:$A$5", "Sheet1!$A$1:$A$5"),
    ("='My Sheet'!$B$2", "'My Sheet'!$B$2"),
    ("=AND(A1<>\"<&>\",LEN(A1)>2)", "AND(A1<>\"<&>\",LEN(A1)>2)"),
    ("=IFNA(A1,2)", "_xlfn.IFNA(A1,2)"),
    ("=_xlfn.IFS(A1,2)", "_xlfn.IFS(A1,2)"),
    ("=List_1", "List_1"),
    ("=COUNTIF($A$1:$A$9,A1)=1", "COUNTIF($A$1:$A$9,A1)=1"),
    ("=OFFSET(A1,0,0,COUNTA(A:A)-1)", "OFFSET(A1,0,0,COUNTA(A:A)-1)"),
    ("=\"é\"&A1", "\"é\"&A1"),
];
const OPS: &[&str] = &["equal", "notEqual", "greaterThan", "greaterThanOrEqual", "lessThan", "lessThanOrEqual", "between", "notBetween"];

fn rule<T: IntoDataValidationValue + Clone>(k: usize, a: T, b: T) -> DataValidationRule<T> {
    match k {
        0 => DataValidationRule::EqualTo(a),
        1 => DataValidationRule::NotEqualTo(a),
        2 => DataValidationRule::GreaterThan(a),
        3 => DataValidationRule::GreaterThanOrEqualTo(a),
        4 => DataValidationRule::LessThan(a),
        5 => DataValidationRule::LessThanOrEqualTo(a),
        6 => DataValidationRule::Between(a, b),
        _ => DataValidationRule::NotBetween(a, b),
    }
}

/// Days since 1899-12-30 for a civil date from March 1900 on.
fn serial(y: i64, m: i64, d: i64) -> f64 {
    let (y2, m2) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
    let days = 365 * y2 + y2.div_euclid(4) - y2.div_euclid(100) + y2.div_euclid(400) + (153 * m2 + 2) / 5 + d - 1;
    (days - 693_899) as f64
}

/// Text read from an attribute, with or without _xHHHH_ decoding.
fn shown(e: &Elem, a: &str, want: &str) -> String {
    let raw = e.attr(a).unwrap_or("");
    if raw == want {
        raw.to_string()
    } else {
        kit::xml::unescape_xstring(raw)
    }
}

pub fn gen_dv(s: &mut Src, c: &mut Ctx) -> R<(DataValidation, Dv)> {
    let mut v = DataValidation::new();
    let mut m = Dv { typ: "any", op: "", args: vec![], list: None, style: "stop", blank: true, dropdown: true, show_in: true, show_err: true, in_t: String::new(), in_m: String::new(), err_t: String::new(), err_m: String::new(), multi: String::new(), ranges: vec![] };
    // A later rule replaces an earlier one, the other options stay.
    for _ in 0..s.small(1, 2) {
        let k = s.idx(8);
        let two = |k: usize, a: Opnd, b: Opnd| if k >= 6 { vec![a, b] } else { vec![a] };
        m.list = None;
        m.op = OPS[k];
        let f = s.pick(FORMULAS).to_owned();
        let f2 = s.pick(FORMULAS).to_owned();
        let fr = rule(k, Formula::new(f.0), Formula::new(f2.0));
        let ff = two(k, Opnd::Text(f.1.into()), Opnd::Text(f2.1.into()));
        match s.below(13) {
            0 => {
                let (a, b) = (s.int(i32::MIN as i64, i32::MAX as i64) as i32, s.int(-100, 100) as i32);
                v = v.allow_whole_number(rule(k, a, b));
                (m.typ, m.args) = ("whole", two(k, Opnd::Num(a.into()), Opnd::Num(b.into())));
            }
            1 => {
                v = v.allow_whole_number_formula(fr);
                (m.typ, m.args) = ("whole", ff);
            }
            2 => {
                let (a, b) = (gen::finite(s), gen::finite(s));
                v = v.allow_decimal_number(rule(k, a, b));
                (m.typ, m.args) = ("decimal", two(k, Opnd::Num(a), Opnd::Num(b)));
            }
            3 => {
                v = v.allow_decimal_number_formula(fr);
                (m.typ, m.args) = ("decimal", ff);
            }
            4 => {
                let (a, b) = (s.any64() as u32, s.u32(0, 100));
                v = v.allow_text_length(rule(k, a, b));
                (m.typ, m.args) = ("textLength", two(k, Opnd::Num(a.into()), Opnd::Num(b.into())));
            }
            5 => {
                v = v.allow_text_length_formula(fr);
                (m.typ, m.args) = ("textLength", ff);
            }
            6 | 7 => {
                let mut one = |s: &mut Src| {
                    let (y, mo, d) = (s.int(1901, 9999), s.int(1, 12), s.int(1, 28));
                    let (h, mi, sec) = (s.int(0, 23), s.int(0, 59), s.int(0, 59));
                    let timed = s.bool();
                    let mut n = serial(y, mo, d);
                    if timed {
                        n += (h * 3600 + mi * 60 + sec) as f64 / 86400.0;
                    }
                    (y, mo, d, h, mi, sec, timed, n)
                };
                let (a, b) = (one(s), one(s));
                if s.bool() {
                    let x = |t: &(i64, i64, i64, i64, i64, i64, bool, f64)| -> R<ExcelDateTime> {
                        let e = must("from_ymd", ExcelDateTime::from_ymd(t.0 as u16, t.1 as u8, t.2 as u8))?;
                        if t.6 {
                            must("and_hms", e.and_hms(t.3 as u16, t.4 as u8, t.5 as f64))
                        } else {
                            Ok(e)
                        }
                    };
                    let (a, b) = (x(&a)?, x(&b)?);
                    v = if s.bool() { v.allow_date(rule(k, a, b)) } else { v.allow_date(rule(k, &a, &b)) };
                } else {
                    use chrono::NaiveDate;
                    let x = |t: &(i64, i64, i64, i64, i64, i64, bool, f64)| {
                        let d = NaiveDate::from_ymd_opt(t.0 as i32, t.1 as u32, t.2 as u32).unwrap();
                        if t.6 {
                            d.and_hms_opt(t.3 as u32, t.4 as u32, t.5 as u32).unwrap()
                        } else {
                            d.and_hms_opt(0, 0, 0).unwrap()
                        }
                    };
                    if a.6 || b.6 {
                        let (a, b) = (x(&a), x(&b));
                        v = if s.bool() { v.allow_date(rule(k, a, b)) } else { v.allow_date(rule(k, &a, &b)) };
                    } else {
                        let (a, b) = (x(&a).date(), x(&b).date());
                        v = if s.bool() { v.allow_date(rule(k, a, b)) } else { v.allow_date(rule(k, &a, &b)) };
                    }
                }
                (m.typ, m.args) = ("date", two(k, Opnd::Num(a.7), Opnd::Num(b.7)));
            }
            8 => {
                v = v.allow_date_formula(fr);
                (m.typ, m.args) = ("date", ff);
            }
            9 => {
                let (a, b) = (s.int(0, 86399), s.int(0, 86399));
                if s.bool() {
                    let x = |t: i64| ExcelDateTime::from_hms((t / 3600) as u16, (t / 60 % 60) as u8, (t % 60) as f64);
                    let (a, b) = (must("from_hms", x(a))?, must("from_hms", x(b))?);
                    v = if s.bool() { v.allow_time(rule(k, a, b)) } else { v.allow_time(rule(k, &a, &b)) };
                } else {
                    let x = |t: i64| chrono::NaiveTime::from_num_seconds_from_midnight_opt(t as u32, 0).unwrap();
                    v = if s.bool() { v.allow_time(rule(k, x(a), x(b))) } else { v.allow_time(rule(k, &x(a), &x(b))) };
                }
                (m.typ, m.args) = ("time", two(k, Opnd::Num(a as f64 / 86400.0), Opnd::Num(b as f64 / 86400.0)));
            }
            10 => {
                if s.bool() {
                    v = v.allow_time_formula(fr);
                    (m.typ, m.args) = ("time", ff);
                } else {
                    v = v.allow_custom(Formula::new(f.0));
                    (m.typ, m.op, m.args) = ("custom", "", vec![ff[0].clone()]);
                }
            }
            11 => {
                if s.chance(1, 4) {
                    v = v.allow_list_formula(Formula::new(f.0));
                    (m.typ, m.op, m.args) = ("list", "", vec![ff[0].clone()]);
                } else {
                    let mut items: Vec<String> = (0..s.small(1, 12)).map(|_| gen::line_text(s, 12).replace(',', ";")).collect();
                    if items.iter().all(|t| t.is_empty()) {
                        items[0] = "x".into();
                    }
                    v = must("allow_list_strings", v.allow_list_strings(&items))?;
                    (m.typ, m.op, m.args, m.list) = ("list", "", vec![], Some(items));
                }
            }
            _ => {
                v = v.allow_any_value();
                (m.typ, m.op, m.args) = ("any", "", vec![]);
            }
        }
    }
    for _ in 0..s.small(0, 6) {
        let on = s.bool();
        match s.below(10) {
            0 => (v, m.blank) = (v.ignore_blank(on), on),
            1 => (v, m.dropdown) = (v.show_dropdown(on), on),
            2 => (v, m.show_in) = (v.show_input_message(on), on),
            3 => (v, m.show_err) = (v.show_error_message(on), on),
            4 => {
                m.in_t = gen::xml_text(s, 32);
                v = must("set_input_title", v.set_input_title(&m.in_t))?;
            }
            5 => {
                m.in_m = if s.chance(1, 5) { "é".repeat(255) } else { gen::xml_text(s, 60) };
                v = must("set_input_message", v.set_input_message(m.in_m.clone()))?;
            }
            6 => {
                m.err_t = gen::xml_text(s, 32);
                v = must("set_error_title", v.set_error_title(&m.err_t))?;
            }
            7 => {
                m.err_m = gen::xml_text(s, 255);
                v = must("set_error_message", v.set_error_message(m.err_m.clone()))?;
            }
            8 => {
                let (x, n) = s.pick(&[(0, "stop"), (1, "warning"), (2, "information")]).to_owned();
                v = v.set_error_style([DataValidationErrorStyle::Stop, DataValidationErrorStyle::Warning, DataValidationErrorStyle::Information][x].clone());
                m.style = n;
            }
            _ => {
                m.ranges = (0..s.small(1, 4)).map(|_| range(s, 4, 4)).map(|(a, b, c, d)| (a, b.into(), c, d.into())).collect();
                m.multi = m.ranges.iter().map(|r| range_name(r.0, r.1, r.2, r.3)).collect::<Vec<_>>().join(" ");
                let given = match s.below(3) {
                    0 => m.multi.clone(),
                    1 => m.multi.replace(' ', ","),
                    _ => m.ranges.iter().map(|r| abs_range(r.0, r.1, r.2, r.3)).collect::<Vec<_>>().join(" "),
                };
                v = v.set_multi_range(given);
            }
        }
    }
    c.d(|| format!("{m:?}"));
    c.label(m.typ);
    Ok((v, m))
}

fn no_text(m: &Dv) -> bool {
    m.in_t.is_empty() && m.in_m.is_empty() && m.err_t.is_empty() && m.err_m.is_empty()
}

/// Adds a validation to a sheet and its model, keyed by the ranges covered.
pub fn add(s: &mut Src, ws: &mut Worksheet, model: &mut Vec<Dv>, c: &mut Ctx) -> R {
    let (v, mut m) = gen_dv(s, c)?;
    let r = range(s, 5, 4);
    if m.multi.is_empty() {
        m.ranges = vec![(r.0, r.1.into(), r.2, r.3.into())];
    }
    c.d(|| format!("add_data_validation {r:?}"));
    must("add_data_validation", guard("add_data_validation", || ws.add_data_validation(r.0, r.1, r.2, r.3, &v).map(|_| ()))?)?;
    // Any value without messages is the same as no validation.
    if m.typ == "any" && no_text(&m) {
        return Ok(());
    }
    model.retain(|o| o.ranges != m.ranges);
    model.push(m);
    Ok(())
}

pub fn check(b: &Book, i: usize, model: &[Dv]) -> R {
    let x = b.sheet(i)?;
    let Some(dvs) = x.child("dataValidations") else {
        ensure!(model.is_empty(), "lost", "sheet {i}: {} validations lost", model.len());
        return Ok(());
    };
    let list: Vec<_> = dvs.children().collect();
    ensure!(!list.is_empty() && list.len() == model.len(), "count", "sheet {i}: {} validations where {} expected", list.len(), model.len());
    ensure_eq!(dvs.attr("count"), Some(&*list.len().to_string()), "count", "sheet {i}: count attribute");
    for (k, _) in dvs.attrs.iter() {
        ensure!(k == "count", "attr", "unexpected attribute {k}");
    }
    let mut left: Vec<&Dv> = model.iter().collect();
    for e in list {
        let sq = e.attr("sqref").unwrap_or("");
        let mut rs = vec![];
        for p in sq.split(' ') {
            rs.push(parse_range(p)?);
        }
        let Some(k) = left.iter().position(|m| m.ranges == rs) else { fail!("range", "validation on unexpected range {sq:?}") };
        let m = left.remove(k);
        let at = format!("sheet {i} validation on {sq}");
        ensure_eq!(e.attr("type").unwrap_or("none").replace("none", "any"), m.typ, "type", "{at}: type");
        if m.typ != "any" {
            ensure_eq!(e.attr("errorStyle").unwrap_or("stop"), m.style, "style", "{at}: error style");
        }
        let flag = |n: &str| e.attr(n).map(|v| v == "1" || v == "true").unwrap_or(false);
        ensure_eq!(flag("allowBlank"), m.blank, "flag", "{at}: ignore blank");
        // The attribute hides the arrow.
        ensure_eq!(!flag("showDropDown"), m.dropdown, "flag", "{at}: show dropdown");
        ensure_eq!(flag("showInputMessage"), m.show_in, "flag", "{at}: show input message");
        ensure_eq!(flag("showErrorMessage"), m.show_err, "flag", "{at}: show error message");
        ensure_eq!(shown(e, "promptTitle", &m.in_t), m.in_t, "text", "{at}: input title");
        ensure_eq!(shown(e, "prompt", &m.in_m), m.in_m, "text", "{at}: input message");
        ensure_eq!(shown(e, "errorTitle", &m.err_t), m.err_t, "text", "{at}: error title");
        ensure_eq!(shown(e, "error", &m.err_m), m.err_m, "text", "{at}: error message");
        for (k, _) in e.attrs.iter() {
            ensure!(["type", "errorStyle", "operator", "allowBlank", "showDropDown", "showInputMessage", "showErrorMessage", "promptTitle", "prompt", "errorTitle", "error", "sqref"].contains(&&**k), "attr", "{at}: unexpected attribute {k}");
        }
        Pkg::order(e, &["formula1", "formula2"], &at)?;
        let f: Vec<String> = e.children().map(|c| c.text()).collect();
        if let Some(items) = &m.list {
            ensure_eq!(f.len(), 1, "list", "{at}: number of operands");
            let t = &f[0];
            ensure!(t.len() >= 2 && t.starts_with('"') && t.ends_with('"'), "list", "{at}: list {t:?} isn't quoted");
            let inner = &t[1..t.len() - 1];
            ensure_eq!(inner.replace("\"\"", "").matches('"').count(), 0, "list", "{at}: stray quote in {t:?}");
            let got: Vec<String> = inner.replace("\"\"", "\"").split(',').map(String::from).collect();
            ensure_eq!(&got, items, "list", "{at}: list items");
            continue;
        }
        ensure_eq!(f.len(), m.args.len(), "operand", "{at}: number of operands");
        if !m.args.is_empty() && m.typ != "custom" && m.typ != "list" {
            ensure_eq!(e.attr("operator").unwrap_or("between"), m.op, "operator", "{at}: operator");
        }
        for (g, w) in f.iter().zip(&m.args) {
            let ok = match w {
                Opnd::Text(t) => g == t,
                Opnd::Num(n) => g.parse::<f64>().is_ok_and(|v| v == *n || (matches!(m.typ, "date" | "time") && (v - n).abs() < 1e-9)),
            };
            ensure!(ok, "operand", "{at}: operand {g:?} where {w:?} expected");
        }
    }
    Ok(())
}

fn rules(s: &mut Src, c: &mut Ctx) -> R {
    let ns = s.small(1, 2);
    let mut wb = Workbook::new();
    for _ in 0..ns {
        wb.add_worksheet();
    }
    let mut m = vec![vec![]; ns];
    for _ in 0..s.span(1, 8, 70) {
        let i = s.idx(ns);
        c.d(|| format!("sheet {i}"));
        add(s, must("sheet", wb.worksheet_from_index(i))?, &mut m[i], c)?;
    }
    if m.iter().any(|v| v.len() > 1) {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    for (i, m) in m.iter().enumerate() {
        check(&b, i, m)?;
    }
    Ok(())
}

/// Limits are counted in characters, and what is accepted is stored whole.
fn limits(s: &mut Src, c: &mut Ctx) -> R {
    c.hit();
    let k = s.below(5);
    let lim = if k < 2 { 32 } else { 255 };
    let n = match s.below(4) {
        0 => lim,
        1 => lim + 1,
        2 => s.small(0, lim),
        _ => lim + s.small(1, 300),
    };
    let ch = *s.pick(&['a', 'é', '日', '"', '&']);
    let t: String = std::iter::repeat_n(ch, n).collect();
    c.d(|| format!("text {k} of {n} {ch:?}"));
    let v = DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1));
    let mut len = n;
    let r = guard("setter", || match k {
        0 => v.set_input_title(&t),
        1 => v.set_error_title(&t),
        2 => v.set_input_message(&t),
        3 => v.set_error_message(&t),
        _ => {
            // Two items and the comma between.
            len = if ch == '"' { 2 * n + 2 } else { n + 2 };
            v.allow_list_strings(&[&t[..], "b"])
        }
    })?;
    // Quotes are doubled in the stored list: either count is defensible.
    if k == 4 && ch == '"' && n + 2 <= lim && len > lim {
        return Ok(());
    }
    ensure_eq!(r.is_ok(), len <= lim, "limit", "text {k} of {n} {ch:?}: accepted");
    let Ok(v) = r else { return Ok(()) };
    let mut wb = Workbook::new();
    must("add_data_validation", wb.add_worksheet().add_data_validation(0, 0, 0, 0, &v).map(|_| ()))?;
    let b = save_book(&mut wb, c)?;
    let e = match b.sheet(0)?.at("dataValidations/dataValidation") {
        Some(e) => e,
        None => fail!("lost", "validation lost"),
    };
    let got = match k {
        0 => shown(e, "promptTitle", &t),
        1 => shown(e, "errorTitle", &t),
        2 => shown(e, "prompt", &t),
        3 => shown(e, "error", &t),
        _ => {
            let f = e.child("formula1").map(|f| f.text()).unwrap_or_default();
            ensure_eq!(f, format!("\"{},b\"", t.replace('"', "\"\"")), "limit", "stored list");
            return Ok(());
        }
    };
    ensure_eq!(got, t, "limit", "text {k} as stored");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a sheet has at least two validations (rules); every case (limits)",
        level: "exploration",
        assumptions: &["a second validation on exactly the same ranges replaces the first", "an any-value validation without messages is the same as none", "list items contain no comma (Excel cannot represent one)"],
        families: vec![fam("rules", 14000, 400_000, rules), fam("limits", 2000, 30_000, limits)],
        known: vec![],
    }
}
