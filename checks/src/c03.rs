//! C03: text survives unchanged wherever it is written.
use crate::fmt::*;
use crate::util::*;
use kit::xl::si_value;
use kit::xml::unescape_xstring;

/// What a cell was given: plain text, or runs of text with the format of each.
#[derive(Clone, Debug)]
enum Txt {
    Plain(String),
    Rich(Vec<(usize, String)>),
}

fn flat(t: &Txt) -> String {
    match t {
        Txt::Plain(t) => t.clone(),
        Txt::Rich(v) => v.iter().map(|x| x.1.as_str()).collect(),
    }
}

fn gen_txt(s: &mut Src, prev: &[Txt], nf: usize) -> Txt {
    let t = match s.below(8) {
        0 | 1 if !prev.is_empty() => flat(&prev[s.idx(prev.len())]),
        2 | 3 if !prev.is_empty() => {
            let t = flat(&prev[s.idx(prev.len())]);
            gen::near(s, &t)
        }
        4 => {
            let t = gen::text1(s, 6);
            let n = s.idx(200) + 1;
            t.repeat(n)
        }
        _ => gen::text1(s, 24),
    };
    let t: String = t.chars().take(5000).collect();
    if t.is_empty() || s.chance(2, 3) {
        return Txt::Plain(if t.is_empty() { "e".into() } else { t });
    }
    // Cut the text into runs.
    let ch: Vec<char> = t.chars().collect();
    let mut runs = vec![];
    let mut at = 0;
    while at < ch.len() {
        let n = (s.idx(ch.len() - at) + 1).min(ch.len() - at);
        runs.push((s.idx(nf), ch[at..at + n].iter().collect()));
        at += n;
    }
    Txt::Rich(runs)
}

fn cells(s: &mut Src, c: &mut Ctx) -> R {
    let mut pool = gen_pool(s, 4, 4);
    pool.push((Format::new(), Fm::default(), "default".into()));
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} {}", p.2));
    }
    let ns = s.small(1, 3);
    let mut wb = Workbook::new();
    let mut all: Vec<Txt> = vec![];
    let mut want: Vec<BTreeMap<(u32, u16), Txt>> = vec![BTreeMap::new(); ns];
    for _ in 0..ns {
        wb.add_worksheet();
    }
    let resave = s.chance(1, 4);
    let n = s.span(1, 30, 300);
    for j in 0..n {
        let i = s.idx(ns);
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        let t = gen_txt(s, &all, pool.len());
        let (r, k) = (s.u32(0, 12), s.u16(0, 3));
        c.d(|| format!("sheet {i} ({r},{k}) {t:?}"));
        match &t {
            Txt::Plain(t) => match s.below(4) {
                0 => must("write", ws.write(r, k, t.as_str()))?,
                1 => must("write", ws.write(r, k, t.clone()))?,
                2 => must("write_string", ws.write_string(r, k, t))?,
                _ => must("write_string_with_format", ws.write_string_with_format(r, k, t, &pool[0].0))?,
            },
            Txt::Rich(v) => {
                let v: Vec<(&Format, &str)> = v.iter().map(|(f, t)| (&pool[*f].0, t.as_str())).collect();
                if s.bool() {
                    must("write_rich_string", ws.write_rich_string(r, k, &v))?
                } else {
                    must("write_rich_string_with_format", ws.write_rich_string_with_format(r, k, &v, &pool[1].0))?
                }
            }
        };
        all.push(t.clone());
        want[i].insert((r, k), t);
        if resave && j == n / 2 {
            c.d(|| "saved in between".into());
            let b = save_book(&mut wb, c)?;
            check_cells(&b, &want, &pool)?;
        }
    }
    if n > 5 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    check_cells(&b, &want, &pool)
}

fn check_cells(b: &Book, want: &[BTreeMap<(u32, u16), Txt>], pool: &[(Format, Fm, String)]) -> R {
    // Different strings have different entries, equal ones share one.
    if let Some(x) = b.pkg.xml.get("xl/sharedStrings.xml") {
        let mut seen = HashSet::new();
        for (i, si) in x.children().enumerate() {
            ensure!(seen.insert(si.canon()), "shared", "shared string {i} is stored twice: {si:?}");
        }
    }
    for (i, m) in want.iter().enumerate() {
        let cells = b.cells(i)?;
        for ((r, k), t) in m {
            let at = format!("sheet {i} cell ({r},{k})");
            let got = match cells.get(&(*r, u32::from(*k))) {
                Some(g) => &g.v,
                None => fail!("cell", "{at}: missing"),
            };
            match (t, got) {
                (Txt::Plain(t), V::Str(g)) => ensure!(t == g, "text", "{at}: holds {g:?} where {t:?} expected"),
                (Txt::Rich(v), V::Rich(g)) => {
                    ensure_eq!(g.len(), v.len(), "runs", "{at}: number of runs");
                    for (j, ((f, t), (pr, g))) in v.iter().zip(g).enumerate() {
                        ensure!(t == g, "text", "{at} run {j}: holds {g:?} where {t:?} expected");
                        let w = pool[*f].1.font("rPr", false);
                        let plain = j == 0 && pool[*f].1.is_default();
                        if !(plain && pr.is_empty()) {
                            ensure!(*pr == w.canon(), "run format", "{at} run {j}: font {pr} where {} expected", w.canon());
                        }
                    }
                }
                (t, g) => fail!("cell", "{at}: holds {g:?} where {t:?} expected"),
            }
        }
        ensure_eq!(cells.len(), m.len(), "cell", "sheet {i}: number of cells");
    }
    Ok(())
}

/// Where a text must be found again: part prefix, element, attribute ("" = text,
/// "*" = text of all runs).
struct Place {
    what: &'static str,
    part: &'static str,
    elem: &'static str,
    attr: &'static str,
    text: String,
}

fn found(b: &Book, p: &Place) -> (bool, Vec<String>) {
    let mut seen = vec![];
    let mut ok = false;
    // Characters that XML cannot hold escaped, look-alikes of escapes left alone.
    let half: String = p.text.chars().map(|c| if kit::xml::is_xml_char(c) && c != '\r' { c.to_string() } else { format!("_x{:04X}_", c as u32) }).collect();
    for (n, x) in &b.pkg.xml {
        if !n.starts_with(p.part) || n.contains("_rels") {
            continue;
        }
        let mut look = |e: &Elem| {
            if e.name != p.elem {
                return;
            }
            let t = match p.attr {
                "" => Some(e.text()),
                "*" => match si_value(e) {
                    Ok(V::Str(t)) => Some(t),
                    Ok(V::Rich(v)) => Some(v.iter().map(|x| x.1.as_str()).collect()),
                    _ => None,
                },
                a => e.attr(a).map(Into::into),
            };
            if let Some(t) = t {
                ok |= t == p.text || t.replace('\r', "_x000D_") == half || unescape_xstring(&t) == p.text;
                seen.push(t);
            }
        };
        x.walk(&mut |e| look(e));
    }
    (ok, seen)
}

fn places(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let mut used = HashSet::new();
    let name = sheet_name(s, &mut used);
    let q = format!("'{}'", name.replace('\'', "''"));
    let mut ps: Vec<Place> = vec![];
    let mut serial = 0u32;
    // Text of any kind, and text of what XML can hold without an escape convention.
    let mut any = |s: &mut Src, max: usize| {
        serial += 1;
        // Short tags keep the texts of different places apart.
        let t = gen::text(s, max - 4);
        if s.bool() { format!("q{serial}{t}") } else { format!("{}{t}q{serial}", if t.is_empty() || t.starts_with(|c: char| !c.is_ascii_alphabetic()) { "q" } else { "" }) }
    };
    let xml = |t: String| -> String { t.chars().filter(|c| kit::xml::is_xml_char(*c) && *c != '\r').collect() };
    let line = |t: String| -> String { t.chars().filter(|c| kit::xml::is_xml_char(*c) && !c.is_control()).collect() };
    macro_rules! place {
        ($what:literal, $part:literal, $elem:literal, $attr:literal, $t:expr) => {{
            let t: String = $t;
            c.d(|| format!("{}: {t:?}", $what));
            ps.push(Place { what: $what, part: $part, elem: $elem, attr: $attr, text: t.clone() });
            t
        }};
    }
    let ws = wb.add_worksheet();
    must("set_name", ws.set_name(&name))?;
    must("write", ws.write(0, 0, 1))?;
    ps.push(Place { what: "sheet name", part: "xl/workbook.xml", elem: "sheet", attr: "name", text: name.clone() });
    c.d(|| format!("sheet {name:?}"));
    if s.bool() {
        let t = place!("header", "xl/worksheets/", "oddHeader", "", xml(any(s, 60).replace('[', "")));
        ws.set_header(format!("&C{t}"));
        ps.last_mut().unwrap().text = format!("&C{t}");
        let t = place!("footer", "xl/worksheets/", "oddFooter", "", any(s, 60).replace('[', ""));
        ws.set_footer(&t);
    }
    if s.bool() {
        let t = place!("note text", "xl/comments", "text", "*", any(s, 40));
        let a = place!("note author", "xl/comments", "author", "", any(s, 30));
        let alt = place!("note alternative text", "xl/drawings/vmlDrawing", "v:shape", "alt", any(s, 30));
        must("insert_note", ws.insert_note(3, 3, &Note::new(&t).set_author(&a).add_author_prefix(false).set_alt_text(&alt)))?;
    }
    if s.bool() {
        let it = place!("input title", "xl/worksheets/", "dataValidation", "promptTitle", any(s, 30));
        let im = place!("input message", "xl/worksheets/", "dataValidation", "prompt", any(s, 80));
        let et = place!("error title", "xl/worksheets/", "dataValidation", "errorTitle", any(s, 30));
        let em = place!("error message", "xl/worksheets/", "dataValidation", "error", any(s, 80));
        let li = place!("list item", "xl/worksheets/", "formula1", "", line(any(s, 40)).replace(',', ""));
        ps.last_mut().unwrap().text = format!("\"{}\"", li.replace('"', "\"\""));
        let v = must("list", DataValidation::new().allow_list_strings(&[li.as_str()]))?;
        let v = must("title", v.set_input_title(it))?;
        let v = must("message", v.set_input_message(im))?;
        let v = must("title", v.set_error_title(et))?;
        let v = must("message", v.set_error_message(em))?;
        must("add_data_validation", ws.add_data_validation(4, 4, 4, 4, &v))?;
    }
    if s.bool() {
        let t = place!("link text", "xl/sharedStrings.xml", "si", "*", any(s, 40));
        let tip = place!("link tip", "xl/worksheets/", "hyperlink", "tooltip", any(s, 40));
        must("write_url", ws.write_url(5, 5, Url::new("https://example.com/a").set_text(t).set_tip(tip)))?;
    }
    if s.bool() {
        let h = place!("table header", "xl/tables/", "tableColumn", "name", any(s, 30));
        ps.push(Place { what: "table header cell", part: "xl/sharedStrings.xml", elem: "si", attr: "*", text: h.clone() });
        let l = place!("table total label", "xl/tables/", "tableColumn", "totalsRowLabel", any(s, 30));
        ps.push(Place { what: "table total cell", part: "xl/sharedStrings.xml", elem: "si", attr: "*", text: l.clone() });
        let t = Table::new().set_total_row(true).set_columns(&[TableColumn::new().set_header(h).set_total_label(l)]);
        must("add_table", ws.add_table(10, 10, 14, 10, &t))?;
    }
    if s.bool() {
        let t = place!("number format", "xl/styles.xml", "numFmt", "formatCode", any(s, 30));
        let f = place!("font name", "xl/styles.xml", "name", "val", any(s, 30));
        must("write_with_format", ws.write_with_format(20, 0, 1, &Format::new().set_num_format(t).set_font_name(f)))?;
    }
    if s.bool() {
        let t = place!("formula", "xl/worksheets/", "f", "", xml(any(s, 40)).replace("_xlfn", ""));
        let f = format!("\"{}\"&A1", t.replace('"', "\"\""));
        ps.last_mut().unwrap().text.clone_from(&f);
        let r = place!("formula result", "xl/worksheets/", "v", "", any(s, 40));
        must("write_formula", ws.write_formula(21, 0, Formula::new(format!("={f}")).set_result(r)))?;
        let t = place!("rule formula", "xl/worksheets/", "formula", "", xml(any(s, 40)).replace("_xlfn", ""));
        let f = format!("A1=\"{}\"", t.replace('"', "\"\""));
        ps.last_mut().unwrap().text.clone_from(&f);
        let cf = ConditionalFormatFormula::new().set_rule(format!("={f}").as_str());
        must("add_conditional_format", ws.add_conditional_format(22, 0, 22, 0, &cf))?;
        let t = place!("rule text", "xl/worksheets/", "cfRule", "text", any(s, 40));
        let cf = ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains(t));
        must("add_conditional_format", ws.add_conditional_format(23, 0, 23, 0, &cf))?;
    }
    if s.bool() {
        let t = place!("filter value", "xl/worksheets/", "filter", "val", any(s, 30));
        must("autofilter", ws.autofilter(30, 0, 33, 1))?;
        must("filter_column", ws.filter_column(0, &FilterCondition::new().add_list_filter(t.as_str())))?;
        let t = place!("custom filter value", "xl/worksheets/", "customFilter", "val", any(s, 30).replace(['*', '?', '~'], ""));
        must("filter_column", ws.filter_column(1, &FilterCondition::new().add_custom_filter(FilterCriteria::EqualTo, t.as_str())))?;
    }
    if s.bool() {
        let alt = place!("image text", "xl/drawings/drawing", "xdr:cNvPr", "descr", any(s, 60));
        let img = crate::draw::gen_image(s, 1);
        must("insert_image", ws.insert_image(40, 0, &must("image", Image::new_from_buffer(&img.bytes))?.set_alt_text(alt)))?;
        let alt = place!("shape text", "xl/drawings/drawing", "xdr:cNvPr", "descr", any(s, 60));
        let t = place!("text box", "xl/drawings/drawing", "a:t", "", line(any(s, 40)));
        must("insert_shape", ws.insert_shape(41, 0, &Shape::textbox().set_text(t).set_alt_text(alt)))?;
        let alt = place!("button text", "xl/drawings/vmlDrawing", "v:shape", "alt", any(s, 60));
        let t = place!("button caption", "xl/drawings/vmlDrawing", "font", "", line(any(s, 40)));
        must("insert_button", ws.insert_button(42, 0, &Button::new().set_caption(t).set_alt_text(alt)))?;
    }
    if s.bool() {
        let mut ch = Chart::new(ChartType::Column);
        let n = place!("series name", "xl/charts/", "c:v", "", xml(any(s, 40).replace('!', "")));
        let lab = place!("data label", "xl/charts/", "a:t", "", xml(any(s, 40).replace('!', "")).replace('\n', ""));
        ch.add_series().set_values((name.as_str(), 0, 0, 1, 0)).set_name(n.as_str()).set_custom_data_labels(&[ChartDataLabel::new().set_value(lab.as_str()).to_custom()]);
        let t = place!("chart title", "xl/charts/", "a:t", "", xml(any(s, 40).replace('!', "")));
        ch.title().set_name(t.as_str());
        let t = place!("axis title", "xl/charts/", "a:t", "", xml(any(s, 40).replace('!', "")));
        ch.x_axis().set_name(t.as_str());
        let t = place!("axis number format", "xl/charts/", "c:numFmt", "formatCode", any(s, 30));
        ch.y_axis().set_num_format(t);
        let t = place!("chart name", "xl/drawings/drawing", "xdr:cNvPr", "name", any(s, 30));
        ch.set_name(t);
        let t = place!("chart text", "xl/drawings/drawing", "xdr:cNvPr", "descr", any(s, 30));
        ch.set_alt_text(t);
        let t = place!("trend line name", "xl/charts/", "c:name", "", xml(any(s, 30).replace('!', "")));
        let mut tl = ChartTrendline::new();
        tl.set_type(ChartTrendlineType::Linear).set_name(t);
        ch.add_series().set_values((name.as_str(), 0, 0, 1, 0)).set_trendline(&tl);
        must("insert_chart", ws.insert_chart(45, 0, &ch))?;
    }
    if s.bool() {
        let t = place!("defined name", "xl/workbook.xml", "definedName", "", xml(any(s, 40)).replace("_xlfn", ""));
        let f = format!("\"{}\"", t.replace('"', "\"\""));
        ps.last_mut().unwrap().text.clone_from(&f);
        must("define_name", wb.define_name("some_name", &format!("={f}")))?;
        must("define_name", wb.define_name(format!("{q}!local"), "=1"))?;
    }
    if s.bool() {
        let mut p = DocProperties::new();
        let t = place!("title", "docProps/core.xml", "dc:title", "", any(s, 40));
        p = p.set_title(t);
        let t = place!("author", "docProps/core.xml", "dc:creator", "", any(s, 40));
        p = p.set_author(t);
        let t = place!("comment", "docProps/core.xml", "dc:description", "", any(s, 40));
        p = p.set_comment(t);
        let t = place!("company", "docProps/app.xml", "Company", "", any(s, 40));
        p = p.set_company(t);
        let k = place!("property name", "docProps/custom.xml", "property", "name", any(s, 30));
        let t = place!("property value", "docProps/custom.xml", "vt:lpwstr", "", any(s, 40));
        p = p.set_custom_property(k, t);
        wb.set_properties(&p);
    }
    if ps.len() > 8 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    for p in &ps {
        let (ok, seen) = found(&b, p);
        ensure!(ok, p.what, "{}: {:?} not found in <{}> {} of {}*: {:?}", p.what, p.text, p.elem, p.attr, p.part, seen);
    }
    Ok(())
}

/// Every character, alone and next to the characters of the escape convention.
fn chars(s: &mut Src, c: &mut Ctx) -> R {
    let lo = s.below(1089) as u32;
    let (a, b) = if lo < 64 { (lo * 1024, lo * 1024 + 1024) } else { (0x10000 + (lo - 64) * 1024, 0x10000 + (lo - 63) * 1024) };
    let v: Vec<char> = (a..b).filter_map(char::from_u32).collect();
    c.d(|| format!("characters {a:x} to {b:x}"));
    if v.is_empty() {
        return Ok(());
    }
    c.hit();
    let pre = *s.pick(&["", "_x", "a", " ", "_x004", "_x0041"]);
    let post = *s.pick(&["", "_", "b", " ", "41_", "0041_"]);
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    for (i, ch) in v.iter().enumerate() {
        must("write", ws.write(i as u32, 0, format!("{pre}{ch}{post}")))?;
    }
    let b = save_book(&mut wb, c)?;
    let cells = b.cells(0)?;
    for (i, ch) in v.iter().enumerate() {
        let w = format!("{pre}{ch}{post}");
        let g = cells.get(&(i as u32, 0)).map(|g| g.v.clone());
        ensure!(g == Some(V::Str(w.clone())), "text", "U+{:04X}: {g:?} where {w:?} expected", *ch as u32);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "more than 5 cells, more than 8 places, or a non-empty block of characters",
        level: "randomised exploration with an independent reader; blocks of all characters in sampled contexts",
        assumptions: &["texts outside shared strings may be read raw or with _xHHHH_ decoded", "chart, formula and drawing texts have no control characters besides tab and line feed"],
        known: vec![],
        families: vec![fam("cells", 9000, 400_000, cells), fam("places", 5000, 250_000, places), fam("chars", 700, 40_000, chars)],
    }
}
