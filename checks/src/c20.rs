//! C20: page setup, print and view options are stored as requested.
use crate::fmt::*;
use crate::util::*;

#[derive(Clone, Debug)]
pub struct M {
    chartsheet: bool,
    rtl: bool,
    tab: Color,
    paper: u8,
    order: bool,
    landscape: bool,
    view: Option<&'static str>,
    rows: BTreeSet<u32>,
    cols: BTreeSet<u32>,
    zoom: u16,
    freeze: (u32, u16),
    freeze_top: (u32, u16),
    header: String,
    footer: String,
    scale_doc: bool,
    align: bool,
    margins: [f64; 6],
    first_page: u16,
    scale: u16,
    fit: Option<(u16, u16)>,
    center_h: bool,
    center_v: bool,
    screen_grid: bool,
    print_grid: bool,
    bw: bool,
    draft: bool,
    headings: bool,
    area: Option<(u32, u16, u32, u16)>,
    rep_rows: Option<(u32, u32)>,
    rep_cols: Option<(u16, u16)>,
    sel: Option<(String, String)>,
    top_left: Option<(u32, u16)>,
    above: bool,
    left: bool,
    hide_rows: bool,
    def_h: f64,
    ignored: BTreeMap<&'static str, BTreeSet<String>>,
    used: HashSet<(u32, u16, u32, u16)>,
    vba: Option<String>,
}

pub fn fresh(chartsheet: bool) -> M {
    M {
        chartsheet,
        rtl: false,
        tab: Color::Default,
        paper: 0,
        order: true,
        landscape: chartsheet,
        view: None,
        rows: BTreeSet::new(),
        cols: BTreeSet::new(),
        zoom: 100,
        freeze: (0, 0),
        freeze_top: (0, 0),
        header: String::new(),
        footer: String::new(),
        scale_doc: true,
        align: true,
        margins: [0.7, 0.7, 0.75, 0.75, 0.3, 0.3],
        first_page: 0,
        scale: 100,
        fit: None,
        center_h: false,
        center_v: false,
        screen_grid: true,
        print_grid: false,
        bw: false,
        draft: false,
        headings: false,
        area: None,
        rep_rows: None,
        rep_cols: None,
        sel: None,
        top_left: None,
        above: false,
        left: false,
        hide_rows: false,
        def_h: 15.0,
        ignored: BTreeMap::new(),
        used: HashSet::new(),
        vba: None,
    }
}

const CODES: [(&str, &str); 8] = [("&[Tab]", "&A"), ("&[Date]", "&D"), ("&[File]", "&F"), ("&[Page]", "&P"), ("&[Path]", "&Z"), ("&[Time]", "&T"), ("&[Pages]", "&N"), ("&[Picture]", "&G")];

/// A header or footer as (given, stored).
fn gen_hf(s: &mut Src) -> (String, String) {
    let (mut g, mut w) = (String::new(), String::new());
    for _ in 0..s.small(0, 6) {
        match s.below(6) {
            0..=1 => {
                let p = s.pick(&CODES);
                if !g.ends_with('&') {
                    g.push_str(p.0);
                    w.push_str(p.1);
                }
            }
            2 => {
                let p = *s.pick(&["&L", "&C", "&R", "&P", "&N", "&A", "&\"Arial,Bold\"", "&14", "&U", "[Page]", "Page ", "x&y", " < > ", "[Tab"]);
                g.push_str(p);
                w.push_str(p);
            }
            3 => {
                let n = s.pick(&[100usize, 120, 254, 255, 256]);
                let t = "é".repeat(*n);
                g.push_str(&t);
                w.push_str(&t);
            }
            _ => {
                let t = gen::line_text(s, 8).replace('&', "+");
                g.push_str(&t);
                w.push_str(&t);
            }
        }
    }
    (g, w)
}

fn lines(s: &mut Src, max: u32) -> Vec<u32> {
    if s.chance(1, 25) {
        let k = *s.pick(&[1022u32, 1023, 1024, 1025]);
        let mut v: Vec<u32> = (1..=k).collect();
        if s.bool() {
            v.push(0);
        }
        return v;
    }
    (0..s.small(1, 6)).map(|_| match s.below(8) { 0 => *s.pick(&[max - 1, max, max + 1]), 1 => s.u32(0, max - 1), 2 => 0, _ => s.u32(0, 60) }).collect()
}

/// A coordinate that is sometimes out of the sheet.
fn cell(s: &mut Src) -> (u32, u16) {
    let r = if s.chance(1, 30) { MAXR } else { row(s) };
    let c = if s.chance(1, 30) { MAXC } else { col(s) };
    (r, c)
}
fn inside(c: (u32, u16)) -> bool {
    c.0 < MAXR && c.1 < MAXC
}

const IGN: [(IgnoreError, &str); 9] = [
    (IgnoreError::NumberStoredAsText, "numberStoredAsText"),
    (IgnoreError::FormulaError, "evalError"),
    (IgnoreError::FormulaDiffers, "formula"),
    (IgnoreError::FormulaRefersToEmptyCells, "emptyCellReference"),
    (IgnoreError::FormulaOmitsCells, "formulaRange"),
    (IgnoreError::DataValidationError, "listDataValidation"),
    (IgnoreError::TwoDigitTextYear, "twoDigitTextYear"),
    (IgnoreError::UnlockedCellsWithFormula, "unlockedFormula"),
    (IgnoreError::InconsistentColumnFormula, "calculatedColumn"),
];

fn refused<T>(what: &str, ok: bool, r: Result<T, XlsxError>) -> R {
    if ok {
        must(what, r)?;
    } else {
        ensure!(r.is_err(), "accepted", "{what} accepted an invalid argument");
    }
    Ok(())
}

pub fn op(s: &mut Src, c: &mut Ctx, ws: &mut Worksheet, m: &mut M) -> R {
    // What only a worksheet has is accepted for a chart sheet too, and must
    // not spoil it.
    if m.chartsheet && s.chance(1, 4) {
        c.label("worksheet setting on a chart sheet");
        match s.below(17) {
            0 => { ws.set_right_to_left(s.bool()); }
            1 => { ws.set_page_order(s.bool()); }
            2 => { ws.set_view_page_layout(); }
            3 => { ws.set_view_page_break_preview(); }
            4 => { ws.set_view_normal(); }
            5 => { ws.set_print_scale(s.u16(10, 400)); }
            6 => { ws.set_print_fit_to_pages(s.u16(0, 3), s.u16(0, 3)); }
            7 => { ws.set_print_center_horizontally(s.bool()); }
            8 => { ws.set_print_center_vertically(s.bool()); }
            9 => { ws.set_screen_gridlines(s.bool()); }
            10 => { ws.set_print_gridlines(s.bool()); }
            11 => { ws.set_print_headings(s.bool()); }
            12 => { ws.group_symbols_above(s.bool()); }
            13 => { ws.group_symbols_to_left(s.bool()); }
            14 => { must("unprotect_range", ws.unprotect_range(0, 0, s.u32(0, 3), 2))?; }
            15 => { ws.hide_unused_rows(s.bool()); }
            _ => { ws.set_default_row_height(s.u16(10, 40)); }
        }
        return Ok(());
    }
    // Settings that a chart sheet has come first.
    let k = if m.chartsheet { s.below(13) } else { s.below(35) };
    match k {
        0 => {
            let col = match s.below(8) { 0 => Color::Automatic, 1 => Color::Default, _ => gen_color(s) };
            ws.set_tab_color(col);
            // An automatic or default colour is the same as none.
            m.tab = col;
        }
        1 => { m.paper = s.u8(0, 120); ws.set_paper_size(m.paper); }
        2 => { m.landscape = s.bool(); if m.landscape { ws.set_landscape(); } else { ws.set_portrait(); } }
        3 => {
            let z = *s.pick(&[100u16, 9, 10, 11, 75, 99, 101, 200, 399, 400, 401, 0, 1000]);
            ws.set_zoom(z);
            if (10..=400).contains(&z) { m.zoom = z; }
        }
        4 => {
            let (g, w) = gen_hf(s);
            ws.set_header(&g);
            if w.chars().count() <= 255 { m.header = w; } else { c.label("long header"); }
        }
        5 => {
            let (g, w) = gen_hf(s);
            ws.set_footer(&g);
            if w.chars().count() <= 255 { m.footer = w; } else { c.label("long footer"); }
        }
        6 => { m.scale_doc = s.bool(); ws.set_header_footer_scale_with_doc(m.scale_doc); }
        7 => { m.align = s.bool(); ws.set_header_footer_align_with_page(m.align); }
        8 => {
            let v: [f64; 6] = std::array::from_fn(|_| if s.chance(1, 4) { -1.0 } else { gen::dec(s, 0, 40, 20) });
            ws.set_margins(v[0], v[1], v[2], v[3], v[4], v[5]);
            for i in 0..6 { if v[i] >= 0.0 { m.margins[i] = v[i]; } }
        }
        9 => { m.bw = s.bool(); ws.set_print_black_and_white(m.bw); }
        10 => { m.draft = s.bool(); ws.set_print_draft(m.draft); }
        11 => { m.first_page = *s.pick(&[1u16, 2, 3, 100, 32767]); ws.set_print_first_page_number(m.first_page); }
        12 => {
            let name = format!("Code_{}{}", gen::word(s, 4), s.below(100));
            must("set_vba_name", ws.set_vba_name(&name))?;
            m.vba = Some(name);
        }
        13 => { m.rtl = s.bool(); ws.set_right_to_left(m.rtl); }
        14 => { m.order = s.bool(); ws.set_page_order(m.order); }
        15 => match s.below(3) {
            0 => { ws.set_view_normal(); m.view = None; }
            1 => { ws.set_view_page_layout(); m.view = Some("pageLayout"); }
            _ => { ws.set_view_page_break_preview(); m.view = Some("pageBreakPreview"); }
        },
        16 => {
            let v = lines(s, MAXR);
            let w: BTreeSet<u32> = v.iter().copied().filter(|r| *r > 0).collect();
            let ok = w.len() <= 1023 && w.iter().all(|r| *r < MAXR);
            let r = guard("set_page_breaks", || ws.set_page_breaks(&v).map(|_| ()))?;
            refused("set_page_breaks", ok, r)?;
            if ok { m.rows = w; }
        }
        17 => {
            let v = lines(s, u32::from(MAXC));
            let w: BTreeSet<u32> = v.iter().copied().filter(|r| *r > 0).collect();
            let ok = w.len() <= 1023 && w.iter().all(|r| *r < u32::from(MAXC));
            let r = guard("set_vertical_page_breaks", || ws.set_vertical_page_breaks(&v).map(|_| ()))?;
            refused("set_vertical_page_breaks", ok, r)?;
            if ok { m.cols = w; }
        }
        18 => {
            let p = if s.chance(1, 4) { (0, s.u16(0, 3)) } else if s.chance(1, 4) { (s.u32(0, 3), 0) } else { cell(s) };
            refused("set_freeze_panes", inside(p), ws.set_freeze_panes(p.0, p.1))?;
            if inside(p) { m.freeze = p; }
        }
        19 => {
            let p = cell(s);
            // The scrolled area starts at the freeze cell.
            let p = (p.0.max(m.freeze.0), p.1.max(m.freeze.1));
            refused("set_freeze_panes_top_cell", inside(p), ws.set_freeze_panes_top_cell(p.0, p.1))?;
            if inside(p) { m.freeze_top = p; }
        }
        20 => {
            let v = *s.pick(&[100u16, 9, 10, 50, 99, 400, 401, 0]);
            ws.set_print_scale(v);
            if (10..=400).contains(&v) { m.scale = v; m.fit = None; }
        }
        21 => {
            let f = (*s.pick(&[0u16, 1, 2, 5, 32767]), *s.pick(&[0u16, 1, 2, 5]));
            ws.set_print_fit_to_pages(f.0, f.1);
            m.fit = Some(f);
            m.scale = 100;
        }
        22 => { m.center_h = s.bool(); ws.set_print_center_horizontally(m.center_h); }
        23 => { m.center_v = s.bool(); ws.set_print_center_vertically(m.center_v); }
        24 => { m.screen_grid = s.bool(); ws.set_screen_gridlines(m.screen_grid); }
        25 => { m.print_grid = s.bool(); ws.set_print_gridlines(m.print_grid); }
        26 => { m.headings = s.bool(); ws.set_print_headings(m.headings); }
        27 => {
            let (a, b) = (cell(s), cell(s));
            let (a, b) = match s.below(8) {
                0 => ((0, a.1), (MAXR - 1, b.1)),
                1 => ((a.0, 0), (b.0, MAXC - 1)),
                2 => ((0, 0), (MAXR - 1, MAXC - 1)),
                _ => (a, b),
            };
            let ok = inside(a) && inside(b) && a.0 <= b.0 && a.1 <= b.1;
            refused("set_print_area", ok, ws.set_print_area(a.0, a.1, b.0, b.1))?;
            if ok {
                m.area = if (a, b) == ((0, 0), (MAXR - 1, MAXC - 1)) { None } else { Some((a.0, a.1, b.0, b.1)) };
                c.label("print area");
            }
        }
        28 => {
            let (a, b) = (cell(s).0, cell(s).0);
            let ok = a < MAXR && b < MAXR && a <= b;
            refused("set_repeat_rows", ok, ws.set_repeat_rows(a, b))?;
            if ok { m.rep_rows = Some((a, b)); c.label("titles"); }
        }
        29 => {
            let (a, b) = (cell(s).1, cell(s).1);
            let ok = a < MAXC && b < MAXC && a <= b;
            refused("set_repeat_columns", ok, ws.set_repeat_columns(a, b))?;
            if ok { m.rep_cols = Some((a, b)); c.label("titles"); }
        }
        30 => {
            let (a, b) = (cell(s), cell(s));
            let ok = inside(a) && inside(b);
            refused("set_selection", ok, ws.set_selection(a.0, a.1, b.0, b.1))?;
            if ok {
                m.sel = Some((cell_name(a.0, a.1.into()), range_name(a.0.min(b.0), a.1.min(b.1).into(), a.0.max(b.0), a.1.max(b.1).into())));
                c.label("selection");
            }
        }
        31 => {
            let a = if s.chance(1, 5) { (0, 0) } else { cell(s) };
            refused("set_top_left_cell", inside(a), ws.set_top_left_cell(a.0, a.1))?;
            if inside(a) { m.top_left = if a == (0, 0) { None } else { Some(a) }; }
        }
        32 => { if s.bool() { m.above = s.bool(); ws.group_symbols_above(m.above); } else { m.left = s.bool(); ws.group_symbols_to_left(m.left); } }
        33 => { m.hide_rows = s.bool(); ws.hide_unused_rows(m.hide_rows); }
        _ => {
            let a = cell(s);
            let b = if s.bool() { a } else { cell(s) };
            let e = s.pick(&IGN);
            let ok = inside(a) && inside(b) && a.0 <= b.0 && a.1 <= b.1;
            let k = (a.0, a.1, b.0, b.1);
            let free = !m.used.contains(&k);
            let r = if a == b && s.bool() { ws.ignore_error(a.0, a.1, e.0).map(|_| ()) } else { ws.ignore_error_range(a.0, a.1, b.0, b.1, e.0).map(|_| ()) };
            refused("ignore_error", ok && free, r)?;
            if ok && free {
                m.used.insert(k);
                m.ignored.entry(e.1).or_default().insert(range_name(a.0, a.1.into(), b.0, b.1.into()));
                c.label("ignored errors");
            }
        }
    }
    Ok(())
}

fn on(e: Option<&Elem>, k: &str, default: bool) -> bool {
    match e.and_then(|e| e.attr(k)) {
        Some("1" | "true") => true,
        Some("0" | "false") => false,
        Some(_) => !default,
        None => default,
    }
}

fn check(b: &Book, i: usize, m: &M) -> R {
    let x = b.sheet(i)?;
    macro_rules! eq { ($sig:literal, $got:expr, $want:expr) => { let (g, w) = ($got, $want); ensure!(g == w, $sig, "sheet {i}: {} is {g:?}, requested {w:?}", $sig); } }
    // sheetPr
    let pr = x.at("sheetPr");
    let tab = pr.and_then(|p| p.child("tabColor"));
    if matches!(m.tab, Color::Default | Color::Automatic) {
        ensure!(m.tab == Color::Automatic || tab.is_none_or(|t| t.attr("auto") == Some("1")), "tab-color", "sheet {i}: has a tab colour {:?}", tab.unwrap().canon());
    } else {
        let want = color_attrs(m.tab, el("tabColor"));
        let d = tab.map_or(Some("none".to_string()), |t| diff(t, &want));
        ensure!(d.is_none(), "tab-color", "sheet {i}: tab colour: {}", d.unwrap());
    }
    eq!("code-name", pr.and_then(|p| p.attr("codeName")), m.vba.as_deref());
    eq!("fit", on(pr.and_then(|p| p.child("pageSetUpPr")), "fitToPage", false), m.fit.is_some());
    let o = pr.and_then(|p| p.child("outlinePr"));
    eq!("outline-below", on(o, "summaryBelow", true), !m.above);
    eq!("outline-right", on(o, "summaryRight", true), !m.left);
    // view
    let views = x.at("sheetViews").map(|v| v.all("sheetView").count()).unwrap_or(0);
    eq!("views", views, 1);
    let v = x.at("sheetViews/sheetView");
    let vv = v.unwrap();
    eq!("screen-gridlines", on(v, "showGridLines", true), m.screen_grid);
    eq!("right-to-left", on(v, "rightToLeft", false), m.rtl);
    eq!("view", vv.attr("view").filter(|t| *t != "normal"), m.view);
    eq!("zoom", vv.attr("zoomScale").unwrap_or("100").to_string(), m.zoom.to_string());
    for (k, mode) in [("zoomScaleNormal", None), ("zoomScalePageLayoutView", Some("pageLayout")), ("zoomScaleSheetLayoutView", Some("pageBreakPreview"))] {
        let want = (m.zoom != 100 && m.view == mode && !m.chartsheet).then(|| m.zoom.to_string());
        eq!("view-zoom", vv.attr(k).map(String::from), want);
    }
    eq!("top-left", vv.attr("topLeftCell").map(String::from), m.top_left.map(|t| cell_name(t.0, t.1.into())));
    // panes and selection
    let pane = vv.child("pane");
    eq!("pane", pane.is_some(), m.freeze != (0, 0));
    let mut active = "topLeft";
    if let Some(p) = pane {
        let (r, c) = m.freeze;
        eq!("x-split", p.attr("xSplit").unwrap_or("0").to_string(), c.to_string());
        eq!("y-split", p.attr("ySplit").unwrap_or("0").to_string(), r.to_string());
        let t = if m.freeze_top == (0, 0) { m.freeze } else { m.freeze_top };
        eq!("pane-top-cell", p.attr("topLeftCell").map(String::from), Some(cell_name(t.0, t.1.into())));
        active = if r > 0 && c > 0 { "bottomRight" } else if c > 0 { "topRight" } else { "bottomLeft" };
        eq!("active-pane", p.attr("activePane"), Some(active));
        eq!("frozen", p.attr("state"), Some("frozen"));
    }
    let sels: Vec<_> = vv.all("selection").collect();
    let mut seen = BTreeSet::new();
    for e in &sels {
        ensure!(seen.insert(e.attr("pane").unwrap_or("topLeft").to_string()), "selection", "sheet {i}: two selections for a pane");
    }
    if let Some((cell, range)) = &m.sel {
        let ok = sels.iter().any(|e| [Some(active), None].contains(&e.attr("pane")) && e.attr("activeCell") == Some(cell) && e.attr("sqref") == Some(range));
        ensure!(ok, "selection", "sheet {i}: no selection of {cell} in {range}: {}", vv.canon());
    } else {
        ensure!(sels.iter().all(|e| e.attr("pane").is_some()), "selection", "sheet {i}: unrequested selection {}", vv.canon());
    }
    // format
    if !m.chartsheet {
        let f = x.at("sheetFormatPr");
        eq!("zero-height", on(f, "zeroHeight", false), m.hide_rows);
    }
    // print options
    let p = x.at("printOptions");
    eq!("center-h", on(p, "horizontalCentered", false), m.center_h);
    eq!("center-v", on(p, "verticalCentered", false), m.center_v);
    eq!("headings", on(p, "headings", false), m.headings);
    eq!("print-gridlines", on(p, "gridLines", false), m.print_grid);
    let p = x.at("pageMargins");
    for (k, want) in ["left", "right", "top", "bottom", "header", "footer"].iter().zip(m.margins) {
        let got = p.and_then(|p| p.attr(k)).and_then(|t| t.parse::<f64>().ok());
        ensure!(got == Some(want), "margins", "sheet {i}: margin {k} is {got:?}, requested {want}");
    }
    let p = x.at("pageSetup");
    let get = |k: &str, d: &str| p.and_then(|p| p.attr(k)).unwrap_or(d).to_string();
    eq!("paper", get("paperSize", if m.paper == 1 { "1" } else { "0" }), m.paper.to_string());
    eq!("scale", get("scale", "100"), m.scale.to_string());
    if let Some((w, h)) = m.fit {
        eq!("fit-width", get("fitToWidth", "1"), w.to_string());
        eq!("fit-height", get("fitToHeight", "1"), h.to_string());
    }
    eq!("page-order", get("pageOrder", "downThenOver"), if m.order { "downThenOver".to_string() } else { "overThenDown".to_string() });
    // A chart sheet without page settings prints in landscape.
    if !(m.chartsheet && p.is_none()) {
        let o = get("orientation", "portrait");
        eq!("orientation", if o == "default" { "portrait".to_string() } else { o }, if m.landscape { "landscape".to_string() } else { "portrait".to_string() });
    }
    eq!("first-page", (on(p, "useFirstPageNumber", false), get("firstPageNumber", "1")), (m.first_page > 0, m.first_page.max(1).to_string()));
    eq!("black-white", on(p, "blackAndWhite", false), m.bw);
    eq!("draft", on(p, "draft", false), m.draft);
    let h = x.at("headerFooter");
    eq!("scale-with-doc", on(h, "scaleWithDoc", true), m.scale_doc);
    eq!("align-with-margins", on(h, "alignWithMargins", true), m.align);
    for (k, want) in [("oddHeader", &m.header), ("oddFooter", &m.footer)] {
        let got = h.and_then(|h| h.child(k)).map(|e| e.text()).unwrap_or_default();
        ensure!(got == *want || kit::xml::unescape_xstring(&got) == *want, "header-footer", "sheet {i}: {k} is {got:?}, requested {want:?}");
    }
    // breaks
    for (k, want, max) in [("rowBreaks", &m.rows, "16383"), ("colBreaks", &m.cols, "1048575")] {
        let e = x.at(k);
        let got: Vec<u32> = e.map(|e| e.all("brk").filter_map(|b| b.attr("id")?.parse().ok()).collect()).unwrap_or_default();
        eq!("breaks", got.clone(), want.iter().copied().collect::<Vec<_>>());
        if let Some(e) = e {
            let n = want.len().to_string();
            ensure!(!want.is_empty() && e.attr("count") == Some(&n) && e.attr("manualBreakCount") == Some(&n), "break-count", "sheet {i}: {k} {:?}", e.attrs);
            for b in e.all("brk") {
                ensure!(b.attr("man") == Some("1") && b.attr("max") == Some(max), "break", "sheet {i}: {k} {:?}", b.attrs);
            }
        }
    }
    // ignored errors
    let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for e in x.descendants("ignoredError") {
        for (k, v) in &e.attrs {
            if k.to_string() != "sqref" {
                ensure!(v == "1" && IGN.iter().any(|(_, n)| *n == k.to_string()), "ignored", "sheet {i}: ignoredError has {k}={v}");
                got.entry(k.to_string()).or_default().extend(e.attr("sqref").unwrap_or("").split(' ').map(String::from));
            }
        }
    }
    let want: BTreeMap<String, BTreeSet<String>> = m.ignored.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    eq!("ignored", got, want);
    Ok(())
}

/// Print areas and titles as workbook names.
fn check_names(b: &Book, names: &[String], ms: &[M]) -> R {
    let mut want: BTreeSet<(usize, &str, String)> = BTreeSet::new();
    for (i, m) in ms.iter().enumerate() {
        let _ = &names[i];
        if let Some(a) = m.area {
            let t = if a.0 == 0 && a.2 == MAXR - 1 {
                format!("${}:${}", col_name(a.1.into()), col_name(a.3.into()))
            } else if a.1 == 0 && a.3 == MAXC - 1 {
                format!("${}:${}", a.0 + 1, a.2 + 1)
            } else {
                abs_range(a.0, a.1.into(), a.2, a.3.into())
            };
            want.insert((i, "_xlnm.Print_Area", t));
        }
        if m.rep_rows.is_some() || m.rep_cols.is_some() {
            let mut v = vec![];
            if let Some((a, b)) = m.rep_cols {
                v.push(format!("${}:${}", col_name(a.into()), col_name(b.into())));
            }
            if let Some((a, b)) = m.rep_rows {
                v.push(format!("${}:${}", a + 1, b + 1));
            }
            want.insert((i, "_xlnm.Print_Titles", v.join(",")));
        }
    }
    let mut got: BTreeSet<(usize, &str, String)> = BTreeSet::new();
    for d in b.workbook().descendants("definedName") {
        let i: usize = d.attr("localSheetId").and_then(|t| t.parse().ok()).unwrap_or(usize::MAX);
        ensure!(i < names.len(), "name", "defined name {:?} has no sheet", d.attrs);
        let text = d.text();
        let mut parts = vec![];
        // Sheet names here hold no comma.
        for p in text.split(',') {
            let (sh, r) = split_ref(p)?;
            ensure!(sh == names[i], "name-sheet", "defined name of sheet {i} {:?} refers to {sh:?}", names[i]);
            parts.push(r);
        }
        let mut r = parts.join(",");
        if let Ok(q) = parse_range(&r.replace('$', "")) {
            if !r.contains(':') || q.0 == q.2 && q.1 == q.3 {
                r = abs_range(q.0, q.1, q.2, q.3);
            }
        }
        ensure!(got.insert((i, d.attr("name").unwrap_or(""), r.clone())), "name-twice", "defined name twice for sheet {i}: {r}");
    }
    ensure!(got == want, "names", "print names are {got:?}, requested {want:?}");
    Ok(())
}

fn settings(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let n = s.small(1, 3);
    let mut names = vec![];
    let mut ms: Vec<M> = vec![];
    for i in 0..n {
        let cs = i > 0 && s.chance(1, 5);
        let name = (*s.pick(&["Sheet", "My Sheet", "It's", "Blätter"])).to_string() + &i.to_string();
        let ws = if cs {
            let ws = wb.add_chartsheet();
            let mut ch = Chart::new_line();
            ch.add_series().set_values((names.first().unwrap_or(&name).as_str(), 0, 0, 2, 0));
            must("insert_chart", ws.insert_chart(0, 0, &ch))?;
            c.label("chart sheet");
            ws
        } else {
            wb.add_worksheet()
        };
        must("set_name", ws.set_name(&name))?;
        names.push(name);
        ms.push(fresh(cs));
    }
    let rounds = if s.chance(1, 5) { 2 } else { 1 };
    let mut total = 0;
    for round in 0..rounds {
        for _ in 0..s.small(1, 14) {
            let i = s.idx(n);
            let ws = must("sheet", wb.worksheet_from_index(i))?;
            op(s, c, ws, &mut ms[i])?;
            total += 1;
        }
        c.d(|| format!("{n} sheets, {total} settings, save {round}: {:?}", ms[0]));
        let b = save_book(&mut wb, c)?;
        for (i, m) in ms.iter().enumerate() {
            check(&b, i, m)?;
            if !m.chartsheet {
                kit::opc::Pkg::order(b.sheet(i)?, kit::opc::WS_ORDER, "worksheet")?;
            }
            if let Some(pr) = b.sheet(i)?.at("sheetPr") {
                kit::opc::Pkg::order(pr, &["tabColor", "outlinePr", "pageSetUpPr"], "sheetPr")?;
            }
        }
        check_names(&b, &names, &ms)?;
    }
    if rounds == 2 {
        c.label("saved twice");
    }
    if total > 2 {
        c.hit();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "more than two settings",
        level: "exploration",
        assumptions: &["how an automatic tab colour is stored is left open", "a selection belongs to the active pane or to none"],
        families: vec![fam("settings", 12000, 400_000, settings)],
        known: vec![],
    }
}
