//! A builder of whole workbooks out of every feature at once. A workbook is a
//! plan: the tape of its set-up and one tape per operation, so that it can be
//! built again, wholly, in part, or with saves in between.
use crate::draw::{gen_image, ImgM};
use crate::fmt::{gen_color, gen_fmt, gen_pool, Fm};
use crate::util::*;
use crate::*;

pub struct Sheet {
    pub chart: bool,
    cells: c02::Sheet,
    fmts: c04::Sh,
    links: c14::Sh,
    lines: c18::Sh,
    page: c20::M,
    imgs: c22::Sh,
    dvs: Vec<c13::Dv>,
}

impl Sheet {
    fn new(chart: bool) -> Sheet {
        Sheet { chart, cells: c02::Sheet::fresh(), fmts: Default::default(), links: Default::default(), lines: Default::default(), page: c20::fresh(chart), imgs: Default::default(), dvs: vec![] }
    }
}

pub struct K {
    pub wb: Workbook,
    pub st: Vec<Sheet>,
    pub names: Vec<String>,
    pool: Vec<(Format, Fm, String)>,
    pub imgs: Vec<ImgM>,
    links: Vec<String>,
    tables: HashSet<String>,
    used: HashSet<String>,
    log: Vec<String>,
    /// Kinds of content added so far.
    pub kinds: BTreeSet<&'static str>,
}

#[derive(Clone, Default)]
pub struct Plan {
    pub init: Vec<u64>,
    pub ops: Vec<Vec<u64>>,
}

/// What became of an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Did {
    Done(&'static str),
    Refused(String),
}

impl K {
    /// The set-up: sheets, and pools of formats, images and links.
    pub fn start(s: &mut Src) -> R<K> {
        let n = s.small(1, 4);
        let mut k = K { wb: Workbook::new(), st: vec![], names: vec![], pool: gen_pool(s, 4, 3), imgs: vec![], links: c14::gen_links(s), tables: HashSet::new(), used: HashSet::new(), log: vec![], kinds: BTreeSet::new() };
        for i in 0..s.small(1, 3) {
            k.imgs.push(gen_image(s, i as u32));
        }
        let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
        let mut p = DocProperties::new();
        p = p.set_creation_datetime(&date);
        if s.chance(1, 3) {
            p = p.set_title(gen::xml_text(s, 10)).set_author(gen::xml_text(s, 10)).set_company(gen::xml_text(s, 10));
            p = p.set_custom_property("A", gen::xml_text(s, 10)).set_custom_property("B", 1);
        }
        k.wb.set_properties(&p);
        for i in 0..n {
            let chart = i > 0 && s.chance(1, 7);
            k.add_sheet(s, chart)?;
        }
        Ok(k)
    }
    fn add_sheet(&mut self, s: &mut Src, chart: bool) -> R {
        // Some borrowed operations refer to a sheet of this name.
        let name = if self.names.is_empty() { "Sheet1".to_string() } else { sheet_name(s, &mut self.used).replace(['!', '='], "_") };
        let first = self.names.first().cloned().unwrap_or_else(|| name.clone());
        let ws = if chart { self.wb.add_chartsheet() } else { self.wb.add_worksheet() };
        // Two names may become the same by the replacement above.
        let name = if self.names.iter().any(|n| n.to_lowercase() == name.to_lowercase()) { format!("Tab {}", self.names.len()) } else { name };
        must("set_name", ws.set_name(&name).map(|_| ()))?;
        if chart {
            let mut ch = Chart::new(ChartType::Line);
            ch.add_series().set_values((first.as_str(), 0, 0, 3, 0));
            must("insert_chart", ws.insert_chart(0, 0, &ch).map(|_| ()))?;
            self.kinds.insert("chart sheet");
        }
        self.names.push(name);
        self.st.push(Sheet::new(chart));
        Ok(())
    }
    /// One operation, with arguments of its own choice.
    pub fn op(&mut self, s: &mut Src, c: &mut Ctx) -> R<Did> {
        match guard("operation", || self.step(s, c))? {
            Ok(d) => {
                if let Did::Done(k) = d {
                    self.kinds.insert(k);
                }
                Ok(d)
            }
            // Operations borrowed from the other checks may give up.
            Err(e) if e.sig == "panic" => Err(e),
            Err(e) => Ok(Did::Refused(e.msg)),
        }
    }
    fn step(&mut self, s: &mut Src, c: &mut Ctx) -> R<Did> {
        let w = s.below(100);
        if w < 5 {
            return self.book_op(s);
        }
        let i = s.idx(self.st.len());
        let K { wb, st, names, pool, imgs, links, tables, log, .. } = self;
        let ws = must("sheet", wb.worksheet_from_index(i))?;
        let m = &mut st[i];
        if m.chart {
            if s.chance(1, 6) {
                let ch = gen_chart(s, names);
                return done("chart", ws.insert_chart(0, 0, &ch));
            }
            if s.chance(1, 6) {
                let x = must("image", Image::new_from_buffer(&s.pick(imgs).bytes))?.set_alt_text(gen::xml_text(s, 8));
                return if s.bool() {
                    ws.set_header("&L&[Picture]&C&G&R&G");
                    done("header image", ws.set_header_image(&x, s.pick(&[HeaderImagePosition::Left, HeaderImagePosition::Center, HeaderImagePosition::Right]).clone()))
                } else {
                    ws.set_footer("&R&[Picture]");
                    done("header image", ws.set_footer_image(&x, HeaderImagePosition::Right))
                };
            }
            if s.chance(1, 8) {
                ws.protect_with_password(&gen::word(s, 6));
                return Ok(Did::Done("protect"));
            }
            c20::op(s, c, ws, &mut m.page)?;
            return Ok(Did::Done("page"));
        }
        let f = pool[s.idx(pool.len())].0.clone();
        let im = |s: &mut Src| -> R<Image> {
            let im = must("image", Image::new_from_buffer(&s.pick(imgs).bytes))?;
            Ok(match s.below(5) {
                0 => im.set_alt_text(gen::xml_text(s, 8)),
                1 => im.set_decorative(true),
                2 => im.set_scale_width(0.5).set_scale_height(0.25),
                3 => must("image url", im.set_url("https://example.com/"))?,
                _ => im,
            })
        };
        let (r, k) = (s.u32(0, 12), s.u16(0, 8));
        let (r2, k2) = (r + s.u32(0, 4), k + s.u16(0, 3));
        let off = (*s.pick(&[0u32, 1, 10, 64]), *s.pick(&[0u32, 1, 5, 20]));
        match w {
            5..=24 => {
                c02::step(s, ws, &mut m.cells, c)?;
                Ok(Did::Done("cells"))
            }
            25..=30 => {
                c04::op(s, ws, &mut m.fmts, pool, c)?;
                Ok(Did::Done("formats"))
            }
            31..=36 => {
                let (n, mut names2) = (s.small(1, 4), tables.clone());
                let (t, _, _) = c11::gen_table(s, pool, n, &mut names2);
                let x = ws.add_table(r, k, r + s.u32(1, 6), k + n as u16 - 1, &t);
                if x.is_ok() {
                    *tables = names2;
                }
                done("table", x)
            }
            37..=40 => {
                c12::add(s, ws, pool, c)?;
                Ok(Did::Done("conditional"))
            }
            41..=44 => {
                c13::add(s, ws, &mut m.dvs, c)?;
                Ok(Did::Done("validation"))
            }
            45..=50 => {
                let n = s.idx(10);
                c14::op(s, ws, &mut m.links, links, pool, &imgs[0], n, c)?;
                Ok(Did::Done("link"))
            }
            51..=55 => {
                c18::op(s, ws, &mut m.lines, pool, log)?;
                Ok(Did::Done("lines"))
            }
            56..=60 => {
                c20::op(s, c, ws, &mut m.page)?;
                Ok(Did::Done("page"))
            }
            61..=65 => {
                c22::op(s, ws, &mut m.imgs, imgs, c)?;
                Ok(Did::Done("image"))
            }
            66..=69 => {
                let (n, _) = c25::gen_note(s, c);
                done("note", ws.insert_note(r, k, &n))
            }
            70..=73 => {
                let (x, _) = c33::gen_shape(s, links, c)?;
                done("shape", ws.insert_shape_with_offset(r, k, &x, off.0, off.1))
            }
            74..=75 => {
                let (x, _) = c33::gen_button(s, c);
                done("button", ws.insert_button_with_offset(r, k, &x, off.0, off.1))
            }
            76..=77 => {
                c28::add(s, ws, names, c)?;
                Ok(Did::Done("sparkline"))
            }
            78..=83 => {
                let ch = gen_chart(s, names);
                done("chart", ws.insert_chart_with_offset(r, k, &ch, off.0, off.1))
            }
            84..=86 => {
                let t = gen::text(s, 8);
                done("merge", ws.merge_range(r, k, r2, k2, &t, &f))
            }
            87..=88 => match s.below(4) {
                0 => {
                    let fc = FilterCondition::new().add_list_filter(s.below(5) as f64).add_list_filter("a");
                    done("filter", ws.filter_column(k, &fc))
                }
                1 => {
                    let fc = FilterCondition::new().add_custom_filter(*s.pick(&[FilterCriteria::EqualTo, FilterCriteria::GreaterThan, FilterCriteria::Contains]), s.below(4) as f64);
                    done("filter", ws.filter_column(k, &fc))
                }
                _ => done("filter", ws.autofilter(r, k, r2, k2)),
            },
            89..=90 => match s.below(5) {
                0 => Ok(Did::Done({
                    ws.protect_with_password(&gen::word(s, 6));
                    "protect"
                })),
                1 => Ok(Did::Done({
                    ws.protect();
                    "protect"
                })),
                2 => {
                    let t = gen::word(s, 8);
                    done("protect", ws.unprotect_range_with_options(r, k, r2, k2, &t, "pw"))
                }
                3 => done("protect", ws.ignore_error_range(r, k, r2, k2, *s.pick(&[IgnoreError::NumberStoredAsText, IgnoreError::FormulaDiffers, IgnoreError::TwoDigitTextYear]))),
                _ => done("protect", ws.unprotect_range(r, k, r2, k2)),
            },
            91..=92 => match s.below(4) {
                0 => {
                    let x = im(s)?;
                    ws.insert_background_image(&x);
                    Ok(Did::Done("background"))
                }
                1 => {
                    let x = im(s)?;
                    ws.set_header("&L&[Picture]&C&G");
                    done("header image", ws.set_header_image(&x, s.pick(&[HeaderImagePosition::Left, HeaderImagePosition::Center]).clone()))
                }
                2 => {
                    let x = im(s)?;
                    ws.set_footer("&R&[Picture]");
                    done("header image", ws.set_footer_image(&x, HeaderImagePosition::Right))
                }
                _ => {
                    let x = im(s)?;
                    done("image", ws.insert_image_fit_to_cell(r, k, &x, s.bool()))
                }
            },
            93 => {
                if s.bool() {
                    ws.autofit();
                } else {
                    ws.autofit_to_max_width(s.u16(20, 200));
                }
                Ok(Did::Done("autofit"))
            }
            94 => {
                let x = im(s)?;
                done("embedded", ws.embed_image(r, k, &x))
            }
            95 => done("checkbox", if s.bool() { ws.insert_checkbox(r, k, s.bool()) } else { ws.insert_checkbox_with_format(r, k, s.bool(), &f) }),
            96 => {
                ws.clear_cell(r, k);
                Ok(Did::Done("clear"))
            }
            97 => {
                let v: Vec<Vec<f64>> = (0..s.u32(1, 3)).map(|_| (0..s.u32(0, 4)).map(|_| gen::finite(s)).collect()).collect();
                done("matrix", ws.write_row_matrix(r, k, v))
            }
            98 => {
                let (a, b) = (gen::text1(s, 5), gen::text1(s, 5));
                done("rich", ws.write_rich_string(r, k, &[(&f, a.as_str()), (&Format::default(), b.as_str())]))
            }
            _ => done("formula", if s.bool() { ws.write_dynamic_array_formula(r, k, r2, k2, "=SORT(A1:A5)") } else { ws.write_array_formula_with_format(r, k, r2, k2, "=A1*2", &f) }),
        }
    }
    fn book_op(&mut self, s: &mut Src) -> R<Did> {
        match s.below(6) {
            0 | 1 if self.st.len() < 8 => {
                let chart = s.chance(1, 4);
                self.add_sheet(s, chart)?;
                Ok(Did::Done("sheet"))
            }
            2 | 3 => {
                let n = if s.bool() { format!("{}_{}", gen::word(s, 4), s.below(9)) } else { format!("'{}'!N_{}", s.pick(&self.names).replace('\'', "''"), gen::word(s, 3)) };
                done("defined name", self.wb.define_name(n, &format!("={}", *s.pick(&["$A$1", "1.5", "\"x&y\"", "Sheet1!$A$1:$B$2"]))))
            }
            4 => {
                let i = s.idx(self.st.len());
                let ws = must("sheet", self.wb.worksheet_from_index(i))?;
                match s.below(4) {
                    0 if i > 0 => ws.set_hidden(true),
                    1 if i > 0 => ws.set_very_hidden(true),
                    2 => ws.set_active(true),
                    _ => ws.set_selected(true),
                };
                Ok(Did::Done("state"))
            }
            _ => {
                self.wb.use_zip_large_file(s.bool());
                if s.bool() {
                    self.wb.read_only_recommended();
                }
                Ok(Did::Done("book"))
            }
        }
    }
}

fn done<T>(kind: &'static str, r: Result<T, XlsxError>) -> R<Did> {
    Ok(match r {
        Ok(_) => Did::Done(kind),
        Err(e) => Did::Refused(format!("{kind}: {e}")),
    })
}

/// A chart of any type, plain enough to be valid.
pub fn gen_chart(s: &mut Src, names: &[String]) -> Chart {
    use ChartType::*;
    const T: [ChartType; 24] = [
        Line, Area, AreaStacked, AreaPercentStacked, Bar, BarStacked, BarPercentStacked, Column, ColumnStacked, ColumnPercentStacked, Doughnut, LineStacked, LinePercentStacked, Pie, Radar, RadarWithMarkers, RadarFilled, Scatter, ScatterStraight,
        ScatterStraightWithMarkers, ScatterSmooth, ScatterSmoothWithMarkers, Stock, Column,
    ];
    let ty = *s.pick(&T);
    let mut ch = Chart::new(ty);
    fill_chart(s, &mut ch, names);
    if matches!(ty, Column | Line | Bar | Area) && s.chance(1, 4) {
        let mut other = Chart::new(*s.pick(&[Line, Column, Scatter]));
        fill_chart(s, &mut other, names);
        ch.combine(&other);
    }
    ch
}
fn fill_chart(s: &mut Src, ch: &mut Chart, names: &[String]) {
    for _ in 0..s.u32(1, 3) {
        let n = s.pick(names).clone();
        let (r, k) = (s.u32(0, 5), s.u16(0, 4));
        let sr = ch.add_series();
        sr.set_values((n.as_str(), r, k, r + s.u32(0, 5), k));
        if s.bool() {
            sr.set_categories((n.as_str(), r, k + 1, r + 3, k + 1));
        }
        match s.below(5) {
            0 => {
                sr.set_name((n.as_str(), r, k));
            }
            1 => {
                sr.set_name(gen::word(s, 5).as_str());
            }
            _ => {}
        }
        if s.chance(1, 4) {
            sr.set_format(ChartFormat::new().set_solid_fill(ChartSolidFill::new().set_color(gen_color(s))));
        }
        if s.chance(1, 4) {
            sr.set_data_label(ChartDataLabel::new().show_value());
        }
        if s.chance(1, 6) {
            sr.set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Linear));
        }
        if s.chance(1, 6) {
            let mut eb = ChartErrorBars::new();
            eb.set_type(if s.bool() { ChartErrorBarsType::StandardError } else { ChartErrorBarsType::Custom(ChartRange::new_from_range(&n, r, k, r + 2, k), ChartRange::new_from_range(&n, r, k, r + 2, k)) });
            sr.set_y_error_bars(&eb);
        }
        if s.chance(1, 6) {
            sr.set_secondary_axis(true);
        }
    }
    match s.below(5) {
        0 => {
            ch.title().set_name((s.pick(names).as_str(), 0, 0));
        }
        1 => {
            ch.title().set_name(gen::word(s, 9).as_str());
        }
        _ => {}
    }
    if s.chance(1, 4) {
        ch.x_axis().set_name("x");
        ch.y_axis().set_name((s.pick(names).as_str(), 1, 1)).set_major_gridlines(s.bool());
    }
    if s.chance(1, 5) {
        ch.set_alt_text(gen::word(s, 5));
    }
}

/// Generates a plan by building it.
pub fn generate(s: &mut Src, c: &mut Ctx, n: usize, mut each: impl FnMut(usize, &mut K, &Did, &mut Ctx) -> R) -> R<(K, Plan)> {
    let a = s.rec.len();
    let mut k = K::start(s)?;
    let mut plan = Plan { init: s.rec[a..].to_vec(), ops: vec![] };
    for i in 0..n {
        let a = s.rec.len();
        let d = k.op(s, c)?;
        plan.ops.push(s.rec[a..].to_vec());
        c.d(|| format!("{i}: {d:?} {:?}", &plan.ops[i]));
        each(i, &mut k, &d, c)?;
    }
    Ok((k, plan))
}

/// Builds a plan again.
pub fn build(plan: &Plan, mut each: impl FnMut(usize, &mut K, &Did) -> R) -> R<K> {
    let mut k = K::start(&mut Src::replay(&plan.init))?;
    let mut c = Ctx::default();
    for (i, t) in plan.ops.iter().enumerate() {
        let d = k.op(&mut Src::replay(t), &mut c)?;
        each(i, &mut k, &d)?;
    }
    Ok(k)
}

/// Saves; an error of the library is a value.
pub fn try_save(wb: &mut Workbook, c: &mut Ctx) -> R<Result<Vec<u8>, String>> {
    c.evals += 1;
    Ok(guard("save", || wb.save_to_buffer())?.map_err(|e| e.to_string()))
}

/// The parts of a package must be the same bytes.
pub fn same_parts(a: &Pkg, b: &Pkg, what: &str) -> R {
    ensure!(a.names == b.names, "parts", "{what}: the lists of parts differ: {:?} / {:?}", a.names, b.names);
    for n in &a.names {
        if a.bytes[n] != b.bytes[n] {
            let (x, y) = (&a.bytes[n], &b.bytes[n]);
            let at = x.iter().zip(y.iter()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let cut = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(120)..(at + 160).min(v.len())]).to_string();
            fail!("content", "{what}: part {n} differs at byte {at}:\n  one:   …{}…\n  other: …{}…", cut(x), cut(y));
        }
    }
    Ok(())
}

/// Style and text indices replaced by what they stand for, for comparing
/// packages whose tables of styles and texts are ordered differently.
pub fn resolved(b: &Book) -> R<BTreeMap<String, Elem>> {
    let st = b.style_sheet()?.clone();
    let list = |tag: &str| -> Vec<String> { st.child(tag).map(|e| e.children().map(|x| x.canon()).collect()).unwrap_or_default() };
    let (fonts, fills, borders) = (list("fonts"), list("fills"), list("borders"));
    let fmts: HashMap<String, String> = st.child("numFmts").map(|e| e.children().map(|x| (x.attr("numFmtId").unwrap_or("").to_string(), x.attr("formatCode").unwrap_or("").to_string())).collect()).unwrap_or_default();
    let at = |v: &[String], i: Option<&str>| -> String { i.and_then(|i| i.parse::<usize>().ok()).and_then(|i| v.get(i).cloned()).unwrap_or_else(|| "?".into()) };
    let mut xfs = vec![];
    if let Some(x) = st.child("cellXfs") {
        for e in x.children() {
            let mut o = e.clone();
            for (k, v) in o.attrs.iter_mut() {
                let t = match k.as_str() {
                    "fontId" => at(&fonts, Some(v)),
                    "fillId" => at(&fills, Some(v)),
                    "borderId" => at(&borders, Some(v)),
                    "numFmtId" => fmts.get(v.as_str()).cloned().unwrap_or_else(|| v.clone()),
                    _ => continue,
                };
                *v = t;
            }
            xfs.push(o.canon());
        }
    }
    let dxfs: Vec<String> = st.child("dxfs").map(|e| e.children().map(|x| {
        // The number of a custom format is only a number.
        let mut o = x.clone();
        strip_id(&mut o);
        o.canon()
    }).collect()).unwrap_or_default();
    let sst: Vec<String> = b.pkg.xml.get("xl/sharedStrings.xml").map(|e| e.children().map(|x| x.canon()).collect()).unwrap_or_default();
    let mut out = BTreeMap::new();
    for (n, e) in &b.pkg.xml {
        if n == "xl/styles.xml" || n == "xl/sharedStrings.xml" {
            continue;
        }
        let mut e = e.clone();
        // A table of texts may be left over.
        e.kids.retain(|k| match k {
            kit::xml::Node::E(x) => x.attr("PartName") != Some("/xl/sharedStrings.xml") && x.attr("Target") != Some("sharedStrings.xml"),
            _ => true,
        });
        if n.starts_with("xl/worksheets/sheet") || n.starts_with("xl/tables/") {
            put(&mut e, &xfs, &dxfs, &sst);
        }
        out.insert(n.clone(), e);
    }
    Ok(out)
}
fn strip_id(e: &mut Elem) {
    if e.name == "numFmt" {
        e.attrs.retain(|(k, _)| k != "numFmtId");
    }
    for k in &mut e.kids {
        if let kit::xml::Node::E(x) = k {
            strip_id(x);
        }
    }
}
fn put(e: &mut Elem, xfs: &[String], dxfs: &[String], sst: &[String]) {
    let tag = e.name.clone();
    let text = tag == "c" && e.attr("t") == Some("s");
    for (k, v) in e.attrs.iter_mut() {
        let t = match (tag.as_str(), k.as_str()) {
            ("c" | "row", "s") | ("col", "style") => xfs,
            (_, "dxfId" | "dataDxfId" | "headerRowDxfId" | "totalsRowDxfId" | "headerRowBorderDxfId" | "tableBorderDxfId") => dxfs,
            _ => continue,
        };
        if let Some(x) = v.parse::<usize>().ok().and_then(|i| t.get(i)) {
            *v = x.clone();
        }
    }
    for k in &mut e.kids {
        if let kit::xml::Node::E(x) = k {
            if text && x.name == "v" {
                let t = x.text().parse::<usize>().ok().and_then(|i| sst.get(i)).cloned().unwrap_or_else(|| "?".into());
                *x = el("v").t(t);
            } else {
                put(x, xfs, dxfs, sst);
            }
        }
    }
}

/// Two packages stand for the same content.
pub fn same_content(a: &Book, b: &Book, what: &str) -> R {
    let (x, y) = (resolved(a)?, resolved(b)?);
    let (p, q) = {
        let f = |b: &'_ Book| -> Vec<String> { b.pkg.names.iter().filter(|n| *n != "xl/sharedStrings.xml").cloned().collect() };
        (f(a), f(b))
    };
    ensure!(p == q, "parts", "{what}: the lists of parts differ: {p:?} / {q:?}");
    for (n, e) in &x {
        if let Some(d) = y.get(n).map_or(Some("missing".to_string()), |f| diff(f, e)) {
            fail!("content", "{what}: part {n}: {d}");
        }
    }
    for (n, v) in &a.pkg.bytes {
        if !x.contains_key(n) && n != "xl/styles.xml" && n != "xl/sharedStrings.xml" {
            ensure!(b.pkg.bytes.get(n) == Some(v), "content", "{what}: part {n} differs");
        }
    }
    Ok(())
}
