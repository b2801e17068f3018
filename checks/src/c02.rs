//! C02: each cell holds exactly the last value written to it.
use crate::util::*;
use rust_decimal::prelude::FromPrimitive;

#[derive(Clone, Debug, PartialEq)]
enum E {
    Blank,
    Num(u64),
    Str(String),
    Bool(bool),
    Formula { text: String, kind: &'static str, rng: String, dynamic: bool, result: Box<E> },
    Err(String),
}

fn observed(v: &V) -> E {
    match v {
        V::Blank => E::Blank,
        V::Num(n) => E::Num(n.to_bits()),
        V::Str(s) => E::Str(s.clone()),
        V::Rich(r) => E::Str(r.iter().map(|x| x.1.as_str()).collect()),
        V::Bool(b) => E::Bool(*b),
        V::Err(e) => E::Err(e.clone()),
        V::Formula { text, kind, rng, dynamic, result } => E::Formula { text: text.clone(), kind: if kind == "array" { "array" } else if kind.is_empty() { "" } else { "?" }, rng: rng.clone(), dynamic: *dynamic, result: Box::new(observed(result)) },
    }
}

#[derive(Default)]
pub struct Sheet {
    cells: BTreeMap<(u32, u16), E>,
    touched: Option<(u32, u16, u32, u16)>,
    nan: String,
    inf: String,
    ninf: String,
    default_result: String,
}

impl Sheet {
    pub fn fresh() -> Sheet {
        Sheet { nan: "NAN".into(), inf: "INF".into(), ninf: "-INF".into(), default_result: "0".into(), ..Default::default() }
    }
    fn touch(&mut self, r: u32, c: u16) {
        self.touched = Some(match self.touched {
            None => (r, c, r, c),
            Some((a, b, d, e)) => (a.min(r), b.min(c), d.max(r), e.max(c)),
        });
    }
    fn put(&mut self, r: u32, c: u16, e: E) {
        self.touch(r, c);
        self.cells.insert((r, c), e);
    }
    fn num(&self, n: f64) -> E {
        if n.is_nan() {
            E::Str(self.nan.clone())
        } else if n == f64::INFINITY {
            E::Str(self.inf.clone())
        } else if n == f64::NEG_INFINITY {
            E::Str(self.ninf.clone())
        } else {
            E::Num(n.to_bits())
        }
    }
}

fn result_of(r: &str) -> E {
    let numeric = !r.is_empty() && r.parse::<f64>().is_ok_and(f64::is_finite);
    if numeric {
        E::Num(r.parse::<f64>().unwrap().to_bits())
    } else {
        match r {
            "TRUE" => E::Bool(true),
            "FALSE" => E::Bool(false),
            "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!" | "#GETTING_DATA" => E::Err(r.to_string()),
            _ => E::Str(r.to_string()),
        }
    }
}

fn gen_result(s: &mut Src) -> String {
    match s.below(8) {
        0 => String::new(),
        1 => s.int(-1000, 1000).to_string(),
        2 => gen::finite(s).to_string(),
        3 => (*s.pick(&["TRUE", "FALSE", "#N/A", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#NULL!", "true", "#OTHER!"])).to_string(),
        4 => (*s.pick(&["inf", "nan", "infinity", "-inf", "NaN", "1e400", "+5", ".5", "5.", "1E3", " 5", "0x10", "1_000", "-"])).to_string(),
        5 => gen::text1(s, 12),
        6 => "_x0041_<&\u{1}".to_string(),
        _ => gen::word(s, 8),
    }
}

/// Formula texts that need no function prefix: stored verbatim.
fn gen_formula(s: &mut Src) -> (String, bool) {
    match s.below(7) {
        0 => ("1+2".into(), false),
        1 => (format!("SUM(A{}:B{})", s.u32(1, 9), s.u32(10, 20)), false),
        2 => (format!("IF(A1>{},\"<yes> & {}\",\"no\")", s.u32(0, 9), gen::word(s, 4)), false),
        3 => ("A1&\" x\"".into(), false),
        4 => ("_xlfn.STDEV.S(A1:A3)".into(), false),
        5 => (format!("Sheet1!B{}*1.5", s.u32(1, 9)), false),
        _ => ("_xlfn.UNIQUE(B1:B9)".into(), true),
    }
}

fn bold() -> Format {
    Format::new().set_bold()
}

#[allow(clippy::too_many_lines)]
pub fn step(s: &mut Src, ws: &mut Worksheet, m: &mut Sheet, c: &mut Ctx) -> R {
    let (r, k) = (row(s), col(s));
    let f = s.below(4) == 3;
    let over = m.cells.contains_key(&(r, k));
    match s.weighted(&[10, 10, 6, 4, 6, 4, 3, 3, 4, 3, 3, 3, 3, 3, 2, 2, 2, 3, 2, 2, 2, 1]) {
        0 => {
            let v = gen::any_f64(s);
            c.d(|| format!("write_number({r},{k},{v:e}) format={f}"));
            must("write_number", if f { ws.write_number_with_format(r, k, v, &bold()) } else { ws.write_number(r, k, v) })?;
            let e = m.num(v);
            c.label_if(!v.is_finite(), "non-finite number");
            if e == E::Str(String::new()) {
                // An empty replacement text is an ignored blank string.
                if f { m.put(r, k, E::Blank) }
            } else {
                m.put(r, k, e);
            }
        }
        1 => {
            let t = gen::text1(s, 30);
            c.d(|| format!("write_string({r},{k},{t:?}) format={f}"));
            must("write_string", if f { ws.write_string_with_format(r, k, &t, &bold()) } else { ws.write_string(r, k, &t) })?;
            m.put(r, k, E::Str(t));
        }
        2 => {
            // Every supported generic type.
            let b = bold();
            macro_rules! w { ($v:expr) => { if f { ws.write_with_format(r, k, $v, &b) } else { ws.write(r, k, $v) } } }
            let which = s.below(14);
            c.d(|| format!("write({r},{k}, generic type {which}) format={f}"));
            let e = match which {
                0 => { let v = s.int(-128, 127) as i8; must("write i8", w!(v))?; E::Num(f64::from(v).to_bits()) }
                1 => { let v = s.u8(0, 255); must("write u8", w!(v))?; E::Num(f64::from(v).to_bits()) }
                2 => { let v = s.int(-32768, 32767) as i16; must("write i16", w!(v))?; E::Num(f64::from(v).to_bits()) }
                3 => { let v = s.u16(0, 65535); must("write u16", w!(v))?; E::Num(f64::from(v).to_bits()) }
                4 => { let v = s.int(i64::from(i32::MIN), i64::from(i32::MAX)) as i32; must("write i32", w!(v))?; E::Num(f64::from(v).to_bits()) }
                5 => { let v = s.u32(0, u32::MAX); must("write u32", w!(v))?; E::Num(f64::from(v).to_bits()) }
                6 => { let v = s.any64() as i64; must("write i64", w!(v))?; E::Num((v as f64).to_bits()) }
                7 => { let v = s.any64(); must("write u64", w!(v))?; E::Num((v as f64).to_bits()) }
                8 => { let v = gen::finite(s) as f32; let v = if v.is_finite() { v } else { 1.0 }; must("write f32", w!(v))?; E::Num(f64::from(v).to_bits()) }
                9 => { let v = s.int(-1_000_000_000, 1_000_000_000); let d = rust_decimal::Decimal::new(v, s.u32(0, 9)); must("write Decimal", w!(d))?; E::Num(d.to_string().parse::<f64>().unwrap().to_bits()) }
                10 => { let t = gen::text1(s, 8); must("write String", w!(t.clone()))?; E::Str(t) }
                11 => { let t = gen::text1(s, 8); must("write Cow", w!(std::borrow::Cow::Borrowed(t.as_str())))?; E::Str(t) }
                12 => { let t = gen::text1(s, 8); must("write &String", w!(&t))?; E::Str(t) }
                _ => { let v = gen::finite(s); must("write Ok", w!(Ok::<f64, &str>(v)))?; E::Num(v.to_bits()) }
            };
            m.put(r, k, e);
        }
        3 => {
            let v = s.bool();
            c.d(|| format!("write_boolean({r},{k},{v}) format={f}"));
            must("write_boolean", if f { ws.write_boolean_with_format(r, k, v, &bold()) } else { ws.write_boolean(r, k, v) })?;
            m.put(r, k, E::Bool(v));
        }
        4 => {
            let (t, dynamic) = gen_formula(s);
            let res = gen_result(s);
            c.d(|| format!("write_formula({r},{k},{t:?} result {res:?}) format={f}"));
            let mut fm = Formula::new(if s.bool() { format!("={t}") } else { t.clone() });
            if !res.is_empty() {
                fm = fm.set_result(&res);
            }
            must("write_formula", if f { ws.write_formula_with_format(r, k, fm, &bold()) } else { ws.write_formula(r, k, fm) })?;
            let res = if res.is_empty() { m.default_result.clone() } else { res };
            m.put(r, k, E::Formula { text: t, kind: if dynamic { "array" } else { "" }, rng: if dynamic { cell_name(r, u32::from(k)) } else { String::new() }, dynamic, result: Box::new(result_of(&res)) });
        }
        5 => {
            let (t, dynf) = gen_formula(s);
            let (r2, k2) = ((r + s.u32(0, 3)).min(MAXR - 1), (k + s.u16(0, 3)).min(MAXC - 1));
            let res = gen_result(s);
            let dynamic = s.bool();
            c.d(|| format!("write_{}array_formula({r},{k},{r2},{k2},{t:?} result {res:?}) format={f}", if dynamic { "dynamic_" } else { "" }));
            let fm = Formula::new(format!("{{={t}}}")).set_result(&res);
            let b = bold();
            must("write_array_formula", match (dynamic, f) {
                (false, false) => ws.write_array_formula(r, k, r2, k2, fm),
                (false, true) => ws.write_array_formula_with_format(r, k, r2, k2, fm, &b),
                (true, false) => ws.write_dynamic_array_formula(r, k, r2, k2, fm),
                (true, true) => ws.write_dynamic_array_formula_with_format(r, k, r2, k2, fm, &b),
            })?;
            let res = if res.is_empty() { m.default_result.clone() } else { res };
            for rr in r..=r2 {
                for kk in k..=k2 {
                    m.put(rr, kk, E::Num(0f64.to_bits()));
                }
            }
            m.put(r, k, E::Formula { text: t, kind: "array", rng: range_name(r, k.into(), r2, k2.into()), dynamic: dynamic || dynf, result: Box::new(result_of(&res)) });
            c.label_if((r2, k2) != (r, k), "multi-cell array");
        }
        6 => {
            c.d(|| format!("write_blank({r},{k})"));
            must("write_blank", ws.write_blank(r, k, &bold()))?;
            m.put(r, k, E::Blank);
        }
        7 => {
            let d = must("datetime", ExcelDateTime::from_serial_datetime(s.int(0, 2_900_000_000) as f64 / 1000.0))?;
            c.d(|| format!("write_datetime({r},{k},{})", d.to_excel()));
            let b = bold();
            match s.below(3) {
                0 => must("write_datetime", ws.write_datetime(r, k, &d))?,
                1 => must("write_datetime", ws.write_datetime_with_format(r, k, &d, &b))?,
                _ => must("write", ws.write(r, k, &d))?,
            };
            m.put(r, k, E::Num(d.to_excel().to_bits()));
        }
        8 => {
            let n = s.small(1, 5);
            let segs: Vec<String> = (0..n).map(|_| gen::text1(s, 8)).collect();
            let b = bold();
            let d = Format::default();
            let fs: Vec<(&Format, &str)> = segs.iter().enumerate().map(|(i, t)| (if i % 2 == 0 { &d } else { &b }, t.as_str())).collect();
            c.d(|| format!("write_rich_string({r},{k},{segs:?}) format={f}"));
            must("write_rich_string", if f { ws.write_rich_string_with_format(r, k, &fs, &b) } else { ws.write_rich_string(r, k, &fs) })?;
            m.put(r, k, E::Str(segs.concat()));
        }
        9 => {
            let t = gen::text1(s, 10);
            let u = Url::new(format!("https://example.com/{}", s.below(100))).set_text(&t);
            c.d(|| format!("write_url({r},{k},text {t:?}) format={f}"));
            let b = bold();
            match s.below(4) {
                0 => must("write_url", ws.write_url(r, k, u))?,
                1 => must("write_url_with_format", ws.write_url_with_format(r, k, u, &b))?,
                2 => must("write", ws.write(r, k, &u))?,
                _ => must("write_url_with_text", ws.write_url_with_text(r, k, "https://example.com/", &t))?,
            };
            m.put(r, k, E::Str(t));
        }
        10 => {
            let v: Vec<f64> = (0..s.small(0, 6)).map(|_| gen::finite(s)).collect();
            let v: Vec<f64> = v.into_iter().take(usize::from(MAXC - k)).collect();
            c.d(|| format!("write_row({r},{k},{v:?}) format={f}"));
            if v.len() + usize::from(k) < usize::from(MAXC) {
                must("write_row", if f { ws.write_row_with_format(r, k, v.iter().copied(), &bold()) } else { ws.write_row(r, k, v.clone()) })?;
                for (i, x) in v.iter().enumerate() {
                    m.put(r, k + i as u16, E::Num(x.to_bits()));
                }
            }
        }
        11 => {
            let v: Vec<String> = (0..s.small(0, 6)).map(|_| gen::text1(s, 6)).collect();
            let v: Vec<String> = v.into_iter().take((MAXR - r) as usize).collect();
            c.d(|| format!("write_column({r},{k},{v:?}) format={f}"));
            must("write_column", if f { ws.write_column_with_format(r, k, &v, &bold()) } else { ws.write_column(r, k, v.clone()) })?;
            for (i, x) in v.iter().enumerate() {
                m.put(r + i as u32, k, E::Str(x.clone()));
            }
        }
        12 => {
            let (h, w) = (s.small(0, 4), s.small(0, 4));
            let h = h.min((MAXR - r) as usize);
            let w = w.min(usize::from(MAXC - k) - 1);
            let v: Vec<Vec<i32>> = (0..h).map(|_| (0..w).map(|_| s.int(-9, 9) as i32).collect()).collect();
            let by_row = s.bool();
            c.d(|| format!("write_{}_matrix({r},{k},{v:?})", if by_row { "row" } else { "column" }));
            if by_row {
                must("write_row_matrix", ws.write_row_matrix(r, k, v.clone()))?;
                for (i, x) in v.iter().enumerate() {
                    for (j, y) in x.iter().enumerate() {
                        m.put(r + i as u32, k + j as u16, E::Num(f64::from(*y).to_bits()));
                    }
                }
            } else {
                let (h, w) = (w.min((MAXR - r) as usize), h.min(usize::from(MAXC - k) - 1));
                let v: Vec<Vec<i32>> = v.iter().take(w).map(|x| x.iter().take(h).copied().collect()).collect();
                must("write_column_matrix", ws.write_column_matrix(r, k, v.clone()))?;
                for (j, x) in v.iter().enumerate() {
                    for (i, y) in x.iter().enumerate() {
                        m.put(r + i as u32, k + j as u16, E::Num(f64::from(*y).to_bits()));
                    }
                }
            }
        }
        13 => {
            // Clear an existing cell more often than not.
            let (r, k) = if !m.cells.is_empty() && s.below(4) > 0 { *m.cells.keys().nth(s.idx(m.cells.len())).unwrap() } else { (r, k) };
            c.d(|| format!("clear_cell({r},{k})"));
            ws.clear_cell(r, k);
            if m.cells.remove(&(r, k)).is_some() {
                c.label("cleared");
            }
        }
        14 => {
            let (r, k) = if !m.cells.is_empty() && s.below(4) > 0 { *m.cells.keys().nth(s.idx(m.cells.len())).unwrap() } else { (r, k) };
            c.d(|| format!("clear_cell_format({r},{k})"));
            ws.clear_cell_format(r, k);
            if m.cells.get(&(r, k)) == Some(&E::Blank) {
                m.cells.remove(&(r, k));
            }
        }
        15 => {
            // Empty strings and absent options leave the cell alone.
            c.d(|| format!("write_string({r},{k},\"\") and None, format={f}"));
            if f {
                must("write_string", ws.write_string_with_format(r, k, "", &bold()))?;
                m.put(r, k, E::Blank);
            } else {
                must("write_string", ws.write_string(r, k, ""))?;
                must("write None", ws.write(r, k, None::<f64>))?;
            }
        }
        16 => {
            c.d(|| format!("set_cell_format({r},{k})"));
            must("set_cell_format", ws.set_cell_format(r, k, &bold()))?;
            m.touch(r, k);
            m.cells.entry((r, k)).or_insert(E::Blank);
        }
        17 => {
            // A formula result set later.
            let fs: Vec<(u32, u16)> = m.cells.iter().filter(|x| matches!(x.1, E::Formula { .. })).map(|x| *x.0).collect();
            if !fs.is_empty() {
                let (r, k) = *s.pick(&fs);
                let res = gen_result(s);
                c.d(|| format!("set_formula_result({r},{k},{res:?})"));
                if !res.is_empty() {
                    ws.set_formula_result(r, k, &res);
                    if let Some(E::Formula { result, .. }) = m.cells.get_mut(&(r, k)) {
                        **result = result_of(&res);
                    }
                }
            }
        }
        18 => {
            let t = gen_result(s);
            c.d(|| format!("set_formula_result_default({t:?})"));
            if !t.is_empty() {
                ws.set_formula_result_default(&t);
                m.default_result = t;
            }
        }
        19 => {
            let t = gen::text1(s, 6);
            c.d(|| format!("set nan/inf values {t:?}"));
            match s.below(3) {
                0 => { ws.set_nan_value(&t); m.nan = t; }
                1 => { ws.set_infinity_value(&t); m.inf = t; }
                _ => { ws.set_neg_infinity_value(&t); m.ninf = t; }
            }
        }
        20 => {
            let v = s.bool();
            c.d(|| format!("insert_checkbox({r},{k},{v})"));
            must("insert_checkbox", if f { ws.insert_checkbox_with_format(r, k, v, &bold()) } else { ws.insert_checkbox(r, k, v) })?;
            m.put(r, k, E::Bool(v));
        }
        _ => {
            let (a, b, d, e) = range(s, 3, 3);
            c.d(|| format!("set_range_format({a},{b},{d},{e})"));
            must("set_range_format", ws.set_range_format(a, b, d, e, &bold()))?;
            for rr in a..=d {
                for kk in b..=e {
                    m.touch(rr, kk);
                    m.cells.entry((rr, kk)).or_insert(E::Blank);
                }
            }
        }
    }
    c.label_if(over, "wrote over an existing cell");
    if over {
        c.hit();
    }
    Ok(())
}

fn compare(book: &Book, i: usize, m: &Sheet, c: &mut Ctx) -> R {
    let got = book.cells(i)?;
    for (k, e) in &m.cells {
        let at = cell_name(k.0, k.1.into());
        match got.get(&(k.0, u32::from(k.1))) {
            Some(g) => {
                let o = observed(&g.v);
                ensure!(o == *e, "value", "sheet {i} cell {at}: holds {o:?}, last write was {e:?}");
            }
            None => fail!("lost", "sheet {i} cell {at}: missing, last write was {e:?}"),
        }
    }
    for (k, g) in &got {
        ensure!(m.cells.contains_key(&(k.0, k.1 as u16)), "surplus", "sheet {i} cell {}: holds {:?} that was not (or no longer) written", cell_name(k.0, k.1), g.v);
    }
    let dim = book.sheet(i)?.child("dimension").and_then(|d| d.attr("ref")).unwrap_or("").to_string();
    let want = match m.touched {
        None => "A1".to_string(),
        // Documented special case in the library: a single full-width first row.
        Some((0, 0, 0, 16383)) => "A1".to_string(),
        Some((a, b, d, e)) => range_name(a, b.into(), d, e.into()),
    };
    ensure!(dim == want, "dimension", "sheet {i}: used range {dim:?}, writes cover {want:?}");
    c.label_if(m.cells.len() > 30, "more than 30 cells");
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let n = s.small(1, 3);
    let mut ms: Vec<Sheet> = (0..n).map(|_| Sheet { nan: "NAN".into(), inf: "INF".into(), ninf: "-INF".into(), default_result: "0".into(), ..Default::default() }).collect();
    let ahead = s.below(3) > 0;
    let mut loose: Vec<Worksheet> = vec![];
    for _ in 0..n {
        if ahead {
            wb.add_worksheet();
        } else {
            loose.push(Worksheet::new());
        }
    }
    let steps = s.span(1, 60, 400);
    for _ in 0..steps {
        let i = s.idx(n);
        c.d(|| format!("-- sheet {i}"));
        let ws = if ahead { must("worksheet_from_index", wb.worksheet_from_index(i))? } else { &mut loose[i] };
        step(s, ws, &mut ms[i], c)?;
    }
    for ws in loose {
        wb.push_worksheet(ws);
    }
    let book = save_book(&mut wb, c)?;
    ensure_eq!(book.sheets.len(), n, "sheets", "number of sheets");
    for (i, m) in ms.iter().enumerate() {
        compare(&book, i, m, c)?;
    }
    Ok(())
}

/// Numbers: every finite double is recovered bit for bit.
fn numbers(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let n = s.small(1, 40);
    let mut want = vec![];
    for i in 0..n {
        let v = gen::finite(s);
        c.d(|| format!("number {v:e}"));
        must("write_number", ws.write_number(i as u32, 0, v))?;
        want.push(v);
    }
    c.hit();
    let book = save_book(&mut wb, c)?;
    let got = book.cells(0)?;
    for (i, v) in want.iter().enumerate() {
        match got.get(&(i as u32, 0)).map(|x| &x.v) {
            Some(V::Num(g)) if g.to_bits() == v.to_bits() => {}
            o => fail!("number", "wrote {v:e} ({:#x}), file holds {o:?}", v.to_bits()),
        }
    }
    ensure_eq!(got.len(), n, "surplus", "number of cells");
    let _ = rust_decimal::Decimal::from_i32(1);
    Ok(())
}

/// Many strings, many repeats: string identity through the shared table.
fn strings(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let pool: Vec<String> = (0..s.small(1, 30)).map(|_| gen::text1(s, 12)).collect();
    let sheets = s.small(1, 4);
    let mut want = vec![];
    for i in 0..sheets {
        let ws = wb.add_worksheet();
        let n = s.small(0, 60);
        let mut w = BTreeMap::new();
        for _ in 0..n {
            let t = s.pick(&pool).clone();
            let (r, k) = (s.u32(0, 20), s.u16(0, 8));
            must("write_string", ws.write_string(r, k, &t))?;
            c.d(|| format!("sheet {i}: write_string({r},{k},{t:?})"));
            w.insert((r, k), t);
        }
        want.push(w);
    }
    c.hit();
    let book = save_book(&mut wb, c)?;
    for (i, w) in want.iter().enumerate() {
        let got = book.cells(i)?;
        ensure_eq!(got.len(), w.len(), "surplus", "number of cells of sheet {i}");
        for ((r, k), t) in w {
            match got.get(&(*r, u32::from(*k))).map(|x| &x.v) {
                Some(V::Str(g)) if g == t => {}
                o => fail!("string", "sheet {i} {}: wrote {t:?}, file holds {o:?}", cell_name(*r, u32::from(*k))),
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "A case is a history of cell-level calls over 1-3 sheets (all write entry points and value types, array formulas, rich strings, links, clears, formats, replaced results) or a block of numbers or pooled strings; the file is parsed back and compared cell by cell with a map model (last write wins). Non-trivial: a write or clear hits an existing cell, or a number/string block with at least one cell. Distinct: by the full choice tape.",
        level: "exploration",
        assumptions: &["text is decoded by XML rules plus the _xHHHH_ escapes of the spreadsheet string type", "numbers are compared by bits after a correctly rounded decimal parse", "an empty string without a format is a documented no-op"],
        families: vec![fam("history", 9000, 200_000, history), fam("numbers", 1500, 60_000, numbers), fam("strings", 1500, 40_000, strings)],
        known: vec![],
    }
}
