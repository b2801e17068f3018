//! Reader of workbooks: sheets, cells, shared strings and resolved styles.
use crate::opc::Pkg;
use crate::xml::{unescape_xstring, Elem, Node};
use crate::{ensure, fail, Fail, R};
use std::collections::BTreeMap;

pub fn parse_cell(s: &str) -> R<(u32, u32)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut col = 0u64;
    while i < b.len() && b[i].is_ascii_uppercase() && i < 4 {
        col = col * 26 + u64::from(b[i] - b'A') + 1;
        i += 1;
    }
    let row: u64 = s.get(i..).and_then(|r| r.parse().ok()).unwrap_or(0);
    ensure!(i >= 1 && (1..=16384).contains(&col) && (1..=1_048_576).contains(&row) && b[i] != b'0' && b[i] != b'+', "ref", "bad cell reference {s:?}");
    Ok((row as u32 - 1, col as u32 - 1))
}

/// `A1` or `A1:B2` to (r1, c1, r2, c2).
pub fn parse_range(s: &str) -> R<(u32, u32, u32, u32)> {
    let (a, b) = s.split_once(':').unwrap_or((s, s));
    let (r1, c1) = parse_cell(a)?;
    let (r2, c2) = parse_cell(b)?;
    ensure!(r1 <= r2 && c1 <= c2, "ref", "inverted range {s:?}");
    Ok((r1, c1, r2, c2))
}

pub fn col_name(mut c: u32) -> String {
    let mut s = vec![];
    c += 1;
    while c > 0 {
        s.push(b'A' + ((c - 1) % 26) as u8);
        c = (c - 1) / 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn cell_name(r: u32, c: u32) -> String {
    format!("{}{}", col_name(c), r + 1)
}
pub fn range_name(r1: u32, c1: u32, r2: u32, c2: u32) -> String {
    if (r1, c1) == (r2, c2) {
        cell_name(r1, c1)
    } else {
        format!("{}:{}", cell_name(r1, c1), cell_name(r2, c2))
    }
}
pub fn abs_range(r1: u32, c1: u32, r2: u32, c2: u32) -> String {
    let a = |r: u32, c: u32| format!("${}${}", col_name(c), r + 1);
    if (r1, c1) == (r2, c2) {
        a(r1, c1)
    } else {
        format!("{}:{}", a(r1, c1), a(r2, c2))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Blank,
    /// Number as bits, so that comparison is exact (except -0, normalised by callers).
    Num(f64),
    Str(String),
    Rich(Vec<(String, String)>),
    Bool(bool),
    Err(String),
    /// Formula: text, kind ("", "array"), ref, result.
    Formula { text: String, kind: String, rng: String, dynamic: bool, result: Box<V> },
}

#[derive(Clone, Debug)]
pub struct Cell {
    pub v: V,
    pub s: usize,
    pub cm: Option<String>,
    pub vm: Option<String>,
}

#[derive(Clone, Debug)]
pub struct SheetRef {
    pub name: String,
    pub id: String,
    pub state: String,
    pub part: String,
    pub chart: bool,
}

pub struct Book {
    pub pkg: Pkg,
    pub sheets: Vec<SheetRef>,
    pub sst: Vec<V>,
    pub wb: String,
    pub styles: String,
}

/// Text of a run container: plain `<t>` or rich `<r>`.
pub fn si_value(si: &Elem) -> R<V> {
    let text_of = |e: &Elem| -> R<String> {
        let t = e.text();
        ensure!(e.children().next().is_none(), "string", "markup inside <t>: {:?}", e);
        let edge = |c: Option<char>| c.is_some_and(|c| matches!(c, ' ' | '\t' | '\n'));
        if edge(t.chars().next()) || edge(t.chars().last()) {
            ensure!(e.attr("xml:space") == Some("preserve"), "string", "white space at the edge of {t:?} is not preserved");
        }
        Ok(unescape_xstring(&t))
    };
    let mut runs = vec![];
    let mut plain = None;
    for c in si.children() {
        match c.name.as_str() {
            "t" => {
                ensure!(plain.is_none(), "string", "two <t> in {si:?}");
                plain = Some(text_of(c)?);
            }
            "r" => {
                let pr = c.child("rPr").map(Elem::canon).unwrap_or_default();
                let t = match c.child("t") {
                    Some(t) => text_of(t)?,
                    None => fail!("string", "run without text in {si:?}"),
                };
                runs.push((pr, t));
            }
            o => fail!("string", "unexpected <{o}> in string item"),
        }
    }
    for k in &si.kids {
        if let Node::T(t) = k {
            fail!("string", "stray text {t:?} in string item");
        }
    }
    match plain {
        Some(t) => {
            ensure!(runs.is_empty(), "string", "mixed string item {si:?}");
            Ok(V::Str(t))
        }
        None => Ok(V::Rich(runs)),
    }
}

impl Book {
    pub fn open(b: &[u8]) -> R<Book> {
        let pkg = Pkg::open(b)?;
        let wb = pkg.rels_of("").iter().find(|r| r.kind() == "officeDocument").map(|r| r.target.clone()).ok_or_else(|| Fail { sig: "opc".into(), msg: "no workbook".into() })?;
        let mut sheets = vec![];
        for s in pkg.part(&wb)?.child("sheets").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
            let r = pkg.rel(&wb, s.attr("r:id").unwrap_or(""))?;
            sheets.push(SheetRef { name: s.attr("name").unwrap_or("").into(), id: s.attr("sheetId").unwrap_or("").into(), state: s.attr("state").unwrap_or("visible").into(), part: r.target.clone(), chart: r.kind() == "chartsheet" });
        }
        let by = |k: &str| pkg.rels_of(&wb).iter().find(|r| r.kind() == k).map(|r| r.target.clone());
        let mut sst = vec![];
        if let Some(p) = by("sharedStrings") {
            for si in pkg.part(&p)?.children() {
                sst.push(si_value(si)?);
            }
        }
        let styles = by("styles").unwrap_or_default();
        Ok(Book { pkg, sheets, sst, wb, styles })
    }

    pub fn workbook(&self) -> &Elem {
        &self.pkg.xml[&self.wb]
    }
    pub fn sheet(&self, i: usize) -> R<&Elem> {
        ensure!(i < self.sheets.len(), "sheets", "sheet {i} of {} is missing", self.sheets.len());
        self.pkg.part(&self.sheets[i].part)
    }

    pub fn cells(&self, i: usize) -> R<BTreeMap<(u32, u32), Cell>> {
        let mut out = BTreeMap::new();
        let x = self.sheet(i)?;
        let data = match x.child("sheetData") {
            Some(d) => d,
            None => fail!("sheet", "no sheetData in sheet {i}"),
        };
        let mut last_row = None;
        for row in data.children() {
            ensure!(row.name == "row", "sheet", "<{}> in sheetData", row.name);
            let rn: u32 = row.attr("r").and_then(|v| v.parse().ok()).unwrap_or(0);
            ensure!(rn > 0 && last_row.map_or(true, |l| rn > l), "cell-order", "row {rn} after {last_row:?}");
            last_row = Some(rn);
            let mut last_col = None;
            // The spans of a row, a hint for readers, cover its cells.
            let spans: Option<Vec<(u32, u32)>> = row.attr("spans").map(|v| v.split(' ').filter_map(|p| p.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect());
            for c in row.children() {
                ensure!(c.name == "c", "sheet", "<{}> in row", c.name);
                let (r, col) = parse_cell(c.attr("r").unwrap_or(""))?;
                ensure!(r + 1 == rn, "cell-order", "cell {:?} in row {rn}", c.attr("r"));
                ensure!(last_col.map_or(true, |l| col > l), "cell-order", "cell {:?} out of order", c.attr("r"));
                last_col = Some(col);
                ensure!(spans.as_ref().map_or(true, |v| v.iter().any(|s| s.0 <= col + 1 && col < s.1)), "spans", "cell {:?} is outside of the spans {:?} of its row", c.attr("r"), row.attr("spans"));
                out.insert((r, col), self.cell(c)?);
            }
        }
        Ok(out)
    }

    fn cell(&self, c: &Elem) -> R<Cell> {
        let t = c.attr("t").unwrap_or("n");
        let v = c.child("v").map(|v| v.text());
        let at = c.attr("r").unwrap_or("");
        for k in c.children() {
            ensure!(matches!(k.name.as_str(), "v" | "f" | "is"), "sheet", "<{}> in cell {at}", k.name);
            ensure!(c.all(&k.name).count() == 1, "sheet", "<{}> repeated in cell {at}", k.name);
        }
        let plain = |t: &str, v: &Option<String>| -> R<V> {
            Ok(match (t, v) {
                ("n", None) => V::Blank,
                ("n", Some(v)) => match v.parse::<f64>() {
                    Ok(x) if v.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'.' | b'-' | b'+' | b'e' | b'E')) => V::Num(x),
                    _ => fail!("number", "cell {at} holds {v:?} as a number"),
                },
                ("s", Some(v)) => match v.parse::<usize>().ok().and_then(|i| self.sst.get(i)) {
                    Some(s) => s.clone(),
                    None => fail!("string", "cell {at} refers to missing string {v:?}"),
                },
                ("str", Some(v)) => V::Str(unescape_xstring(v)),
                ("str", None) => V::Str(String::new()),
                ("b", Some(v)) if v == "0" || v == "1" => V::Bool(v == "1"),
                ("e", Some(v)) => V::Err(v.clone()),
                ("inlineStr", None) => match c.child("is") {
                    Some(is) => si_value(is)?,
                    None => fail!("string", "cell {at} has no inline string"),
                },
                (t, v) => fail!("sheet", "cell {at} of type {t} with value {v:?}"),
            })
        };
        let val = if let Some(f) = c.child("f") {
            V::Formula {
                text: f.text(),
                kind: f.attr("t").unwrap_or("").into(),
                rng: f.attr("ref").unwrap_or("").into(),
                dynamic: c.attr("cm").is_some(),
                result: Box::new(plain(t, &v)?),
            }
        } else {
            plain(t, &v)?
        };
        let s = match c.attr("s") {
            Some(s) => s.parse().map_err(|_| Fail { sig: "sheet".into(), msg: format!("style {s:?}") })?,
            None => 0,
        };
        Ok(Cell { v: val, s, cm: c.attr("cm").map(Into::into), vm: c.attr("vm").map(Into::into) })
    }

    pub fn style_sheet(&self) -> R<&Elem> {
        self.pkg.part(&self.styles)
    }

    /// Resolved style of a cell format index, as canonical strings per aspect.
    pub fn style(&self, s: usize) -> R<Style> {
        let st = self.style_sheet()?;
        let nth = |grp: &str, i: usize| -> R<&Elem> {
            match st.child(grp).and_then(|g| g.children().nth(i)) {
                Some(e) => Ok(e),
                None => fail!("style-index", "{grp}[{i}] is missing"),
            }
        };
        let xf = nth("cellXfs", s)?;
        let g = |k: &str| xf.attr(k).and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
        let id = g("numFmtId");
        let num = match st.child("numFmts").and_then(|n| n.children().find(|e| e.attr("numFmtId") == Some(&id.to_string()))) {
            Some(e) => NumFmt::Code(e.attr("formatCode").unwrap_or("").to_string()),
            None => NumFmt::Id(id),
        };
        Ok(Style { xf: xf.clone(), font: nth("fonts", g("fontId"))?.clone(), fill: nth("fills", g("fillId"))?.clone(), border: nth("borders", g("borderId"))?.clone(), num })
    }

    pub fn dxf(&self, i: usize) -> R<&Elem> {
        match self.style_sheet()?.child("dxfs").and_then(|g| g.children().nth(i)) {
            Some(e) => Ok(e),
            None => fail!("style-index", "dxf {i} is missing"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum NumFmt {
    Id(usize),
    Code(String),
}

#[derive(Clone, Debug)]
pub struct Style {
    pub xf: Elem,
    pub font: Elem,
    pub fill: Elem,
    pub border: Elem,
    pub num: NumFmt,
}
