//! C11: tables are stored exactly as configured.
use crate::fmt::*;
use crate::util::*;

/// What a sheet cell must hold: value, and format unless undetermined.
#[derive(Clone, Debug)]
struct Cm {
    v: V,
    f: Option<Fm>,
}

#[derive(Clone, Default)]
struct Col {
    name: String,
    func: usize,
    custom: String,
    label: String,
    formula: String,
    fmt: Option<(Format, Fm)>,
    hfmt: Option<(Format, Fm)>,
}

#[derive(Clone)]
pub struct Tm {
    rng: (u32, u16, u32, u16),
    header: bool,
    total: bool,
    brow: bool,
    bcol: bool,
    first: bool,
    last: bool,
    auto: bool,
    name: String,
    style: String,
    cols: Vec<Col>,
}

const FN: &[(&str, u16)] = &[("", 0), ("average", 101), ("countNums", 102), ("count", 103), ("max", 104), ("min", 105), ("stdDev", 107), ("sum", 109), ("var", 110), ("custom", 0)];

fn function(i: usize, custom: &str) -> TableFunction {
    match i {
        0 => TableFunction::None,
        1 => TableFunction::Average,
        2 => TableFunction::CountNumbers,
        3 => TableFunction::Count,
        4 => TableFunction::Max,
        5 => TableFunction::Min,
        6 => TableFunction::StdDev,
        7 => TableFunction::Sum,
        8 => TableFunction::Var,
        _ => TableFunction::Custom(Formula::new(custom)),
    }
}

macro_rules! styles { ($($n:ident),*) => { &[$((TableStyle::$n, stringify!($n))),*] } }
const STYLES: &[(TableStyle, &str)] = styles!(None, Light1, Light2, Light3, Light4, Light5, Light6, Light7, Light8, Light9, Light10, Light11, Light12, Light13, Light14, Light15, Light16, Light17, Light18, Light19, Light20, Light21, Medium1, Medium2, Medium3, Medium4, Medium5, Medium6, Medium7, Medium8, Medium9, Medium10, Medium11, Medium12, Medium13, Medium14, Medium15, Medium16, Medium17, Medium18, Medium19, Medium20, Medium21, Medium22, Medium23, Medium24, Medium25, Medium26, Medium27, Medium28, Dark1, Dark2, Dark3, Dark4, Dark5, Dark6, Dark7, Dark8, Dark9, Dark10, Dark11);

fn header_name(s: &mut Src) -> String {
    match s.below(6) {
        0 => gen::line_text(s, 12),
        1 => (*s.pick(&["It's", "#1", "a[b]", "x]y'z", "a@b", "Q 1", "Column1", "Column2", "column3", "A&B<C>\"", "ñ", "ÄÖ", "a\nb", " lead", "trail ", "1", "=x"])).to_string(),
        2 => format!("H{}", s.below(6)),
        _ => gen::word(s, 8),
    }
}

const FORMULAS: &[(&str, &str)] = &[
    ("=SUM(Table1[@[Q1]:[Q4]])", "SUM(Table1[[#This Row],[Q1]:[Q4]])"),
    ("A1&\"@x\"", "A1&\"@x\""),
    ("=B2*2", "B2*2"),
    ("SUM(T[@x])", "SUM(T[[#This Row],x])"),
    ("1<2", "1<2"),
    ("CONCAT(\"a@b\",T[@y])&\"&\"", "_xlfn.CONCAT(\"a@b\",T[[#This Row],y])&\"&\""),
];
const CUSTOM: &[&str] = &["SUM(B2:B4)+1", "SUBTOTAL(109,[Q1])*2", "\"<&>\"", "MAX(A1:A3)"];

fn gen_col(s: &mut Src, pool: &[(Format, Fm, String)]) -> (TableColumn, Col, String) {
    let mut t = TableColumn::new();
    let mut m = Col::default();
    let mut d = String::from("col");
    shuffled!(s;
        {
            if s.bool() {
                m.name = header_name(s);
                d += &format!(" header {:?}", m.name);
                t = t.set_header(&m.name);
            }
        }
        {
            if s.chance(1, 2) {
                m.func = s.idx(FN.len());
                m.custom = s.pick(CUSTOM).to_string();
                d += &format!(" function {}", FN[m.func].0);
                t = t.set_total_function(function(m.func, &m.custom));
            }
        }
        {
            if s.chance(1, 4) {
                m.label = gen::line_text(s, 10);
                d += &format!(" label {:?}", m.label);
                t = t.set_total_label(&m.label);
            }
        }
        {
            if s.chance(1, 4) {
                let f = s.pick(FORMULAS);
                m.formula = f.1.into();
                d += &format!(" formula {:?}", f.0);
                t = if s.bool() { t.set_formula(f.0) } else { t.set_formula(Formula::new(f.0)) };
            }
        }
        {
            if s.chance(1, 3) {
                let i = s.idx(pool.len());
                d += &format!(" format #{i}");
                if s.chance(1, 6) {
                    // A number format is enough.
                    let n = *s.pick(&["0.000", "yyyy-mm-dd", "#,##0"]);
                    d += &format!(" ({n})");
                    t = if s.bool() { t.set_format(n) } else { t.set_format(n.to_string()) };
                    m.fmt = Some((Format::new().set_num_format(n), Fm { num: Num::Code(n.to_string()), ..Fm::default() }));
                } else {
                    t = if s.bool() { t.set_format(&pool[i].0) } else { t.set_format(pool[i].0.clone()) };
                    m.fmt = Some((pool[i].0.clone(), pool[i].1.clone()));
                }
            }
        }
    );
    if s.chance(1, 4) {
        let i = s.idx(pool.len());
        d += &format!(" header format #{i}");
        t = t.set_header_format(&pool[i].0);
        m.hfmt = Some((pool[i].0.clone(), pool[i].1.clone()));
    }
    (t, m, d)
}

/// A table with the model of its settings; `rng` is filled in by the caller.
pub fn gen_table(s: &mut Src, pool: &[(Format, Fm, String)], n: usize, names: &mut HashSet<String>) -> (Table, Tm, String) {
    let mut t = Table::new();
    let mut m = Tm { rng: (0, 0, 0, 0), header: true, total: false, brow: true, bcol: false, first: false, last: false, auto: true, name: String::new(), style: "TableStyleMedium9".into(), cols: vec![] };
    let mut d = String::from("table");
    for _ in 0..s.small(0, 7) {
        let b = s.bool();
        match s.below(9) {
            0 => { t = t.set_header_row(b); m.header = b; if !b { m.auto = false; } d += &format!(" header_row {b}"); }
            1 => { t = t.set_total_row(b); m.total = b; d += &format!(" total_row {b}"); }
            2 => { t = t.set_banded_rows(b); m.brow = b; d += &format!(" banded_rows {b}"); }
            3 => { t = t.set_banded_columns(b); m.bcol = b; d += &format!(" banded_columns {b}"); }
            4 => { t = t.set_first_column(b); m.first = b; d += &format!(" first_column {b}"); }
            5 => { t = t.set_last_column(b); m.last = b; d += &format!(" last_column {b}"); }
            6 => { t = t.set_autofilter(b); m.auto = b; d += &format!(" autofilter {b}"); }
            7 => {
                let n = format!("{}{}", *s.pick(&["Sales", "tbl_", "Ünï", "T.x"]), s.below(30));
                if names.insert(n.to_lowercase()) {
                    d += &format!(" name {n}");
                    t = t.set_name(&n);
                    m.name = n;
                }
            }
            _ => {
                let i = s.idx(STYLES.len());
                t = t.set_style(STYLES[i].0);
                m.style = if i == 0 { String::new() } else { format!("TableStyle{}", STYLES[i].1) };
                d += &format!(" style {}", STYLES[i].1);
            }
        }
    }
    if n > 4 {
        // A wide table where few columns are configured, perhaps with a clash.
        let mut v: Vec<TableColumn> = (0..n).map(|_| TableColumn::new()).collect();
        m.cols.resize_with(n, Col::default);
        for _ in 0..s.small(0, 3) {
            let i = s.idx(n);
            let (c, cm, cd) = gen_col(s, pool);
            v[i] = c;
            m.cols[i] = cm;
            d += &format!("; column {i}: {cd}");
        }
        if s.chance(1, 3) {
            let (i, j) = (s.idx(n), s.idx(n));
            let name = format!("{}{}", if s.bool() { "Column" } else { "COLUMN" }, j + 1);
            v[i] = TableColumn::new().set_header(&name);
            d += &format!("; column {i}: {name}");
            m.cols[i] = Col { name, ..Col::default() };
        }
        t = t.set_columns(&v);
    } else if s.chance(2, 3) {
        let k = s.small(0, n + 1);
        let mut v = vec![];
        for _ in 0..k {
            let (c, cm, cd) = gen_col(s, pool);
            v.push(c);
            m.cols.push(cm);
            d += &format!("; {cd}");
        }
        t = t.set_columns(&v);
    }
    (t, m, d)
}

fn escape_col(n: &str) -> String {
    let mut o = String::new();
    for c in n.chars() {
        match c {
            '\'' => o.push_str("''"),
            '#' | '[' | ']' => { o.push('\''); o.push(c) }
            c => o.push(c),
        }
    }
    o
}

fn formula(t: &str) -> V {
    V::Formula { text: t.into(), kind: String::new(), rng: String::new(), dynamic: false, result: Box::new(V::Num(0.0)) }
}

#[derive(Default)]
struct Sh {
    cells: BTreeMap<(u32, u16), Cm>,
    tables: Vec<Tm>,
}

fn put(ws: &mut Worksheet, m: &mut Sh, s: &mut Src, r: u32, k: u16, pool: &[(Format, Fm, String)], c: &mut Ctx) -> R {
    let i = s.idx(pool.len());
    let with = s.chance(1, 3);
    let f = if with { pool[i].1.clone() } else { Fm::default() };
    let (f0, has) = (&pool[i].0, with);
    let v = match s.below(4) {
        0 => {
            let n = s.int(0, 99) as f64;
            if has { must("write", ws.write_with_format(r, k, n, f0))?; } else { must("write", ws.write(r, k, n))?; }
            V::Num(n)
        }
        1 => {
            must("write", if has { ws.write_with_format(r, k, true, f0) } else { ws.write(r, k, true) })?;
            V::Bool(true)
        }
        _ => {
            let t = header_name(s);
            if t.is_empty() {
                return Ok(());
            }
            must("write_string", if has { ws.write_string_with_format(r, k, &t, f0) } else { ws.write_string(r, k, &t) })?;
            V::Str(t)
        }
    };
    c.d(|| format!("write {v:?} at ({r},{k}) format {}", if has { i as i64 } else { -1 }));
    m.cells.insert((r, k), Cm { v, f: Some(f) });
    Ok(())
}

fn tables(s: &mut Src, c: &mut Ctx) -> R {
    let pool = gen_pool(s, 4, 3);
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} {}", p.2));
    }
    let ns = s.small(1, 3);
    let mut wb = Workbook::new();
    let mut ms: Vec<Sh> = vec![];
    for _ in 0..ns {
        wb.add_worksheet();
        ms.push(Sh::default());
    }
    let mut names = HashSet::new();
    let mut next = vec![0u16; ns];
    for i in 0..10 {
        names.insert(format!("table{i}"));
    }
    let steps = s.span(1, 12, 40);
    let mid = if s.chance(1, 4) { s.idx(steps) } else { usize::MAX };
    for step in 0..steps {
        if step == mid {
            c.d(|| "saved in between".into());
            c.label("saved in between");
            let b = save_book(&mut wb, c)?;
            check(&b, &ms)?;
        }
        let i = s.idx(ns);
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        let m = &mut ms[i];
        if s.chance(1, 2) {
            let (r, k) = (s.u32(0, 8), s.u16(0, 9).max(0));
            c.d(|| format!("sheet {i}"));
            put(ws, m, s, r, k, &pool, c)?;
            continue;
        }
        let w = if s.chance(1, 20) { s.u16(5, 60) } else { s.u16(1, 4) };
        let (t, mut tm, d) = gen_table(s, &pool, usize::from(w), &mut names);
        let min = u32::from(tm.header) + u32::from(tm.total);
        let far = s.chance(1, 30) && m.tables.iter().all(|t| t.rng.0 < 1000);
        let r = if far { 1_048_560 } else { s.u32(0, 5) };
        let k = if far { 16_384 - w } else { next[i] };
        if min > 0 && s.chance(1, 25) {
            c.d(|| format!("sheet {i} {d} without data rows"));
            c.label("no data rows");
            let res = guard("add_table", || ws.add_table(r, k, r + min - 1, k + w - 1, &t).map(|_| ()))?;
            ensure!(res.is_err(), "rows", "a table without data rows was accepted");
            continue;
        }
        let h = min + s.u32(1, 4);
        let rng = (r, k, r + h - 1, k + w - 1);
        tm.rng = rng;
        tm.cols.resize_with(usize::from(w), Col::default);
        c.d(|| format!("sheet {i} {d} at {rng:?}"));
        // Default headers come from the strings already in the header row.
        let mut seen = HashSet::new();
        let mut dup = false;
        for (j, col) in tm.cols.iter_mut().enumerate() {
            if col.name.is_empty() {
                col.name = format!("Column{}", j + 1);
                if tm.header {
                    if let Some(Cm { v: V::Str(t), .. }) = m.cells.get(&(r, k + j as u16)) {
                        col.name = t.clone();
                    }
                }
            }
            dup |= !seen.insert(col.name.to_lowercase());
        }
        let res = guard("add_table", || ws.add_table(rng.0, rng.1, rng.2, rng.3, &t).map(|_| ()))?;
        if dup {
            ensure!(res.is_err(), "duplicate", "a table with duplicate column names was accepted");
            c.label("duplicate columns");
            continue;
        }
        must("add_table", res)?;
        c.hit();
        c.label_if(tm.total, "total row");
        c.label_if(!tm.header, "no header");
        if !far {
            next[i] = k + w + s.u16(0, 1);
        }
        let d0 = Fm::default();
        let first = r + u32::from(tm.header);
        let last = rng.2 - u32::from(tm.total);
        for (j, col) in tm.cols.iter().enumerate() {
            let q = k + j as u16;
            let f = col.fmt.as_ref().map_or(d0.clone(), |f| f.1.clone());
            if tm.header {
                m.cells.insert((r, q), Cm { v: V::Str(col.name.clone()), f: Some(col.hfmt.as_ref().map_or(d0.clone(), |f| f.1.clone())) });
            }
            if tm.total {
                if !col.label.is_empty() {
                    m.cells.insert((rng.2, q), Cm { v: V::Str(col.label.clone()), f: Some(f.clone()) });
                } else if col.func > 0 {
                    let t = if col.func == FN.len() - 1 { col.custom.clone() } else { format!("SUBTOTAL({},[{}])", FN[col.func].1, escape_col(&col.name)) };
                    m.cells.insert((rng.2, q), Cm { v: formula(&t), f: Some(f.clone()) });
                }
            }
            for y in first..=last {
                if !col.formula.is_empty() {
                    m.cells.insert((y, q), Cm { v: formula(&col.formula), f: Some(f.clone()) });
                } else if col.fmt.is_some() {
                    if let Some(x) = m.cells.get_mut(&(y, q)) {
                        x.f = Some(f.clone());
                    }
                }
            }
        }
        m.tables.push(tm);
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    check(&b, &ms)
}

fn check(b: &Book, ms: &[Sh]) -> R {
    let mut ids = HashSet::new();
    let mut names = HashSet::new();
    for (i, m) in ms.iter().enumerate() {
        let x = b.sheet(i)?;
        let part = &b.sheets[i].part;
        let tps: Vec<&Elem> = x.child("tableParts").map(|t| t.children().collect()).unwrap_or_default();
        ensure_eq!(tps.len(), m.tables.len(), "count", "sheet {i}: number of tables");
        if let Some(t) = x.child("tableParts") {
            ensure_eq!(t.attr("count").unwrap_or("").to_string(), tps.len().to_string(), "count", "sheet {i}: table count");
        }
        let mut found = BTreeMap::new();
        for tp in tps {
            let rel = b.pkg.rel(part, tp.attr("r:id").unwrap_or(""))?;
            ensure!(rel.kind() == "table", "rel", "sheet {i}: table part is a {} relation", rel.kind());
            let t = b.pkg.part(&rel.target)?;
            found.insert(t.attr("ref").unwrap_or("").to_string(), t);
        }
        for tm in &m.tables {
            let (r1, k1, r2, k2) = tm.rng;
            let rn = range_name(r1, u32::from(k1), r2, u32::from(k2));
            let at = format!("sheet {i} table {rn}");
            let got = match found.get(&rn) { Some(t) => *t, None => fail!("missing", "{at}: not stored") };
            let id = got.attr("id").unwrap_or("").to_string();
            ensure!(id.parse::<u32>().is_ok_and(|v| v > 0) && ids.insert(id.clone()), "id", "{at}: id {id:?}");
            let name = if tm.name.is_empty() { got.attr("name").unwrap_or("").to_string() } else { tm.name.clone() };
            ensure!(!name.is_empty() && names.insert(name.to_lowercase()), "name", "{at}: name {name:?} is not unique");
            let mut want = el("table").a("xmlns", "http://schemas.openxmlformats.org/spreadsheetml/2006/main").a("id", id).a("name", &name).a("displayName", &name).a("ref", &rn).a_if(!tm.header, "headerRowCount", 0);
            want = if tm.total { want.a("totalsRowCount", 1) } else { want.a("totalsRowShown", 0) };
            if tm.header && tm.auto {
                want = want.e(el("autoFilter").a("ref", range_name(r1, u32::from(k1), r2 - u32::from(tm.total), u32::from(k2))));
            }
            let gcols: Vec<&Elem> = got.child("tableColumns").map(|t| t.children().collect()).unwrap_or_default();
            let cols = tm.cols.iter().enumerate().map(|(j, col)| {
                let mut e = el("tableColumn").a("id", j + 1).a("name", &col.name);
                if !col.label.is_empty() {
                    e = e.a("totalsRowLabel", &col.label);
                } else if col.func > 0 {
                    e = e.a("totalsRowFunction", FN[col.func].0);
                }
                let dx = gcols.get(j).and_then(|g| g.attr("dataDxfId"));
                e = e.a_if(col.fmt.is_some(), "dataDxfId", dx.unwrap_or("?"));
                e = e.e_if(!col.formula.is_empty(), || el("calculatedColumnFormula").t(&col.formula));
                e.e_if(col.func == FN.len() - 1, || el("totalsRowFormula").t(&col.custom))
            });
            want = want.e(el("tableColumns").a("count", tm.cols.len()).es(cols));
            let yn = |b: bool| if b { "1" } else { "0" };
            want = want.e(el("tableStyleInfo").a_if(!tm.style.is_empty(), "name", &tm.style).a("showFirstColumn", yn(tm.first)).a("showLastColumn", yn(tm.last)).a("showRowStripes", yn(tm.brow)).a("showColumnStripes", yn(tm.bcol)));
            if let Some(d) = diff(got, &want) {
                fail!("table", "{at}: {d}");
            }
            for (j, col) in tm.cols.iter().enumerate() {
                if let (Some((_, f)), Some(dx)) = (&col.fmt, gcols[j].attr("dataDxfId").and_then(|v| v.parse().ok())) {
                    f.dxf().check(b.dxf(dx)?, &format!("{at} column {j}"))?;
                }
            }
        }
        let cells = b.cells(i)?;
        for ((r, k), want) in &m.cells {
            let at = format!("sheet {i} cell ({r},{k})");
            match cells.get(&(*r, u32::from(*k))) {
                None => fail!("cell", "{at}: missing, {:?} expected", want.v),
                Some(g) => {
                    let gv = match &g.v { V::Rich(_) => fail!("cell", "{at}: rich text"), v => v.clone() };
                    ensure!(gv == want.v, "cell", "{at}: holds {gv:?} where {:?} expected", want.v);
                    if let Some(f) = &want.f {
                        f.check(b, g.s, &at)?;
                    }
                }
            }
        }
        for (at, g) in &cells {
            ensure!(m.cells.contains_key(&(at.0, at.1 as u16)) , "cell", "sheet {i} cell {at:?} holds {:?} unexpectedly", g.v);
        }
    }
    Ok(())
}

/// A name used twice in a workbook is refused at save.
fn reuse(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let n = s.small(2, 5);
    let same = s.bool();
    let (a, b) = (s.idx(n), s.idx(n));
    let ns = s.small(1, 3);
    for _ in 0..ns {
        wb.add_worksheet();
    }
    for i in 0..n {
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i % ns))?;
        let mut t = Table::new();
        let auto = s.bool() && i != a && i != b;
        if !auto {
            t = t.set_name(if same && (i == a || i == b) { (*s.pick(&["Dup", "dup", "DUP"])).to_string() } else { format!("N{i}") });
        }
        let k = (i * 3) as u16;
        must("add_table", ws.add_table(0, k, 3, k + 1, &t))?;
    }
    let clash = same && a != b;
    c.d(|| format!("{n} tables on {ns} sheets, clash {clash}"));
    if clash {
        c.hit();
    }
    c.evals += 1;
    let r = guard("save", || wb.save_to_buffer())?;
    match (clash, r) {
        (true, Err(XlsxError::TableNameReused(_))) | (false, Ok(_)) => Ok(()),
        (true, Ok(_)) => fail!("reuse", "a workbook with a reused table name was saved"),
        (_, Err(e)) => fail!("reuse", "save reported {e} (clash {clash})"),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "at least one table is accepted (tables); two tables share a name (reuse)",
        level: "exploration",
        assumptions: &["tables have at least one data row", "cells written after a table are not restyled by its column formats"],
        families: vec![fam("tables", 12000, 300_000, tables), fam("reuse", 1500, 20_000, reuse)],
        known: vec![],
    }
}
