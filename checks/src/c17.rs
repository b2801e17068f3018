//! C17: autofilters hide exactly the rows that do not match.
use crate::util::*;

#[derive(Clone, Debug, PartialEq)]
enum Cell {
    Missing,
    Blank,
    Text(String),
    Num(f64),
    Date(f64),
    Bool,
}

#[derive(Clone, Debug)]
enum Val {
    Text(String),
    Num(f64),
}
use FilterCriteria::*;

#[derive(Clone)]
enum Cond {
    List(Vec<Val>, bool),
    Custom(Vec<(FilterCriteria, Val)>, bool),
}

fn crit_name(c: FilterCriteria) -> &'static str {
    match c {
        EqualTo => "=",
        NotEqualTo => "<>",
        GreaterThan => ">",
        GreaterThanOrEqualTo => ">=",
        LessThan => "<",
        LessThanOrEqualTo => "<=",
        BeginsWith => "begins",
        DoesNotBeginWith => "not begins",
        EndsWith => "ends",
        DoesNotEndWith => "not ends",
        Contains => "contains",
        DoesNotContain => "not contains",
    }
}

impl std::fmt::Debug for Cond {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Cond::List(v, b) => write!(f, "list {v:?} blanks {b}"),
            Cond::Custom(v, or) => write!(f, "{:?} or {or}", v.iter().map(|(c, v)| (crit_name(*c), v)).collect::<Vec<_>>()),
        }
    }
}

const WORDS: &[&str] = &["apple", "Apple", "APPLE", "banana", "Banana split", "cherry", "a", "an", "élan", "ÉLAN", "5", "10", "x5", "日本"];

fn word(s: &mut Src) -> String {
    if s.chance(1, 5) { gen::word(s, 4) } else { (*s.pick(WORDS)).to_string() }
}
fn number(s: &mut Src) -> f64 {
    if s.chance(1, 4) { f64::from(s.int(-400, 400) as i32) / 4.0 } else { f64::from(s.int(-2, 11) as i32) }
}

fn cell(s: &mut Src) -> Cell {
    match s.weighted(&[6, 6, 2, 2, 1, 1]) {
        0 => Cell::Num(number(s)),
        1 => Cell::Text(word(s)),
        2 => Cell::Missing,
        3 => Cell::Blank,
        4 => Cell::Date(f64::from(s.below(12) as u32)),
        _ => Cell::Bool,
    }
}

fn val(s: &mut Src) -> Val {
    if s.bool() { Val::Num(number(s)) } else { Val::Text(word(s)) }
}

fn cond(s: &mut Src) -> Cond {
    if s.bool() {
        let blanks = s.chance(1, 3);
        let n = s.small(usize::from(!blanks), 4);
        Cond::List((0..n).map(|_| val(s)).collect(), blanks)
    } else {
        let one = |s: &mut Src| {
            if s.chance(1, 8) {
                return (NotEqualTo, Val::Text(" ".into()));
            }
            let c = *s.pick(&[EqualTo, NotEqualTo, GreaterThan, GreaterThanOrEqualTo, LessThan, LessThanOrEqualTo, BeginsWith, DoesNotBeginWith, EndsWith, DoesNotEndWith, Contains, DoesNotContain]);
            (c, val(s))
        };
        let mut v = vec![one(s)];
        if s.bool() {
            v.push(one(s));
        }
        Cond::Custom(v, s.bool())
    }
}

fn build(c: &Cond) -> FilterCondition {
    let mut f = FilterCondition::new();
    match c {
        Cond::List(v, b) => {
            for x in v {
                f = match x {
                    Val::Text(t) => f.add_list_filter(t.as_str()),
                    Val::Num(n) if n.fract() == 0.0 => f.add_list_filter(*n as i32),
                    Val::Num(n) => f.add_list_filter(*n),
                };
            }
            if *b {
                f = f.add_list_blanks_filter();
            }
        }
        Cond::Custom(v, or) => {
            for (c, x) in v {
                f = match x {
                    Val::Text(t) => f.add_custom_filter(*c, t.as_str()),
                    Val::Num(n) => f.add_custom_filter(*c, *n),
                };
            }
            if *or && v.len() > 1 {
                f = f.add_custom_boolean_or();
            }
        }
    }
    f
}

/// Number of a filter value: the file stores no types.
fn num_of(v: &Val) -> Option<f64> {
    match v {
        Val::Num(n) => Some(*n),
        Val::Text(t) => t.parse().ok(),
    }
}
fn text_of(v: &Val) -> String {
    match v {
        Val::Num(n) => n.to_string(),
        Val::Text(t) => t.clone(),
    }
}

fn one(cell: &Cell, c: FilterCriteria, v: &Val) -> bool {
    let (neg, pos) = match c {
        NotEqualTo => (true, EqualTo),
        DoesNotBeginWith => (true, BeginsWith),
        DoesNotEndWith => (true, EndsWith),
        DoesNotContain => (true, Contains),
        c => (false, c),
    };
    let blank = matches!(cell, Cell::Missing | Cell::Blank);
    if c == NotEqualTo && text_of(v) == " " {
        return !blank;
    }
    let hit = match cell {
        Cell::Text(t) => {
            let (a, b) = (t.to_lowercase(), text_of(v).to_lowercase());
            let text = num_of(v).is_none();
            match pos {
                EqualTo => a == b,
                BeginsWith => a.starts_with(&b),
                EndsWith => a.ends_with(&b),
                Contains => a.contains(&b),
                GreaterThan => text && a > b,
                GreaterThanOrEqualTo => text && a >= b,
                LessThan => text && a < b,
                _ => text && a <= b,
            }
        }
        Cell::Num(n) | Cell::Date(n) => num_of(v).is_some_and(|v| match pos {
            EqualTo => *n == v,
            GreaterThan => *n > v,
            GreaterThanOrEqualTo => *n >= v,
            LessThan => *n < v,
            LessThanOrEqualTo => *n <= v,
            _ => false,
        }),
        _ => false,
    };
    hit != neg
}

/// Does the cell satisfy the condition? `None`: left open.
fn shown(cell: &Cell, c: &Cond) -> Option<bool> {
    match c {
        Cond::List(v, blanks) => Some(match cell {
            Cell::Missing | Cell::Blank => *blanks,
            Cell::Text(t) => v.iter().any(|v| text_of(v).to_lowercase() == t.to_lowercase()),
            Cell::Num(n) => v.iter().any(|v| num_of(v) == Some(*n)),
            // Dates and booleans in lists are matched as displayed.
            _ => return None,
        }),
        Cond::Custom(v, or) => {
            let mut r = v.iter().map(|(c, v)| one(cell, *c, v));
            Some(if *or { r.any(|x| x) } else { r.all(|x| x) })
        }
    }
}

fn same_val(got: &str, v: &Val) -> bool {
    match v {
        Val::Num(n) => got.parse::<f64>().is_ok_and(|g| g == *n),
        Val::Text(t) => got == t,
    }
}

fn check_cond(e: &Elem, c: &Cond, what: &str) -> R<()> {
    let kids: Vec<&Elem> = e.children().collect();
    ensure!(kids.len() == 1, "definition", "{what}: the filter column has {} conditions", kids.len());
    let k = kids[0];
    let on = |n: &str| matches!(k.attr(n), Some("1" | "true"));
    match c {
        Cond::List(v, b) => {
            ensure!(k.name == "filters" && on("blank") == *b, "definition", "{what}: stored as {}", k.canon());
            let got: Vec<&str> = k.children().map(|f| f.attr("val").unwrap_or("")).collect();
            ensure!(got.len() == v.len() && got.iter().zip(v).all(|(g, v)| same_val(g, v)), "definition", "{what}: stored list {got:?}");
        }
        Cond::Custom(v, or) => {
            ensure!(k.name == "customFilters" && (v.len() < 2 || on("and") != *or), "definition", "{what}: stored as {}", k.canon());
            let got: Vec<&Elem> = k.children().collect();
            ensure!(got.len() == v.len(), "definition", "{what}: {} conditions are stored", got.len());
            for (g, (c, v)) in got.iter().zip(v) {
                let op = g.attr("operator").unwrap_or("equal");
                let (want, pre, post) = match c {
                    EqualTo => ("equal", "", ""),
                    NotEqualTo => ("notEqual", "", ""),
                    GreaterThan => ("greaterThan", "", ""),
                    GreaterThanOrEqualTo => ("greaterThanOrEqual", "", ""),
                    LessThan => ("lessThan", "", ""),
                    LessThanOrEqualTo => ("lessThanOrEqual", "", ""),
                    BeginsWith => ("equal", "", "*"),
                    DoesNotBeginWith => ("notEqual", "", "*"),
                    EndsWith => ("equal", "*", ""),
                    DoesNotEndWith => ("notEqual", "*", ""),
                    Contains => ("equal", "*", "*"),
                    DoesNotContain => ("notEqual", "*", "*"),
                };
                let val = g.attr("val").unwrap_or("");
                let inner = val.strip_prefix(pre).and_then(|v| v.strip_suffix(post));
                ensure!(op == want && inner.is_some_and(|i| same_val(i, v)), "definition", "{what}: stored as {}", g.canon());
            }
        }
    }
    Ok(())
}

#[derive(Default)]
struct M {
    cells: BTreeMap<(u32, u16), Cell>,
    hidden: BTreeSet<u32>,
    area: Option<(u32, u16, u32, u16)>,
    conds: BTreeMap<u16, Cond>,
    off: bool,
}

fn put(s: &mut Src, ws: &mut Worksheet, m: &mut M, r: u32, k: u16, c: Cell) -> R<()> {
    match &c {
        Cell::Missing => {
            ws.clear_cell(r, k);
        }
        Cell::Blank => {
            must("write_blank", ws.write_blank(r, k, &Format::new().set_bold()))?;
        }
        Cell::Text(t) => {
            if t.chars().count() > 1 && s.chance(1, 5) {
                let i = t.char_indices().nth(1).unwrap().0;
                must("write_rich_string", ws.write_rich_string(r, k, &[(&Format::default(), &t[..i]), (&Format::new().set_bold(), &t[i..])]))?;
            } else {
                must("write_string", ws.write_string(r, k, t))?;
            }
        }
        Cell::Num(n) => {
            must("write_number", ws.write_number(r, k, *n))?;
        }
        Cell::Date(n) => {
            let d = must("date", ExcelDateTime::from_serial_datetime(*n))?;
            must("write_datetime", ws.write_datetime_with_format(r, k, &d, &Format::new().set_num_format("yyyy-mm-dd")))?;
        }
        Cell::Bool => {
            must("write_boolean", ws.write_boolean(r, k, s.bool()))?;
        }
    }
    m.cells.insert((r, k), c);
    Ok(())
}

fn filters(s: &mut Src, ctx: &mut Ctx) -> R<()> {
    let mut wb = Workbook::new();
    wb.add_worksheet();
    let mut m = M::default();
    let mut log: Vec<String> = vec![];
    let (r0, c0) = (s.small(0, 6) as u32, s.small(0, 4) as u16);
    let (h, w) = (s.below(13) as u32, s.below(4) as u16);
    let saves = 1 + usize::from(s.chance(1, 4));
    for k in 0..saves {
        if k > 0 {
            log.push("SAVE".into());
        }
        let ws = must("sheet", wb.worksheet_from_index(0))?;
        // Data first, last or in between.
        let parts = s.below(3);
        let data = |s: &mut Src, ws: &mut Worksheet, m: &mut M, log: &mut Vec<String>| -> R<()> {
            for r in r0..=r0 + h + 1 {
                for c in c0..=c0 + w {
                    if k == 0 || s.chance(1, 6) {
                        let v = cell(s);
                        log.push(format!("{r},{c}={v:?}"));
                        put(s, ws, m, r, c, v)?;
                    }
                }
            }
            Ok(())
        };
        if parts != 2 {
            data(s, ws, &mut m, &mut log)?;
        }
        if m.area.is_none() {
            ensure!(ws.filter_column(c0, &build(&Cond::List(vec![], true))).is_err(), "accepted", "a filter without a range was accepted");
        }
        if m.area.is_none() || s.chance(1, 4) {
            let a = (r0, c0, r0 + h, c0 + w);
            must("autofilter", ws.autofilter(a.0, a.1, a.2, a.3))?;
            m.area = Some(a);
            m.conds.clear();
            log.push(format!("range {a:?}"));
        }
        for _ in 0..s.small(0, 4) {
            let col = c0 + s.below(u64::from(w) + 1) as u16;
            let c = cond(s);
            must("filter_column", ws.filter_column(col, &build(&c)))?;
            log.push(format!("filter {col} {c:?}"));
            m.conds.insert(col, c);
            if s.chance(1, 8) {
                let c = build(&cond(s));
                ensure!(ws.filter_column(c0 + w + 1, &c).is_err() && (c0 == 0 || ws.filter_column(c0 - 1, &c).is_err()), "accepted", "a filter beside the range was accepted");
                ensure!(ws.filter_column(col, &FilterCondition::new()).is_err(), "accepted", "an empty filter was accepted");
            }
        }
        if s.chance(1, 4) {
            for _ in 0..s.small(1, 3) {
                let r = s.below(u64::from(r0 + h) + 3) as u32;
                if s.chance(1, 4) && k == 0 {
                    must("unhide", ws.set_row_unhidden(r))?;
                    m.hidden.remove(&r);
                } else {
                    must("hide", ws.set_row_hidden(r))?;
                    m.hidden.insert(r);
                }
                log.push(format!("hidden {:?}", m.hidden));
            }
        }
        if parts == 2 {
            data(s, ws, &mut m, &mut log)?;
        }
        if !m.off && s.chance(1, 12) {
            ws.filter_automatic_off();
            m.off = true;
            log.push("automatic off".into());
        }
        ctx.d(|| format!("{log:?}"));
        ctx.label_if(k > 0, "saved twice");
        ctx.label_if(m.conds.len() > 1, "several columns");
        ctx.label_if(m.conds.values().any(|c| matches!(c, Cond::Custom(v, _) if v.len() > 1)), "two terms");
        let b = save_book(&mut wb, ctx)?;
        let x = b.sheet(0)?;
        let a = m.area.unwrap();
        let f = x.child("autoFilter");
        ensure!(f.is_some_and(|f| f.attr("ref").is_some_and(|r| r == range_name(a.0, a.1.into(), a.2, a.3.into()))), "definition", "the filter range is {:?}, requested {a:?}", f.map(|f| f.canon()));
        let f = f.unwrap();
        let mut cols = BTreeMap::new();
        for e in f.children() {
            let id: u16 = e.attr("colId").and_then(|v| v.parse().ok()).unwrap_or(u16::MAX);
            ensure!(e.name == "filterColumn" && cols.insert(id.saturating_add(a.1), e).is_none(), "definition", "filter column {}, {log:?}", e.canon());
        }
        ensure!(cols.keys().eq(m.conds.keys()), "definition", "columns {:?} are filtered, {log:?}", cols.keys());
        for (k, c) in &m.conds {
            check_cond(cols[k], c, &format!("column {k} {c:?}"))?;
        }
        let mode = x.child("sheetPr").and_then(|p| p.attr("filterMode"));
        ensure_eq!(mode == Some("1"), !m.conds.is_empty(), "mode", "the sheet is in filter mode, {log:?}");
        let mut hidden = BTreeSet::new();
        for e in x.child("sheetData").into_iter().flat_map(|d| d.children()) {
            if e.attr("hidden") == Some("1") {
                hidden.insert(e.attr("r").and_then(|r| r.parse::<u32>().ok()).unwrap_or(0) - 1);
            }
        }
        let mut some = (false, false);
        for r in 0..=a.2 + 4 {
            let mut want = Some(m.hidden.contains(&r));
            if want == Some(false) && r > a.0 && r <= a.2 && !m.off {
                for (k, c) in &m.conds {
                    match shown(m.cells.get(&(r, *k)).unwrap_or(&Cell::Missing), c) {
                        Some(false) => {
                            want = Some(true);
                            break;
                        }
                        None => want = None,
                        _ => {}
                    }
                }
                match want {
                    Some(true) => some.0 = true,
                    Some(false) if !m.conds.is_empty() => some.1 = true,
                    _ => {}
                }
            }
            if let Some(want) = want {
                ensure_eq!(hidden.contains(&r), want, "hidden", "row {r} ({:?}) is hidden, filters {:?}, log {log:?}", (a.1..=a.3).map(|c| m.cells.get(&(r, c))).collect::<Vec<_>>(), m.conds);
            }
        }
        ensure!(hidden.iter().all(|r| *r <= a.2 || m.hidden.contains(r)), "hidden", "hidden rows {hidden:?} beyond the range");
        if some.0 && some.1 {
            ctx.hit();
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a filter that hides one row and shows another",
        level: "randomised exploration against an evaluator of Excel's filter rules",
        assumptions: &["text is compared without case, numbers never match text orderings", "dates and booleans in value lists are left open", "no wildcards, surrounding blanks or formulas"],
        known: vec![],
        families: vec![fam("filters", 15000, 400000, filters)],
    }
}
