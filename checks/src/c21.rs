//! C21: defined names resolve to the requested scope and reference.
use crate::c29::check_titles;
use crate::util::*;

#[derive(Clone, Default)]
pub struct Sm {
    pub name: String,
    pub chart: bool,
    pub very_hidden: bool,
    pub filter: Option<(u32, u16, u32, u16)>,
    pub area: Option<(u32, u16, u32, u16)>,
    pub rows: Option<(u32, u32)>,
    pub cols: Option<(u16, u16)>,
}

#[derive(Clone, Debug)]
struct Nm {
    name: String,
    /// Name of the sheet of a local name.
    scope: Option<String>,
    text: String,
}

fn ident(s: &mut Src) -> String {
    let mut n = String::new();
    n.push_str(*s.pick(&["n_", "_", "\\", "Sales", "sales", "Éa", "日本", "z", "Z_", "name"]));
    for _ in 0..s.small(0, 4) {
        n.push_str(*s.pick(&["a", "B", "_", ".", "1", "é", "\\", "x", "9", "?"]));
    }
    n.push('_');
    n
}

fn quoted(s: &mut Src, sheet: &str) -> String {
    if needs_quotes(sheet) || !sheet.chars().all(|c| c.is_ascii_alphanumeric()) || s.bool() {
        format!("'{}'", sheet.replace('\'', "''"))
    } else {
        sheet.to_string()
    }
}

fn rng(s: &mut Src) -> (u32, u16, u32, u16) {
    let (a, b, c, d) = range(s, 40, 9);
    match s.below(6) {
        0 => (0, b, MAXR - 1, d),
        1 => (a, 0, c, MAXC - 1),
        _ => (a, b, c, d),
    }
}

/// Absolute range as Excel writes it, whole rows and columns in short form.
fn reference(r: (u32, u16, u32, u16)) -> String {
    if r.1 == 0 && r.3 == MAXC - 1 {
        format!("${}:${}", r.0 + 1, r.2 + 1)
    } else if r.0 == 0 && r.2 == MAXR - 1 {
        format!("${}:${}", col_name(r.1.into()), col_name(r.3.into()))
    } else {
        abs_range(r.0, r.1.into(), r.2, r.3.into())
    }
}

fn key(name: &str) -> String {
    name.strip_prefix("_xlnm.").unwrap_or(name).to_lowercase()
}

fn check(b: &Book, sheets: &[Sm], users: &[Nm]) -> R {
    let at = |n: &str| sheets.iter().position(|s| s.name == n);
    // (name, sheet) -> reference, with the sheet part decoded for the implied ones.
    let mut want: Vec<(String, Option<usize>, String)> = vec![];
    for (i, s) in sheets.iter().enumerate() {
        if let Some(r) = s.filter {
            want.push(("_xlnm._FilterDatabase".into(), Some(i), reference(r)));
        }
        if let Some(r) = s.area {
            want.push(("_xlnm.Print_Area".into(), Some(i), reference(r)));
        }
        let mut t = vec![];
        if let Some((a, b)) = s.cols {
            t.push(format!("${}:${}", col_name(a.into()), col_name(b.into())));
        }
        if let Some((a, b)) = s.rows {
            t.push(format!("${}:${}", a + 1, b + 1));
        }
        if !t.is_empty() {
            want.push(("_xlnm.Print_Titles".into(), Some(i), t.join(",")));
        }
    }
    for u in users {
        want.push((u.name.clone(), u.scope.as_ref().and_then(|s| at(s)), u.text.clone()));
    }
    let mut got = vec![];
    let mut keys: Vec<String> = vec![];
    let mut titles = vec![];
    let list = b.workbook().at("definedNames");
    ensure!(list.is_some() != want.is_empty(), "list", "definedNames {} for {} names", list.is_some(), want.len());
    for d in list.map(|l| l.all("definedName").collect::<Vec<_>>()).unwrap_or_default() {
        let name = d.attr("name").unwrap_or("").to_string();
        let id = d.attr("localSheetId").map(|t| t.parse::<usize>().unwrap_or(usize::MAX));
        ensure!(id.is_none_or(|i| i < sheets.len()), "scope", "{name} belongs to sheet {id:?}");
        let mut text = d.text();
        let filter = name == "_xlnm._FilterDatabase";
        ensure!(d.attr("hidden").is_some_and(|h| h == "1") == filter, "hidden", "{name}: {:?}", d.attrs);
        if name.starts_with("_xlnm.") {
            // Sheet names contain no comma outside quotes here, so splitting
            // at the sheet separator of every part is safe.
            let mut parts = vec![];
            let mut rest = text.as_str();
            loop {
                let (sh, r) = split_ref(rest)?;
                let raw = &rest[..rest.len() - r.len() - 1];
                ensure!(raw.starts_with('\'') || !needs_quotes(raw), "quotes", "{name}: sheet name in {text:?} needs quotes");
                ensure!(id.is_some_and(|i| sheets[i].name == sh), "sheet", "{name} of sheet {id:?} refers to {sh:?}");
                match r.split_once(',') {
                    Some((a, _)) => {
                        parts.push(a.to_string());
                        rest = &rest[rest.len() - r.len() + a.len() + 1..];
                    }
                    None => {
                        parts.push(r);
                        break;
                    }
                }
            }
            if name == "_xlnm.Print_Titles" && parts.len() == 2 && parts[0].contains(|c: char| c.is_ascii_digit()) {
                parts.swap(0, 1);
            }
            for p in &mut parts {
                if let Ok(q) = parse_range(&p.replace('$', "")) {
                    *p = abs_range(q.0, q.1, q.2, q.3);
                }
            }
            text = parts.join(",");
        }
        let k = key(&name);
        ensure!(keys.last().is_none_or(|l| *l <= k), "order", "{name} is stored after {:?}", keys.last());
        keys.push(k);
        titles.push((name.clone(), id, d.text()));
        got.push((name, id, text));
    }
    let sort = |v: &mut Vec<(String, Option<usize>, String)>| v.sort();
    sort(&mut got);
    sort(&mut want);
    ensure!(got == want, "names", "names {got:?}\nrequested {want:?}");
    // Named ranges in the application properties, in the same order.
    let mut t = vec![];
    for (name, id, text) in titles {
        let short = name.strip_prefix("_xlnm.").unwrap_or(&name);
        match id {
            _ if short == "_FilterDatabase" => {}
            Some(i) => t.push(format!("{}!{short}", sheets[i].name)),
            None if text.contains('!') => t.push(short.to_string()),
            None => {}
        }
    }
    check_titles(b, sheets, &t)
}

fn names(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let mut used = HashSet::new();
    let mut sheets: Vec<Sm> = vec![];
    let mut users: Vec<Nm> = vec![];
    let mut taken: HashSet<(String, Option<String>)> = HashSet::new();
    let rounds = if s.chance(1, 4) { 2 } else { 1 };
    // Names that sheets will get later.
    let pool: Vec<String> = (0..6).map(|_| sheet_name(s, &mut used)).collect();
    let mut next = 0;
    for round in 0..rounds {
        for _ in 0..s.span(1, 12, 60) {
            match s.below(10) {
                0..=1 if next < 5 => {
                    let chart = !sheets.is_empty() && s.chance(1, 6);
                    let name = pool[next].clone();
                    next += 1;
                    let ws = if chart { wb.add_chartsheet() } else { wb.add_worksheet() };
                    must("set_name", ws.set_name(&name))?;
                    if chart {
                        let mut ch = Chart::new_line();
                        ch.add_series().set_values((sheets[0].name.as_str(), 0, 0, 2, 0));
                        must("insert_chart", ws.insert_chart(0, 0, &ch))?;
                    }
                    sheets.push(Sm { name, chart, ..Sm::default() });
                }
                2..=4 => {
                    let k = if s.chance(1, 12) { 6 } else { 5 };
                    let scope = if s.bool() { Some(pool[s.idx(k)].clone()) } else { None };
                    let name = ident(s);
                    if !taken.insert((name.to_lowercase(), scope.clone())) {
                        continue;
                    }
                    let target = pool[s.idx(5)].clone();
                    let r = rng(s);
                    let text = match s.below(5) {
                        0 => (*s.pick(&["0.95", "\"a & b < c\"", "1+2", "SUM(1,2)", "{1,2;3,4}", "#REF!"])).to_string(),
                        1 => format!("{}!{},{}!$A$1", quoted(s, &target), reference(r), quoted(s, &target)),
                        2 => format!("SUM({}!{})", quoted(s, &target), reference(r)),
                        _ => format!("{}!{}", quoted(s, &target), reference(r)),
                    };
                    let full = match &scope {
                        Some(sh) => format!("{}!{name}", quoted(s, sh)),
                        None => name.clone(),
                    };
                    let f = if s.bool() { format!("={text}") } else { text.clone() };
                    must("define_name", wb.define_name(&full, &f))?;
                    c.label(if scope.is_some() { "local" } else { "global" });
                    users.push(Nm { name, scope, text });
                }
                5 if sheets.len() > 1 => {
                    let (a, b) = (s.idx(sheets.len()), s.idx(sheets.len()));
                    wb.worksheets_mut().swap(a, b);
                    sheets.swap(a, b);
                    c.label("moved");
                }
                6 if !sheets.is_empty() && next < 6 && s.chance(1, 3) => {
                    // Rename a sheet without local names.
                    let i = s.idx(sheets.len());
                    let old = sheets[i].name.clone();
                    if users.iter().all(|u| u.scope.as_ref() != Some(&old)) && !sheets.iter().any(|x| x.chart) {
                        must("set_name", wb.worksheets_mut()[i].set_name(&pool[next]))?;
                        sheets[i].name = pool[next].clone();
                        next += 1;
                        c.label("renamed");
                    }
                }
                _ if !sheets.is_empty() => {
                    let i = s.idx(sheets.len());
                    let m = &mut sheets[i];
                    let ws = must("sheet", wb.worksheet_from_index(i))?;
                    if m.chart {
                        continue;
                    }
                    let r = rng(s);
                    match s.below(5) {
                        0 => {
                            must("autofilter", ws.autofilter(r.0, r.1, r.2, r.3))?;
                            m.filter = Some(r);
                            c.label("filter");
                        }
                        1 => {
                            must("set_print_area", ws.set_print_area(r.0, r.1, r.2, r.3))?;
                            m.area = Some(r);
                            c.label("area");
                        }
                        2 => {
                            must("set_repeat_rows", ws.set_repeat_rows(r.0, r.2))?;
                            m.rows = Some((r.0, r.2));
                            c.label("titles");
                        }
                        3 => {
                            must("set_repeat_columns", ws.set_repeat_columns(r.1, r.3))?;
                            m.cols = Some((r.1, r.3));
                            c.label("titles");
                        }
                        _ => {
                            if i > 0 && s.bool() {
                                ws.set_very_hidden(true);
                                m.very_hidden = true;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if sheets.first().is_some_and(|m| m.very_hidden) {
            // The first sheet becomes the active one and visible.
            wb.worksheets_mut()[0].set_very_hidden(false);
            sheets[0].very_hidden = false;
        }
        let mut list = sheets.clone();
        if list.is_empty() {
            list.push(Sm { name: "Sheet1".into(), ..Sm::default() });
            if round + 1 < rounds {
                // Keep the automatic sheet out of later rounds.
                return Ok(());
            }
        }
        if sheets.is_empty() && users.iter().any(|u| u.scope.as_deref() == Some("Sheet1")) {
            return Ok(());
        }
        c.d(|| format!("{:?} {users:?}", list.iter().map(|m| (&m.name, m.filter, m.area, m.rows, m.cols)).collect::<Vec<_>>()));
        let unknown = users.iter().any(|u| u.scope.as_ref().is_some_and(|n| list.iter().all(|m| m.name != *n)));
        if unknown {
            c.evals += 1;
            let r = guard("save", || wb.save_to_buffer())?;
            ensure!(r.is_err(), "unknown-sheet", "a name for a missing sheet was saved");
            c.label("unknown sheet");
            return Ok(());
        }
        // Charts need their sheet.
        let b = save_book(&mut wb, c)?;
        check(&b, &list, &users)?;
    }
    if users.len() + sheets.iter().filter(|m| m.area.is_some() || m.filter.is_some() || m.rows.is_some() || m.cols.is_some()).count() > 1 {
        c.hit();
    }
    Ok(())
}

fn illegal(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    must("set_name", wb.add_worksheet().set_name("Data"))?;
    let good = ident(s);
    let bad = match s.below(6) {
        0 => String::new(),
        1 => format!("{}{good}", s.pick(&["1", ".", "9a", "-", "(", "?", " ", "$", "€", "=", "\u{301}"])),
        2 => {
            let ch = *s.pick(&[',', '/', '*', '[', ']', ':', '"', '\'', ' ']);
            let mut cs: Vec<char> = good.chars().collect();
            let i = 1 + s.idx(cs.len());
            cs.insert(i, ch);
            cs.into_iter().collect()
        }
        3 => format!("!{good}"),
        4 => "Data!".into(),
        _ => format!("Data!{}{good}", s.pick(&["1", " ", "*", ".", "-"])),
    };
    let full = if !bad.contains('!') && s.bool() { format!("Data!{bad}") } else { bad };
    c.hit();
    c.d(|| format!("{full:?}"));
    let r = guard("define_name", || wb.define_name(&full, "=1").map(|_| ()))?;
    ensure!(r.is_err(), "illegal", "the name {full:?} was accepted");
    let b = save_book(&mut wb, c)?;
    ensure!(b.workbook().at("definedNames").is_none(), "left", "the refused name {full:?} was stored");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "more than one name (names); every case (illegal)",
        level: "exploration",
        assumptions: &["names don't look like cell references", "order is by lower case name without the _xlnm. prefix"],
        families: vec![fam("names", 12000, 400_000, names), fam("illegal", 3000, 20_000, illegal)],
        known: vec![],
    }
}
