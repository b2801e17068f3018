//! C31: the sheet list reflects additions, order, names and visibility.
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Vis {
    Shown,
    Hidden,
    VeryHidden,
}

#[derive(Clone, Debug)]
struct M {
    name: String,
    chart: bool,
    token: u32,
    vis: Vis,
    active: bool,
    selected: bool,
    /// Unsetting the active flag leaves the selection open.
    loose: bool,
    first: bool,
    /// Has its default name.
    auto: bool,
}

fn bad_name(s: &mut Src) -> String {
    match s.below(4) {
        0 => String::new(),
        1 => {
            let c = *s.pick(&['a', 'é', '日', '😀']);
            std::iter::repeat_n(c, s.idx(9) + 32).collect()
        }
        2 => {
            let c = *s.pick(&['[', ']', ':', '*', '?', '/', '\\']);
            let (a, b) = (gen::word(s, 8), gen::word(s, 8));
            match s.below(3) {
                0 => format!("{c}{a}"),
                1 => format!("{a}{c}"),
                _ => format!("{a}{c}{b}"),
            }
        }
        _ => {
            let a = gen::word(s, 8);
            if s.bool() { format!("'{a}") } else { format!("{a}'") }
        }
    }
}

const STABLE: &str = "stable data";

fn stamp(ws: &mut Worksheet, chart: bool, token: u32) -> R<()> {
    ws.set_header(format!("&Ltoken-{token}-"));
    if chart {
        let mut c = Chart::new(ChartType::Pie);
        c.add_series().set_values((STABLE, 0, 0, 2, 0));
        must("insert_chart", ws.insert_chart(0, 0, &c))?;
    } else {
        must("write", ws.write_number(0, 0, token))?;
    }
    Ok(())
}

/// Checks the default name of a new sheet.
fn default_name(ms: &[M], name: &str, chart: bool, log: &[String]) -> R<()> {
    let word = if chart { "Chart" } else { "Sheet" };
    ensure!(name.strip_prefix(word).is_some_and(|n| n.parse::<u32>().is_ok()), "default-name", "default name {name:?}, {log:?}");
    ensure!(!ms.iter().any(|o| o.auto && o.name == name), "default-name", "the default name {name:?} is used already, {log:?}");
    Ok(())
}

fn check(b: &Book, ms: &[M], what: &dyn Fn() -> String) -> R<()> {
    ensure_eq!(b.sheets.len(), ms.len(), "count", "number of sheets, {}", what());
    let mut ids = HashSet::new();
    let mut parts = HashSet::new();
    let active: Vec<usize> = (0..ms.len()).filter(|i| ms[*i].active).collect();
    let view = b.workbook().at("bookViews/workbookView");
    let num = |n: &str| view.and_then(|v| v.attr(n)).map_or(0usize, |v| v.parse().unwrap_or(usize::MAX));
    let tab = num("activeTab");
    if active.is_empty() {
        ensure_eq!(tab, 0, "active", "active tab when none was asked for, {}", what());
    } else {
        ensure!(active.contains(&tab), "active", "the active tab is {tab}, asked for {active:?}, {}", what());
    }
    let first = ms.iter().rposition(|m| m.first).map_or(0, |i| i + 1);
    let got = num("firstSheet");
    // The first sheet counts from 1; the very first needs no entry.
    ensure!(got == first || (first == 1 && got == 0), "first-sheet", "the first sheet is {got}, want {first}, {}", what());
    for (i, m) in ms.iter().enumerate() {
        let s = &b.sheets[i];
        ensure_eq!(s.name, m.name, "name", "name of sheet {i}, {}", what());
        ensure!(ids.insert(s.id.clone()), "id", "sheet id {:?} appears twice, {}", s.id, what());
        ensure!(parts.insert(s.part.clone()), "part", "part {:?} is used twice, {}", s.part, what());
        ensure_eq!(s.chart, m.chart, "kind", "sheet {i} is a chart sheet, {}", what());
        let want = match m.vis {
            _ if i == tab => "visible",
            Vis::Shown => "visible",
            Vis::Hidden => "hidden",
            Vis::VeryHidden => "veryHidden",
        };
        ensure_eq!(s.state.as_str(), want, "state", "visibility of sheet {i}, {}", what());
        let root = b.sheet(i)?;
        let sel = root.at("sheetViews/sheetView").and_then(|v| v.attr("tabSelected")).is_some_and(|v| v == "1" || v == "true");
        if i == tab {
            ensure!(sel, "selected", "the active sheet {i} is not selected, {}", what());
        } else if !m.loose {
            ensure_eq!(sel, m.selected, "selected", "selection of sheet {i}, {}", what());
        }
        let head = root.at("headerFooter/oddHeader").map(|h| h.deep_text()).unwrap_or_default();
        ensure_eq!(head, format!("&Ltoken-{}-", m.token), "content", "content behind sheet {i} {:?}, {}", m.name, what());
        if !m.chart {
            let cells = b.cells(i)?;
            ensure!(cells.len() == 1, "content", "sheet {i} has {} cells, {}", cells.len(), what());
        }
    }
    ensure_eq!(b.sheets[tab].state.as_str(), "visible", "active-hidden", "the active sheet {tab}, {}", what());
    Ok(())
}

fn sheets(s: &mut Src, ctx: &mut Ctx) -> R<()> {
    let mut wb = Workbook::new();
    let mut ms: Vec<M> = vec![];
    let mut used = HashSet::new();
    let mut log: Vec<String> = vec![];
    let (mut nw, mut nc, mut token, mut pushed) = (0, 0, 0, false);
    let saves = s.weighted(&[6, 2, 1]) + 1;
    let dups = s.chance(1, 5);
    for k in 0..saves {
        let ops = s.span(if k == 0 { 1 } else { 0 }, 16, 60);
        for _ in 0..ops {
            token += 1;
            let t = token;
            let m = move |name: String, chart: bool| M { name, chart, token: t, vis: Vis::Shown, active: false, selected: false, loose: false, first: false, auto: false };
            let n = ms.len();
            let op = if n == 0 { s.below(6) } else { s.below(30) };
            match op {
                0..=2 => {
                    nw += 1;
                    let ws = wb.add_worksheet();
                    stamp(ws, false, token)?;
                    let name = ws.name();
                    default_name(&ms, &name, false, &log)?;
                    ensure!(pushed || name == format!("Sheet{nw}"), "default-name", "default name {name:?} of worksheet {nw}, {log:?}");
                    ms.push(M { auto: true, ..m(name, false) });
                    log.push("add".into());
                }
                3..=5 => {
                    let chart = s.chance(1, 3);
                    if chart && !ms.iter().any(|m| m.name == STABLE) {
                        let ws = wb.add_worksheet();
                        stamp(ws, false, token)?;
                        must("set_name", ws.set_name(STABLE))?;
                        ms.push(m(STABLE.into(), false));
                        nw += 1;
                        token += 1;
                    }
                    let m = |name: String, chart: bool| M { token, ..m(name, chart) };
                    if chart && s.bool() {
                        nc += 1;
                        let ws = wb.add_chartsheet();
                        stamp(ws, true, token)?;
                        let name = ws.name();
                        default_name(&ms, &name, true, &log)?;
                        ensure!(pushed || name == format!("Chart{nc}"), "default-name", "default name {name:?} of chart sheet {nc}, {log:?}");
                        ms.push(M { auto: true, ..m(name, true) });
                        log.push("add chart".into());
                        continue;
                    }
                    let mut ws = if chart { Worksheet::new_chartsheet() } else { Worksheet::new() };
                    stamp(&mut ws, chart, token)?;
                    let mut mm = m(String::new(), chart);
                    mm.auto = s.bool();
                    if !mm.auto {
                        mm.name = sheet_name(s, &mut used);
                        must("set_name", ws.set_name(&mm.name))?;
                    }
                    if s.chance(1, 4) {
                        ws.set_hidden(true);
                        mm.vis = Vis::Hidden;
                    }
                    pushed = true;
                    if mm.auto || s.bool() {
                        wb.push_worksheet(ws);
                        let name = must("index", wb.worksheet_from_index(ms.len()))?.name();
                        if mm.auto {
                            default_name(&ms, &name, chart, &log)?;
                            mm.name = name;
                        }
                        log.push(format!("push {:?}", mm.name));
                        ms.push(mm);
                    } else {
                        let at = s.idx(ms.len() + 1);
                        wb.worksheets_mut().insert(at, ws);
                        log.push(format!("insert {at} {:?}", mm.name));
                        ms.insert(at, mm);
                    }
                }
                6..=10 => {
                    let i = s.idx(n);
                    if ms[i].name == STABLE {
                        continue;
                    }
                    let ws = must("index", wb.worksheet_from_index(i))?;
                    if s.chance(1, 5) {
                        let bad = bad_name(s);
                        ensure!(ws.set_name(&bad).is_err(), "bad-name", "the name {bad:?} was accepted");
                        ensure_eq!(ws.name(), ms[i].name, "bad-name", "name after refusing {bad:?}");
                        log.push(format!("bad name {i} {bad:?}"));
                    } else {
                        let name = if dups && s.chance(1, 3) {
                            let j = s.idx(n);
                            let d = ms[j].name.clone();
                            match s.below(4) {
                                0 => d,
                                1 => d.to_lowercase().chars().take(31).collect(),
                                _ => d.to_uppercase().chars().take(31).collect(),
                            }
                        } else if dups && s.bool() {
                            let n = (*s.pick(&["Été", "Данные", "Ωmega", "Ünïcode", "日本é", "ñ1", "Ø x", "ÀÇÉ"])).to_string();
                            if used.insert(n.to_lowercase()) { n } else { sheet_name(s, &mut used) }
                        } else {
                            sheet_name(s, &mut used)
                        };
                        must("set_name", ws.set_name(&name))?;
                        ms[i].name = name;
                        ms[i].auto = false;
                        log.push(format!("name {i} {:?}", ms[i].name));
                    }
                }
                11..=13 => {
                    let (i, on) = (s.idx(n), !s.chance(1, 5));
                    let name = ms[i].name.clone();
                    // The first of several sheets with this name is found.
                    let i = ms.iter().position(|m| m.name == name).unwrap_or(i);
                    let ws = must("from_name", wb.worksheet_from_name(&name))?;
                    ws.set_active(on);
                    let m = &mut ms[i];
                    if on {
                        m.selected = true;
                        m.loose = false;
                        m.vis = Vis::Shown;
                    } else if m.active {
                        m.loose = true;
                    }
                    m.active = on;
                    log.push(format!("active {i} {on}"));
                }
                14 | 15 => {
                    let (i, on) = (s.idx(n), !s.chance(1, 4));
                    must("index", wb.worksheet_from_index(i))?.set_selected(on);
                    ms[i].selected = on;
                    ms[i].loose = false;
                    if on {
                        ms[i].vis = Vis::Shown;
                    }
                    log.push(format!("selected {i} {on}"));
                }
                16..=18 => {
                    let (i, on, very) = (s.idx(n), !s.chance(1, 4), s.bool());
                    let ws = must("index", wb.worksheet_from_index(i))?;
                    if very { ws.set_very_hidden(on) } else { ws.set_hidden(on) };
                    let m = &mut ms[i];
                    m.vis = match (on, very) {
                        (false, _) => Vis::Shown,
                        (true, false) => Vis::Hidden,
                        _ => Vis::VeryHidden,
                    };
                    if on {
                        m.active = false;
                        m.selected = false;
                        m.loose = false;
                    }
                    log.push(format!("hidden {i} {on} very {very}"));
                }
                19 => {
                    let (i, on) = (s.idx(n), !s.chance(1, 4));
                    must("index", wb.worksheet_from_index(i))?.set_first_tab(on);
                    if ms[i].selected {
                        ms[i].vis = Vis::Shown;
                    }
                    // A hidden first sheet may be shown; avoided.
                    if on && ms[i].vis != Vis::Shown {
                        must("index", wb.worksheet_from_index(i))?.set_hidden(false);
                        ms[i].vis = Vis::Shown;
                    }
                    ms[i].first = on;
                    log.push(format!("first {i} {on}"));
                }
                20 | 21 => {
                    let (i, j) = (s.idx(n), s.idx(n));
                    wb.worksheets_mut().swap(i, j);
                    ms.swap(i, j);
                    log.push(format!("swap {i} {j}"));
                }
                22 => {
                    wb.worksheets_mut().reverse();
                    ms.reverse();
                    log.push("reverse".into());
                }
                23 if n > 1 => {
                    let i = s.idx(n);
                    if ms[i].name == STABLE {
                        continue;
                    }
                    wb.worksheets_mut().remove(i);
                    ms.remove(i);
                    log.push(format!("remove {i}"));
                }
                24 => {
                    let (i, j) = (s.idx(n), s.idx(n));
                    let w = wb.worksheets_mut().remove(i);
                    let m = ms.remove(i);
                    let j = j.min(ms.len());
                    wb.worksheets_mut().insert(j, w);
                    ms.insert(j, m);
                    log.push(format!("move {i} {j}"));
                }
                25 => {
                    wb.worksheets_mut().sort_by_key(|w| w.name());
                    ms.sort_by_key(|m| m.name.clone());
                    log.push("sort".into());
                }
                26 => {
                    ensure!(wb.worksheet_from_index(n + s.idx(3)).is_err(), "lookup", "an index beyond the sheets is found");
                    let mut x = sheet_name(s, &mut used);
                    if ms.iter().any(|m| m.name == x) {
                        x = "-no such sheet-".into();
                    }
                    ensure!(wb.worksheet_from_name(&x).is_err(), "lookup", "the unknown sheet {x:?} is found");
                }
                _ => {
                    let i = s.idx(n);
                    let name = must("index", wb.worksheet_from_index(i))?.name();
                    ensure_eq!(name, ms[i].name, "lookup", "sheet by index {i}, {log:?}");
                    ensure_eq!(wb.worksheets()[i].name(), ms[i].name, "lookup", "sheet {i} of worksheets(), {log:?}");
                    ensure_eq!(must("from_name", wb.worksheet_from_name(&name))?.name(), name, "lookup", "sheet by name, {log:?}");
                }
            }
        }
        ctx.label_if(ms.iter().any(|m| m.vis == Vis::Hidden), "hidden");
        ctx.label_if(ms.iter().any(|m| m.active), "active");
        ctx.label_if(ms.len() > 4, "many sheets");
        ctx.label_if(k > 0, "saved again");
        ctx.d(|| format!("save {k}: {log:?}"));
        let mut seen = HashSet::new();
        let dup = ms.iter().any(|m| !seen.insert(m.name.to_lowercase()));
        if ms.len() > 1 {
            ctx.hit();
        }
        if dup {
            ctx.label("duplicate names");
            let r = wb.save_to_buffer();
            ensure!(matches!(r, Err(XlsxError::SheetnameReused(_))), "duplicate", "duplicate names in {:?}: {:?}", ms.iter().map(|m| &m.name).collect::<Vec<_>>(), r.map(|v| v.len()));
            return Ok(());
        }
        if ms.is_empty() {
            return Ok(());
        }
        let b = save_book(&mut wb, ctx)?;
        check(&b, &ms, &|| format!("{log:?}"))?;
        // The default active sheet is made visible for good.
        if !ms.iter().any(|m| m.active) {
            ms[0].vis = Vis::Shown;
        }
        log.push("SAVE".into());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "more than one sheet in the saved workbook",
        level: "randomised exploration against a model of the sheet list",
        assumptions: &["several active sheets: any one of them becomes active", "sheets put into the list directly have a name"],
        known: vec![],
        families: vec![fam("sheets", 12000, 300000, sheets)],
    }
}
