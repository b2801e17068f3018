//! C26: charts plot the requested data, with consistent axes.
use crate::c27::chart_parts;
use crate::chartgen::{self, *};
use crate::util::*;

#[derive(Clone, Debug, PartialEq)]
enum CellV { Str(String), Num(f64), Date(f64), Other }

type Data = BTreeMap<(usize, u32, u16), CellV>;

struct World { names: Vec<String>, org: Vec<(u32, u16)>, data: Data }

const H: u32 = 9;
const W: u16 = 5;

fn gen_cell(s: &mut Src, kind: u64) -> CellV {
    match kind {
        0 => CellV::Str(match s.below(8) {
            0 => (*s.pick(&["NaN", "inf", "-infinity", "1e5", "12", " 7", "0x10", "nan", "TRUE"])).to_string(),
            1 => gen::text1(s, 6),
            _ => label_text(s),
        }),
        1 => CellV::Num(match s.below(4) { 0 => gen::finite(s), 1 => 0.0, _ => gen::dec(s, -4000, 4000, 8) }),
        2 => CellV::Date(f64::from(s.u32(1, 2_900_000)) + f64::from(s.u32(0, 3)) / 4.0),
        _ => CellV::Other,
    }
}

fn write_cell(s: &mut Src, ws: &mut Worksheet, r: u32, c: u16, v: &CellV) -> R {
    let d = Format::new().set_num_format("yyyy-mm-dd");
    match v {
        CellV::Str(t) => { must("write", if s.bool() { ws.write(r, c, t.as_str()) } else { ws.write_string_with_format(r, c, t.as_str(), &d) })?; }
        CellV::Num(n) => { must("write", if s.bool() { ws.write(r, c, *n) } else { ws.write_number_with_format(r, c, *n, &d) })?; }
        CellV::Date(n) => {
            let t = must("date", ExcelDateTime::from_serial_datetime(*n))?;
            must("write", if s.bool() { ws.write_with_format(r, c, &t, &d) } else { ws.write_datetime(r, c, &t) })?;
        }
        CellV::Other => match s.below(3) {
            0 => { must("write", ws.write(r, c, s.bool()))?; }
            1 => { must("write", ws.write_formula(r, c, Formula::new("=1+2").set_result("3")))?; }
            _ => { must("write", ws.write_boolean(r, c, true))?; }
        },
    }
    Ok(())
}

/// Random edits of the data: most cells at first, a few later on.
fn edit(s: &mut Src, w: &mut World, wb: &mut Workbook, first: bool) -> R {
    for i in 0..w.names.len() {
        let (r0, c0) = w.org[i];
        let ws = must("sheet", wb.worksheet_from_name(&w.names[i]))?;
        if first {
            let kinds: Vec<u64> = (0..W).map(|_| *s.pick(&[0u64, 1, 1, 2])).collect();
            for r in 0..H {
                if s.chance(1, 6) { continue; }
                for c in 0..W {
                    if s.chance(1, 12) { continue; }
                    let k = if s.chance(1, 8) { s.below(4) } else { kinds[usize::from(c)] };
                    let v = gen_cell(s, k);
                    write_cell(s, ws, r0 + r, c0 + c, &v)?;
                    w.data.insert((i, r0 + r, c0 + c), v);
                }
            }
        } else {
            for _ in 0..s.small(0, 6) {
                let (r, c) = (r0 + s.u32(0, H - 1), c0 + s.u16(0, W - 1));
                if s.chance(1, 4) {
                    must("clear", Ok(ws.clear_cell(r, c)))?;
                    w.data.remove(&(i, r, c));
                } else {
                    let k = s.below(4);
                    let v = gen_cell(s, k);
                    write_cell(s, ws, r, c, &v)?;
                    w.data.insert((i, r, c), v);
                }
            }
        }
    }
    Ok(())
}

fn gen_range(s: &mut Src, names: &[String], org: &[(u32, u16)], pts: Option<usize>) -> chartgen::Rng {
    let i = s.idx(names.len());
    let (r0, c0) = org[i];
    let n = pts.unwrap_or_else(|| 1 + s.idx(6));
    let (h, w) = match s.below(4) {
        _ if n == 1 => (1, 1),
        0 if n <= usize::from(W) => (1, n as u16),
        1 => (n as u32, s.u16(1, 3)),
        _ => (n as u32, 1),
    };
    let h = h.min(H);
    let (r, c) = (r0 + s.u32(0, H - h), c0 + s.u16(0, W - w.min(W)));
    chartgen::Rng { sheet: names[i].clone(), at: (r, c, r + h - 1, c + w - 1), kind: Kind::Num }
}

fn cells(w: &World, r: &chartgen::Rng) -> Vec<Option<CellV>> {
    let i = w.names.iter().position(|n| *n == r.sheet).unwrap_or(0);
    let mut v = vec![];
    for row in r.at.0..=r.at.2 { for col in r.at.1..=r.at.3 { v.push(w.data.get(&(i, row, col)).cloned()); } }
    v
}

fn same_num(t: &str, n: f64) -> bool {
    t.parse::<f64>().is_ok_and(|x| x == n)
}

/// `e`: the element that holds strRef or numRef. `cats`: the type of the
/// reference follows the data.
fn check_ref(w: &World, e: Option<&Elem>, r: &chartgen::Rng, role: &str, c: &mut Ctx) -> R {
    let Some(e) = e else { fail!("missing", "{role}: no element for {r:?}") };
    let k: Vec<&Elem> = e.children().collect();
    ensure!(k.len() == 1 && matches!(k[0].name.as_str(), "c:strRef" | "c:numRef"), "reference", "{role}: {e:?}");
    let rf = k[0];
    let f = rf.child("c:f").map(|x| x.text()).unwrap_or_default();
    let (sheet, at, abs) = read_ref(&f)?;
    let want = (r.at.0, u32::from(r.at.1), r.at.2, u32::from(r.at.3));
    ensure!(abs && sheet == r.sheet && at == want, "range", "{role}: refers to {f:?} where {:?} {:?} expected", r.sheet, r.at);
    let v = cells(w, r);
    let has = |p: fn(&CellV) -> bool| v.iter().flatten().any(|x| p(x));
    let (st, nu, da) = (has(|x| matches!(x, CellV::Str(_))), has(|x| matches!(x, CellV::Num(_))), has(|x| matches!(x, CellV::Date(_))));
    let is_num = rf.name == "c:numRef";
    match role {
        "values" | "plus" | "minus" => ensure!(is_num, "reference type", "{role}: {}", rf.name),
        "categories" if st => ensure!(!is_num, "reference type", "categories with text in a {}", rf.name),
        "categories" if nu || da => ensure!(is_num, "reference type", "numeric categories in a {}", rf.name),
        _ => {}
    }
    let cache = rf.child(if is_num { "c:numCache" } else { "c:strCache" });
    let Some(cache) = cache else {
        ensure!(!(st || nu || da), "cache", "{role}: no cached data for {f}");
        return Ok(());
    };
    c.label_if(v.iter().any(|x| x.is_none()) && v.iter().any(|x| x.is_some()), "cache with gaps");
    c.label_if(r.at.0 < r.at.2 && r.at.1 < r.at.3, "two-dimensional range");
    Pkg::order(cache, &["c:formatCode", "c:ptCount", "c:pt"], role)?;
    if is_num && nu && !da && !st {
        ensure_eq!(cache.child("c:formatCode").map(|x| x.text()).unwrap_or_default(), "General", "format code", "{role}");
    }
    ensure_eq!(cache.child("c:ptCount").and_then(|x| x.attr("val")).unwrap_or(""), v.len().to_string(), "point count", "{role}: {f}");
    let mut pts: BTreeMap<usize, String> = BTreeMap::new();
    let mut last = None;
    for p in cache.all("c:pt") {
        let Some(i) = p.attr("idx").and_then(|x| x.parse::<usize>().ok()) else { fail!("point", "{role}: {p:?}") };
        ensure!(i < v.len() && last.is_none_or(|l| i > l), "point", "{role}: point {i} of {} after {last:?}", v.len());
        last = Some(i);
        pts.insert(i, p.child("c:v").map(|x| x.text()).unwrap_or_default());
    }
    for (i, x) in v.iter().enumerate() {
        let p = pts.get(&i).map(|t| t.as_str());
        if is_num { if let Some(t) = p { ensure!(t.parse::<f64>().is_ok_and(f64::is_finite), "not a number", "{role}: point {i} is {t:?}"); } }
        let ok = match (x, p) {
            (Some(CellV::Num(n) | CellV::Date(n)), Some(t)) => same_num(t, *n),
            (Some(CellV::Num(_) | CellV::Date(_)), None) => false,
            (Some(CellV::Str(t)), Some(g)) if is_num => g == "0" || g == t,
            (Some(CellV::Str(_)), None) if is_num => true,
            (Some(CellV::Str(t)), Some(g)) => g == t || kit::xml::unescape_xstring(g) == *t,
            (Some(CellV::Str(t)), None) => t.is_empty(),
            (Some(CellV::Other), _) => true,
            (None, None) => true,
            (None, Some(g)) => !is_num && g.is_empty(),
        };
        ensure!(ok, "cached value", "{role}: {f} point {i} is {p:?} where the cell has {x:?}");
    }
    Ok(())
}

fn check_name(w: &World, e: Option<&Elem>, n: &NameM, role: &str, c: &mut Ctx) -> R {
    match n {
        NameM::None => ensure!(e.is_none(), "name", "{role}: surplus {e:?}"),
        NameM::Text(t) => {
            let Some(e) = e else { fail!("name", "{role}: no name") };
            let g = e.deep_text();
            ensure!(g == *t, "name", "{role}: {g:?} where {t:?} expected");
        }
        NameM::Range(r) => check_ref(w, e, r, role, c)?,
    }
    Ok(())
}

fn group_tag(g: Grp) -> &'static str {
    match g { Grp::Area => "c:areaChart", Grp::Bar | Grp::Column => "c:barChart", Grp::Doughnut => "c:doughnutChart", Grp::Line => "c:lineChart", Grp::Pie => "c:pieChart", Grp::Radar => "c:radarChart", Grp::Scatter => "c:scatterChart", Grp::Stock => "c:stockChart" }
}

fn attr_of<'a>(e: &'a Elem, n: &str) -> &'a str {
    e.child(n).and_then(|x| x.attr("val")).unwrap_or("")
}

fn check_chart(w: &World, x: &Elem, m: &ChartM, c: &mut Ctx) -> R {
    let Some(ch) = x.child("c:chart") else { fail!("chart", "no chart") };
    let Some(pa) = ch.child("c:plotArea") else { fail!("chart", "no plot area") };
    check_name(w, ch.at("c:title/c:tx"), &m.title.name, "title", c)?;
    let groups: Vec<&Elem> = pa.children().filter(|k| k.name.ends_with("Chart")).collect();
    let mut want: Vec<(Grp, bool, Vec<&SerM>)> = vec![];
    for one in std::iter::once(m).chain(m.combined.as_deref()) {
        for second in [false, true] {
            let v: Vec<&SerM> = one.series.iter().filter(|x| x.second == second).collect();
            if !v.is_empty() { want.push((grp(one.kind), second, v)); }
        }
    }
    ensure_eq!(groups.len(), want.len(), "groups", "plot groups");
    // Axes.
    let axes: Vec<&Elem> = pa.children().filter(|k| k.name.ends_with("Ax")).collect();
    let mut by_id: BTreeMap<&str, &Elem> = BTreeMap::new();
    for a in &axes {
        let id = attr_of(a, "c:axId");
        ensure!(id.parse::<u32>().is_ok(), "axis id", "axis id {id:?}");
        ensure!(by_id.insert(id, a).is_none(), "axis id", "axis id {id} defined twice");
    }
    for (id, a) in &by_id {
        let o = attr_of(a, "c:crossAx");
        let Some(y) = by_id.get(o) else { fail!("cross axis", "axis {id} crosses {o:?} which isn't there") };
        ensure!(o != *id && attr_of(y, "c:crossAx") == *id, "cross axis", "axis {id} crosses {o}, which crosses {}", attr_of(y, "c:crossAx"));
        let vert = |e: &Elem| matches!(attr_of(e, "c:axPos"), "l" | "r");
        if grp(m.kind) != Grp::Radar {
            ensure!(vert(a) != vert(y), "axis position", "axes {id} and {o} at {:?} and {:?}", attr_of(a, "c:axPos"), attr_of(y, "c:axPos"));
        }
    }
    let mut pair: [Option<[String; 2]>; 2] = [None, None];
    let mut n = 0;
    for (e, (g, second, ser)) in groups.iter().zip(&want) {
        ensure_eq!(e.name, group_tag(*g), "group kind", "plot group");
        if matches!(g, Grp::Bar | Grp::Column) { ensure_eq!(attr_of(e, "c:barDir"), if *g == Grp::Bar { "bar" } else { "col" }, "group kind", "bar direction"); }
        let ids: Vec<String> = e.all("c:axId").map(|x| x.attr("val").unwrap_or("").to_string()).collect();
        if matches!(g, Grp::Pie | Grp::Doughnut) {
            ensure!(ids.is_empty() && axes.is_empty(), "axes", "pie chart with axes");
        } else {
            ensure_eq!(ids.len(), 2, "group axes", "axis ids of a plot group");
            let (Some(a), Some(_)) = (by_id.get(ids[0].as_str()), by_id.get(ids[1].as_str())) else { fail!("group axes", "plot group uses undefined axes {ids:?}") };
            ensure!(attr_of(a, "c:crossAx") == ids[1], "group axes", "the axes of a plot group don't cross: {ids:?}");
            let p = &mut pair[usize::from(*second)];
            match p {
                None => {
                    let kinds: Vec<&str> = ids.iter().map(|i| by_id[i.as_str()].name.as_str()).collect();
                    if *g == Grp::Scatter { ensure!(kinds == ["c:valAx", "c:valAx"], "axis kind", "scatter chart with {kinds:?}"); }
                    else { ensure!(kinds[1] == "c:valAx" && kinds[0] != "c:valAx", "axis kind", "{g:?} chart with {kinds:?}"); }
                    let vert = matches!(attr_of(a, "c:axPos"), "l" | "r");
                    if *g != Grp::Radar { ensure!(vert == (*g == Grp::Bar), "axis position", "first axis of a {g:?} chart at {:?}", attr_of(a, "c:axPos")); }
                    *p = Some([ids[0].clone(), ids[1].clone()]);
                }
                Some(q) => ensure!(*q == [ids[0].clone(), ids[1].clone()], "group axes", "groups on the same axes use {q:?} and {ids:?}"),
            }
        }
        let got: Vec<&Elem> = e.all("c:ser").collect();
        ensure_eq!(got.len(), ser.len(), "series count", "series of a {g:?} group");
        for (x, sm) in got.iter().zip(ser) {
            ensure!(attr_of(x, "c:idx") == n.to_string() && attr_of(x, "c:order") == n.to_string(), "series order", "series {n} has index {:?} and order {:?}", attr_of(x, "c:idx"), attr_of(x, "c:order"));
            n += 1;
            check_name(w, x.child("c:tx"), &sm.name, "series name", c)?;
            let (cn, vn) = if *g == Grp::Scatter { ("c:xVal", "c:yVal") } else { ("c:cat", "c:val") };
            check_ref(w, x.child(vn), &sm.values, "values", c)?;
            match &sm.cats {
                Some(r) => check_ref(w, x.child(cn), r, "categories", c)?,
                None => ensure!(x.child(cn).is_none(), "categories", "surplus categories"),
            }
            let bars: Vec<&ErrM> = match g {
                Grp::Bar => sm.xerr.iter().collect(),
                Grp::Scatter => sm.xerr.iter().chain(&sm.yerr).collect(),
                _ => sm.yerr.iter().collect(),
            };
            let eb: Vec<&Elem> = x.all("c:errBars").collect();
            ensure_eq!(eb.len(), bars.len(), "error bars", "error bars");
            for (e, b) in eb.iter().zip(bars) {
                if let ErrK::Custom(p, q) = &b.kind {
                    check_ref(w, e.child("c:plus"), p, "plus", c)?;
                    check_ref(w, e.child("c:minus"), q, "minus", c)?;
                    c.label("custom error bars");
                } else {
                    ensure!(e.child("c:plus").is_none() && e.child("c:minus").is_none(), "error bars", "surplus ranges");
                }
            }
            if let Some(l) = sm.custom.first() {
                let Some(d) = x.at("c:dLbls/c:dLbl") else { fail!("label", "no custom label") };
                ensure_eq!(attr_of(d, "c:idx"), "0", "label", "label index");
                check_name(w, d.child("c:tx"), &l.text, "custom label", c)?;
            }
        }
    }
    if !axes.is_empty() {
        if let (Some(a), Some(b)) = (&pair[0], &pair[1]) {
            ensure!(a.iter().all(|i| !b.contains(i)), "group axes", "primary and secondary axes share an id: {a:?} {b:?}");
        }
        let used = pair.iter().flatten().count() * 2;
        ensure_eq!(axes.len(), used, "axes", "axes of the chart");
        // Titles.
        for (k, p) in pair.iter().enumerate() {
            let Some(p) = p else { continue };
            let one = m;
            let g = if k == 0 { grp(one.kind) } else { one.combined.as_ref().map_or(grp(one.kind), |c| grp(c.kind)) };
            let flip = g == Grp::Bar;
            for j in 0..2 {
                let name = &m.axes[k * 2 + if flip { 1 - j } else { j }].title.name;
                check_name(w, by_id[p[j].as_str()].at("c:title/c:tx"), name, "axis title", c)?;
            }
        }
    }
    c.hit();
    Ok(())
}

fn gen_m(s: &mut Src, w: &World) -> ChartM {
    let (names, org) = (w.names.clone(), w.org.clone());
    let mut rng = |s: &mut Src, p: Option<usize>| gen_range(s, &names, &org, p);
    let mut m = gen_chart_m(s, false, &mut rng);
    for one in std::iter::once(&mut m.series).chain(m.combined.as_mut().map(|c| &mut c.series)) {
        for x in one {
            if s.chance(1, 8) { x.custom = vec![LabM { text: NameM::Range(rng(s, Some(1))), ..Default::default() }]; }
        }
    }
    if !matches!(grp(m.kind), Grp::Pie | Grp::Doughnut) {
        let n = if m.has_second() { 4 } else { 2 };
        for i in 0..n { if s.chance(1, 4) { m.axes[i].title.name = gen_name(s, &mut rng); } }
    }
    m
}

fn case(s: &mut Src, c: &mut Ctx, twice: bool) -> R {
    let mut wb = Workbook::new();
    let mut w = World { names: vec![], org: vec![], data: BTreeMap::new() };
    let mut used = HashSet::new();
    for _ in 0..s.span(1, 4, 12) {
        let n = sheet_name(s, &mut used);
        must("name", wb.add_worksheet().set_name(&n))?;
        w.names.push(n);
        let far = s.chance(1, 20);
        w.org.push(if far { (MAXR - H, MAXC - W) } else { (s.u32(0, 3), s.u16(0, 3)) });
    }
    let before = s.bool();
    if before { edit(s, &mut w, &mut wb, true)?; }
    let mut want: Vec<(usize, ChartM)> = vec![];
    let mut sheets = w.names.len();
    for i in 0..s.span(1, 4, 25) {
        let m = gen_m(s, &w);
        let ch = build(s, &m);
        c.d(|| short(&m));
        c.label_if(m.combined.is_some(), "combined");
        c.label_if(m.has_second(), "secondary axes");
        if s.chance(1, 6) {
            must("insert", wb.add_chartsheet().insert_chart(0, 0, &ch))?;
            want.push((sheets, m));
            sheets += 1;
        } else {
            let k = s.idx(w.names.len());
            let ws = must("sheet", wb.worksheet_from_name(&w.names[k]))?;
            must("insert", ws.insert_chart(20 * i as u32, 2, &ch))?;
            want.push((k, m));
        }
    }
    if !before { edit(s, &mut w, &mut wb, true)?; c.label("data after the chart"); }
    for round in 0..if twice { 2 } else { 1 } {
        if round > 0 { edit(s, &mut w, &mut wb, false)?; }
        let b = save_book(&mut wb, c)?;
        c.d(|| format!("data {:?}", w.data));
        let mut next: HashMap<usize, usize> = HashMap::new();
        for (i, m) in &want {
            let parts = chart_parts(&b, *i)?;
            let k = next.entry(*i).or_insert(0);
            let Some(p) = parts.get(*k) else { fail!("chart", "sheet {i} has {} charts", parts.len()) };
            *k += 1;
            check_chart(&w, b.pkg.part(p)?, m, c)?;
        }
    }
    Ok(())
}

fn once(s: &mut Src, c: &mut Ctx) -> R { case(s, c, false) }
fn twice(s: &mut Src, c: &mut Ctx) -> R { case(s, c, true) }

/// A chart that refers to a sheet that doesn't exist is an error at save.
fn unknown(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let mut w = World { names: vec![], org: vec![], data: BTreeMap::new() };
    let mut used = HashSet::new();
    for _ in 0..s.small(1, 3) {
        let n = sheet_name(s, &mut used);
        must("name", wb.add_worksheet().set_name(&n))?;
        w.names.push(n);
        w.org.push((0, 0));
    }
    let mut all = World { names: w.names.clone(), org: w.org.clone(), data: BTreeMap::new() };
    all.names.push(sheet_name(s, &mut used));
    all.org.push((0, 0));
    let m = gen_m(s, &all);
    let missing = all.names[w.names.len()].clone();
    let bad = short(&m).contains(&format!("sheet: {missing:?}"));
    let mut ignored = m.has_second();
    for one in std::iter::once(&m).chain(m.combined.as_deref()) { for x in &one.series { ignored |= x.xerr.is_some() || x.yerr.is_some(); } }
    let ch = build(s, &m);
    c.d(|| format!("missing {missing:?} {}", short(&m)));
    let on_chartsheet = s.chance(1, 5);
    let k = s.idx(w.names.len());
    if on_chartsheet { must("insert", wb.add_chartsheet().insert_chart(0, 0, &ch))?; }
    else { must("insert", must("sheet", wb.worksheet_from_name(&w.names[k]))?.insert_chart(0, 0, &ch))?; }
    c.evals += 1;
    match kit::runner::guard("save", || wb.save_to_buffer())? {
        Ok(_) => ensure!(!bad || ignored, "unknown sheet", "a chart on the missing sheet {missing:?} was saved"),
        Err(e) => ensure!(bad, "refused", "save: {e}"),
    }
    c.label_if(bad, "missing sheet");
    if bad { c.hit(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "a case counts when the plot groups, axes, references and cached data of at least one chart were compared with the requested ones (unknown: when the chart refers to a missing sheet)",
        level: "exploration",
        assumptions: &[
            "text in a numeric cache may be left out, zero or the text itself if that is a finite number",
            "booleans and formulas may be cached or not",
            "chart kinds without axes are not combined with others, nor bar with other kinds",
        ],
        known: vec![],
        families: vec![fam("once", 4000, 250_000, once), fam("twice", 1000, 60_000, twice), fam("unknown", 1000, 60_000, unknown)],
    }
}
