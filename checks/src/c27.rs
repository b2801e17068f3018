//! C27: chart formatting options are stored on the elements they are set for.
use crate::chartgen::{self, *};
use crate::draw::*;
use crate::util::*;
use kit::xml::Node;

/// Elements that a chart part may leave out or write without a meaning.
pub fn norm(e: &Elem, ids: &mut Vec<String>, in_dlbl: bool) -> R<Elem> {
    let mut o = Elem { name: e.name.clone(), ..Default::default() };
    let n = e.name.as_str();
    if n == "c:strRef" || n == "c:numRef" { o.name = "c:ref".into(); }
    for (k, v) in &e.attrs {
        if k == "baseline" && v == "0" || k == "i" && v == "0" || k == "charset" && v == "0" || k == "pitchFamily" && v == "0" { continue; }
        if n == "c:chartSpace" { continue; }
        let v = if matches!(n, "c:axId" | "c:crossAx") {
            let i = ids.iter().position(|x| x == v).unwrap_or_else(|| { ids.push(v.clone()); ids.len() - 1 });
            i.to_string()
        } else { v.clone() };
        o.attrs.push((k.clone(), v));
    }
    if n == "c:printSettings" { return Ok(o); }
    // The usual direction of axis titles may be given or not.
    if n == "a:bodyPr" && o.attr("rot") == Some("-5400000") && o.attr("vert") == Some("horz") { o.attrs.clear(); }
    let in_dlbl = in_dlbl || n == "c:dLbl";
    let kids: Vec<&Node> = e.kids.iter().collect();
    for (i, k) in kids.iter().enumerate() {
        match k {
            Node::T(t) => {
                let t = if n == "c:f" && !t.contains('|') {
                    let (sheet, r, abs) = read_ref(t)?;
                    ensure!(abs, "reference", "reference {t:?} is not absolute");
                    format!("{sheet}|{},{},{},{}", r.0, r.1, r.2, r.3)
                } else if n == "c:separator" && t.trim().is_empty() {
                    // A further blank after a line feed or a blank doesn't matter.
                    t.chars().take(1).collect()
                } else { t.clone() };
                o.kids.push(Node::T(t));
            }
            Node::E(x) => {
                let x2 = norm(x, ids, in_dlbl)?;
                let empty = x2.kids.is_empty() && x2.attrs.is_empty();
                match x.name.as_str() {
                    "c:strCache" | "c:numCache" => continue,
                    "c:layout" if empty => continue,
                    "c:spPr" if empty && matches!(kids.get(i + 1), Some(Node::E(y)) if matches!(y.name.as_str(), "c:txPr" | "c:layout" | "c:tx")) => continue,
                    // Paragraph properties that only repeat the defaults.
                    "a:pPr" if in_dlbl && n == "a:p" && e.child("a:r").is_some() => continue,
                    "a:pPr" if x2.attrs.is_empty() && x2.children().all(|y| y.name == "a:defRPr" && y.kids.is_empty() && y.attrs.is_empty()) => continue,
                    _ => {}
                }
                o.kids.push(Node::E(x2));
            }
        }
    }
    Ok(o)
}

/// The charts of a sheet in drawing order.
pub fn chart_parts(b: &Book, i: usize) -> R<Vec<String>> {
    let mut v = vec![];
    for a in anchors(b, i)? {
        if a.kind != "graphicFrame" { continue; }
        let g = a.elem.descendants("c:chart");
        ensure_eq!(g.len(), 1, "chart", "charts in a frame");
        v.push(b.pkg.rel(&a.part, g[0].attr("r:id").unwrap_or(""))?.target.clone());
    }
    Ok(v)
}

const SHEETS: [&str; 3] = ["Data", "It's data", "More"];

fn fill(ws: &mut Worksheet) -> R {
    let d = Format::new().set_num_format("dd/mm/yyyy");
    for r in 0..12u32 {
        for c in 0..4u16 {
            must("write", ws.write(r, c, format!("t{r}{c}").as_str()))?;
            must("write", ws.write(r, c + 4, f64::from(r * 10 + u32::from(c)) + 0.5))?;
            must("write", ws.write_with_format(r, c + 8, &must("date", ExcelDateTime::from_ymd(2024, 1 + c as u8, 1 + r as u8))?, &d))?;
        }
    }
    Ok(())
}

pub fn fixed_range(s: &mut Src, pts: Option<usize>) -> chartgen::Rng {
    let kind = match pts { None => Kind::Num, Some(1) => Kind::Str, Some(_) => *s.pick(&[Kind::Str, Kind::Num, Kind::Date]) };
    let base = match kind { Kind::Str => 0u16, Kind::Num => 4, Kind::Date => 8 };
    let n = pts.unwrap_or_else(|| 1 + s.idx(8));
    let sheet = (*s.pick(&SHEETS)).to_string();
    let at = if n <= 4 && s.chance(1, 4) {
        let (r, c) = (s.u32(0, 11), base + s.u16(0, 4 - n as u16));
        (r, c, r, c + n as u16 - 1)
    } else {
        let (r, c) = (s.u32(0, 12 - n as u32), base + s.u16(0, 3));
        (r, c, r + n as u32 - 1, c)
    };
    chartgen::Rng { sheet, at, kind }
}

fn case(s: &mut Src, c: &mut Ctx, n: usize) -> R {
    let mut wb = Workbook::new();
    let mut ws: Vec<Worksheet> = vec![];
    for x in SHEETS {
        let mut w = Worksheet::new();
        must("name", w.set_name(x))?;
        ws.push(w);
    }
    let before = s.bool();
    if before { for w in &mut ws { fill(w)?; } }
    // (sheet, model, chart sheet, protected)
    let mut want: Vec<(usize, ChartM, bool, bool, (Option<String>, String, bool))> = vec![];
    for i in 0..n {
        let m = gen_chart_m(s, true, &mut fixed_range);
        let mut ch = build(s, &m);
        // What describes the chart as an object.
        let mut meta: (Option<String>, String, bool) = (None, String::new(), false);
        if s.chance(1, 4) {
            shuffled!(s;
                { if s.bool() { let x = gen::line_text(s, 12); ch.set_name(&x); meta.0 = Some(x).filter(|x| !x.is_empty()); } }
                {
                    if s.bool() {
                        let x = match s.below(5) { 0 => "é".repeat(255), 1 => "x".repeat(256), _ => gen::line_text(s, 12) };
                        ch.set_alt_text(&x);
                        if x.chars().count() <= 255 { meta.1 = x; }
                    }
                }
                { if s.bool() { meta.2 = s.bool(); ch.set_decorative(meta.2); } }
            );
            c.label("object properties");
        }
        c.d(|| format!("{} {meta:?}", short(&m)));
        c.label_if(m.combined.is_some(), "combined");
        c.label_if(m.has_second(), "secondary axes");
        c.label_if(m.series.iter().any(|x| x.label.is_some() || !x.custom.is_empty()), "labels");
        c.label_if(m.series.iter().any(|x| x.trend.is_some()), "trendline");
        c.label_if(m.axes.iter().any(|x| x.title.name != NameM::None), "axis title");
        if s.chance(1, 6) {
            let mut w = Worksheet::new_chartsheet();
            must("name", w.set_name(format!("Chart {i}")))?;
            let p = s.chance(1, 3);
            if p { w.protect(); }
            must("insert", w.insert_chart(0, 0, &ch))?;
            want.push((ws.len(), m, true, p, meta));
            ws.push(w);
            c.label("chart sheet");
        } else {
            let k = s.idx(3);
            must("insert", ws[k].insert_chart(20 * i as u32, 2, &ch))?;
            want.push((k, m, false, false, meta));
        }
    }
    if !before { for w in ws.iter_mut().take(3) { fill(w)?; } }
    for w in ws { wb.push_worksheet(w); }
    let b = save_book(&mut wb, c)?;
    let mut next: HashMap<usize, usize> = HashMap::new();
    for (i, m, cs, prot, meta) in &want {
        let parts = chart_parts(&b, *i)?;
        let k = next.entry(*i).or_insert(0);
        let Some(p) = parts.get(*k) else { fail!("chart", "sheet {i} has {} charts", parts.len()) };
        let frames: Vec<Anchor> = anchors(&b, *i)?.into_iter().filter(|a| a.kind == "graphicFrame").collect();
        let pr = frames[*k].cnvpr()?;
        *k += 1;
        if let Some(n) = &meta.0 {
            ensure_eq!(pr.attr("name").unwrap_or(""), n.as_str(), "name", "{p}: name of the object");
        }
        ensure_eq!(pr.attr("descr").unwrap_or(""), meta.1.as_str(), "alt", "{p}: alternative text");
        let deco = pr.descendants("adec:decorative").iter().any(|d| d.attr("val") == Some("1"));
        ensure_eq!(deco, meta.2, "decorative", "{p}: decorative flag");
        let got = norm(b.pkg.part(p)?, &mut vec![], false)?;
        let exp = norm(&expected(m, *cs, *prot), &mut vec![], false)?;
        if let Some(d) = diff(&got, &exp) {
            // The place, without positions, names the kind of failure.
            let place: String = d.split(": ").next().unwrap_or("").split('/').map(|x| x.split('[').next().unwrap_or("")).collect::<Vec<_>>().join("/");
            let place = place.rsplit('/').take(3).collect::<Vec<_>>().join("<");
            fail!(place.as_str(), "{p}: {d}");
        }
        c.hit();
    }
    Ok(())
}

fn single(s: &mut Src, c: &mut Ctx) -> R { case(s, c, 1) }
fn several(s: &mut Src, c: &mut Ctx) -> R { let n = 2 + s.idx(3); case(s, c, n) }

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a case counts when at least one generated chart was saved and its whole part compared with the elements the requested options must be stored as",
        level: "exploration",
        assumptions: &[
            "the whole chart part is compared: cached data, default paragraph properties, print settings and namespaces apart",
            "chart kinds without axes are not combined with others, nor bar with other kinds",
        ],
        known: vec![],
        families: vec![fam("single", 6000, 400_000, single), fam("several", 1000, 60_000, several)],
    }
}
