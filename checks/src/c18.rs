//! C18: row and column settings are stored for exactly the requested lines.
use crate::fmt::*;
use crate::util::*;

#[derive(Clone, Default, Debug)]
struct RowM {
    height: Option<f64>,
    hidden: bool,
    level: u32,
    collapsed: bool,
    fmt: Option<Fm>,
}

#[derive(Clone, Default, Debug)]
struct ColM {
    px: Option<u32>,
    /// Set by an automatic fit.
    auto: bool,
    /// Width in characters as given, for automatic fits that must not shrink.
    width: f64,
    /// Whether the narrower automatic width was taken is open.
    loose: bool,
    hidden: bool,
    level: u32,
    collapsed: bool,
    fmt: Option<Fm>,
}

#[derive(Clone, Default, Debug)]
pub struct Sh {
    rows: BTreeMap<u32, RowM>,
    cols: BTreeMap<u16, ColM>,
    default: Option<f64>,
    hide_unused: bool,
    above: bool,
    left: bool,
    cells: BTreeSet<(u32, u16)>,
}

/// Pixels of a width in characters.
fn px_of(w: f64) -> u32 {
    let w = w.min(255.0);
    if w < 1.0 { (w * 12.0).round() as u32 } else { (w * 7.0).round() as u32 + 5 }
}

fn chars_of(px: u32) -> f64 {
    if px < 12 { f64::from(px) / 12.0 } else { (f64::from(px) - 5.0) / 7.0 }
}

fn height(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => *s.pick(&[15.0, 20.0, 15.75, 0.25, 409.0, 30.0]),
        _ => f64::from(s.below(1600) as u32 + 1) * 0.25,
    }
}

fn a_row(s: &mut Src) -> u32 {
    if s.chance(1, 60) { *s.pick(&[MAXR - 1, 5000, MAXR - 3]) } else { s.below(14) as u32 }
}
fn a_col(s: &mut Src) -> u16 {
    if s.chance(1, 12) { *s.pick(&[MAXC - 1, 255, 256, MAXC - 3]) } else { s.below(9) as u16 }
}

pub fn op(s: &mut Src, ws: &mut Worksheet, m: &mut Sh, pool: &[(Format, Fm, String)], log: &mut Vec<String>) -> R<()> {
    let (r, k) = (a_row(s), a_col(s));
    let pi = s.idx(pool.len());
    let (f, fm, _) = &pool[pi];
    match s.below(24) {
        0 | 1 => {
            must("write", ws.write_number(r, k, 1))?;
            m.cells.insert((r, k));
            log.push(format!("write {r} {k}"));
        }
        2 | 3 => {
            let e = m.rows.entry(r).or_default();
            match s.below(6) {
                0 => {
                    must("set_row_height", ws.set_row_height(r, 0))?;
                    e.hidden = true;
                    log.push(format!("row {r} height 0"));
                }
                1 => {
                    let px = s.below(500) as u16 + 1;
                    must("set_row_height_pixels", ws.set_row_height_pixels(r, px))?;
                    e.height = Some(f64::from(px) * 0.75);
                    log.push(format!("row {r} pixels {px}"));
                }
                _ => {
                    let h = height(s);
                    must("set_row_height", ws.set_row_height(r, h))?;
                    e.height = Some(h);
                    log.push(format!("row {r} height {h}"));
                }
            }
        }
        4 | 5 => {
            must("set_row_format", ws.set_row_format(r, f))?;
            m.rows.entry(r).or_default().fmt = Some(fm.clone());
            log.push(format!("row {r} format {pi}"));
        }
        6 => {
            must("set_row_hidden", ws.set_row_hidden(r))?;
            m.rows.entry(r).or_default().hidden = true;
            log.push(format!("row {r} hidden"));
        }
        7 => {
            must("set_row_unhidden", ws.set_row_unhidden(r))?;
            if let Some(e) = m.rows.get_mut(&r) {
                e.hidden = false;
            }
            log.push(format!("row {r} unhidden"));
        }
        8 => {
            let h = height(s);
            if s.bool() {
                ws.set_default_row_height(h);
                m.default = Some(h);
                log.push(format!("default {h}"));
            } else {
                let px = s.below(100) as u16 + 1;
                ws.set_default_row_height_pixels(px);
                m.default = Some(f64::from(px) * 0.75);
                log.push(format!("default pixels {px}"));
            }
        }
        9 => {
            m.hide_unused = !s.chance(1, 4);
            ws.hide_unused_rows(m.hide_unused);
            log.push(format!("hide unused {}", m.hide_unused));
        }
        10..=13 => {
            let cols = s.bool();
            let collapsed = s.bool();
            let max = if cols { u32::from(MAXC) } else { MAXR };
            let (mut a, mut b) = if s.chance(1, if cols { 8 } else { 50 }) {
                (max - 1 - s.below(5) as u32, max - 1)
            } else {
                let a = s.below(9) as u32;
                (a, a + s.small(0, 9) as u32)
            };
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if s.chance(1, 10) {
                // Refused, without effect.
                let (x, y) = match s.below(3) {
                    0 => (a + 1, a),
                    1 => (a, max),
                    _ => (max, max + 1),
                };
                let r = match (cols, collapsed) {
                    (false, false) => ws.group_rows(x, y).is_err(),
                    (false, true) => ws.group_rows_collapsed(x, y).is_err(),
                    (true, false) => ws.group_columns(x as u16, y as u16).is_err(),
                    (true, true) => ws.group_columns_collapsed(x as u16, y as u16).is_err(),
                };
                ensure!(r, "accepted", "the invalid group {x}..{y} was accepted");
                log.push(format!("bad group {x} {y} cols {cols} collapsed {collapsed}"));
                return Ok(());
            }
            let full = if cols { (a..=b).any(|i| m.cols.get(&(i as u16)).is_some_and(|c| c.level >= 7)) } else { (a..=b).any(|i| m.rows.get(&i).is_some_and(|c| c.level >= 7)) };
            let r = match (cols, collapsed) {
                (false, false) => ws.group_rows(a, b),
                (false, true) => ws.group_rows_collapsed(a, b),
                (true, false) => ws.group_columns(a as u16, b as u16),
                (true, true) => ws.group_columns_collapsed(a as u16, b as u16),
            };
            log.push(format!("group {a} {b} cols {cols} collapsed {collapsed}"));
            if full {
                ensure!(matches!(r, Err(XlsxError::MaxGroupLevelExceeded)), "levels", "an eighth outline level was accepted, {log:?}");
                return Ok(());
            }
            must("group", r)?;
            for i in a..=b {
                if cols {
                    let e = m.cols.entry(i as u16).or_default();
                    e.level += 1;
                    e.hidden |= collapsed;
                } else {
                    let e = m.rows.entry(i).or_default();
                    e.level += 1;
                    e.hidden |= collapsed;
                }
            }
            if collapsed && b + 1 < max {
                if cols {
                    m.cols.entry(b as u16 + 1).or_default().collapsed = true;
                } else {
                    m.rows.entry(b + 1).or_default().collapsed = true;
                }
            }
        }
        14 => {
            let on = !s.chance(1, 4);
            if s.bool() {
                ws.group_symbols_above(on);
                m.above = on;
            } else {
                ws.group_symbols_to_left(on);
                m.left = on;
            }
            log.push(format!("symbols {} {}", m.above, m.left));
        }
        15..=17 => {
            let last = if s.chance(1, 3) { (k + s.small(0, 9) as u16).min(MAXC - 1) } else { k };
            let range = last > k || s.chance(1, 5);
            let (w, pixels) = match s.below(5) {
                0 => (f64::from(s.below(200) as u32 + 1) / 8.0, None),
                1 => (*s.pick(&[0.5, 0.08, 0.95, 1.0, 8.43, 8.5, 255.0, 300.0, 10.0, 1.5]), None),
                2 => (f64::from(s.below(3000) as u32 + 1) / 100.0, None),
                _ => {
                    let p = *s.pick(&[1u16, 11, 12, 13, 64, 63, 100, 1790, 1791, 1789]);
                    let p = if s.bool() { p } else { s.u16(1, 600) };
                    (chars_of(u32::from(p)), Some(p))
                }
            };
            match (range, pixels) {
                (false, None) => must("set_column_width", ws.set_column_width(k, w))?,
                (false, Some(p)) => must("set_column_width_pixels", ws.set_column_width_pixels(k, p))?,
                (true, None) => must("set_column_range_width", ws.set_column_range_width(k, last, w))?,
                (true, Some(p)) => must("set_column_range_width_pixels", ws.set_column_range_width_pixels(k, last, p))?,
            };
            for i in k..=last {
                let e = m.cols.entry(i).or_default();
                e.px = Some(pixels.map_or(px_of(w), |p| u32::from(p).min(1790)));
                e.width = w.min(255.0);
                e.auto = false;
                e.loose = false;
            }
            log.push(format!("cols {k}..{last} width {w} {pixels:?}"));
        }
        18 => {
            let p = s.u16(1, 2000);
            must("set_column_autofit_width", ws.set_column_autofit_width(k, p))?;
            let w = chars_of(u32::from(p)).min(255.0);
            let fresh = !m.cols.contains_key(&k);
            let e = m.cols.entry(k).or_default();
            let px = Some(u32::from(p).min(1790));
            if fresh || e.auto || (e.px.is_some() && w > e.width) || (e.px.is_none() && w > 8.43) {
                e.px = px;
                e.width = w;
                e.auto = true;
                e.loose = false;
            } else if e.px.is_none() {
                // Narrower than the default in a column with other settings.
                e.loose = true;
            }
            log.push(format!("col {k} autofit {p}"));
        }
        19 | 20 => {
            let last = if s.chance(1, 3) { (k + s.small(0, 5) as u16).min(MAXC - 1) } else { k };
            if last > k || s.chance(1, 5) {
                must("set_column_range_format", ws.set_column_range_format(k, last, f))?;
            } else {
                must("set_column_format", ws.set_column_format(k, f))?;
            }
            for i in k..=last {
                m.cols.entry(i).or_default().fmt = Some(fm.clone());
            }
            log.push(format!("cols {k}..{last} format {pi}"));
        }
        21 | 22 => {
            let last = if s.chance(1, 3) { (k + s.small(0, 5) as u16).min(MAXC - 1) } else { k };
            match s.below(4) {
                0 if last == k => must("set_column_width", ws.set_column_width(k, 0))?,
                1 if last == k => must("set_column_width_pixels", ws.set_column_width_pixels(k, 0))?,
                _ if last == k => must("set_column_hidden", ws.set_column_hidden(k))?,
                _ => must("set_column_range_hidden", ws.set_column_range_hidden(k, last))?,
            };
            for i in k..=last {
                m.cols.entry(i).or_default().hidden = true;
            }
            log.push(format!("cols {k}..{last} hidden"));
        }
        _ => {
            let bad = match s.below(8) {
                0 => ws.set_row_height(MAXR, 20).is_err(),
                1 => ws.set_row_format(MAXR + 7, f).is_err(),
                2 => ws.set_row_hidden(MAXR).is_err(),
                3 => ws.set_column_width(MAXC, 20).is_err(),
                4 => ws.set_column_format(MAXC, f).is_err(),
                5 => ws.set_column_hidden(MAXC).is_err(),
                6 => ws.set_column_range_width(5, 4, 20).is_err(),
                _ => ws.set_column_range_hidden(5, 4).is_err(),
            };
            ensure!(bad, "accepted", "a row or column beyond the sheet was accepted");
        }
    }
    Ok(())
}

fn on(e: &Elem, k: &str) -> bool {
    matches!(e.attr(k), Some("1" | "true"))
}

fn verify(b: &Book, i: usize, m: &Sh, ctx: &mut Ctx, what: &dyn Fn() -> String) -> R<()> {
    let x = b.sheet(i)?;
    let none = Elem::default();
    let pr = x.child("sheetFormatPr").unwrap_or(&none);
    let num = |e: &Elem, k: &str| e.attr(k).map_or(0u32, |v| v.parse().unwrap_or(u32::MAX));
    let default = pr.attr("defaultRowHeight").and_then(|v| v.parse::<f64>().ok()).unwrap_or(15.0);
    let want = m.default.unwrap_or(15.0);
    ensure_eq!(default, want, "default-height", "default row height, {}", what());
    ensure!(want == 15.0 || on(pr, "customHeight"), "default-height", "the default row height is not applied, {}", what());
    ensure_eq!(on(pr, "zeroHeight"), m.hide_unused, "hide-unused", "unused rows are hidden, {}", what());
    let top = |l: &mut dyn Iterator<Item = u32>| l.max().unwrap_or(0);
    ensure_eq!(num(pr, "outlineLevelRow"), top(&mut m.rows.values().map(|r| r.level)), "max-level", "highest row outline level, {}", what());
    ensure_eq!(num(pr, "outlineLevelCol"), top(&mut m.cols.values().map(|r| r.level)), "max-level", "highest column outline level, {}", what());
    let outline = x.at("sheetPr/outlinePr");
    let below = |k: &str| outline.and_then(|o| o.attr(k)) != Some("0");
    ensure_eq!(below("summaryBelow"), !m.above, "symbols", "group symbols are below, {}", what());
    ensure_eq!(below("summaryRight"), !m.left, "symbols", "group symbols are on the right, {}", what());
    // Rows.
    let mut got: BTreeMap<u32, &Elem> = BTreeMap::new();
    for e in x.child("sheetData").into_iter().flat_map(|d| d.children()) {
        got.insert(num(e, "r") - 1, e);
    }
    let mut lines: BTreeSet<u32> = m.rows.keys().copied().collect();
    lines.extend(m.cells.iter().map(|c| c.0));
    for r in got.keys() {
        ensure!(lines.contains(r), "extra-row", "row {r} was not touched but is stored, {}", what());
    }
    let plain = RowM::default();
    for r in &lines {
        let w = m.rows.get(r).unwrap_or(&plain);
        let e = match got.get(r) {
            Some(e) => e,
            None => {
                ensure!(!m.hide_unused && w.height.is_none_or(|h| h == want) && !w.hidden && w.level == 0 && !w.collapsed && w.fmt.as_ref().is_none_or(|f| f.is_default()) && !m.cells.iter().any(|c| c.0 == *r),
                    "missing-row", "row {r} is missing, requested {w:?}, {}", what());
                continue;
            }
        };
        let h = e.attr("ht").map_or(Some(default), |v| v.parse::<f64>().ok());
        ensure_eq!(h, Some(w.height.unwrap_or(want)), "height", "height of row {r}, {}", what());
        ensure!(h == Some(default) || on(e, "customHeight"), "height", "the height of row {r} is not applied, {}", what());
        ensure_eq!(on(e, "hidden"), w.hidden, "hidden", "row {r} is hidden, {}", what());
        ensure_eq!(num(e, "outlineLevel"), w.level, "level", "outline level of row {r}, {}", what());
        if !m.above {
            ensure_eq!(on(e, "collapsed"), w.collapsed, "collapsed", "row {r} is collapsed, {}", what());
        }
        let st = num(e, "s") as usize;
        ensure!(st == 0 || on(e, "customFormat"), "row-format", "the format of row {r} is not applied, {}", what());
        w.fmt.clone().unwrap_or_default().check(b, st, &format!("row {r}, {}", what()))?;
    }
    // Columns.
    let mut got: BTreeMap<u32, &Elem> = BTreeMap::new();
    let mut last = 0;
    for e in x.child("cols").into_iter().flat_map(|d| d.children()) {
        let (a, z) = (num(e, "min"), num(e, "max"));
        ensure!(a > last && z >= a && z <= 16384, "col-order", "columns {a} to {z} after {last}, {}", what());
        last = z;
        for k in a..=z {
            got.insert(k - 1, e);
        }
    }
    for k in got.keys() {
        ensure!(m.cols.contains_key(&(*k as u16)), "extra-col", "column {k} was not touched but is stored, {}", what());
    }
    for (k, w) in &m.cols {
        let e = *got.get(&u32::from(*k)).unwrap_or(&&none);
        if !w.loose {
            let px = w.px.unwrap_or(64);
            let stored = e.attr("width").map_or(Some(9.140625), |v| v.parse::<f64>().ok());
            let expect = (u64::from(px) * 256 / 7) as f64 / 256.0;
            // A hidden column of default width may be stored with no width.
            let ok = stored == Some(expect) || (px == 64 && w.hidden && stored == Some(0.0));
            ensure!(ok, "width", "column {k} has the width {stored:?}, requested {px} pixels ({expect}), {}", what());
            ensure!(px == 64 || on(e, "customWidth"), "width", "the width of column {k} is not applied, {}", what());
            ensure_eq!(on(e, "bestFit"), w.auto, "best-fit", "column {k} is fitted automatically, {}", what());
        }
        ensure_eq!(on(e, "hidden"), w.hidden, "hidden", "column {k} is hidden, {}", what());
        ensure_eq!(num(e, "outlineLevel"), w.level, "level", "outline level of column {k}, {}", what());
        if !m.left {
            ensure_eq!(on(e, "collapsed"), w.collapsed, "collapsed", "column {k} is collapsed, {}", what());
        }
        w.fmt.clone().unwrap_or_default().check(b, num(e, "style") as usize, &format!("column {k}, {}", what()))?;
    }
    ctx.label_if(!m.cells.is_empty(), "cells");
    ctx.label_if(m.rows.values().any(|r| r.level > 1), "nested row groups");
    ctx.label_if(m.cols.values().any(|r| r.level > 1), "nested column groups");
    ctx.label_if(m.default.is_some() && m.rows.values().any(|r| r.height.is_none()), "default height with other rows");
    ctx.label_if(m.cols.len() > 1 && m.cols.values().any(|c| c.px.is_some()), "several columns");
    ctx.label_if(m.cols.values().any(|c| c.auto), "autofit");
    Ok(())
}

fn lines(s: &mut Src, ctx: &mut Ctx) -> R<()> {
    let pool = gen_pool(s, 3, 3);
    let n = 1 + usize::from(s.chance(1, 4));
    let mut wb = Workbook::new();
    let mut ms = vec![];
    let mut log = vec![];
    for _ in 0..n {
        wb.add_worksheet();
        ms.push(Sh::default());
    }
    let saves = 1 + usize::from(s.chance(1, 6));
    for k in 0..saves {
        for _ in 0..s.span(1, 26, 120) {
            let i = s.idx(n);
            if n > 1 {
                log.push(format!("@{i}"));
            }
            op(s, must("sheet", wb.worksheet_from_index(i))?, &mut ms[i], &pool, &mut log)?;
        }
        ctx.d(|| format!("save {k}: {log:?}"));
        if ms.iter().map(|m| m.rows.len() + m.cols.len()).sum::<usize>() > 2 {
            ctx.hit();
        }
        let b = save_book(&mut wb, ctx)?;
        for (i, m) in ms.iter().enumerate() {
            verify(&b, i, m, ctx, &|| format!("sheet {i} save {k} {log:?}"))?;
        }
        ctx.label_if(k > 0, "saved twice");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "more than two rows or columns with settings",
        level: "randomised exploration against a model of the sheet's lines",
        assumptions: &["where the collapse mark goes with group symbols above or left is left open", "a narrower automatic width in a column with other settings is left open"],
        known: vec![],
        families: vec![fam("lines", 8000, 300000, lines)],
    }
}
