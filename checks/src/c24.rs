//! C24: merged ranges and tables never overlap.
use crate::fmt::*;
use crate::util::*;

type Rg = (u32, u16, u32, u16);

#[derive(Default)]
struct Sh {
    cells: BTreeMap<(u32, u16), (V, Fm)>,
    merges: Vec<Rg>,
    tables: Vec<(Rg, bool)>,
    filter: Option<Rg>,
}

fn meets(a: &Rg, b: &Rg) -> bool {
    a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3
}

/// A range on a small board (so that overlaps are common), sometimes moved to
/// the far edge, large, a single cell, inverted or outside the sheet.
fn gen_range(s: &mut Src, board: u32, far: bool) -> (i64, i64, i64, i64) {
    let (r, k) = (s.u32(0, board), s.u32(0, board));
    let (h, w) = if s.chance(1, 3) { (0, s.u32(0, 3)) } else { (s.u32(0, 4), s.u32(0, 3)) };
    let mut g = (i64::from(r), i64::from(k), i64::from(r + h), i64::from(k + w));
    match s.below(16) {
        0 if far => g = (1_048_575 - g.2, 16_383 - g.3, 1_048_575 - g.0, 16_383 - g.1),
        1 => g.2 = 1_048_575 + i64::from(s.u8(1, 2)),
        2 => g.3 = 16_383 + i64::from(s.u8(1, 2)),
        3 => { g.0 = 1_048_576; g.2 = g.0 }
        4 => std::mem::swap(&mut g.0, &mut g.2),
        5 => std::mem::swap(&mut g.1, &mut g.3),
        6 => { g.2 = g.0; g.3 = g.1 }
        7 => { g.2 = g.0 + i64::from(s.u32(0, 60)); g.3 = g.1 + i64::from(s.u32(0, 30)) }
        _ => {}
    }
    g
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    Ok,
    Limit,
    Order,
    Single,
    Rows,
    Merge,
    Table,
    Filter,
}

fn class(e: &XlsxError) -> Option<Want> {
    Some(match e {
        XlsxError::RowColumnLimitError => Want::Limit,
        XlsxError::RowColumnOrderError => Want::Order,
        XlsxError::MergeRangeSingleCell => Want::Single,
        XlsxError::TableError(_) => Want::Rows,
        XlsxError::MergeRangeOverlaps(..) => Want::Merge,
        XlsxError::TableRangeOverlaps(..) => Want::Table,
        XlsxError::AutofilterRangeOverlaps(..) => Want::Filter,
        _ => return None,
    })
}

fn basic(g: (i64, i64, i64, i64)) -> Want {
    if g.0.max(g.2) > 1_048_575 || g.1.max(g.3) > 16_383 {
        Want::Limit
    } else if g.0 > g.2 || g.1 > g.3 {
        Want::Order
    } else {
        Want::Ok
    }
}

fn judge(what: &str, got: Result<(), XlsxError>, want: &[Want], c: &mut Ctx) -> R<bool> {
    let ok = want == [Want::Ok];
    match got {
        Ok(()) => ensure!(ok, "accepted", "{what} was accepted although {want:?}"),
        Err(e) => {
            ensure!(!ok, "refused", "{what} was refused: {e}");
            ensure!(class(&e).is_some_and(|w| want.contains(&w)), "error", "{what} was refused with {e:?} although {want:?}");
            c.label(match want[0] {
                Want::Merge => "overlapping merge refused",
                Want::Table => "overlapping table refused",
                Want::Filter => "filters on one row refused",
                _ => "invalid range refused",
            });
        }
    }
    Ok(ok)
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let pool = gen_pool(s, 4, 3);
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} {}", p.2));
    }
    let ns = s.small(1, 3);
    let mut wb = Workbook::new();
    let mut ms: Vec<Sh> = vec![];
    for _ in 0..ns {
        wb.add_worksheet();
        ms.push(Sh::default());
    }
    let board = *s.pick(&[4u32, 8, 20]);
    let far = s.chance(1, 12);
    let mut serial = 0;
    let steps = s.span(1, 30, 150);
    let resave = s.chance(1, 4);
    let mut last = None;
    for step in 0..steps {
        let i = s.idx(ns);
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        let m = &mut ms[i];
        let g = gen_range(s, board, far);
        let (r1, k1, r2, k2) = (g.0 as u32, g.1 as u16, g.2 as u32, g.3 as u16);
        let rg = (r1, k1, r2, k2);
        let b = basic(g);
        match s.weighted(&[8, 4, 1, 3]) {
            0 => {
                let t = if s.chance(1, 6) { String::new() } else { gen::line_text(s, 10) };
                let f = s.idx(pool.len());
                let what = format!("sheet {i} merge_range {g:?} {t:?} format #{f}");
                c.d(|| what.clone());
                let mut want = vec![b];
                if b == Want::Ok {
                    if (r1, k1) == (r2, k2) {
                        want = vec![Want::Single];
                    } else if m.merges.iter().any(|x| meets(x, &rg)) {
                        want = vec![Want::Merge];
                    }
                }
                // Two faults at once: either error.
                if g.0.max(g.2) > 1_048_575 || g.1.max(g.3) > 16_383 {
                    want = vec![Want::Limit, Want::Order];
                }
                let got = guard("merge_range", || ws.merge_range(r1, k1, r2, k2, &t, &pool[f].0).map(|_| ()))?;
                if judge(&what, got, &want, c)? {
                    c.hit();
                    m.merges.push(rg);
                    for r in r1..=r2 {
                        for k in k1..=k2 {
                            let v = if (r, k) == (r1, k1) && !t.is_empty() { V::Str(t.clone()) } else { V::Blank };
                            m.cells.insert((r, k), (v, pool[f].1.clone()));
                        }
                    }
                }
            }
            1 => {
                let (header, auto) = (s.chance(3, 4), s.chance(1, 2));
                serial += 1;
                let w = if k2 >= k1 { usize::from(k2 - k1) + 1 } else { 1 };
                let cols: Vec<TableColumn> = (0..w.min(100)).map(|j| TableColumn::new().set_header(format!("H{serial} {j}"))).collect();
                let t = Table::new().set_columns(&cols).set_header_row(header).set_autofilter(auto && header);
                let what = format!("sheet {i} add_table {g:?} header {header} autofilter {}", auto && header);
                c.d(|| what.clone());
                let mut want = vec![b];
                if b == Want::Limit {
                    want.push(Want::Order);
                }
                if b == Want::Ok {
                    want = vec![];
                    if r2 - r1 < u32::from(header) {
                        want.push(Want::Rows);
                    }
                    if m.tables.iter().any(|x| meets(&x.0, &rg)) {
                        want.push(Want::Table);
                    }
                    if auto && header && m.filter.is_some_and(|f| f.0 == r1 && meets(&(r1, f.1, r1, f.3), &(r1, k1, r1, k2))) {
                        want.push(Want::Filter);
                    }
                    if want.is_empty() {
                        want = vec![Want::Ok];
                    }
                }
                let got = guard("add_table", || ws.add_table(r1, k1, r2, k2, &t).map(|_| ()))?;
                if judge(&what, got, &want, c)? {
                    c.hit();
                    m.tables.push((rg, auto && header));
                    if header {
                        for j in 0..w {
                            m.cells.insert((r1, k1 + j as u16), (V::Str(format!("H{serial} {j}")), Fm::default()));
                        }
                    }
                }
            }
            2 => {
                let what = format!("sheet {i} autofilter {g:?}");
                c.d(|| what.clone());
                let mut want = vec![b];
                if b == Want::Limit {
                    want.push(Want::Order);
                }
                if b == Want::Ok && m.tables.iter().any(|x| x.1 && meets(&(x.0 .0, x.0 .1, x.0 .0, x.0 .3), &(r1, k1, r1, k2))) {
                    want = vec![Want::Filter];
                }
                let got = guard("autofilter", || ws.autofilter(r1, k1, r2, k2).map(|_| ()))?;
                if judge(&what, got, &want, c)? {
                    m.filter = Some(rg);
                }
            }
            _ => {
                // Cells are written before, between and after, also inside ranges.
                let (r, k) = (s.u32(0, board + 2), s.u16(0, board as u16 + 2));
                let v = s.int(0, 99) as f64;
                c.d(|| format!("sheet {i} write ({r},{k}) {v}"));
                let f = s.idx(pool.len());
                if s.bool() {
                    must("write", ws.write_with_format(r, k, v, &pool[f].0))?;
                    m.cells.insert((r, k), (V::Num(v), pool[f].1.clone()));
                } else {
                    must("write", ws.write_with_format(r, k, v, &Format::default()))?;
                    m.cells.insert((r, k), (V::Num(v), Fm::default()));
                }
            }
        }
        if resave && step == steps / 2 {
            c.d(|| "saved in between".into());
            c.label("saved in between");
            last = Some(save_book(&mut wb, c)?);
            check(last.as_ref().unwrap(), &ms)?;
        }
    }
    drop(last);
    let b = save_book(&mut wb, c)?;
    check(&b, &ms)
}

fn check(b: &Book, ms: &[Sh]) -> R {
    let mut tnames = HashSet::new();
    for (i, m) in ms.iter().enumerate() {
        let x = b.sheet(i)?;
        let mut got: Vec<String> = vec![];
        if let Some(mc) = x.child("mergeCells") {
            for e in mc.children() {
                ensure!(e.name == "mergeCell", "merge", "sheet {i}: <{}> among merges", e.name);
                got.push(e.attr("ref").unwrap_or("").to_string());
            }
            ensure!(!got.is_empty(), "merge", "sheet {i}: empty mergeCells");
            ensure_eq!(mc.attr("count").unwrap_or("").to_string(), got.len().to_string(), "merge", "sheet {i}: merge count");
        }
        let mut want: Vec<String> = m.merges.iter().map(|g| range_name(g.0, u32::from(g.1), g.2, u32::from(g.3))).collect();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "merge", "sheet {i}: stored merges");

        let mut got: Vec<String> = vec![];
        for tp in x.child("tableParts").map(|t| t.children().collect()).unwrap_or_else(Vec::new) {
            let rel = b.pkg.rel(&b.sheets[i].part, tp.attr("r:id").unwrap_or(""))?;
            ensure!(tnames.insert(rel.target.clone()), "table", "sheet {i}: table part {} used twice", rel.target);
            let t = b.pkg.part(&rel.target)?;
            let f = t.child("autoFilter").is_some();
            got.push(format!("{} {f}", t.attr("ref").unwrap_or("")));
        }
        let mut want: Vec<String> = m.tables.iter().map(|(g, f)| format!("{} {f}", range_name(g.0, u32::from(g.1), g.2, u32::from(g.3)))).collect();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "table", "sheet {i}: stored tables");

        let af = x.child("autoFilter").map(|a| a.attr("ref").unwrap_or("").to_string());
        ensure_eq!(af, m.filter.map(|g| range_name(g.0, u32::from(g.1), g.2, u32::from(g.3))), "filter", "sheet {i}: stored autofilter");

        let cells = b.cells(i)?;
        for ((r, k), (v, f)) in &m.cells {
            let at = format!("sheet {i} cell ({r},{k})");
            match cells.get(&(*r, u32::from(*k))) {
                None => ensure!(*v == V::Blank && f.is_default(), "cell", "{at}: missing, {v:?} expected"),
                Some(g) => {
                    ensure!(g.v == *v, "cell", "{at}: holds {:?} where {v:?} expected", g.v);
                    f.check(b, g.s, &at)?;
                }
            }
        }
        for (at, g) in &cells {
            ensure!(m.cells.contains_key(&(at.0, at.1 as u16)), "cell", "sheet {i} cell {at:?} holds {:?} unexpectedly", g.v);
        }
    }
    Ok(())
}

/// Many merges of a grid: the index has to stay exact over long histories.
fn grid(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let f = Format::new().set_bold();
    let mut acc: Vec<Rg> = vec![];
    let n = s.small(20, 200);
    for _ in 0..n {
        let (r, k) = (s.u32(0, 40), s.u16(0, 40));
        let g = (r, k, r + s.u32(0, 3), k + s.u16(0, 3));
        let want = if (g.0, g.1) == (g.2, g.3) {
            Want::Single
        } else if acc.iter().any(|x| meets(x, &g)) {
            Want::Merge
        } else {
            Want::Ok
        };
        c.d(|| format!("merge {g:?} -> {want:?}"));
        let got = guard("merge_range", || ws.merge_range(g.0, g.1, g.2, g.3, "m", &f).map(|_| ()))?;
        if judge(&format!("merge {g:?}"), got, &[want], c)? {
            acc.push(g);
        }
    }
    if acc.len() > 20 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    let x = b.sheet(0)?;
    let mut got: Vec<String> = x.child("mergeCells").map(|m| m.children().map(|e| e.attr("ref").unwrap_or("").to_string()).collect()).unwrap_or_default();
    let mut want: Vec<String> = acc.iter().map(|g| range_name(g.0, u32::from(g.1), g.2, u32::from(g.3))).collect();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "merge", "stored merges");
    let cells = b.cells(0)?;
    let covered: usize = acc.iter().map(|g| ((g.2 - g.0 + 1) * u32::from(g.3 - g.1 + 1)) as usize).sum();
    ensure_eq!(cells.len(), covered, "cell", "cells stored for the merged ranges");
    for g in &acc {
        let v = cells.get(&(g.0, u32::from(g.1))).map(|x| x.v.clone());
        ensure_eq!(v, Some(V::Str("m".into())), "cell", "text of {g:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "histories in which at least one range was accepted (grid: more than 20 accepted)",
        level: "stateful random histories against an interval model",
        assumptions: &["merges are kept apart from merges and tables from tables; a merge inside a table is not refused by the library"],
        families: vec![fam("history", 9000, 400_000, history), fam("grid", 900, 40_000, grid)],
        known: vec![],
    }
}
