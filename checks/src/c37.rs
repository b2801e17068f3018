//! C37: in constant-memory and low-memory sheets, the memory in use does not
//! grow with the number of rows.
//!
//! A process of its own writes the same rows again and again, counts the bytes
//! that are allocated at the same time, and saves to a destination which keeps
//! nothing. The peak for many rows is compared with that for a few.
use crate::helper::{ask, Made};
use crate::util::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counter;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn add(n: i64) {
    if ON.load(Relaxed) {
        let v = LIVE.fetch_add(n, Relaxed) + n;
        if n > 0 { PEAK.fetch_max(v, Relaxed); }
    }
}

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// A destination which keeps nothing, but for the size.
struct Sink { at: u64, end: u64 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.at += b.len() as u64;
        self.end = self.end.max(self.at);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.at = match p { SeekFrom::Start(n) => n, SeekFrom::End(n) => self.end.saturating_add_signed(n), SeekFrom::Current(n) => self.at.saturating_add_signed(n) };
        Ok(self.at)
    }
}

/// One cell of the repeated rows.
#[derive(Clone, Debug)]
enum Cell { Num(u16, bool), Int(u16), Text(u16, usize, bool), Unique(u16), Bool(u16), Formula(u16, bool), Array(u16), Blank(u16), Date(u16), Rich(u16), Error(u16), Format(u16), RowText(u16) }

#[derive(Clone, Debug)]
struct Recipe {
    /// Constant memory, not low memory; created alone and pushed.
    constant: Vec<bool>,
    own: bool,
    /// Cells of a period of rows, with the gap to the next row.
    rows: Vec<(Vec<Cell>, u32)>,
    /// Sheets filled one after the other, or row by row in turn.
    turn: bool,
    saves: bool,
    /// Rows are structs that are serialised.
    serde: bool,
}

#[derive(serde::Serialize)]
struct Rec { a: u32, b: String, c: Option<f64>, d: bool }

fn recipe(s: &mut Src) -> Recipe {
    let n = s.small(1, 2);
    let constant: Vec<bool> = (0..n).map(|_| s.chance(2, 3)).collect();
    let all = constant.iter().all(|x| *x);
    let rows = (0..s.small(1, 3))
        .map(|_| {
            let cells = (0..s.small(1, 8))
                .map(|_| {
                    let c = s.u16(0, 30);
                    match s.below(13) {
                        0 => Cell::Num(c, s.bool()),
                        1 => Cell::Int(c),
                        2 => Cell::Text(c, s.idx(4), s.bool()),
                        // Every text is kept for the table of texts in low memory.
                        3 if all => Cell::Unique(c),
                        4 => Cell::Bool(c),
                        5 => Cell::Formula(c, s.bool()),
                        6 => Cell::Array(c),
                        7 => Cell::Blank(c),
                        8 => Cell::Date(c),
                        9 => Cell::Rich(c),
                        10 => Cell::Error(c),
                        11 => Cell::Format(c),
                        12 if all => Cell::RowText(c),
                        _ => Cell::Num(c, true),
                    }
                })
                .collect();
            // Formats alone don't move on to the next row.
            let cells: Vec<Cell> = cells;
            let cells = if matches!(cells[0], Cell::Format(_)) { [vec![Cell::Blank(0)], cells].concat() } else { cells };
            (cells, if s.chance(1, 3) { s.u32(2, 5) } else { 1 })
        })
        .collect();
    Recipe { constant, own: s.chance(1, 4), rows, turn: s.bool(), saves: s.chance(1, 6), serde: all && s.chance(1, 6) }
}

const TEXTS: [&str; 4] = ["one", "a & b < c", "日本語", "with  spaces "];

fn write(ws: &mut Worksheet, row: u32, cells: &[Cell], f: &[Format]) -> Result<(), XlsxError> {
    for c in cells {
        let v = f64::from(row) * 1.25;
        match c {
            Cell::Num(c, false) => ws.write_number(row, *c, v)?,
            Cell::Num(c, true) => ws.write_number_with_format(row, *c, v, &f[0])?,
            Cell::Int(c) => ws.write(row, *c, row)?,
            Cell::Text(c, i, false) => ws.write_string(row, *c, TEXTS[*i])?,
            Cell::Text(c, i, true) => ws.write_string_with_format(row, *c, TEXTS[*i], &f[1])?,
            Cell::Unique(c) => ws.write_string(row, *c, format!("text {row} {c}"))?,
            Cell::Bool(c) => ws.write_boolean(row, *c, row % 2 == 0)?,
            Cell::Formula(c, false) => ws.write_formula(row, *c, format!("=A{}+1", row + 1).as_str())?,
            Cell::Formula(c, true) => ws.write_formula_with_format(row, *c, Formula::new("=SUM(A1:B2)").set_result(v.to_string()), &f[1])?,
            Cell::Array(c) => ws.write_array_formula(row, *c, row, *c, "{=SUM(A1:B2*A1:B2)}")?,
            Cell::Blank(c) => ws.write_blank(row, *c, &f[2])?,
            Cell::Date(c) => ws.write_datetime_with_format(row, *c, &ExcelDateTime::from_timestamp(i64::from(row) * 86_400)?, &f[0])?,
            Cell::Rich(c) => ws.write_rich_string(row, *c, &[(&f[1], "bold"), (&f[2], "other")])?,
            Cell::Error(c) => ws.write_formula(row, *c, Formula::new("=NA()").set_result("#N/A"))?,
            Cell::Format(c) => ws.set_cell_format(row, *c, &f[2])?,
            Cell::RowText(c) => ws.write_row(row, *c, [format!("r{row}"), format!("s{row}"), format!("t{row}")])?,
        };
    }
    Ok(())
}

fn fill(m: &Recipe, n: u32) -> Result<i64, XlsxError> {
    let f = [Format::new().set_num_format("0.00"), Format::new().set_bold(), Format::new().set_italic()];
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    ON.store(true, Relaxed);
    let go = || -> Result<(), XlsxError> {
        let mut wb = Workbook::new();
        for k in &m.constant {
            if *k && m.own {
                let ws = wb.new_worksheet_with_constant_memory();
                wb.push_worksheet(ws);
            } else if *k {
                wb.add_worksheet_with_constant_memory();
            } else {
                wb.add_worksheet_with_low_memory();
            }
        }
        let sheets = m.constant.len();
        let mut at = vec![0; sheets];
        let step = |wb: &mut Workbook, at: &mut Vec<u32>, i: usize, k: u32| -> Result<(), XlsxError> {
            if m.serde {
                let ws = wb.worksheet_from_index(i)?;
                let rec = Rec { a: k, b: format!("text {k}"), c: (k % 3 > 0).then(|| f64::from(k) * 1.25), d: k % 2 == 0 };
                if k == 0 && at[i] == 0 { ws.serialize_headers(0, 1, &rec)?; }
                ws.serialize(&rec)?;
                at[i] += 1;
                return Ok(());
            }
            let (cells, gap) = &m.rows[k as usize % m.rows.len()];
            write(wb.worksheet_from_index(i)?, at[i], cells, &f)?;
            at[i] += gap;
            Ok(())
        };
        if m.turn {
            for k in 0..n { for i in 0..sheets { step(&mut wb, &mut at, i, k)?; } }
        } else {
            for i in 0..sheets { for k in 0..n { step(&mut wb, &mut at, i, k)?; } }
        }
        wb.save_to_writer(Sink { at: 0, end: 0 })?;
        if m.saves {
            for i in 0..sheets { at[i] += 1; step(&mut wb, &mut at, i, 0)?; }
            wb.save_to_writer(Sink { at: 0, end: 0 })?;
        }
        Ok(())
    };
    let r = go();
    ON.store(false, Relaxed);
    r.map(|()| PEAK.load(Relaxed))
}

/// The main loop of the measuring process.
pub fn mem() {
    crate::helper::serve(|n, tapes| {
        let m = recipe(&mut Src::replay(&tapes[0]));
        let _ = fill(&m, 4);
        vec![match fill(&m, n as u32) {
            Ok(p) => Ok(p.to_le_bytes().to_vec()),
            Err(e) => Err(e.to_string()),
        }]
    });
}

fn peak(n: u32, tape: &[u64]) -> R<i64> {
    let x: Made = ask("mem", u64::from(n), &[tape.to_vec()])?;
    match &x[0] {
        Ok(b) => Ok(i64::from_le_bytes(b[..].try_into().unwrap())),
        Err(e) => fail!("refused", "rows written in order were refused: {e}"),
    }
}

fn rows(s: &mut Src, c: &mut Ctx) -> R {
    let a = s.rec.len();
    let m = recipe(s);
    let tape = s.rec[a..].to_vec();
    c.d(|| format!("{m:?}"));
    let few = s.u32(400, 800);
    let many = few + s.u32(5000, 9000);
    let (p, q) = (peak(few, &tape)?, peak(many, &tape)?);
    c.evals += 2;
    c.label(if m.constant.iter().all(|x| *x) { "constant memory" } else { "low memory" });
    c.label_if(m.saves, "saved twice");
    c.label_if(m.serde, "serialised");
    c.hit();
    let cells: usize = m.rows.iter().map(|r| r.0.len()).sum::<usize>().max(1);
    // Buffers that have not reached their full size with few rows. Five bytes
    // for each further row are more than this.
    let room = 24 * 1024;
    ensure!(q <= p + room, "growth", "{few} rows need {p} bytes at a time, {many} rows {q} ({:.1} more for each row of {:.1} cells): {m:?}", (q - p) as f64 / f64::from(many - few), cells as f64 / m.rows.len() as f64);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C37",
        rule: "the peak of allocated bytes was measured for few and for many rows",
        level: "exploration of patterns of rows, measured for up to 9800 rows",
        assumptions: &["only cells are written: hyperlinks, merged ranges, row heights and the like are kept until the save by design", "texts of low-memory sheets are from a fixed set", "memory used by the file system for temporary files is not counted"],
        known: vec![],
        families: vec![fam("rows", 600, 20_000, rows)],
    }
}
