//! C35: sheets filled by several threads store what sheets filled one after another store.
use crate::kitchen::same_content;
use crate::util::*;
use std::sync::Barrier;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Normal,
    Low,
    Constant,
    /// A `Worksheet::new()` of the thread, added to the workbook afterwards.
    Own,
}

#[derive(Clone, Debug)]
enum Op {
    Text(u16, String),
    TextF(u16, String, usize),
    Num(u16, f64),
    NumF(u16, f64, usize),
    Date(u16, f64, usize),
    Blank(u16, usize),
    Rich(u16, String, usize, usize),
    Calc(u16, usize),
    Link(u16, String),
    Merge(u16, String, usize),
    RowFmt(usize),
    ColFmt(u16, usize),
    Rule(usize),
    Note(u16, String),
    Width(u16, f64),
    /// On to a later row.
    Next(u32),
}

fn formats(s: &mut Src) -> Vec<Format> {
    let n = s.small(1, 7).max(1);
    (0..n).map(|i| {
        let f = Format::new().set_indent(i as u8);
        match s.below(5) { 0 => f.set_bold(), 1 => f.set_num_format(format!("0.{}", "0".repeat(i + 1))), 2 => f.set_background_color(Color::RGB(i as u32 * 77 + 5)), 3 => f.set_font_size(8.0 + i as f64), _ => f.set_border(FormatBorder::Thin) }
    }).collect()
}

fn op(s: &mut Src, texts: &[String], nf: usize, mode: Mode) -> Op {
    let (c, f, t) = (s.small(0, 12) as u16, s.idx(nf), s.pick(texts).clone());
    match s.weighted(&[4, 6, 2, 4, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 5]) {
        0 => Op::Text(c, t),
        1 => Op::TextF(c, t, f),
        2 => Op::Num(c, gen::dec(s, -900, 900, 8)),
        3 => Op::NumF(c, gen::dec(s, -900, 900, 8), f),
        4 => Op::Date(c, s.idx(50_000) as f64, f),
        5 => Op::Blank(c, f),
        6 => Op::Rich(c, t, f, s.idx(nf)),
        7 => Op::Calc(c, f),
        8 => Op::Link(c, format!("https://example.com/{}", s.idx(4))),
        9 => Op::Merge(c, t, f),
        10 => Op::RowFmt(f),
        11 if mode == Mode::Normal || mode == Mode::Own => Op::ColFmt(c, f),
        12 => Op::Rule(f),
        13 => Op::Note(c, t),
        14 => Op::Width(c, s.idx(40) as f64 + 0.5),
        _ => Op::Next(s.small(1, 4).max(1) as u32),
    }
}

fn apply(ws: &mut Worksheet, row: &mut u32, op: &Op, fs: &[Format], merged: &mut Vec<(u32, u16)>) {
    let r = *row;
    // Both ways of filling meet the same refusals.
    let done = match op {
        Op::Text(c, t) => ws.write(r, *c, t.as_str()).is_ok(),
        Op::TextF(c, t, f) => ws.write_with_format(r, *c, t.as_str(), &fs[*f]).is_ok(),
        Op::Num(c, v) => ws.write(r, *c, *v).is_ok(),
        Op::NumF(c, v, f) => ws.write_with_format(r, *c, *v, &fs[*f]).is_ok(),
        Op::Date(c, v, f) => ExcelDateTime::from_serial_datetime(*v).is_ok_and(|d| ws.write_with_format(r, *c, &d, &fs[*f]).is_ok()),
        Op::Blank(c, f) => ws.write_blank(r, *c, &fs[*f]).is_ok(),
        Op::Rich(c, t, f, g) => {
            let d = Format::default();
            ws.write_rich_string_with_format(r, *c, &[(&d, "a "), (&fs[*f], t.as_str())], &fs[*g]).is_ok()
        }
        Op::Calc(c, f) => ws.write_with_format(r, *c, Formula::new("=A1+1").set_result("7"), &fs[*f]).is_ok(),
        Op::Link(c, u) => ws.write(r, *c, Url::new(u)).is_ok(),
        Op::Merge(c, t, f) => {
            let c = c * 2;
            if merged.contains(&(r, c)) { true } else { merged.push((r, c)); ws.merge_range(r, c, r, c + 1, t, &fs[*f]).is_ok() }
        }
        Op::RowFmt(f) => ws.set_row_format(r, &fs[*f]).is_ok(),
        Op::ColFmt(c, f) => ws.set_column_format(*c, &fs[*f]).is_ok(),
        Op::Rule(f) => ws.add_conditional_format(r, 0, r + 2, 3, &ConditionalFormatBlank::new().set_format(&fs[*f])).is_ok(),
        Op::Note(c, t) => ws.insert_note(r, *c, &Note::new(t.as_str())).is_ok(),
        Op::Width(c, w) => ws.set_column_width(*c, *w).is_ok(),
        Op::Next(n) => { *row += n; true }
    };
    let _ = done;
}

fn fill(ws: &mut Worksheet, ops: &[Vec<Op>], fs: &[Format], wait: impl Fn()) {
    let (mut row, mut merged) = (0, vec![]);
    for round in ops {
        wait();
        for op in round {
            apply(ws, &mut row, op, fs, &mut merged);
        }
    }
}

fn build(modes: &[Mode], plans: &[Vec<Vec<Op>>], fs: &[Format], parallel: bool) -> R<Workbook> {
    let mut wb = Workbook::new();
    // The time of creation would differ otherwise.
    let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
    wb.set_properties(&DocProperties::new().set_creation_datetime(&date));
    for (i, m) in modes.iter().enumerate() {
        let ws = match m {
            Mode::Normal => wb.add_worksheet(),
            Mode::Low => wb.add_worksheet_with_low_memory(),
            Mode::Constant => wb.add_worksheet_with_constant_memory(),
            Mode::Own => continue,
        };
        must("set_name", ws.set_name(format!("s{i}")))?;
    }
    let mut own: Vec<Worksheet> = vec![];
    for (i, m) in modes.iter().enumerate() {
        if *m == Mode::Own {
            let mut ws = Worksheet::new();
            must("set_name", ws.set_name(format!("s{i}")))?;
            own.push(ws);
        }
    }
    {
        let (mut a, mut b) = (wb.worksheets_mut().iter_mut(), own.iter_mut());
        let mut jobs: Vec<(&mut Worksheet, &Vec<Vec<Op>>)> = vec![];
        for (m, p) in modes.iter().zip(plans) {
            let ws = if *m == Mode::Own { b.next() } else { a.next() };
            jobs.push((ws.unwrap(), p));
        }
        if parallel {
            let bar = Barrier::new(jobs.len());
            let ok = std::thread::scope(|sc| {
                let hs: Vec<_> = jobs.into_iter().map(|(ws, p)| {
                    let bar = &bar;
                    // A panic must not leave the others waiting: it is kept until the end.
                    sc.spawn(move || {
                        let mut left = p.len();
                        let cell = std::cell::Cell::new(0usize);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fill(ws, p, fs, || { bar.wait(); cell.set(cell.get() + 1); })));
                        left -= cell.get();
                        for _ in 0..left { bar.wait(); }
                        r.is_ok()
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect::<Vec<_>>()
            });
            ensure!(ok.iter().all(|o| *o), "panic", "filling panicked in threads {ok:?}");
        } else {
            for (ws, p) in jobs {
                fill(ws, p, fs, || ());
            }
        }
    }
    for ws in own {
        wb.push_worksheet(ws);
    }
    Ok(wb)
}

fn schedules(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(2, 6).max(2);
    let modes: Vec<Mode> = (0..n).map(|_| *s.pick(&[Mode::Normal, Mode::Low, Mode::Constant, Mode::Own])).collect();
    let fs = formats(s);
    let texts: Vec<String> = (0..s.small(1, 8).max(1)).map(|i| format!("{}{i}", gen::word(s, 6))).collect();
    let rounds = s.small(1, 8).max(1);
    let same = s.chance(1, 2);
    let mut plans: Vec<Vec<Vec<Op>>> = vec![vec![]; n];
    for _ in 0..rounds {
        // All threads start a round with the same new text and format in half of the cases.
        let k = s.small(1, 6).max(1);
        let first = op(s, &texts, fs.len(), Mode::Low);
        for (m, p) in modes.iter().zip(&mut plans) {
            let mut v = vec![];
            if same { v.push(first.clone()); }
            for _ in 0..k { v.push(op(s, &texts, fs.len(), *m)); }
            p.push(v);
        }
    }
    c.d(|| format!("{modes:?}\n{plans:?}"));
    let mut one = build(&modes, &plans, &fs, false)?;
    let a = save_book(&mut one, c)?;
    for _ in 0..3 {
        let mut wb = build(&modes, &plans, &fs, true)?;
        let b = save_book(&mut wb, c)?;
        b.pkg.audit()?;
        same_content(&a, &b, "filled by threads / one after another")?;
    }
    for m in [Mode::Normal, Mode::Low, Mode::Constant, Mode::Own] {
        c.label_if(modes.iter().filter(|x| **x == m).count() > 1, &format!("{m:?} sheets"));
    }
    c.hit();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C35",
        rule: "two to six sheets, each filled by its own thread, in rounds all threads begin together",
        level: "exploration of the schedules that happen, not of all",
        assumptions: &["every sheet is filled by one thread only, as its mutable reference demands", "orders of the tables of texts and styles are free"],
        families: vec![fam("schedules", 2500, 60_000, schedules)],
        known: vec![],
    }
}
