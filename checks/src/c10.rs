//! C10: cell references and sheet-name quoting convert losslessly.
use crate::util::*;

/// Every column and a stride of rows.
fn columns(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.below(16_384) as u16;
    c.hit();
    let n = guard("column_number_to_name", || column_number_to_name(i))?;
    ensure_eq!(n, col_name(i.into()), "column", "name of column {i}");
    ensure_eq!(guard("column_name_to_number", || column_name_to_number(&n))?, i, "column", "number of column {n}");
    // Each column with some rows, and each of these as both corners.
    let r = u32::from(i) * 64 + u32::from(i % 64);
    let r2 = if i % 3 == 0 { MAXR - 1 } else { r };
    let c2 = if i % 5 == 0 { MAXC - 1 } else { i };
    ensure_eq!(row_col_to_cell(r, i), cell_name(r, i.into()), "cell", "cell ({r},{i})");
    ensure_eq!(row_col_to_cell_absolute(r, i), abs_range(r, i.into(), r, i.into()), "cell", "absolute cell ({r},{i})");
    ensure_eq!(cell_range(r, i, r2, c2), range_name(r, i.into(), r2, c2.into()), "range", "range from ({r},{i})");
    ensure_eq!(cell_range_absolute(r, i, r2, c2), abs_range(r, i.into(), r2, c2.into()), "range", "absolute range from ({r},{i})");
    Ok(())
}

fn cells(s: &mut Src, c: &mut Ctx) -> R {
    c.hit();
    let (r1, c1) = (s.u32(0, MAXR - 1), s.u16(0, MAXC - 1));
    let (r2, c2) = match s.below(4) {
        0 => (r1, c1),
        1 => (r1, s.u16(c1, MAXC - 1)),
        2 => (s.u32(r1, MAXR - 1), c1),
        _ => (s.u32(r1, MAXR - 1), s.u16(c1, MAXC - 1)),
    };
    let want = (r1, u32::from(c1), r2, u32::from(c2));
    c.d(|| format!("{want:?}"));
    ensure_eq!(parse_cell(&row_col_to_cell(r1, c1))?, (r1, c1.into()), "cell", "cell");
    ensure_eq!(parse_range(&cell_range(r1, c1, r2, c2))?, want, "range", "range");
    let a = cell_range_absolute(r1, c1, r2, c2);
    ensure_eq!(a, abs_range(r1, c1.into(), r2, c2.into()), "range", "absolute range");
    let n = sheet_name(s, &mut HashSet::new());
    for (f, abs) in [(worksheet_range(&n, r1, c1, r2, c2), false), (worksheet_range_absolute(&n, r1, c1, r2, c2), true)] {
        let got = read_ref(&f)?;
        ensure!(got == (n.clone(), want, abs), "range", "{f:?} for {n:?} {want:?}");
    }
    Ok(())
}

/// A name with the shape of a reference, number or keyword, or any legal one.
fn tricky(s: &mut Src) -> String {
    let letters = |s: &mut Src, n: usize| -> String {
        (0..n)
            .map(|_| match s.below(6) {
                0 => *s.pick(&['R', 'C', 'r', 'c']),
                1 => *s.pick(&['A', 'X', 'F', 'D', 'Z']),
                2 => (b'a' + s.u8(0, 25)) as char,
                _ => (b'A' + s.u8(0, 25)) as char,
            })
            .collect()
    };
    let digits = |s: &mut Src| -> String {
        match s.below(6) {
            0 => s.u32(0, 20).to_string(),
            1 => s.pick(&[1_048_575u64, 1_048_576, 1_048_577, 16_383, 16_384, 16_385, 99_999_999, 4_294_967_296, 4_294_967_297, 18_446_744_073_709_551_615]).to_string(),
            2 => format!("0{}", s.u32(0, 99)),
            3 => s.u32(0, 2_000_000).to_string(),
            4 => s.u32(16_000, 17_000).to_string(),
            _ => String::new(),
        }
    };
    match s.below(8) {
        0 => {
            let k = s.small(1, 4);
            letters(s, k) + &digits(s)
        }
        1 => format!("{}{}{}{}", s.pick(&["R", "r"]), digits(s), s.pick(&["C", "c"]), digits(s)),
        2 => format!("{}{}", s.pick(&["RC", "rc", "R", "C", "Rc", "c", "r"]), digits(s)),
        3 => {
            let k = s.small(1, 3);
            let a = letters(s, k);
            format!("{a}{}{}", s.pick(&[".", "_", "é", "1.", ".1", " ", "-", "!", "'", "\u{1d7d9}", "😀", "\u{301}"]), digits(s))
        }
        4 => digits(s) + &letters(s, 1),
        5 => {
            let k = s.small(0, 2);
            gen::ch(s).to_string() + &letters(s, k) + &digits(s)
        }
        6 => {
            let d = digits(s);
            format!("{}{d}", gen::ch(s))
        }
        _ => gen::line_text(s, 31),
    }
}

fn quoting(s: &mut Src, c: &mut Ctx) -> R {
    let n = tricky(s);
    if n.chars().any(|ch| ch.is_control() || !kit::xml::is_xml_char(ch)) || guard("check_sheet_name", || check_sheet_name(&n))?.is_err() {
        // What is refused must indeed be no legal name.
        let bad = n.is_empty() || n.chars().count() > 31 || n.contains(['[', ']', ':', '*', '?', '/', '\\']) || n.starts_with('\'') || n.ends_with('\'') || n.chars().any(|ch| ch.is_control() || !kit::xml::is_xml_char(ch));
        ensure!(bad, "name", "legal sheet name {n:?} is refused");
        return Ok(());
    }
    c.d(|| format!("name {n:?}"));
    let bad = n.is_empty() || n.chars().count() > 31 || n.contains(['[', ']', ':', '*', '?', '/', '\\']) || n.starts_with('\'') || n.ends_with('\'');
    ensure!(!bad, "name", "illegal sheet name {n:?} is accepted");
    let q = guard("quote_sheet_name", || quote_sheet_name(&n))?;
    c.label_if(needs_quotes(&n), "needs quotes");
    c.label_if(q == n, "left unquoted");
    if needs_quotes(&n) || !n.chars().all(|ch| ch.is_ascii_alphabetic()) {
        c.hit();
    }
    let got = read_ref(&format!("{q}!$A$1"))?;
    ensure_eq!(got.0, n, "quote", "{q:?} reads as another name");
    // A plain word is not quoted.
    if n.chars().all(|ch| ch.is_ascii_alphabetic() || ch == '_') && !needs_quotes(&n) {
        ensure_eq!(q, n, "quote", "plain name is quoted");
    }
    ensure_eq!(guard("quote_sheet_name", || quote_sheet_name(&q))?, q, "quote", "quoting twice");
    // The crate's own reader of references.
    let f = worksheet_range_absolute(&n, 1, 2, 3, 4);
    let mut wb = Workbook::new();
    must("set_name", wb.add_worksheet().set_name(&n).map(|_| ()))?;
    let ws = must("sheet", wb.worksheet_from_index(0))?;
    must("add_sparkline", ws.add_sparkline_group(0, 0, 2, 0, &Sparkline::new().set_range(&f)).map(|_| ()))?;
    let mut ch = Chart::new(ChartType::Line);
    ch.add_series().set_values(&worksheet_range_absolute(&n, 0, 0, 3, 0)).set_name(&format!("={}", worksheet_range_absolute(&n, 7, 7, 7, 7)));
    ch.add_series().set_values((n.as_str(), 0, 1, 3, 1)).set_categories(&format!("={}", worksheet_range(&n, 0, 2, 3, 2)));
    must("insert_chart", ws.insert_chart(5, 5, &ch).map(|_| ()))?;
    must("set_print_area", ws.set_print_area(2, 3, 4, 5).map(|_| ()))?;
    must("set_repeat_rows", ws.set_repeat_rows(1, 2).map(|_| ()))?;
    must("set_repeat_columns", ws.set_repeat_columns(3, 4).map(|_| ()))?;
    must("autofilter", ws.autofilter(8, 1, 9, 2).map(|_| ()))?;
    let q2 = format!("'{}'", n.replace('\'', "''"));
    must("define_name", wb.define_name(format!("{}!local_1", if s.bool() { &q } else { &q2 }), &format!("={}", worksheet_range_absolute(&n, 0, 0, 0, 1))).map(|_| ()))?;
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    ensure_eq!(b.workbook().at("sheets/sheet").and_then(|e| e.attr("name")), Some(&*n), "name", "sheet name");
    let mut seen = 0;
    for d in b.workbook().descendants("definedName") {
        ensure_eq!(d.attr("localSheetId"), Some("0"), "scope", "scope of {:?}", d.attr("name"));
        let t = d.text();
        match d.attr("name") {
            Some("_xlnm.Print_Titles") => {
                // Two references joined by a comma.
                let half = t.len() / 2;
                ensure_eq!(t, format!("{}!$D:$E,{}!$2:$3", q, q), "ref", "print titles ({half})");
            }
            Some("_xlnm.Print_Area") => ensure_eq!(read_ref(&t)?, (n.clone(), (2, 3, 4, 5), true), "ref", "print area"),
            Some("_xlnm._FilterDatabase") => ensure_eq!(read_ref(&t)?, (n.clone(), (8, 1, 9, 2), true), "ref", "filter range"),
            Some("local_1") => ensure_eq!(read_ref(&t)?, (n.clone(), (0, 0, 0, 1), true), "ref", "local name"),
            x => fail!("name", "unexpected name {x:?}"),
        }
        seen += 1;
    }
    ensure_eq!(seen, 4, "name", "number of defined names");
    let fs: Vec<String> = b.sheet(0)?.descendants("xm:f").iter().map(|e| e.text()).collect();
    for (i, f) in fs.iter().enumerate() {
        let i = 1 + i as u32;
        ensure_eq!(read_ref(f)?, (n.clone(), (i, 2, i, 4), false), "ref", "sparkline data");
    }
    ensure_eq!(fs.len(), 3, "ref", "sparklines");
    let cs: Vec<String> = b.pkg.part("xl/charts/chart1.xml")?.descendants("c:f").iter().map(|e| e.text()).collect();
    let want = [(7, 7, 7, 7), (0, 0, 3, 0), (0, 2, 3, 2), (0, 1, 3, 1)];
    ensure_eq!(cs.len(), 4, "ref", "chart references");
    for (f, w) in cs.iter().zip(want) {
        ensure_eq!(read_ref(f)?, (n.clone(), w, true), "ref", "chart reference");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "every column (columns) and range (cells); the name isn't a plain ASCII word or needs quotes (quoting)",
        level: "exploration",
        assumptions: &["a name must be quoted if it has ASCII punctuation or white space, starts with a digit or full stop, or reads as an A1 or R1C1 reference within the limits of a sheet"],
        families: vec![famx("columns", 16_384, columns), fam("cells", 30_000, 1_000_000, cells), fam("quoting", 14_000, 500_000, quoting)],
        known: vec![],
    }
}
