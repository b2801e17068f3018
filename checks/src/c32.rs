//! C32: protection settings are stored exactly.
use crate::util::*;

#[derive(Clone)]
struct M {
    chartsheet: bool,
    on: bool,
    pass: String,
    opts: ProtectionOptions,
    ranges: Vec<(String, String, String)>,
}

/// The legacy password verifier (ECMA-376 part 4, 14.7.1): every character is
/// rotated left in 15 bits by its position, all are combined by exclusive or
/// with the length and 0xCE4B.
pub fn verifier(p: &str) -> Option<String> {
    if p.is_empty() {
        return None;
    }
    let rot = |v: u32, n: usize| {
        let n = (n % 15) as u32;
        ((v << n) | (v >> (15 - n))) & 0x7FFF
    };
    let mut h = 0u32;
    for (i, b) in p.bytes().enumerate() {
        h ^= rot(u32::from(b), i + 1);
    }
    h ^= p.len() as u32;
    h ^= 0xCE4B;
    Some(format!("{:04X}", h & 0xFFFF))
}

fn gen_pass(s: &mut Src) -> String {
    match s.below(6) {
        0 => String::new(),
        1 => (*s.pick(&["password", "drowssap", "12345", "a", "aa", "Aa", "VelvetSweatshop", "abcdefghijklmno", "abcdefghijklmnop"])).to_string(),
        2 => { let n = s.small(1, 40); (0..n).map(|_| char::from(s.u8(32, 126))).collect() }
        3 => { let n = *s.pick(&[14usize, 15, 16, 29, 30, 31, 100, 255]); (0..n).map(|_| char::from(s.u8(32, 126))).collect() }
        _ => { let n = s.small(1, 12); (0..n).map(|_| char::from(s.u8(32, 126))).collect() }
    }
}

/// (attribute, value when the action is allowed, default in the format)
fn flags(o: &ProtectionOptions) -> [(&'static str, bool, bool); 15] {
    // In the file every attribute tells whether the action is locked.
    [
        ("objects", !o.edit_objects, false),
        ("scenarios", !o.edit_scenarios, false),
        ("formatCells", !o.format_cells, true),
        ("formatColumns", !o.format_columns, true),
        ("formatRows", !o.format_rows, true),
        ("insertColumns", !o.insert_columns, true),
        ("insertRows", !o.insert_rows, true),
        ("insertHyperlinks", !o.insert_links, true),
        ("deleteColumns", !o.delete_columns, true),
        ("deleteRows", !o.delete_rows, true),
        ("selectLockedCells", !o.select_locked_cells, false),
        ("sort", !o.sort, true),
        ("autoFilter", !o.use_autofilter, true),
        ("pivotTables", !o.use_pivot_tables, true),
        ("selectUnlockedCells", !o.select_unlocked_cells, false),
    ]
}

fn on(e: &Elem, k: &str, d: bool) -> bool {
    match e.attr(k) {
        None => d,
        Some(v) => v == "1" || v == "true",
    }
}

fn check(b: &Book, i: usize, m: &M) -> R {
    let x = b.sheet(i)?;
    let p = x.at("sheetProtection");
    ensure!(p.is_some() == m.on, "protected", "sheet {i}: protection {}, requested {}", p.is_some(), m.on);
    if let Some(p) = p {
        let got = p.attr("password").map(str::to_uppercase);
        ensure!(got == verifier(&m.pass), "password", "sheet {i}: verifier {got:?} for {:?}, expected {:?}", m.pass, verifier(&m.pass));
        for (k, v) in &p.attrs {
            ensure!(k == "password" || ["0", "1"].contains(&v.as_str()), "flag", "sheet {i}: {k}={v}");
        }
        if m.chartsheet {
            ensure!(on(p, "content", false) == m.opts.contents, "content", "sheet {i}: content {:?}", p.attrs);
            ensure!(on(p, "objects", false) == m.opts.edit_objects, "chart-objects", "sheet {i}: objects {:?}", p.attrs);
        } else {
            ensure!(on(p, "sheet", false), "sheet", "sheet {i}: sheet isn't locked {:?}", p.attrs);
            for (k, want, d) in flags(&m.opts) {
                ensure!(on(p, k, d) == want, "option", "sheet {i}: {k} locked is {}, requested {want}", on(p, k, d));
            }
        }
        let known = ["password", "sheet", "content"];
        let f = flags(&m.opts);
        for (k, _) in &p.attrs {
            let k = k.to_string();
            ensure!(known.contains(&k.as_str()) || f.iter().any(|x| x.0 == k), "flag", "sheet {i}: unknown attribute {k}");
        }
    }
    let got: Vec<(String, String, Option<String>)> = x
        .at("protectedRanges")
        .map(|p| p.all("protectedRange").map(|r| (r.attr("sqref").unwrap_or("").to_string(), r.attr("name").unwrap_or("").to_string(), r.attr("password").map(str::to_uppercase))).collect())
        .unwrap_or_default();
    let want: Vec<(String, String, Option<String>)> = m.ranges.iter().map(|(r, n, p)| (r.clone(), n.clone(), verifier(p))).collect();
    ensure!(got == want, "ranges", "sheet {i}: unprotected ranges {got:?}, requested {want:?}");
    ensure!(x.at("protectedRanges").is_none() || !want.is_empty(), "ranges", "sheet {i}: empty range list");
    Ok(())
}

fn protect(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let n = s.small(1, 3);
    let mut ms = vec![];
    for i in 0..n {
        let cs = i > 0 && s.chance(1, 4);
        if cs {
            let ws = wb.add_chartsheet();
            let mut ch = Chart::new_line();
            ch.add_series().set_values("Sheet1!$A$1:$A$3");
            must("insert_chart", ws.insert_chart(0, 0, &ch))?;
        } else {
            wb.add_worksheet();
        }
        let mut opts = ProtectionOptions::new();
        opts.edit_objects = cs;
        ms.push(M { chartsheet: cs, on: false, pass: String::new(), opts, ranges: vec![] });
    }
    let mut read_only = false;
    let mut vba: Option<String> = None;
    let rounds = if s.chance(1, 4) { 2 } else { 1 };
    for _ in 0..rounds {
        for _ in 0..s.span(0, 8, 40) {
            let i = s.idx(n);
            let m = &mut ms[i];
            if s.chance(1, 12) {
                wb.read_only_recommended();
                read_only = true;
                c.label("read only");
                continue;
            }
            if s.chance(1, 20) {
                let v = gen::word(s, 31);
                if v.starts_with(|c: char| c.is_alphabetic()) {
                    must("set_vba_name", wb.set_vba_name(&v))?;
                    vba = Some(v);
                }
                continue;
            }
            let ws = must("sheet", wb.worksheet_from_index(i))?;
            match s.below(6) {
                0 => { ws.protect(); m.on = true; }
                1..=2 => {
                    m.pass = gen_pass(s);
                    ws.protect_with_password(&m.pass);
                    m.on = true;
                    c.hit();
                    c.label("password");
                }
                3 => {
                    let mut b = || s.bool();
                    let o = ProtectionOptions {
                        select_locked_cells: b(),
                        select_unlocked_cells: b(),
                        format_cells: b(),
                        format_columns: b(),
                        format_rows: b(),
                        insert_columns: b(),
                        insert_rows: b(),
                        insert_links: b(),
                        delete_columns: b(),
                        delete_rows: b(),
                        sort: b(),
                        use_autofilter: b(),
                        use_pivot_tables: b(),
                        edit_scenarios: b(),
                        edit_objects: b(),
                        contents: b(),
                    };
                    ws.protect_with_options(&o);
                    m.opts = o;
                    m.on = true;
                    c.hit();
                    c.label("options");
                }
                _ if !m.chartsheet => {
                    let (r1, c1) = (if s.chance(1, 20) { MAXR } else { row(s) }, if s.chance(1, 20) { MAXC } else { col(s) });
                    let (r2, c2) = if s.bool() { (r1, c1) } else { (row(s), col(s)) };
                    let ok = r1 <= r2 && c1 <= c2 && r2 < MAXR && c2 < MAXC;
                    let (name, pass) = match s.below(3) {
                        0 => (String::new(), String::new()),
                        1 => (gen::line_text(s, 10), String::new()),
                        _ => (if s.bool() { format!("Area {}", s.below(100)) } else { String::new() }, gen_pass(s)),
                    };
                    let r = if name.is_empty() && pass.is_empty() && s.bool() { ws.unprotect_range(r1, c1, r2, c2).map(|_| ()) } else { ws.unprotect_range_with_options(r1, c1, r2, c2, &name, &pass).map(|_| ()) };
                    if ok {
                        must("unprotect_range", r)?;
                        let name = if name.is_empty() { format!("Range{}", m.ranges.len() + 1) } else { name };
                        m.ranges.push((range_name(r1, c1.into(), r2, c2.into()), name, pass));
                        c.hit();
                        c.label("range");
                    } else {
                        ensure!(r.is_err(), "accepted", "unprotect_range({r1}, {c1}, {r2}, {c2}) was accepted");
                    }
                }
                _ => {}
            }
        }
        c.d(|| format!("{:?}", ms.iter().map(|m| (m.chartsheet, m.on, m.pass.clone(), m.ranges.clone())).collect::<Vec<_>>()));
        let b = save_book(&mut wb, c)?;
        for (i, m) in ms.iter().enumerate() {
            check(&b, i, m)?;
        }
        let f = b.workbook().at("fileSharing");
        ensure!(f.is_some_and(|f| on(f, "readOnlyRecommended", false)) == read_only, "read-only", "read-only recommendation is {:?}, requested {read_only}", f.map(|f| f.canon()));
        let v = b.workbook().at("workbookPr").and_then(|p| p.attr("codeName")).map(String::from);
        ensure!(v == vba, "code-name", "workbook code name {v:?}, requested {vba:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "a password, options or an unprotected range",
        level: "exploration",
        assumptions: &["passwords are printable ASCII", "on chart sheets the content and objects options mean locked, as in the files the library is tested against"],
        families: vec![fam("protect", 12000, 400_000, protect)],
        known: vec![],
    }
}
