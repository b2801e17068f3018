//! C34: macro projects are carried byte-exact, with the right kinds and code names.
use crate::util::*;

struct Sh {
    key: String,
    chart: bool,
    vba: Option<String>,
}

fn blob(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) { 0 => s.small(1, 4), 1 => *s.pick(&[511usize, 512, 513, 8191, 8192, 8193, 65_536]), _ => s.small(1, 3000) };
    let (a, b) = (s.u8(0, 255), s.u8(0, 255));
    (0..n).map(|i| if n < 64 { s.u8(0, 255) } else { a.wrapping_mul(i as u8).wrapping_add(b).wrapping_add((i >> 8) as u8) }).collect()
}

/// A name VBA accepts that is no automatic name.
fn good(s: &mut Src, n: usize) -> String {
    let mut v = String::from(*s.pick(&["a", "Z", "é", "日", "Code", "x1"]));
    let len = match s.below(4) { 0 => 31, 1 => s.idx(3), _ => s.small(1, 12) };
    let tail = format!("_{n}");
    while v.chars().count() + tail.len() < len {
        v.push(*s.pick(&['a', 'B', '0', '9', '_', 'ü', '名']));
    }
    v + &tail
}

fn bad(s: &mut Src) -> String {
    match s.below(5) {
        0 => String::new(),
        1 => { let c = *s.pick(&['a', 'é', '日']); std::iter::repeat_n(c, 32 + s.idx(6)).collect() }
        2 => format!("a{}b", s.pick(&[' ', '-', '.', '!', '\'', '&', '<', '😀', '\t'])),
        3 => format!("{}a", s.pick(&['0', '9', '_'])),
        _ => format!("{}{}", gen::word(s, 5), s.pick(&[" ", "?", "#", "$", "/"])),
    }
}

fn check(b: &Book, sheets: &[Sh], vba: &Option<Vec<u8>>, sig: &Option<Vec<u8>>, name: &Option<String>, log: &[String]) -> R {
    b.pkg.audit()?;
    let main = b.pkg.rels_of("").iter().find(|r| r.kind() == "officeDocument").map(|r| r.target.clone()).unwrap_or_default();
    let want = if vba.is_some() { "application/vnd.ms-excel.sheet.macroEnabled.main+xml" } else { "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml" };
    ensure!(b.pkg.content_type(&main) == Some(want), "main-type", "{main} is {:?}, project: {}, {log:?}", b.pkg.content_type(&main), vba.is_some());
    let uses: Vec<_> = b.pkg.rels_of(&main).iter().filter(|r| r.kind() == "vbaProject").collect();
    ensure!(uses.len() == usize::from(vba.is_some()), "project", "{} projects are related, {log:?}", uses.len());
    let mut known = 0;
    if let (Some(v), Some(r)) = (vba, uses.first()) {
        ensure!(r.ty == "http://schemas.microsoft.com/office/2006/relationships/vbaProject" && !r.external, "relation", "{} {}", r.ty, r.target);
        ensure!(b.pkg.bytes.get(&r.target) == Some(v), "bytes", "the bytes of the project differ ({} stored, {} given), {log:?}", b.pkg.bytes.get(&r.target).map_or(0, Vec::len), v.len());
        ensure!(b.pkg.content_type(&r.target) == Some("application/vnd.ms-office.vbaProject"), "project-type", "{:?}", b.pkg.content_type(&r.target));
        known += 1;
        let sigs: Vec<_> = b.pkg.rels_of(&r.target).iter().collect();
        ensure!(sigs.len() == usize::from(sig.is_some()), "signature", "{} signatures are related, {log:?}", sigs.len());
        if let (Some(v), Some(r)) = (sig, sigs.first()) {
            ensure!(r.ty == "http://schemas.microsoft.com/office/2006/relationships/vbaProjectSignature", "relation", "{}", r.ty);
            ensure!(b.pkg.bytes.get(&r.target) == Some(v), "bytes", "the bytes of the signature differ, {log:?}");
            ensure!(b.pkg.content_type(&r.target) == Some("application/vnd.ms-office.vbaProjectSignature"), "signature-type", "{:?}", b.pkg.content_type(&r.target));
            known += 1;
        }
    }
    let bins = b.pkg.names.iter().filter(|n| n.to_ascii_lowercase().ends_with(".bin")).count();
    ensure!(bins == known, "parts", "{bins} binary parts, {known} expected, {log:?}");
    let got = b.workbook().child("workbookPr").and_then(|p| p.attr("codeName"));
    let want = name.as_deref().or(vba.as_ref().map(|_| "ThisWorkbook"));
    ensure!(got == want, "book-name", "workbook code name {got:?}, expected {want:?}, {log:?}");
    ensure!(b.sheets.len() == sheets.len(), "sheets", "{} sheets", b.sheets.len());
    for (i, sh) in sheets.iter().enumerate() {
        ensure!(b.sheets[i].name == sh.key, "sheets", "sheet {i} is {:?}, expected {:?}", b.sheets[i].name, sh.key);
        let got = b.sheet(i)?.child("sheetPr").and_then(|p| p.attr("codeName"));
        let auto = format!("Sheet{}", i + 1);
        let want = sh.vba.as_deref().or(vba.as_ref().map(|_| auto.as_str()));
        ensure!(got == want, "sheet-name", "sheet {i} ({}) has code name {got:?}, expected {want:?}, {log:?}", sh.key);
    }
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let dir = std::env::temp_dir().join(format!("c34_{}_{:x}", std::process::id(), c as *const _ as u64));
    std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let r = guard("history", || run(s, c, &dir));
    std::fs::remove_dir_all(&dir).ok();
    r?
}

fn run(s: &mut Src, c: &mut Ctx, dir: &std::path::Path) -> R {
    let mut wb = Workbook::new();
    let mut sheets: Vec<Sh> = vec![];
    let (mut vba, mut sig, mut name) = (None, None, None::<String>);
    let mut log = vec![];
    let mut n = 0;
    let mut after = false;
    let chart = || { let mut c = Chart::new(ChartType::Pie); c.add_series().set_values(("data", 0, 0, 2, 0)); c };
    must("set_name", wb.add_worksheet().set_name("data"))?;
    sheets.push(Sh { key: "data".into(), chart: false, vba: None });
    for _ in 0..s.span(1, 14, 40) {
        n += 1;
        match s.weighted(&[4, 1, 2, 2, 5, 2, 4, 4, 3, 2]) {
            0 => {
                let key = format!("s{n}");
                must("set_name", wb.add_worksheet().set_name(&key))?;
                log.push(format!("add {key}"));
                sheets.push(Sh { key, chart: false, vba: None });
            }
            1 => {
                let key = format!("c{n}");
                let ws = wb.add_chartsheet();
                must("set_name", ws.set_name(&key))?;
                must("insert_chart", ws.insert_chart(0, 0, &chart()))?;
                log.push(format!("add chart {key}"));
                sheets.push(Sh { key, chart: true, vba: None });
            }
            2 => {
                let (key, at) = (format!("i{n}"), s.idx(sheets.len() + 1));
                let mut ws = Worksheet::new();
                must("set_name", ws.set_name(&key))?;
                wb.worksheets_mut().insert(at, ws);
                log.push(format!("insert {key} at {at}"));
                sheets.insert(at, Sh { key, chart: false, vba: None });
            }
            3 => {
                let (a, b) = (s.idx(sheets.len()), s.idx(sheets.len()));
                wb.worksheets_mut().swap(a, b);
                sheets.swap(a, b);
                log.push(format!("swap {a} {b}"));
            }
            4 => {
                let i = s.idx(sheets.len());
                let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
                if s.chance(1, 3) {
                    let v = bad(s);
                    ensure!(ws.set_vba_name(&v).is_err(), "accepted", "code name {v:?} is accepted");
                    log.push(format!("refused name {v:?}"));
                } else {
                    let v = good(s, n);
                    must("set_vba_name", ws.set_vba_name(&v))?;
                    log.push(format!("name of {i}: {v}"));
                    sheets[i].vba = Some(v);
                }
            }
            5 => {
                if s.chance(1, 3) {
                    let v = bad(s);
                    ensure!(wb.set_vba_name(&v).is_err(), "accepted", "code name {v:?} is accepted");
                    log.push(format!("refused name {v:?}"));
                } else {
                    let v = good(s, n);
                    must("set_vba_name", wb.set_vba_name(&v))?;
                    log.push(format!("name of the book: {v}"));
                    name = Some(v);
                }
            }
            6 => {
                let p = dir.join(format!("p{n}.bin"));
                let v = blob(s);
                if s.chance(1, 5) {
                    ensure!(wb.add_vba_project(&p).is_err(), "accepted", "a project that isn't there is accepted");
                    log.push("missing project".into());
                } else {
                    std::fs::write(&p, &v).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
                    must("add_vba_project", wb.add_vba_project(&p))?;
                    log.push(format!("project of {} bytes", v.len()));
                    // What becomes of the signature of an earlier project isn't documented.
                    if sig.is_some() {
                        return Ok(());
                    }
                    vba = Some(v);
                }
            }
            7 => {
                let (p, q) = (dir.join(format!("p{n}.bin")), dir.join(format!("q{n}.bin")));
                let (v, w) = (blob(s), blob(s));
                let (hp, hq) = (!s.chance(1, 6), !s.chance(1, 3));
                for (x, d, has) in [(&p, &v, hp), (&q, &w, hq)] {
                    if has {
                        std::fs::write(x, d).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
                    }
                }
                let r = wb.add_vba_project_with_signature(&p, &q);
                if hp && hq {
                    must("add_vba_project_with_signature", r)?;
                    log.push(format!("project of {} bytes, signature of {}", v.len(), w.len()));
                    vba = Some(v);
                    sig = Some(w);
                } else {
                    ensure!(r.is_err(), "accepted", "a project or signature that isn't there is accepted");
                    log.push(format!("project there: {hp}, signature there: {hq}"));
                }
            }
            8 => {
                let i = s.idx(sheets.len());
                if !sheets[i].chart {
                    let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
                    let at = (s.small(0, 50) as u32, s.small(0, 20) as u16);
                    match s.below(3) {
                        0 => { must("insert_button", ws.insert_button(at.0, at.1, &Button::new().set_macro("say_hello")))?; }
                        1 => { must("insert_note", ws.insert_note(at.0, at.1, &Note::new("x")))?; }
                        _ => { ws.set_tab_color(Color::Red); }
                    }
                    log.push("content".into());
                }
            }
            _ => {
                let b = save_book(&mut wb, c)?;
                c.label_if(after, "saved again");
                after = true;
                log.push("save".into());
                check(&b, &sheets, &vba, &sig, &name, &log)?;
            }
        }
    }
    c.d(|| format!("{log:?}"));
    let b = save_book(&mut wb, c)?;
    check(&b, &sheets, &vba, &sig, &name, &log)?;
    c.label_if(vba.is_some(), "with a project");
    c.label_if(sig.is_some(), "signed");
    c.label_if(vba.is_none(), "without a project");
    if vba.is_some() {
        c.hit();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C34",
        rule: "a history of sheet, code name, project and signature calls with saves in between that ends with a project",
        level: "exploration",
        assumptions: &["names like Sheet1 given by hand, and a project added over a signed one, are not generated"],
        families: vec![fam("history", 6000, 150_000, history)],
        known: vec![],
    }
}
