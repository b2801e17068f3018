//! C29: document properties are stored exactly.
use crate::c21::Sm;
use crate::util::*;

fn same(got: &str, want: &str) -> bool {
    // These texts may or may not be read with _xHHHH_ escapes.
    let un = kit::xml::unescape_xstring;
    let esc: String = want
        .chars()
        .map(|c| match c {
            '\u{0}'..='\u{8}' | '\u{b}'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => format!("_x{:04X}_", c as u32),
            c => c.to_string(),
        })
        .collect();
    got == want || un(got) == un(want) || got == esc
}

/// The application part lists the sheets and the named ranges.
pub fn check_titles(b: &Book, sheets: &[Sm], names: &[String]) -> R {
    let app = b.pkg.rels_of("").iter().find(|r| r.kind() == "extended-properties").map(|r| r.target.clone());
    let Some(app) = app else { fail!("app", "no application properties") };
    let x = b.pkg.part(&app)?;
    let mut want: Vec<String> = vec![];
    let mut heads: Vec<(String, usize)> = vec![];
    for (chart, head) in [(false, "Worksheets"), (true, "Charts")] {
        let v: Vec<String> = sheets.iter().filter(|s| s.chart == chart && !s.very_hidden).map(|s| s.name.clone()).collect();
        if !v.is_empty() {
            heads.push((head.into(), v.len()));
        }
        want.extend(v);
    }
    if !names.is_empty() {
        heads.push(("Named Ranges".into(), names.len()));
    }
    let v = x.at("TitlesOfParts/vt:vector");
    let mut got: Vec<String> = v.map(|v| v.all("vt:lpstr").map(|e| e.text()).collect()).unwrap_or_default();
    ensure!(v.and_then(|v| v.attr("size")) == Some(got.len().to_string().as_str()), "title-count", "titles {:?} for {}", v.map(|v| &v.attrs), got.len());
    let tail = got.split_off(got.len().min(want.len()));
    ensure!(got == want, "titles", "sheet titles {got:?}, sheets {want:?}");
    let mut dec = vec![];
    for t in &tail {
        dec.push(match split_ref(t) {
            Ok((s, n)) => format!("{s}!{n}"),
            Err(_) => t.clone(),
        });
    }
    ensure!(dec == names, "name-titles", "named ranges {dec:?}, expected {names:?}");
    let h = x.at("HeadingPairs/vt:vector");
    let flat: Vec<String> = h.map(|h| h.all("vt:variant").map(|e| e.deep_text()).collect()).unwrap_or_default();
    ensure!(h.and_then(|v| v.attr("size")) == Some(flat.len().to_string().as_str()), "pair-count", "heading pairs {:?}", h.map(|v| &v.attrs));
    let want: Vec<String> = heads.iter().flat_map(|(a, n)| [a.clone(), n.to_string()]).collect();
    ensure!(flat == want, "pairs", "heading pairs {flat:?}, expected {want:?}");
    Ok(())
}

#[derive(Clone, Debug)]
enum Val {
    Text(String),
    Int(i32),
    Real(f64),
    Bool(bool),
    Date(String),
}

/// A date and time with its ISO form.
/// The instant of the chrono crate.
fn utc(iso: &str) -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::parse_from_rfc3339(iso).expect("date").with_timezone(&chrono::Utc)
}

fn gen_date(s: &mut Src) -> R<(ExcelDateTime, String)> {
    let y = *s.pick(&[1900u16, 1904, 1970, 1999, 2000, 2024, 2026, 2100, 9999]);
    let m = s.u8(1, 12);
    let d = s.u8(1, 28);
    let (h, mi) = (s.u16(0, 23), s.u8(0, 59));
    let sec = s.u8(0, 59);
    let iso = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{sec:02}Z");
    let midnight = format!("{y:04}-{m:02}-{d:02}T00:00:00Z");
    // Days since 1970 by counting.
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let days = || {
        let mut n: i64 = 0;
        let yy = i64::from(y);
        if yy >= 1970 { for k in 1970..yy { n += if leap(k) { 366 } else { 365 }; } } else { for k in yy..1970 { n -= if leap(k) { 366 } else { 365 }; } }
        let ml = [31, if leap(yy) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        n + ml[..usize::from(m) - 1].iter().sum::<i64>() + i64::from(d) - 1
    };
    let secs = i64::from(h) * 3600 + i64::from(mi) * 60 + i64::from(sec);
    Ok(match s.below(6) {
        0 => (must("from_ymd", ExcelDateTime::from_ymd(y, m, d))?, midnight),
        1 => (must("and_hms", must("from_ymd", ExcelDateTime::from_ymd(y, m, d))?.and_hms(h, mi, sec))?, iso),
        2 => (must("and_hms_milli", must("from_ymd", ExcelDateTime::from_ymd(y, m, d))?.and_hms_milli(h, mi, sec, s.u16(0, 999)))?, iso),
        3 => (must("parse", ExcelDateTime::parse_from_str(&format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{sec:02}")))?, iso),
        4 => (must("from_timestamp", ExcelDateTime::from_timestamp(days() * 86400 + secs))?, iso),
        _ => {
            // Serial numbers before March 1900 are shifted in Excel.
            let n = days() + 25569 - i64::from(y == 1900 && m < 3);
            (must("from_serial", ExcelDateTime::from_serial_datetime(n as f64 + secs as f64 / 86400.0))?, iso)
        }
    })
}

/// The stored time is an ISO 8601 time within the same second.
fn same_time(got: &str, want: &str) -> bool {
    if got == want {
        return true;
    }
    let b = got.as_bytes();
    got.len() > 20 && got.starts_with(&want[..19]) && b[19] == b'.' && got.ends_with('Z') && got[20..got.len() - 1].bytes().all(|c| c.is_ascii_digit())
}

fn iso_shape(t: &str) -> bool {
    let p = "dddd-dd-ddTdd:dd:ddZ";
    t.len() == p.len() && t.bytes().zip(p.bytes()).all(|(a, b)| if b == b'd' { a.is_ascii_digit() } else { a == b })
}

fn properties(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let mut used = HashSet::new();
    let mut sheets = vec![];
    for i in 0..s.span(1, 5, 30) {
        let chart = i > 0 && s.chance(1, 5);
        let name = sheet_name(s, &mut used);
        let ws = if chart { wb.add_chartsheet() } else { wb.add_worksheet() };
        must("set_name", ws.set_name(&name))?;
        if chart {
            let mut ch = Chart::new_line();
            let first: &Sm = &sheets[0];
            ch.add_series().set_values((first.name.as_str(), 0, 0, 2, 0));
            must("insert_chart", ws.insert_chart(0, 0, &ch))?;
        }
        let mut very_hidden = false;
        if i > 0 {
            match s.below(8) {
                0 => { ws.set_hidden(true); }
                1 => { ws.set_very_hidden(true); very_hidden = true; }
                _ => {}
            }
        }
        sheets.push(Sm { name, chart, very_hidden, ..Sm::default() });
    }
    let mut text: BTreeMap<&str, String> = BTreeMap::new();
    let mut created: Option<String> = None;
    let mut custom: Vec<(String, Val)> = vec![];
    let mut names = HashSet::new();
    let rounds = s.small(1, 2);
    let mut read_only = false;
    for _ in 0..rounds {
        let mut p = DocProperties::new();
        text.clear();
        created = None;
        custom.clear();
        names.clear();
        for _ in 0..s.span(0, 10, 60) {
            let t = gen::xml_text(s, 25);
            macro_rules! set { ($k:literal, $f:ident) => {{ p = p.$f(&t); text.insert($k, t); }} }
            match s.below(17) {
                0 => set!("dc:title", set_title),
                1 => set!("dc:subject", set_subject),
                2 => set!("Manager", set_manager),
                3 => set!("Company", set_company),
                4 => set!("cp:category", set_category),
                5 => set!("dc:creator", set_author),
                6 => set!("cp:keywords", set_keywords),
                7 => set!("dc:description", set_comment),
                8 => set!("cp:contentStatus", set_status),
                9 => set!("HyperlinkBase", set_hyperlink_base),
                10 => {
                    let (d, iso) = gen_date(s)?;
                    p = if s.bool() { p.set_creation_datetime(&d) } else { p.set_creation_datetime(&utc(&iso)) };
                    created = Some(iso);
                }
                _ => {
                    let mut n = gen::xml_text(s, 10);
                    if !names.insert(n.to_lowercase()) || n.is_empty() {
                        n = format!("Property {}", custom.len());
                        names.insert(n.to_lowercase());
                    }
                    let v = match s.below(6) {
                        0 => Val::Int(*s.pick(&[0, 1, -1, i32::MAX, i32::MIN, 42])),
                        1 => Val::Real(gen::finite(s)),
                        2 => Val::Bool(s.bool()),
                        3 => {
                            let (d, iso) = gen_date(s)?;
                            p = if s.bool() { p.set_custom_property(&n, &d) } else { p.set_custom_property(&n, &utc(&iso)) };
                            custom.push((n, Val::Date(iso)));
                            c.label("custom date");
                            continue;
                        }
                        _ => Val::Text(t),
                    };
                    p = match &v {
                        Val::Int(i) => p.set_custom_property(&n, *i),
                        Val::Real(f) => p.set_custom_property(&n, *f),
                        Val::Bool(b) => p.set_custom_property(&n, *b),
                        Val::Text(t) if s.bool() => p.set_custom_property(&n, t.as_str()),
                        Val::Text(t) => p.set_custom_property(&n, t),
                        Val::Date(_) => unreachable!(),
                    };
                    c.label("custom");
                    custom.push((n, v));
                }
            }
        }
        wb.set_properties(&p);
        if s.chance(1, 6) {
            wb.read_only_recommended();
            read_only = true;
        }
        c.d(|| format!("{text:?} {created:?} {custom:?}"));
        let b = save_book(&mut wb, c)?;
        check(&b, &text, created.as_deref(), &custom, read_only)?;
        check_titles(&b, &sheets, &[])?;
    }
    if text.len() + custom.len() > 1 {
        c.hit();
    }
    Ok(())
}

fn check(b: &Book, text: &BTreeMap<&str, String>, created: Option<&str>, custom: &[(String, Val)], read_only: bool) -> R {
    let part = |k: &str| b.pkg.rels_of("").iter().filter(|r| r.kind() == k).map(|r| r.target.clone()).collect::<Vec<_>>();
    let (core, app, cust) = (part("core-properties"), part("extended-properties"), part("custom-properties"));
    ensure!(core.len() == 1 && app.len() == 1, "parts", "{} core and {} application parts", core.len(), app.len());
    let core = b.pkg.part(&core[0])?;
    let app = b.pkg.part(&app[0])?;
    for (k, x) in [("dc:title", core), ("dc:subject", core), ("cp:category", core), ("dc:creator", core), ("cp:lastModifiedBy", core), ("cp:keywords", core), ("dc:description", core), ("cp:contentStatus", core), ("Manager", app), ("Company", app), ("HyperlinkBase", app)] {
        let want = text.get(if k == "cp:lastModifiedBy" { "dc:creator" } else { k }).map(String::as_str).unwrap_or("");
        let n = x.all(k).count();
        ensure!(n <= 1, "twice", "{k} is stored {n} times");
        let got = x.child(k).map(|e| e.text());
        ensure!(same(got.as_deref().unwrap_or(""), want), "text", "{k} is {got:?}, requested {want:?}");
        ensure!(!want.is_empty() || got.is_none() || ["dc:creator", "cp:lastModifiedBy", "Company"].contains(&k), "unset", "{k} is stored without being set");
    }
    for e in core.children() {
        ensure!(["dc:title", "dc:subject", "cp:category", "dc:creator", "cp:lastModifiedBy", "cp:keywords", "dc:description", "cp:contentStatus", "dcterms:created", "dcterms:modified"].contains(&e.name.as_str()), "unknown", "core property {}", e.name);
    }
    for k in ["dcterms:created", "dcterms:modified"] {
        let Some(e) = core.child(k) else { fail!("created", "{k} is missing") };
        ensure!(e.attr("xsi:type") == Some("dcterms:W3CDTF"), "created", "{k}: {:?}", e.attrs);
        let got = e.text();
        match created {
            Some(w) => ensure!(same_time(&got, w), "created", "{k} is {got:?}, requested {w}"),
            None => ensure!(iso_shape(&got), "created", "{k} is {got:?}"),
        }
    }
    ensure!(app.child("DocSecurity").map(|e| e.text()) == Some(if read_only { "2" } else { "0" }.into()), "security", "DocSecurity {:?}", app.child("DocSecurity").map(|e| e.text()));
    ensure!(cust.len() == usize::from(!custom.is_empty()), "custom-part", "{} custom parts for {} properties", cust.len(), custom.len());
    if let Some(p) = cust.first() {
        let x = b.pkg.part(p)?;
        let got: Vec<&Elem> = x.children().collect();
        ensure!(got.len() == custom.len(), "custom-count", "{} custom properties, requested {}", got.len(), custom.len());
        for (i, (e, (name, v))) in got.iter().zip(custom).enumerate() {
            ensure!(e.name == "property" && e.attr("fmtid") == Some("{D5CDD505-2E9C-101B-9397-08002B2CF9AE}"), "custom", "{}", e.canon());
            ensure!(e.attr("pid") == Some((i + 2).to_string().as_str()), "pid", "custom property {i} has id {:?}", e.attr("pid"));
            ensure!(same(e.attr("name").unwrap_or(""), name), "custom-name", "custom property {i} is named {:?}, requested {name:?}", e.attr("name"));
            let k: Vec<&Elem> = e.children().collect();
            ensure!(k.len() == 1, "custom", "custom property {i} has {} values", k.len());
            let t = k[0].text();
            let ok = match (k[0].name.as_str(), v) {
                ("vt:lpwstr", Val::Text(w)) => same(&t, w),
                ("vt:i4", Val::Int(w)) => t.parse() == Ok(*w),
                ("vt:r8", Val::Real(w)) => t.parse::<f64>().is_ok_and(|g| g == *w),
                ("vt:bool", Val::Bool(w)) => t == w.to_string(),
                ("vt:filetime", Val::Date(w)) => same_time(&t, w),
                _ => false,
            };
            ensure!(ok, "custom-value", "custom property {name:?} is stored as {}, requested {v:?}", k[0].canon());
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "more than one property",
        level: "exploration",
        assumptions: &["names of custom properties are unique", "times are stored to the second", "very hidden sheets aren't listed, as in files written by Excel that the library is tested against"],
        families: vec![fam("properties", 12000, 400_000, properties)],
        known: vec![],
    }
}
