//! C36: the optional features that only change how a file is made don't change
//! what is in it.
//!
//! A second build of these checks, without `constant_memory` and `serde` and
//! with `ryu` and `zlib`, runs as a process of its own. Both builds make the
//! same random workbook from the same tapes.
use crate::kitchen::*;
use crate::util::*;
use crate::helper::{ask, Made};

/// The main loop of the other build.
pub fn twin() {
    crate::helper::serve(make);
}

fn make(kind: u64, tapes: &[Vec<u64>]) -> Made {
    let mut out = vec![];
    let r = if kind == 0 { whole(tapes, &mut out) } else { numbers(&tapes[0], &mut out) };
    if let Err(e) = r { out.push(Err(e.msg)); }
    out
}

fn save_to(wb: &mut Workbook, out: &mut Made) -> R {
    let mut c = Ctx::default();
    out.push(try_save(wb, &mut c)?);
    Ok(())
}

/// The first tape is the set-up, the last tells after which operation to save early.
fn whole(tapes: &[Vec<u64>], out: &mut Made) -> R {
    let (init, rest) = tapes.split_first().unwrap();
    let (early, ops) = rest.split_last().unwrap();
    let p = Plan { init: init.clone(), ops: ops.to_vec() };
    let mut saves = vec![];
    let mut k = build(&p, |i, k, d| {
        if let Did::Refused(e) = d { saves.push(Err(format!("{i}: {e}"))); }
        if early.contains(&(i as u64)) { save_to(&mut k.wb, &mut saves)?; }
        Ok(())
    })?;
    out.append(&mut saves);
    save_to(&mut k.wb, out)
}

/// One sheet with numbers of all kinds wherever numbers are stored.
fn numbers(tape: &[u64], out: &mut Made) -> R {
    let mut s = Src::replay(tape);
    fill(&mut s, out).map(|_| ())
}

fn number(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => s.int(-1000, 1000) as f64,
        1 => s.any64() as i64 as f64,
        2 => gen::dec(s, -100_000, 100_000, 1000),
        3 => gen::dec(s, -100_000, 100_000, 1000) * 10f64.powi(s.int(-300, 300) as i32),
        4 => 10f64.powi(s.int(-30, 30) as i32) * s.int(1, 9) as f64,
        5 => f64::from_bits((1.0f64).to_bits() + s.below(1 << 20)),
        6 => *s.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e15, 1e16, 1e17, 123_456_789_012_345_680.0, 0.1, 1e-5, 1e-7, 0.000_012_345]),
        _ => gen::any_f64(s),
    }
}

fn fill(s: &mut Src, out: &mut Made) -> R<usize> {
    let mut wb = Workbook::new();
    let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
    wb.set_properties(&DocProperties::new().set_creation_datetime(&date));
    let f = Format::new().set_num_format("0.00");
    let n = s.small(1, 40);
    let ws = wb.add_worksheet();
    for r in 0..n as u32 {
        let v = number(s);
        // Numbers a file can't hold are refused, or stored as errors: by both builds alike.
        let (r, c) = (r, s.u16(0, 3));
        let x = match s.below(7) {
            0 | 1 => ws.write_number(r, c, v),
            2 => ws.write_number_with_format(r, c, v, &f),
            3 => ws.write(r, c, v as f32),
            4 => ws.write_with_format(r, c, s.any64() as i64, &f),
            5 => ws.write_datetime_with_format(r, c, &ExcelDateTime::from_timestamp(s.int(-2_000_000_000, 200_000_000_000)).unwrap_or(date.clone()), &f),
            _ => ws.write_formula(r, c, Formula::new("=1+1").set_result(v.to_string())),
        };
        if let Err(e) = x { out.push(Err(e.to_string())); }
    }
    if s.bool() { let _ = ws.set_row_height(s.u32(0, 50), number(s).abs()); }
    if s.bool() { let _ = ws.set_column_width(s.u16(0, 9), number(s).abs()); }
    if s.bool() {
        ws.set_nan_value(s.word_or("nan")).set_infinity_value("inf");
        let _ = ws.write(60, 0, f64::NAN);
        let _ = ws.write(60, 1, f64::INFINITY);
    }
    save_to(&mut wb, out)?;
    Ok(n)
}

trait Word { fn word_or(&mut self, d: &str) -> String; }
impl Word for Src {
    fn word_or(&mut self, d: &str) -> String { if self.bool() { d.to_string() } else { gen::word(self, 5) } }
}

/// The canonical form, with the numbers of cells compared as numbers.
fn norm(e: &Elem) -> String {
    let mut x = e.clone();
    fn walk(e: &mut Elem) {
        let number = e.name == "c" && matches!(e.attr("t"), None | Some("n"));
        for k in &mut e.kids {
            let kit::xml::Node::E(k) = k else { continue };
            if number && k.name == "v" {
                let t = k.text();
                // The result of a formula may be any text.
                if let (Ok(v), true) = (t.parse::<f64>(), t.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c))) {
                    k.kids = vec![kit::xml::Node::T(format!("{:016x}", v.to_bits()))];
                }
            } else {
                walk(k);
            }
        }
    }
    walk(&mut x);
    x.canon()
}

fn same(a: &Made, b: &Made) -> R {
    let brief = |m: &Made| -> Vec<String> { m.iter().map(|x| match x { Ok(_) => "file".to_string(), Err(e) => e.clone() }).collect() };
    ensure!(brief(a) == brief(b), "answers", "the builds answer differently: {:?} / with ryu and zlib: {:?}", brief(a), brief(b));
    for (x, y) in a.iter().zip(b) {
        let (Ok(x), Ok(y)) = (x, y) else { continue };
        let (p, q) = (Pkg::open(x)?, Pkg::open(y)?);
        ensure!(p.names == q.names, "parts", "the lists of parts differ: {:?} / {:?}", p.names, q.names);
        for n in &p.names {
            if p.bytes[n] == q.bytes[n] { continue; }
            let sheet = n.starts_with("xl/worksheets/sheet");
            let diff = match (p.xml.get(n), q.xml.get(n)) {
                (Some(u), Some(v)) if sheet => { let (u, v) = (norm(u), norm(v)); (u != v).then_some((u, v)) }
                _ => Some((String::from_utf8_lossy(&p.bytes[n]).to_string(), String::from_utf8_lossy(&q.bytes[n]).to_string())),
            };
            if let Some((u, v)) = diff {
                let at = u.bytes().zip(v.bytes()).position(|(p, q)| p != q).unwrap_or(u.len().min(v.len()));
                let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(120)..(at + 120).min(t.len())]).to_string();
                fail!("content", "part {n} depends on the features:\n  plain:         …{}…\n  ryu and zlib:  …{}…", cut(&u), cut(&v));
            }
        }
    }
    Ok(())
}

fn f_books(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 25);
    let (_, plan) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let early: Vec<u64> = (0..n as u64).filter(|_| s.chance(1, 12)).collect();
    let mut tapes = vec![plan.init.clone()];
    tapes.extend(plan.ops.iter().cloned());
    tapes.push(early.clone());
    let here = make(0, &tapes);
    let there = ask("twin", 0, &tapes)?;
    c.evals += 2;
    c.label_if(!early.is_empty(), "saved early");
    let files = here.iter().filter(|x| x.is_ok()).count();
    if files > 0 && n > 2 { c.hit(); }
    same(&here, &there)
}

fn f_numbers(s: &mut Src, c: &mut Ctx) -> R {
    let a = s.rec.len();
    let mut here = vec![];
    if let Err(e) = fill(s, &mut here) { here.push(Err(e.msg)); }
    let tape = s.rec[a..].to_vec();
    let there = ask("twin", 1, &[tape])?;
    c.evals += 2;
    if here.iter().any(|x| x.is_ok()) { c.hit(); }
    same(&here, &there)
}

pub fn prop() -> Prop {
    Prop {
        id: "C36",
        rule: "at least one file was made by both builds, with three or more operations for whole workbooks",
        level: "exploration",
        assumptions: &["the wasm, polars and test-resave features are left out", "constant memory is not used, only compiled in or not"],
        known: vec![],
        families: vec![fam("books", 2500, 60_000, f_books), fam("numbers", 8000, 300_000, f_numbers)],
    }
}
