//! C23: formulas keep their meaning when stored.
use crate::fmt::*;
use crate::util::*;

// The newer functions of Excel as documented: plain, dynamic, and dynamic ones of the
// worksheet name space.
const F0: &str = "ACOT ACOTH AGGREGATE ARABIC ARRAYTOTEXT BASE BETA.DIST BETA.INV BINOM.DIST BINOM.DIST.RANGE BINOM.INV BITAND BITLSHIFT BITOR BITRSHIFT BITXOR CEILING.MATH CEILING.PRECISE CHISQ.DIST CHISQ.DIST.RT CHISQ.INV CHISQ.INV.RT CHISQ.TEST COMBINA CONCAT CONFIDENCE.NORM CONFIDENCE.T COT COTH COVARIANCE.P COVARIANCE.S CSC CSCH DAYS DECIMAL ERF.PRECISE ERFC.PRECISE EXPON.DIST F.DIST F.DIST.RT F.INV F.INV.RT F.TEST FIELDVALUE FILTERXML FLOOR.MATH FLOOR.PRECISE FORECAST.ETS FORECAST.ETS.CONFINT FORECAST.ETS.SEASONALITY FORECAST.ETS.STAT FORECAST.LINEAR FORMULATEXT GAMMA GAMMA.DIST GAMMA.INV GAMMALN.PRECISE GAUSS HYPGEOM.DIST IFNA IFS IMAGE IMCOSH IMCOT IMCSC IMCSCH IMSEC IMSECH IMSINH IMTAN ISFORMULA ISOMITTED ISOWEEKNUM LET LOGNORM.DIST LOGNORM.INV MAXIFS MINIFS MODE.MULT MODE.SNGL MUNIT NEGBINOM.DIST NORM.DIST NORM.INV NORM.S.DIST NORM.S.INV NUMBERVALUE PDURATION PERCENTILE.EXC PERCENTILE.INC PERCENTRANK.EXC PERCENTRANK.INC PERMUTATIONA PHI POISSON.DIST PQSOURCE PYTHON_STR PYTHON_TYPE PYTHON_TYPENAME QUARTILE.EXC QUARTILE.INC QUERYSTRING RANK.AVG RANK.EQ RRI SEC SECH SHEET SHEETS SKEW.P STDEV.P STDEV.S T.DIST T.DIST.2T T.DIST.RT T.INV T.INV.2T T.TEST TEXTAFTER TEXTBEFORE TEXTJOIN UNICHAR UNICODE VALUETOTEXT VAR.P VAR.S WEBSERVICE WEIBULL.DIST XMATCH XOR Z.TEST";
const F1: &str = "ANCHORARRAY BYCOL BYROW CHOOSECOLS CHOOSEROWS DROP EXPAND HSTACK LAMBDA MAKEARRAY MAP RANDARRAY REDUCE SCAN SEQUENCE SINGLE SORTBY SWITCH TAKE TEXTSPLIT TOCOL TOROW UNIQUE VSTACK WRAPCOLS WRAPROWS XLOOKUP";
const F2: &str = "FILTER PY SORT";
const OLD: &str = "SUM IF AND LEN COUNTA VLOOKUP INDEX MATCH TEXT SUMPRODUCT IFERROR NORMDIST T.TEXT LOG10 ATAN2 BAHTTEXT N T";

/// A formula as the user writes it, as it has to be stored, and whether a dynamic
/// function is called.
#[derive(Clone, Default, Debug)]
struct Fx {
    src: String,
    want: String,
    dynamic: bool,
    future: usize,
    decoy: usize,
}

impl Fx {
    fn both(&mut self, t: &str) {
        self.src.push_str(t);
        self.want.push_str(t);
    }
}

fn pick_name<'a>(s: &mut Src, list: &'a str) -> &'a str {
    let v: Vec<&str> = list.split(' ').collect();
    v[s.idx(v.len())]
}

fn any_future(s: &mut Src) -> (&'static str, u8) {
    match s.below(8) {
        0 | 1 => (pick_name(s, F1), 1),
        2 => (pick_name(s, F2), 2),
        _ => (pick_name(s, F0), 0),
    }
}

fn future(s: &mut Src, f: &mut Fx, escaped: bool) {
    let (n, k) = any_future(s);
    let p = if k == 2 { "_xlfn._xlws." } else { "_xlfn." };
    // In a formula that has prefixes already the user has given all of them.
    if escaped {
        f.src.push_str(p);
    } else {
        f.src.push_str(n);
        f.want.push_str(p);
        f.want.push_str(n);
        f.dynamic |= k > 0;
        f.future += 1;
        return;
    }
    f.src.push_str(n);
    f.want.push_str(p);
    f.want.push_str(n);
    f.dynamic |= k > 0;
    f.future += 1;
}

/// Text that looks like a call of a newer function.
fn bait(s: &mut Src) -> String {
    let n = any_future(s).0;
    match s.below(5) {
        0 => format!("{n}("),
        1 => format!("={n}(A1)"),
        2 => format!(" {n}(x) & <b>"),
        3 => format!("{n}"),
        _ => format!("{}{n}(", gen::word(s, 3)),
    }
}

fn decoy_string(s: &mut Src) -> String {
    let t = match s.below(4) {
        0 => gen::line_text(s, 8),
        1 => "'".to_string() + &bait(s),
        2 => "[".to_string() + &bait(s),
        _ => bait(s),
    };
    format!("\"{}\"", t.replace("_x", "x").replace('"', "\"\""))
}

fn sheet_decoy(s: &mut Src) -> String {
    let t = match s.below(3) {
        0 => format!("It's {}", bait(s)),
        1 => format!("\"{}", bait(s)),
        _ => bait(s),
    };
    format!("'{}'!$A$1", t.replace(['[', ']', '*', '?', ':', '\\', '/'], "").replace('\'', "''"))
}

fn col_decoy(s: &mut Src) -> String {
    let mut o = String::new();
    for ch in match s.below(3) { 0 => format!("\"{}", bait(s)), 1 => format!("#[{}]", bait(s)), _ => bait(s) }.chars() {
        if matches!(ch, '[' | ']' | '#' | '\'' | '@') {
            o.push('\'');
        }
        o.push(ch);
    }
    match s.below(3) {
        0 => format!("Tbl[{o}]"),
        1 => format!("Tbl[[#This Row],[{o}]]"),
        _ => format!("Tbl[@[{o}]]"),
    }
}

fn expr(s: &mut Src, f: &mut Fx, depth: usize, esc: bool) {
    let k = if depth == 0 { s.below(9) } else { s.below(16) };
    match k {
        0 => f.both(&s.int(0, 1000).to_string()),
        1 => f.both("1.5E+3"),
        2 => { let t = range_name(s.u32(0, 9), 0, 9, s.u32(0, 9)); f.both(&t) }
        3 => f.both(*s.pick(&["A1", "$B$2", "A:A", "1:3", "Sheet1!A1", "Sheet1:Sheet3!B2", "'My Sheet'!C3", "A1#", "@A1:A3", "#N/A", "#REF!", "TRUE", "-A1", "{1,2;3,\"FILTER(\"}", "x", "tax_rate", "_name", "Été", "[1]Sheet1!A1", "'[1]Jan FILTER(1)'!A1"])),
        4 => { let t = decoy_string(s); f.both(&t); f.decoy += 1 }
        5 => { let t = sheet_decoy(s); f.both(&t); f.decoy += 1 }
        6 => { let t = col_decoy(s); f.both(&t); f.decoy += 1 }
        7 => {
            // The name of a function without a call.
            let t = any_future(s).0;
            f.both(t);
            f.decoy += 1;
        }
        8 => f.both("\"<&>\"\"'\""),
        9 | 10 => {
            f.both("(");
            expr(s, f, depth - 1, esc);
            f.both(*s.pick(&["+", "-", "*", "/", "^", "&", "=", "<>", "<=", " > ", ":", ",", " "]));
            expr(s, f, depth - 1, esc);
            f.both(")");
        }
        11 => {
            // Functions that merely contain the name of a newer one.
            let n = any_future(s).0;
            let mut t = match s.below(7) {
                0 => format!("MY{n}"),
                1 => format!("{n}X"),
                2 => format!("{n}2"),
                3 => format!("{n}.X"),
                4 => format!("_{n}"),
                5 => format!("É{n}"),
                _ => format!("lib.{n}"),
            };
            let all = format!("{F0} {F1} {F2}");
            if all.split(' ').any(|x| x == t) {
                t.push_str("_q");
            }
            if esc {
                t = "SUM".into();
            }
            f.both(&t);
            f.decoy += 1;
            args(s, f, depth, esc);
        }
        12 => {
            let n = pick_name(s, OLD);
            f.both(n);
            args(s, f, depth, esc);
        }
        _ => {
            future(s, f, esc);
            args(s, f, depth, esc);
        }
    }
}

fn args(s: &mut Src, f: &mut Fx, depth: usize, esc: bool) {
    f.both("(");
    for i in 0..s.small(0, 3) {
        if i > 0 {
            f.both(*s.pick(&[",", ", ", ";"]));
        }
        expr(s, f, depth - 1, esc);
    }
    f.both(")");
}

fn gen_formula(s: &mut Src) -> Fx {
    let mut f = Fx::default();
    let esc = s.chance(1, 8);
    let depth = s.small(1, 4);
    expr(s, &mut f, depth, esc);
    if s.chance(1, 3) {
        f.both(*s.pick(&["+", "&", "="]));
        expr(s, &mut f, depth, esc);
    }
    if esc && !f.src.contains("_xlfn.") {
        f = Fx::default();
        f.both("SUM(A1)");
    }
    f.src = match s.below(5) {
        0 if !f.src.starts_with(['{', '=']) => f.src,
        1 => format!("{{={}}}", f.src),
        2 if !f.src.starts_with(['{', '=']) => format!("{{{}}}", f.src),
        _ => format!("={}", f.src),
    };
    f
}

fn gen_result(s: &mut Src) -> String {
    match s.below(6) {
        0 => (*s.pick(&["TRUE", "FALSE", "#DIV/0!", "#N/A", "#NAME?", "#NULL!", "#NUM!", "#REF!", "#VALUE!", "#GETTING_DATA", "true", "#N/A ", "1 ", " 1", "NaN", "inf", "-infinity", "0x1", "1,5", "Infinity"])).into(),
        1 => s.int(-99999, 99999).to_string(),
        2 => format!("{}", gen::finite(s)),
        3 => (*s.pick(&["0", "1E+10", "-1.5e-7", ".5", "007", "-0"])).into(),
        _ => gen::text(s, 10),
    }
}

fn typed(r: &str) -> V {
    match r {
        "TRUE" => V::Bool(true),
        "FALSE" => V::Bool(false),
        "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!" | "#GETTING_DATA" => V::Err(r.into()),
        _ => match r.parse::<f64>() {
            Ok(x) if x.is_finite() => V::Num(x),
            _ => V::Str(r.into()),
        },
    }
}

#[derive(Clone)]
struct Cm {
    v: V,
    f: Fm,
}

fn formulas(s: &mut Src, c: &mut Ctx) -> R {
    let pool = gen_pool(s, 3, 2);
    for (i, p) in pool.iter().enumerate() {
        c.d(|| format!("format #{i} {}", p.2));
    }
    let ns = s.small(1, 2);
    let mut wb = Workbook::new();
    let mut ms: Vec<(BTreeMap<(u32, u16), Cm>, String)> = vec![];
    for _ in 0..ns {
        wb.add_worksheet();
        ms.push((BTreeMap::new(), "0".into()));
    }
    let board = *s.pick(&[3u32, 10]);
    let mut dynamics = false;
    for _ in 0..s.span(1, 8, 50) {
        let i = s.idx(ns);
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        let (m, default) = &mut ms[i];
        let (r, k) = if s.chance(1, 150) { (1_048_570 + s.u32(0, 1), 16_379 + s.u16(0, 1)) } else { (s.u32(0, board), s.u16(0, board as u16)) };
        match s.weighted(&[12, 2, 1, 1]) {
            0 => {
                let fx = gen_formula(s);
                c.label_if(fx.future > 0, "newer function");
                c.label_if(fx.decoy > 0, "look-alike");
                if fx.future > 0 && fx.decoy > 0 {
                    c.hit();
                }
                let res = if s.chance(2, 3) { None } else { Some(gen_result(s)) };
                let mut fo = if s.bool() { Formula::new(&fx.src) } else { Formula::from(fx.src.as_str()) };
                if let Some(res) = &res {
                    fo = fo.set_result(res);
                }
                let pi = s.idx(pool.len());
                let (pf, fm) = (&pool[pi].0, if s.bool() { Some(pool[pi].1.clone()) } else { None });
                let api = s.below(8);
                let (h, w) = (s.u32(0, 3), s.u16(0, 3));
                let rg = if (2..=4).contains(&api) { (r, k, r + h, k + w) } else { (r, k, r, k) };
                c.d(|| format!("sheet {i} formula {:?} result {res:?} way {api} at {rg:?} format {}", fx.src, if fm.is_some() { pi as i64 } else { -1 }));
                let text = fx.src.as_str();
                let plain = res.is_none();
                let got = guard("write formula", || match (api, fm.is_some()) {
                    (2, false) => ws.write_array_formula(rg.0, rg.1, rg.2, rg.3, fo).map(|_| ()),
                    (2, true) => ws.write_array_formula_with_format(rg.0, rg.1, rg.2, rg.3, fo, pf).map(|_| ()),
                    (3 | 4, false) => ws.write_dynamic_array_formula(rg.0, rg.1, rg.2, rg.3, fo).map(|_| ()),
                    (3 | 4, true) => ws.write_dynamic_array_formula_with_format(rg.0, rg.1, rg.2, rg.3, fo, pf).map(|_| ()),
                    (5, false) => ws.write_dynamic_formula(r, k, fo).map(|_| ()),
                    (5, true) => ws.write_dynamic_formula_with_format(r, k, fo, pf).map(|_| ()),
                    (6, false) => ws.write(r, k, fo).map(|_| ()),
                    (6, true) => ws.write_with_format(r, k, fo, pf).map(|_| ()),
                    (7, false) if plain => ws.write_formula(r, k, text).map(|_| ()),
                    (_, false) => ws.write_formula(r, k, fo).map(|_| ()),
                    (_, true) => ws.write_formula_with_format(r, k, fo, pf).map(|_| ()),
                })?;
                must("write formula", got)?;
                let array = (2..=5).contains(&api);
                let dynamic = fx.dynamic || (3..=5).contains(&api);
                dynamics |= dynamic;
                let f = fm.unwrap_or_default();
                let res = res.filter(|r| !r.is_empty()).unwrap_or_else(|| default.clone());
                let v = V::Formula {
                    text: fx.want.clone(),
                    kind: if array || dynamic { "array".into() } else { String::new() },
                    rng: if array || dynamic { range_name(rg.0, u32::from(rg.1), rg.2, u32::from(rg.3)) } else { String::new() },
                    dynamic,
                    result: Box::new(typed(&res)),
                };
                for y in rg.0..=rg.2 {
                    for x in rg.1..=rg.3 {
                        m.insert((y, x), Cm { v: V::Num(0.0), f: f.clone() });
                    }
                }
                m.insert((r, k), Cm { v, f });
                c.label_if(dynamic && !array, "dynamic function recognised");
            }
            1 => {
                let at: Vec<_> = m.iter().filter(|(_, x)| matches!(x.v, V::Formula { .. })).map(|(k, _)| *k).collect();
                if at.is_empty() {
                    continue;
                }
                let (r, k) = at[s.idx(at.len())];
                let res = gen_result(s);
                c.d(|| format!("sheet {i} set_formula_result ({r},{k}) {res:?}"));
                ws.set_formula_result(r, k, &res);
                if let Some(Cm { v: V::Formula { result, .. }, .. }) = m.get_mut(&(r, k)) {
                    **result = typed(&res);
                }
            }
            2 => {
                let res = gen_result(s);
                c.d(|| format!("sheet {i} set_formula_result_default {res:?}"));
                ws.set_formula_result_default(&res);
                *default = res;
            }
            _ => {
                c.d(|| format!("sheet {i} number at ({r},{k})"));
                must("write", ws.write(r, k, 7))?;
                let old = m.get(&(r, k)).map(|x| x.f.clone());
                let _ = old;
                m.insert((r, k), Cm { v: V::Num(7.0), f: Fm::default() });
            }
        }
    }
    let b = save_book(&mut wb, c)?;
    let has = b.pkg.part("xl/metadata.xml").is_ok();
    ensure!(has || !dynamics, "metadata", "dynamic formulas without metadata part");
    if dynamics {
        let md = b.pkg.part("xl/metadata.xml")?;
        let n = md.child("cellMetadata").map_or(0, |x| x.children().count());
        ensure!(n >= 1, "metadata", "no cell metadata for dynamic formulas");
    }
    for (i, (m, _)) in ms.iter().enumerate() {
        let cells = b.cells(i)?;
        for ((r, k), want) in m {
            let at = format!("sheet {i} cell ({r},{k})");
            match cells.get(&(*r, u32::from(*k))) {
                None => fail!("cell", "{at}: missing, {:?} expected", want.v),
                Some(g) => {
                    ensure!(g.v == want.v, "cell", "{at}: holds {:?} where {:?} expected", g.v, want.v);
                    ensure!(g.cm.as_deref().map_or(true, |x| x == "1"), "cell", "{at}: cell metadata {:?}", g.cm);
                    want.f.check(&b, g.s, &at)?;
                }
            }
        }
        ensure_eq!(cells.len(), m.len(), "cell", "sheet {i}: number of cells");
    }
    Ok(())
}

/// Every documented function, called by itself and inside others.
fn functions(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut want = vec![];
    let wrap = s.below(4);
    let mut r = 0;
    for (list, kind) in [(F0, 0), (F1, 1), (F2, 2)] {
        for n in list.split(' ') {
            let p = if kind == 2 { "_xlfn._xlws." } else { "_xlfn." };
            let (a, b) = match wrap {
                0 => (String::new(), ")".to_string()),
                1 => ("SUM(".into(), ",\"x\"))".to_string()),
                2 => ("A1&-(".into(), "'x y'!B2))".to_string()),
                _ => ("IF(1<2,\"".to_string() + n + "(\",", "Tbl[a]))".into()),
            };
            let src = format!("={a}{n}({b}");
            must("write_formula", ws.write_formula(r, 0, src.as_str()))?;
            want.push((format!("{a}{p}{n}({b}"), kind > 0));
            r += 1;
        }
    }
    c.d(|| format!("every function in context {wrap}"));
    c.hit();
    let b = save_book(&mut wb, c)?;
    let cells = b.cells(0)?;
    for (i, (t, d)) in want.iter().enumerate() {
        match cells.get(&(i as u32, 0)).map(|x| &x.v) {
            Some(V::Formula { text, dynamic, .. }) => {
                ensure!(text == t, "function", "stored {text:?} where {t:?} expected");
                ensure!(dynamic == d, "function", "{t:?}: dynamic {dynamic}");
            }
            o => fail!("function", "{t:?}: {o:?}"),
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "formulas with both a call of a newer function and text that looks like one",
        level: "grammar-based generation of formulas together with the text they must be stored as",
        assumptions: &["a formula with one prefix given by the user has all of them given", "functions are in upper case and directly followed by the parenthesis"],
        known: vec![],
        families: vec![fam("formulas", 20000, 1_000_000, formulas), famx("functions", 4, functions)],
    }
}
