//! Helpers shared by the property modules.

pub use kit::gen;
pub use kit::opc::Pkg;
pub use kit::runner::{fam, famx, guard};
pub use kit::xl::{abs_range, cell_name, col_name, parse_cell, parse_range, range_name, Book, V};
pub use kit::xml::{diff, el, Elem};
pub use kit::{ensure, ensure_eq, fail, Ctx, Fail, Family, Prop, Src, R};
pub use rust_xlsxwriter::*;
pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const MAXR: u32 = 1_048_576;
pub const MAXC: u16 = 16_384;

/// A valid call must succeed.
pub fn must<T>(what: &str, r: Result<T, XlsxError>) -> R<T> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => Err(Fail { sig: "refused".into(), msg: format!("{what} refused a valid argument: {e}") }),
    }
}

pub fn save(wb: &mut Workbook, ctx: &mut Ctx) -> R<Vec<u8>> {
    ctx.evals += 1;
    match guard("save", || wb.save_to_buffer())? {
        Ok(b) => Ok(b),
        Err(e) => Err(Fail { sig: "save-error".into(), msg: format!("saving a valid workbook failed: {e}") }),
    }
}

pub fn save_book(wb: &mut Workbook, ctx: &mut Ctx) -> R<Book> {
    Book::open(&save(wb, ctx)?)
}

/// Row positions: a small cluster (so that calls collide), span boundaries and
/// the end of the sheet.
pub fn row(s: &mut Src) -> u32 {
    match s.below(120) {
        0..=89 => s.u32(0, 6),
        90..=107 => *s.pick(&[15u32, 16, 17, 31, 32, 99, 1023, 1024]),
        108..=117 => s.u32(0, 300),
        _ => *s.pick(&[1_048_575u32, 1_048_574, 65_535, 65_536]),
    }
}
pub fn row_near(s: &mut Src) -> u32 {
    match s.below(10) {
        0..=7 => s.u32(0, 7),
        8 => *s.pick(&[15u32, 16, 17, 31, 32]),
        _ => s.u32(0, 60),
    }
}
pub fn col(s: &mut Src) -> u16 {
    match s.below(12) {
        0..=7 => s.u16(0, 5),
        8..=9 => *s.pick(&[24u16, 25, 26, 27, 51, 52, 255, 256, 701, 702, 703]),
        10 => s.u16(0, 60),
        _ => *s.pick(&[16_383u16, 16_382]),
    }
}
pub fn col_near(s: &mut Src) -> u16 {
    match s.below(10) {
        0..=8 => s.u16(0, 6),
        _ => *s.pick(&[25u16, 26, 27, 30]),
    }
}
/// A small valid range (r1, c1, r2, c2), at most `h` by `w`.
pub fn range(s: &mut Src, h: u32, w: u16) -> (u32, u16, u32, u16) {
    let (r, c) = (row(s), col(s));
    let r2 = (r + s.u32(0, h - 1)).min(MAXR - 1);
    let c2 = (c + s.u16(0, w - 1)).min(MAXC - 1);
    (r, c, r2, c2)
}
pub fn range_near(s: &mut Src, h: u32, w: u16) -> (u32, u16, u32, u16) {
    let (r, c) = (row_near(s), col_near(s));
    (r, c, r + s.u32(0, h - 1), c + s.u16(0, w - 1))
}

/// Legal, unique sheet names.
pub fn sheet_name(s: &mut Src, used: &mut HashSet<String>) -> String {
    for _ in 0..50 {
        let n = raw_sheet_name(s);
        if !n.is_empty() && n.chars().count() <= 31 && !n.contains(['[', ']', ':', '*', '?', '/', '\\']) && !n.starts_with('\'') && !n.ends_with('\'') && used.insert(n.to_lowercase()) {
            return n;
        }
    }
    let mut i = used.len() + 1;
    loop {
        let n = format!("Tab{i}");
        if used.insert(n.to_lowercase()) {
            return n;
        }
        i += 1;
    }
}
fn raw_sheet_name(s: &mut Src) -> String {
    match s.below(8) {
        0 => format!("Data{}", s.below(10)),
        1 => (*s.pick(&["A1", "R1C1", "RC", "R", "C", "XFD1", "XFE1", "1st", "2024", "My Sheet", "It's", "a''b", "TRUE", "Q.1", "No.1", "_x", "Ünïcode", "日本", "a-b", "a&b", "<x>", "\"q\"", "A1B", "rc1", "r5", "c2", "x!y", "$A", "a,b", "a;b", "(a)", "=1", "😀", ".a", "a.", "ABC1048577", "AAA1048576", "R1C", "R123C", "RC16385", "R1048577"])).to_string(),
        2 => gen::line_text(s, 12),
        3 => gen::word(s, 31),
        4 => format!("{}{}", gen::word(s, 3).to_uppercase(), s.below(2_000_000)),
        5 => format!("{} {}", gen::word(s, 5), gen::word(s, 5)),
        6 => {
            let mut t = gen::line_text(s, 8);
            t.push_str(&s.below(100).to_string());
            t
        }
        _ => gen::line_text(s, 31).chars().take(31).collect(),
    }
}

/// Reference quoting of a sheet name for formulas, always quoted. Compare
/// through `unquote` because quoting is allowed even when not needed.
pub fn unquote_sheet(s: &str) -> String {
    if s.len() >= 2 && s.starts_with('\'') && s.ends_with('\'') {
        s[1..s.len() - 1].replace("''", "'")
    } else {
        s.to_string()
    }
}

/// Splits `'Sheet'!$A$1:$B$2` into (sheet, range), respecting quotes.
pub fn split_ref(s: &str) -> R<(String, String)> {
    let mut inq = false;
    let mut at = None;
    for (i, c) in s.char_indices() {
        match c {
            '\'' => inq = !inq,
            '!' if !inq => at = Some(i),
            _ => {}
        }
        if at.is_some() {
            break;
        }
    }
    match at {
        Some(i) => Ok((unquote_sheet(&s[..i]), s[i + 1..].to_string())),
        None => fail!("ref", "no sheet in reference {s:?}"),
    }
}

/// Could a formula parser misread this name if it isn't quoted? Only the
/// definite cases.
pub fn needs_quotes(n: &str) -> bool {
    if n.chars().any(|c| if c.is_ascii() { !c.is_ascii_alphanumeric() && c != '_' && c != '.' } else { c.is_whitespace() }) {
        return true;
    }
    if n.starts_with(|c: char| c.is_ascii_digit() || c == '.') {
        return true;
    }
    let u = n.to_ascii_uppercase();
    if parse_cell(&u).is_ok() {
        return true;
    }
    // R1C1 style: R, C, R5, C5, RC, R5C, RC5, R5C5 within the sheet.
    let digits = |t: &str| t.chars().take_while(char::is_ascii_digit).count();
    let within = |t: &str, max: u64| t.is_empty() || (!t.starts_with('0') && t.parse::<u64>().is_ok_and(|v| v <= max));
    let mut t = &u[..];
    let mut any = false;
    if let Some(x) = t.strip_prefix('R') {
        let k = digits(x);
        if !within(&x[..k], 1_048_576) {
            return false;
        }
        t = &x[k..];
        any = true;
    }
    if let Some(x) = t.strip_prefix('C') {
        let k = digits(x);
        if !within(&x[..k], 16_384) {
            return false;
        }
        t = &x[k..];
        any = true;
    }
    any && t.is_empty()
}

/// Strict reader of `Sheet!A1:B2`, `'It''s'!$A$1` and the like: sheet name,
/// range, and whether every part is absolute.
pub fn read_ref(f: &str) -> R<(String, (u32, u32, u32, u32), bool)> {
    let (name, rest) = if let Some(q) = f.strip_prefix('\'') {
        let mut name = String::new();
        let mut it = q.char_indices();
        let mut end = None;
        while let Some((i, c)) = it.next() {
            if c != '\'' {
                name.push(c);
            } else if q[i + 1..].starts_with('\'') {
                name.push('\'');
                it.next();
            } else {
                end = Some(i + 1);
                break;
            }
        }
        match end.and_then(|e| q[e..].strip_prefix('!')) {
            Some(r) => (name, r),
            None => fail!("ref", "reference {f:?} has bad quotes"),
        }
    } else {
        let Some((n, r)) = f.split_once('!') else { fail!("ref", "reference {f:?} has no sheet") };
        ensure!(!n.is_empty() && !needs_quotes(n), "ref", "sheet name in {f:?} needs quotes");
        (n.to_string(), r)
    };
    let cells = rest.split(':').count();
    ensure!(cells <= 2, "ref", "reference {f:?} is no range");
    let abs = rest.matches('$').count() == 2 * cells && rest.split(':').all(|c| c.starts_with('$'));
    ensure!(abs || !rest.contains('$'), "ref", "reference {f:?} is partly absolute");
    Ok((name, parse_range(&rest.replace('$', ""))?, abs))
}

/// The same range given to the library in one of the accepted forms.
pub fn chart_range(s: &mut Src, sheet: &str, r: (u32, u16, u32, u16)) -> ChartRange {
    let plain = range_name(r.0, r.1.into(), r.2, r.3.into());
    let abs = abs_range(r.0, r.1.into(), r.2, r.3.into());
    let quoted = format!("'{}'", sheet.replace('\'', "''"));
    match s.below(5) {
        0 => (sheet, r.0, r.1, r.2, r.3).new_chart_range(),
        1 if (r.0, r.1) == (r.2, r.3) => (sheet, r.0, r.1).new_chart_range(),
        1 => ChartRange::new_from_range(sheet, r.0, r.1, r.2, r.3),
        2 => (&format!("={quoted}!{abs}")).new_chart_range(),
        3 => format!("{quoted}!{plain}").as_str().new_chart_range(),
        _ if needs_quotes(sheet) => ChartRange::new_from_string(&format!("{quoted}!{abs}")),
        _ => ChartRange::new_from_string(&format!("{sheet}!{abs}")),
    }
}

/// The order in which to do `n` independent things: often the usual one.
pub fn order(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if s.bool() { s.shuffle(&mut v); }
    v
}

/// Runs blocks whose order must not matter in a random order.

macro_rules! shuffled {
    ($s:expr; $($b:block)*) => {{
        let n = [$(stringify!($b)),*].len();
        for i in $crate::util::order($s, n) {
            let mut j = 0;
            $(
                if i == j { $b }
                j += 1;
            )*
            let _ = j;
        }
    }};
}
pub(crate) use shuffled;
