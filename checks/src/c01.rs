//! C01: every saved workbook is a closed, well formed package.
use crate::kitchen::*;
use crate::util::*;

fn workbook(s: &mut Src, c: &mut Ctx, ops: usize) -> R {
    let (mut k, _) = generate(s, c, ops, |_, _, d, c| {
        if let Did::Refused(_) = d {
            c.label("refused call");
        }
        Ok(())
    })?;
    for x in &k.kinds {
        c.label(x);
    }
    if k.kinds.len() >= 4 {
        c.hit();
    }
    let rounds = if s.chance(1, 5) { 2 } else { 1 };
    for _ in 0..rounds {
        let b = save_book(&mut k.wb, c)?;
        b.pkg.audit()?;
        ensure_eq!(b.sheets.len(), k.st.len(), "sheets", "number of sheets");
    }
    Ok(())
}
fn mixed(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 40);
    workbook(s, c, n)
}
fn long(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(60, 160);
    workbook(s, c, n)
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the workbook has at least four kinds of content",
        level: "checked on generated workbooks",
        assumptions: &["the schema is checked for the parts and ids the auditor knows, not by a full XSD validation"],
        families: vec![fam("mixed", 8000, 300_000, mixed), fam("long", 800, 40_000, long)],
        known: vec![],
    }
}
