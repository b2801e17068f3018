// C38: every stored part follows the grammar of the file format.
//
// The generators of the other properties are run again with every package they
// open judged against kit/src/grammar.txt; what those properties themselves
// find is theirs to report.
use kit::opc::{Watch, WATCH};
use kit::runner::{fam, guard, CaseFn, Ctx, Family, Prop};
use kit::{fail, Src, R};

fn judged(inner: CaseFn, s: &mut Src, c: &mut Ctx) -> R {
    kit::grammar::init();
    WATCH.with(|w| *w.borrow_mut() = Some(Watch::default()));
    let mut mine = Ctx { want_desc: c.want_desc, ..Default::default() };
    let r = guard("case", || inner(s, &mut mine));
    let w = WATCH.with(|w| w.borrow_mut().take()).unwrap_or_default();
    c.desc.append(&mut mine.desc);
    if let Ok(Err(f)) | Err(f) = r {
        c.label(&format!("other: {}", f.sig));
    }
    c.label_if(w.packages == 0, "nothing saved");
    for (root, n) in w.roots {
        *c.labels.entry(root).or_insert(0) += n;
    }
    c.evals += w.packages;
    if w.packages > 0 {
        c.hit();
    }
    match w.first {
        Some(f) => fail!(f.sig, "{}", f.msg),
        None => Ok(()),
    }
}

fn mixed(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c01::prop().families[0].run, s, c)
}
fn charts(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c27::prop().families[0].run, s, c)
}
fn combined(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c26::prop().families[0].run, s, c)
}
fn objects(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c33::prop().families[0].run, s, c)
}
fn shapes(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c15::prop().families[0].run, s, c)
}
fn sparklines(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c28::prop().families[0].run, s, c)
}
fn tables(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c11::prop().families[0].run, s, c)
}
fn conditions(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c12::prop().families[0].run, s, c)
}
fn validations(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c13::prop().families[0].run, s, c)
}
fn settings(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c20::prop().families[0].run, s, c)
}
fn lines(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c18::prop().families[0].run, s, c)
}
fn filters(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c17::prop().families[0].run, s, c)
}
fn names(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c21::prop().families[0].run, s, c)
}
fn defined(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c22::prop().families[0].run, s, c)
}
fn formats(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c04::prop().families[0].run, s, c)
}
fn merges(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c24::prop().families[0].run, s, c)
}
fn histories(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c02::prop().families[0].run, s, c)
}
fn links(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c14::prop().families[0].run, s, c)
}
fn properties(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c29::prop().families[0].run, s, c)
}
fn notes(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c25::prop().families[0].run, s, c)
}
fn sheets(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c31::prop().families[0].run, s, c)
}
fn protect(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c32::prop().families[0].run, s, c)
}
fn projects(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c34::prop().families[0].run, s, c)
}
fn cells(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c03::prop().families[0].run, s, c)
}
fn drawings(s: &mut Src, c: &mut Ctx) -> R {
    judged(crate::c09::prop().families[0].run, s, c)
}

pub fn prop() -> Prop {
    let families: Vec<Family> = vec![
        fam("mixed", 5000, 150000, mixed),
        fam("charts", 4000, 120000, charts),
        fam("combined", 2500, 75000, combined),
        fam("objects", 4000, 120000, objects),
        fam("shapes", 3000, 90000, shapes),
        fam("sparklines", 3000, 90000, sparklines),
        fam("tables", 3000, 90000, tables),
        fam("conditions", 5000, 150000, conditions),
        fam("validations", 4000, 120000, validations),
        fam("settings", 4000, 120000, settings),
        fam("lines", 2500, 75000, lines),
        fam("filters", 2500, 75000, filters),
        fam("names", 2500, 75000, names),
        fam("defined", 2000, 60000, defined),
        fam("formats", 2000, 60000, formats),
        fam("merges", 2000, 60000, merges),
        fam("histories", 1500, 45000, histories),
        fam("links", 3000, 90000, links),
        fam("properties", 3000, 90000, properties),
        fam("notes", 2500, 75000, notes),
        fam("sheets", 2500, 75000, sheets),
        fam("protect", 2500, 75000, protect),
        fam("projects", 1500, 45000, projects),
        fam("cells", 2000, 60000, cells),
        fam("drawings", 1500, 45000, drawings),
    ];
    Prop {
        id: "C38",
        rule: "at least one saved package was judged",
        level: "checked with generated workbooks against a written grammar",
        assumptions: &["the grammar in kit/src/grammar.txt states what ECMA-376 and the published extensions allow; the theme is judged by C33"],
        families,
        known: vec![],
    }
}
