//! C05: saving is repeatable and does not disturb the workbook.
use crate::kitchen::*;
use crate::util::*;

fn pkg(b: &[u8]) -> R<Pkg> {
    Pkg::open(b)
}

/// The same calls give the same parts, and a second save the same file.
fn repeat(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 40);
    let (mut k, plan) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let a = must_save(&mut k, c)?;
    let again = must_save(&mut k, c)?;
    if a != again {
        same_parts(&pkg(&a)?, &pkg(&again)?, "a second save")?;
    }
    ensure!(a == again, "content", "a second save gives other bytes with the same parts");
    let mut k2 = build(&plan, |_, _, _| Ok(()))?;
    let b = must_save(&mut k2, c)?;
    same_parts(&pkg(&a)?, &pkg(&b)?, "the same calls")?;
    labels(&k, c);
    Ok(())
}
fn must_save(k: &mut K, c: &mut Ctx) -> R<Vec<u8>> {
    match try_save(&mut k.wb, c)? {
        Ok(b) => Ok(b),
        Err(e) => Err(Fail { sig: "save-error".into(), msg: format!("saving failed: {e}") }),
    }
}
fn labels(k: &K, c: &mut Ctx) {
    for x in &k.kinds {
        c.label(x);
    }
    if k.kinds.len() >= 3 {
        c.hit();
    }
}

/// Saves in between change nothing.
fn between(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(2, 30);
    let every = s.u32(1, 8) as usize;
    let (mut k, plan) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let a = must_save(&mut k, c)?;
    let mut saves = 0;
    let mut c2 = Ctx::default();
    let skew = s.idx(every);
    let mut k2 = build(&plan, |i, k, _| {
        if i % every == skew {
            saves += 1;
            must_save(k, &mut c2)?;
        }
        Ok(())
    })?;
    c.d(|| format!("saved after every {every} calls from {skew}"));
    c.evals += saves;
    let b = must_save(&mut k2, c)?;
    same_content(&Book::open(&a)?, &Book::open(&b)?, "saved in between")?;
    labels(&k, c);
    Ok(())
}

/// A save that fails and is tried again once the cause is gone.
fn retried(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 25);
    let at = s.idx(n);
    let cause = s.below(3);
    let (mut k, plan) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let mend = |k: &mut K, break_it: bool, c: &mut Ctx| -> R {
        let ghost = "Ghost";
        match cause {
            0 => {
                // A chart of a sheet which comes later.
                let ws = must("sheet", k.wb.worksheet_from_index(0))?;
                let mut ch = Chart::new(ChartType::Column);
                ch.add_series().set_values((ghost, 0, 0, 4, 0)).set_name((ghost, 0, 1));
                must("insert_chart", ws.insert_chart(20, 1, &ch).map(|_| ()))?;
            }
            1 => {
                // A name used twice.
                let ws = k.wb.add_worksheet();
                let n = k.names[0].to_uppercase();
                must("set_name", ws.set_name(if break_it { n.as_str() } else { ghost }).map(|_| ()))?;
            }
            _ => {
                k.wb.add_chartsheet();
            }
        }
        if break_it {
            let r = try_save(&mut k.wb, c)?;
            ensure!(r.is_err(), "unreported", "a workbook that cannot be saved (cause {cause}) was saved");
            try_save(&mut k.wb, c)?.err();
        }
        match cause {
            0 => {
                let ws = k.wb.add_worksheet();
                must("set_name", ws.set_name(ghost).map(|_| ()))?;
                for i in 0..5 {
                    must("write", ws.write(i, 0, i).map(|_| ()))?;
                }
            }
            1 => {
                let n = k.wb.worksheets().len();
                let ws = must("sheet", k.wb.worksheet_from_index(n - 1))?;
                must("set_name", ws.set_name(ghost).map(|_| ()))?;
            }
            _ => {
                let n = k.wb.worksheets().len();
                let first = k.names[0].clone();
                let ws = must("sheet", k.wb.worksheet_from_index(n - 1))?;
                let mut ch = Chart::new(ChartType::Line);
                ch.add_series().set_values((first.as_str(), 0, 0, 3, 0));
                must("insert_chart", ws.insert_chart(0, 0, &ch).map(|_| ()))?;
            }
        }
        Ok(())
    };
    let _ = &mut k;
    let mut out = vec![];
    for broken in [false, true] {
        let mut c2 = Ctx::default();
        // Sheets added afterwards would change the number of the new one, so
        // the plan is used up to a point, and then after the repair.
        let mut kk = build(&Plan { init: plan.init.clone(), ops: plan.ops[..at].to_vec() }, |_, _, _| Ok(()))?;
        mend(&mut kk, broken, &mut c2)?;
        for t in &plan.ops[at..] {
            kk.op(&mut Src::replay(t), &mut c2)?;
        }
        c.evals += c2.evals;
        out.push(Book::open(&must_save(&mut kk, c)?)?);
    }
    c.label(["missing sheet", "name reused", "empty chart sheet"][cause as usize]);
    c.hit();
    same_content(&out[0], &out[1], "after a failed save")
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "the workbook has at least three kinds of content, or a save failed and was tried again",
        level: "checked on generated histories",
        assumptions: &["files saved with and without saves in between are compared with style and text indices resolved: unused table entries may stay"],
        families: vec![fam("repeat", 500, 20_000, repeat), fam("between", 500, 25_000, between), fam("retried", 250, 10_000, retried)],
        known: vec![],
    }
}
