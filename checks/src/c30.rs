//! C30: a failing destination is reported, never hidden.
use crate::kitchen::*;
use crate::util::*;
use std::io::{Cursor, Error, ErrorKind, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// An error of the given kind, from now on.
    Hard(ErrorKind),
    /// No more bytes are taken (a write of 0 bytes).
    Full,
    /// One error, then the destination works again.
    Once(ErrorKind),
}

/// A destination with a plan of failure. Bytes that were taken stay.
struct Dest {
    c: Cursor<Vec<u8>>,
    ops: u64,
    /// Operation number of the failure.
    at: u64,
    how: How,
    /// Bytes accepted per write.
    chunk: usize,
    /// Interruptions to report before each write.
    stutter: bool,
    stuttered: bool,
    failed: bool,
    /// Fails when this many bytes have been stored.
    room: Option<usize>,
}

impl Dest {
    fn step(&mut self) -> Result<bool, Error> {
        self.ops += 1;
        let hit = match self.how {
            How::Once(_) => self.ops == self.at,
            _ => self.ops >= self.at,
        };
        if hit {
            self.failed = true;
            match self.how {
                How::Hard(k) | How::Once(k) => return Err(Error::new(k, "planned failure")),
                How::Full => return Ok(true),
            }
        }
        Ok(false)
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.stutter && !self.stuttered {
            self.stuttered = true;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.stuttered = false;
        if self.step()? {
            return Ok(0);
        }
        let mut n = b.len().min(self.chunk);
        if let Some(room) = self.room {
            let left = room.saturating_sub(self.c.position() as usize);
            if left == 0 && n > 0 {
                self.failed = true;
                return Err(Error::new(ErrorKind::StorageFull, "no space left"));
            }
            n = n.min(left);
        }
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.step()? {
            return Err(Error::new(ErrorKind::Other, "cannot flush"));
        }
        Ok(())
    }
}
impl Seek for Dest {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.step()? {
            return Err(Error::new(ErrorKind::Other, "cannot seek"));
        }
        self.c.seek(p)
    }
}

fn same_file(got: &[u8], want: &[u8], what: &str) -> R {
    if got != want {
        same_parts(&Pkg::open(want)?, &Pkg::open(got)?, &format!("{what}: the workbook saves to another file afterwards"))?;
        fail!("disturbed", "{what}: the workbook saves to another file afterwards");
    }
    Ok(())
}

fn clean() -> Dest {
    Dest { c: Cursor::new(vec![]), ops: 0, at: u64::MAX, how: How::Full, chunk: usize::MAX, stutter: false, stuttered: false, failed: false, room: None }
}

fn writers(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(0, 14);
    let (mut k, _) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let want = match try_save(&mut k.wb, c)? {
        Ok(b) => b,
        Err(e) => fail!("save-error", "saving failed: {e}"),
    };
    // How many operations a save takes.
    let mut d = clean();
    let r = guard("save", || k.wb.save_to_writer(&mut d))?;
    ensure!(r.is_ok(), "save-error", "saving to a writer failed: {:?}", r.err());
    ensure!(*d.c.get_ref() == want, "content", "saving to a writer and to a buffer give different files");
    let total = d.ops;
    for _ in 0..s.u32(1, 12) {
        let mut d = clean();
        let kind = *s.pick(&[ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut]);
        d.at = if s.chance(1, 3) { 1 + total - s.below(total.min(12)) } else { 1 + s.below(total) };
        match s.below(6) {
            0 | 1 => d.how = How::Hard(kind),
            2 => d.how = How::Full,
            3 => d.how = How::Once(kind),
            4 => {
                d.at = u64::MAX;
                let n = want.len() as u64;
                d.room = Some(if s.chance(1, 3) { (n - 1 - s.below(n.min(200))) as usize } else { s.below(n + 20) as usize });
            }
            _ => d.at = u64::MAX,
        }
        if s.chance(1, 3) {
            d.chunk = *s.pick(&[1usize, 2, 7, 100, 4096]);
        }
        d.stutter = s.chance(1, 4);
        c.d(|| format!("failure {:?} at operation {} of {total}, room {:?} of {}, chunks of {}, interruptions {}", d.how, d.at, d.room, want.len(), d.chunk, d.stutter));
        c.evals += 1;
        let r = guard("save_to_writer", || k.wb.save_to_writer(&mut d))?;
        let what = format!("failure {:?} at operation {} of {total}, room {:?} of {}, chunks of {}, interruptions {}", d.how, d.at, d.room, want.len(), d.chunk, d.stutter);
        match r {
            Ok(()) => {
                ensure!(*d.c.get_ref() == want, "hidden", "{what}: the save reports success, but the destination holds {} bytes which are not the file", d.c.get_ref().len());
                c.label(if d.failed { "failed and recovered" } else { "success" });
            }
            Err(e) => {
                ensure!(d.failed || d.stutter, "false-error", "{what}: the save reports {e} though the destination works");
                c.hit();
                c.label("reported");
            }
        }
        // Afterwards.
        if s.bool() {
            match try_save(&mut k.wb, c)? {
                Ok(b) => same_file(&b, &want, &what)?,
                Err(e) => fail!("disturbed", "{what}: the workbook cannot be saved afterwards: {e}"),
            }
        }
    }
    match try_save(&mut k.wb, c)? {
        Ok(b) => same_file(&b, &want, "after failed saves")?,
        Err(e) => fail!("disturbed", "the workbook cannot be saved after failed saves: {e}"),
    }
    Ok(())
}

/// Every single operation of a save fails in turn.
fn each(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(0, 6);
    let (mut k, _) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let want = match try_save(&mut k.wb, c)? {
        Ok(b) => b,
        Err(e) => fail!("save-error", "saving failed: {e}"),
    };
    let mut d = clean();
    guard("save", || k.wb.save_to_writer(&mut d))?.ok();
    let total = d.ops;
    let once = s.bool();
    let step = 1 + total / 400;
    let mut at = 1;
    while at <= total {
        let mut d = clean();
        d.at = at;
        d.how = if once { How::Once(ErrorKind::Other) } else { How::Hard(ErrorKind::Other) };
        c.evals += 1;
        let r = guard("save_to_writer", || k.wb.save_to_writer(&mut d))?;
        if r.is_ok() {
            ensure!(*d.c.get_ref() == want, "hidden", "{:?} at operation {at} of {total}: the save reports success for an incomplete file", d.how);
        }
        at += step;
    }
    c.hit();
    match try_save(&mut k.wb, c)? {
        Ok(b) => same_file(&b, &want, "after failed saves")?,
        Err(e) => fail!("disturbed", "the workbook cannot be saved after failed saves: {e}"),
    }
    Ok(())
}

/// Sheets of the memory saving modes, whose rows pass through a temporary file.
fn streams(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 3);
    let modes: Vec<u64> = (0..n).map(|_| s.below(3)).collect();
    // Batches of rows, each followed by saves; the twin only has the good saves.
    let batches: Vec<Vec<(usize, u32, u32, u64)>> = (0..s.small(1, 4)).map(|_| (0..s.small(0, 6)).map(|_| (s.idx(n), s.u32(1, 300), s.u32(1, 20), s.any64())).collect()).collect();
    let build = || {
        let mut wb = Workbook::new();
        wb.set_properties(&DocProperties::new().set_creation_datetime(&ExcelDateTime::parse_from_str("2024-05-06T07:08:09").unwrap()));
        for m in &modes {
            match m {
                0 => wb.add_worksheet_with_constant_memory(),
                1 => wb.add_worksheet_with_low_memory(),
                _ => wb.add_worksheet(),
            };
        }
        wb
    };
    let (mut wb, mut twin) = (build(), build());
    let mut next = vec![0u32; n];
    c.d(|| format!("modes {modes:?} batches {batches:?}"));
    for b in &batches {
        for (i, rows, cols, seed) in b {
            for wb in [&mut wb, &mut twin] {
                let mut x = Src::random(*seed);
                let ws = must("sheet", wb.worksheet_from_index(*i))?;
                for r in 0..*rows {
                    for k in 0..*cols as u16 {
                        if x.bool() {
                            must("write_number", ws.write_number(next[*i] + r, k, x.u32(0, 999_999)).map(|_| ()))?;
                        } else {
                            must("write_string", ws.write_string(next[*i] + r, k, gen::word(&mut x, 12) + "x").map(|_| ()))?;
                        }
                    }
                }
            }
            next[*i] += rows + 1;
        }
        // A good save tells the number of operations and is needed by the twin
        // as well, as rows can't go to saved ones.
        let mut d = clean();
        let r = guard("save", || twin.save_to_writer(&mut d))?;
        ensure!(r.is_ok(), "save-error", "saving to a writer failed: {:?}", r.err());
        let (total, want) = (d.ops, d.c.into_inner());
        for _ in 0..s.u32(1, 6) {
            let mut d = clean();
            d.at = 1 + s.below(total);
            let kind = *s.pick(&[ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::BrokenPipe]);
            d.how = match s.below(3) {
                0 => How::Hard(kind),
                1 => How::Full,
                _ => How::Once(kind),
            };
            if s.chance(1, 3) {
                d.chunk = *s.pick(&[7usize, 100, 4096]);
            }
            let what = format!("failure {:?} at operation {} of {total}, chunks of {}", d.how, d.at, d.chunk);
            c.d(|| what.clone());
            c.evals += 1;
            match guard("save_to_writer", || wb.save_to_writer(&mut d))? {
                Ok(()) => ensure!(*d.c.get_ref() == want, "hidden", "{what}: the save reports success, but the destination holds {} bytes which are not the file", d.c.get_ref().len()),
                Err(e) => {
                    ensure!(d.failed, "false-error", "{what}: the save reports {e} though the destination works");
                    c.hit();
                }
            }
        }
        match try_save(&mut wb, c)? {
            Ok(b) => same_file(&b, &want, "after failed saves")?,
            Err(e) => fail!("disturbed", "the workbook cannot be saved after failed saves: {e}"),
        }
    }
    Ok(())
}

/// Saving to a path that cannot be written.
fn paths(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(0, 6);
    let (mut k, _) = generate(s, c, n, |_, _, _, _| Ok(()))?;
    let want = match try_save(&mut k.wb, c)? {
        Ok(b) => b,
        Err(e) => fail!("save-error", "saving failed: {e}"),
    };
    let dir = std::env::temp_dir().join(format!("c30_{}_{:x}", std::process::id(), s.any64() ^ c as *const _ as u64));
    std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let bad = match s.below(4) {
        0 => dir.clone(),
        1 => dir.join("none").join("a.xlsx"),
        2 => std::path::PathBuf::from("/dev/full"),
        _ => dir.join("x".repeat(300)),
    };
    c.d(|| format!("{bad:?}"));
    let r = guard("save", || k.wb.save(&bad).map_err(|e| e.to_string()));
    let good = dir.join("ok.xlsx");
    // A longer file of the same name is replaced.
    if s.bool() {
        std::fs::write(&good, vec![b'x'; want.len() * 2]).ok();
    }
    let r2 = guard("save", || k.wb.save(&good).map_err(|e| e.to_string()));
    let bytes = std::fs::read(&good);
    std::fs::remove_dir_all(&dir).ok();
    ensure!(r?.is_err(), "hidden", "saving to {bad:?} reports success");
    ensure!(r2?.is_ok(), "disturbed", "saving to a good path fails after saving to a bad one");
    ensure!(bytes.ok().as_deref() == Some(want.as_slice()), "content", "the file saved to a path is not the one saved to a buffer");
    c.evals += 2;
    c.hit();
    Ok(())
}

/// The workbook of `temporary`: rows of memory saving sheets.
fn rows(seed: u64, dir: Option<&std::path::Path>) -> Result<Vec<u8>, String> {
    let mut x = Src::random(seed);
    let mut wb = Workbook::new();
    wb.set_properties(&DocProperties::new().set_creation_datetime(&ExcelDateTime::parse_from_str("2024-05-06T07:08:09").unwrap()));
    if let Some(d) = dir {
        wb.set_tempdir(d).map_err(|e| e.to_string())?;
    }
    let n = x.small(1, 3);
    for _ in 0..n {
        if x.bool() { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet_with_low_memory() };
    }
    let (rows, cols) = (x.u32(1, 700), x.u32(1, 15) as u16);
    for r in 0..rows {
        for i in 0..n {
            let ws = wb.worksheet_from_index(i).map_err(|e| e.to_string())?;
            for k in 0..cols {
                if x.bool() { ws.write_number(r, k, x.u32(0, 999_999)) } else { ws.write_string(r, k, gen::word(&mut x, 12) + "x") }.map_err(|e| e.to_string())?;
            }
        }
    }
    let a = wb.save_to_buffer();
    let b = wb.save_to_buffer();
    match (a, b) {
        (Ok(a), Ok(b)) if a == b => Ok(a),
        (Ok(_), Ok(_)) => Ok(b"two saves differ".to_vec()),
        // The first one failed, so the temporary file is incomplete for good or not.
        (Err(_), Ok(b)) => Ok(b),
        (Ok(a), Err(_)) => Ok(a),
        (Err(e), Err(_)) => Err(e.to_string()),
    }
}

/// The process whose temporary files can't grow.
pub fn limited() {
    let seed = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| rows(seed, None));
    let mut o = std::io::stdout();
    match r {
        Ok(Ok(b)) => o.write_all(b"O").and_then(|_| o.write_all(&b)),
        Ok(Err(_)) => o.write_all(b"E"),
        Err(_) => o.write_all(b"P"),
    }
    .and_then(|_| o.flush())
    .ok();
}

/// Temporary files that can't grow (a full disk), or whose place is wrong.
fn temporary(s: &mut Src, c: &mut Ctx) -> R {
    let seed = s.any64();
    let blocks = s.small(0, 400);
    c.d(|| format!("seed {seed} files of at most {blocks} blocks"));
    let broken = |e: String| Fail { sig: "harness".into(), msg: e };
    let dir = std::env::temp_dir().join(format!("c30_{}_{:x}", std::process::id(), seed ^ c as *const _ as u64));
    std::fs::create_dir_all(dir.join("t")).map_err(|e| broken(e.to_string()))?;
    std::fs::write(dir.join("f"), b"x").ok();
    let want = guard("memory saving sheets", || rows(seed, None))?;
    let placed = guard("memory saving sheets", || rows(seed, Some(&dir.join("t"))));
    let left = std::fs::read_dir(dir.join("t")).map(|l| l.count()).unwrap_or(0);
    let wrong = guard("set_tempdir", || {
        let mut wb = Workbook::new();
        let bad = wb.set_tempdir(dir.join("f")).is_err() && wb.set_tempdir(dir.join("none").join("x")).is_err();
        let ok = wb.add_worksheet_with_constant_memory().write_number(0, 0, 1).is_ok();
        (bad, ok && wb.save_to_buffer().is_ok())
    });
    std::fs::remove_dir_all(&dir).ok();
    let want = want.map_err(|e| Fail { sig: "save-error".into(), msg: format!("memory saving sheets can't be saved: {e}") })?;
    ensure!(want != b"two saves differ", "disturbed", "two saves of memory saving sheets differ");
    ensure!(placed? == Ok(want.clone()), "tempdir", "the file is another one with a directory for temporary files");
    ensure!(left == 0, "tempdir", "{left} temporary files were left behind");
    let (bad, ok) = wrong?;
    ensure!(bad, "hidden", "a missing or wrong directory for temporary files is not reported");
    ensure!(ok, "disturbed", "memory saving sheets fail after a refused directory for temporary files");
    let exe = std::env::current_exe().map_err(|e| broken(e.to_string()))?;
    let out = std::process::Command::new("sh").arg("-c").arg(format!("trap '' XFSZ; ulimit -f {blocks}; exec \"$0\" limited {seed}")).arg(exe).stderr(std::process::Stdio::null()).output().map_err(|e| broken(e.to_string()))?;
    c.evals += 3;
    match out.stdout.first() {
        Some(b'O') => {
            ensure!(out.stdout[1..] == want, "hidden", "the temporary files can't grow beyond {blocks} blocks, but the save reports success for a file of {} bytes which is not the one of {} bytes expected", out.stdout.len() - 1, want.len());
            c.label("temporary files fit");
        }
        Some(b'E') => {
            c.hit();
            c.label("temporary file reported");
        }
        Some(b'P') => {
            c.hit();
            c.label("temporary file panics");
        }
        _ => fail!("harness", "the process with limited files gave no answer: {:?}", out.status),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "at least one save met a failing destination",
        level: "checked with generated workbooks and injected failures",
        assumptions: &["destinations behave as std::io::Write and Seek demand; a destination that loses bytes it accepted is not considered"],
        families: vec![fam("writers", 300, 20_000, writers), fam("each", 40, 2000, each), fam("streams", 300, 10_000, streams), fam("paths", 60, 2000, paths), fam("temporary", 80, 3000, temporary)],
        known: vec![],
    }
}
