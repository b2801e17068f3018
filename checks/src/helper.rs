//! Child processes of these checks that work on tapes, one for each thread and
//! kind of work.
use crate::util::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Proc { child: Child, tx: ChildStdin, rx: ChildStdout }
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static PROCS: RefCell<HashMap<&'static str, Proc>> = RefCell::new(HashMap::new()));

fn put(w: &mut impl Write, v: &[u64]) -> std::io::Result<()> {
    let mut b = (v.len() as u64).to_le_bytes().to_vec();
    for x in v { b.extend(x.to_le_bytes()); }
    w.write_all(&b)
}
fn word(r: &mut impl Read) -> std::io::Result<u64> {
    let mut b = [0; 8];
    r.read_exact(&mut b)?;
    Ok(u64::from_le_bytes(b))
}
fn take(r: &mut impl Read) -> std::io::Result<Vec<u64>> {
    let n = word(r)?;
    (0..n).map(|_| word(r)).collect()
}

/// What a process makes of the tapes: files, or why there is none.
pub type Made = Vec<Result<Vec<u8>, String>>;

/// `twin`: in the other build; anything else: in this one.
pub fn ask(what: &'static str, kind: u64, tapes: &[Vec<u64>]) -> R<Made> {
    PROCS.with(|t| {
        let mut t = t.borrow_mut();
        let mut io = || -> std::io::Result<Made> {
            if !t.contains_key(what) {
                let exe = if what == "twin" { std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("target/twin/debug/checks") } else { std::env::current_exe()? };
                let mut child = Command::new(exe).arg(what).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
                let (tx, rx) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
                t.insert(what, Proc { child, tx, rx });
            }
            let w = t.get_mut(what).unwrap();
            put(&mut w.tx, &[kind, tapes.len() as u64])?;
            for x in tapes { put(&mut w.tx, x)?; }
            w.tx.flush()?;
            let n = word(&mut w.rx)?;
            let mut out = vec![];
            for _ in 0..n {
                let ok = word(&mut w.rx)?;
                let mut b = vec![0; word(&mut w.rx)? as usize];
                w.rx.read_exact(&mut b)?;
                out.push(if ok == 1 { Ok(b) } else { Err(String::from_utf8_lossy(&b).to_string()) });
            }
            Ok(out)
        };
        match io() {
            Ok(v) => Ok(v),
            Err(e) => {
                t.remove(what);
                fail!("process", "the {what} process gave no answer: {e}")
            }
        }
    })
}

/// The main loop of such a process.
pub fn serve(make: impl Fn(u64, &[Vec<u64>]) -> Made) {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    while let Ok(head) = take(&mut i) {
        let tapes: Vec<Vec<u64>> = (0..head[1]).map(|_| take(&mut i).unwrap()).collect();
        let made = make(head[0], &tapes);
        let mut out = vec![];
        out.extend((made.len() as u64).to_le_bytes());
        for m in made {
            let (ok, b) = match m { Ok(b) => (1u64, b), Err(e) => (0, e.into_bytes()) };
            out.extend(ok.to_le_bytes());
            out.extend((b.len() as u64).to_le_bytes());
            out.extend(b);
        }
        if o.write_all(&out).and_then(|()| o.flush()).is_err() { return; }
    }
}
