//! Runs the families of one property over a fixed number of generated cases,
//! shrinks the first failure, writes replay and evidence files.
use crate::src::{hash_str, mix, Src};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: Vec<String>,
    /// Number of executions of the code under test in this case.
    pub evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
    /// Records a line of the case's description (evaluated only on demand).
    pub fn d(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc.push(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), Fail>;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// An exhaustive family enumerates: the case index is the first draw.
    pub enumerated: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
    /// Deterministic reproductions of recorded findings: (signature, case).
    pub known: Vec<(&'static str, CaseFn)>,
}

pub fn fam(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Family {
    Family { name, quick, thorough, run, enumerated: false }
}
pub fn famx(name: &'static str, n: u64, run: CaseFn) -> Family {
    Family { name, quick: n, thorough: n, run, enumerated: true }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs a closure of calls into the crate under test, turning a panic into a
/// failure of the case.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Fail { sig: "panic".to_string(), msg: format!("{what} panicked at {loc}: {msg}") })
        }
    }
}

fn run_case(f: &Family, src: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // A panic inside the harness itself would be a harness bug; those
            // files live in checks/ or kit/ and are reported as an error.
            Err(Fail { sig: "panic".to_string(), msg: format!("panicked at {loc}: {msg}") })
        }
    }
}

fn src_for(f: &Family, seed: u64, prop: &str, i: u64) -> Src {
    if f.enumerated {
        let v = vec![i];
        Src::replay(&v)
    } else {
        Src::random(mix(mix(seed, hash_str(prop)), mix(hash_str(f.name), i)))
    }
}

struct Found {
    fam: usize,
    index: u64,
    tape: Vec<u64>,
    fail: Fail,
}

fn shrink(f: &Family, tape: Vec<u64>, sig: &str) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut try_tape = |t: &[u64]| -> Option<(Vec<u64>, Fail)> {
        if evals > 6000 || t0.elapsed().as_secs() > 45 {
            return None;
        }
        evals += 1;
        let mut s = Src::replay(t);
        let mut c = Ctx::default();
        match run_case(f, &mut s, &mut c) {
            Err(e) if e.sig == sig => {
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, e))
            }
            _ => None,
        }
    };
    let (mut best, mut fail) = match try_tape(&tape) {
        Some(x) => x,
        None => return (tape, Fail { sig: sig.into(), msg: "(not reproduced from the tape)".into() }, evals),
    };
    if f.enumerated {
        return (best, fail, evals);
    }
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        let mut k = 64usize;
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if lo + k <= best.len() {
                    let mut t = best.clone();
                    t.drain(lo..lo + k);
                    if let Some((r, e)) = try_tape(&t) {
                        if simpler(&r, &best) {
                            best = r;
                            fail = e;
                        }
                    }
                }
                i = i.min(best.len());
                i = i.saturating_sub(k.max(1));
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut t = best.clone();
                t[i] = 0;
                if let Some((r, e)) = try_tape(&t) {
                    if simpler(&r, &best) {
                        best = r;
                        fail = e;
                        i += 1;
                        continue;
                    }
                }
                let (mut lo, mut hi) = (0u64, *best.get(i).unwrap_or(&0));
                while lo + 1 < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut t = best.clone();
                    if i >= t.len() {
                        break;
                    }
                    t[i] = mid;
                    match try_tape(&t) {
                        Some((r, e)) if simpler(&r, &best) => {
                            best = r;
                            fail = e;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, fail, evals)
}

pub fn describe(f: &Family, tape: &[u64]) -> (Vec<String>, Result<(), Fail>) {
    let mut s = Src::replay(tape);
    let mut c = Ctx { want_desc: true, ..Default::default() };
    let r = run_case(f, &mut s, &mut c);
    (c.desc, r)
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

fn known_open(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("open: ") {
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a == format!("property={id}") {
                v.push((b.trim_start_matches("finding=").to_string(), c.to_string()));
            }
        }
    }
    v
}

fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit_s));
        eprintln!("watchdog: no verdict after {limit_s} s (inconclusive)");
        std::process::exit(3);
    });
}

/// Entry point of a check. Returns the process exit code.
pub fn main_with(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "replay" {
        return replay(&props, &args[2]);
    }
    if args.len() < 2 {
        eprintln!("usage: check <property> | replay <file>");
        return 2;
    }
    let id = args[1].as_str();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let only = args.get(2).cloned();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    install_hook();
    watchdog(if tier == "quick" { 840 } else { 6 * 3600 });
    let t0 = Instant::now();
    let open = known_open(id);

    let mut known_hits = 0u64;
    for (sig, what) in &open {
        match prop.known.iter().find(|k| k.0 == sig) {
            Some((_, f)) => {
                let fam = Family { name: "known", quick: 1, thorough: 1, run: *f, enumerated: false };
                let mut c = Ctx::default();
                if let Err(e) = run_case(&fam, &mut Src::replay(&[]), &mut c) {
                    println!("KNOWN-FINDING: property={id} {sig}: {what} [{}]", e.msg.replace('\n', " "));
                    known_hits += 1;
                } else {
                    println!("note: recorded finding {sig} no longer reproduces");
                }
            }
            None => {
                eprintln!("known finding {sig} has no reproduction");
                return 2;
            }
        }
    }

    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(8));
    let mut found: Option<Found> = None;
    let mut evaluations = 0u64;
    let mut execs = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_family = serde_json::Map::new();
    let mut samples: Vec<Value> = vec![];
    for (fi, f) in prop.families.iter().enumerate() {
        if let Some(o) = &only {
            if f.name != o {
                continue;
            }
        }
        let ft = Instant::now();
        let n = if f.enumerated { f.quick } else { (((if tier == "quick" { f.quick } else { f.thorough }) as f64) * scale).ceil() as u64 };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let res: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let nontriv: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let labs: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let exs = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut local: BTreeMap<String, u64> = BTreeMap::new();
                        let mut nt: Vec<u64> = vec![];
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let mut s = src_for(f, seed, id, i);
                            let mut c = Ctx::default();
                            let r = run_case(f, &mut s, &mut c);
                            done.fetch_add(1, Ordering::Relaxed);
                            exs.fetch_add(c.evals.max(1), Ordering::Relaxed);
                            if c.nontrivial {
                                let mut h = 0u64;
                                for v in &s.rec {
                                    h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
                                }
                                nt.push(h);
                            }
                            for (k, v) in c.labels {
                                *local.entry(k).or_insert(0) += v;
                            }
                            if let Err(e) = r {
                                res.lock().unwrap().push(Found { fam: fi, index: i, tape: s.rec.clone(), fail: e });
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let mut l = labs.lock().unwrap();
                        for (k, v) in local {
                            *l.entry(k).or_insert(0) += v;
                        }
                        nontriv.lock().unwrap().extend(nt);
                    })
                    .unwrap();
            }
        });
        let d = done.load(Ordering::Relaxed) as u64;
        evaluations += d;
        execs += exs.load(Ordering::Relaxed);
        let nts = nontriv.into_inner().unwrap();
        per_family.insert(f.name.into(), json!({"cases": d, "distinct_nontrivial": nts.len(), "enumerated": f.enumerated, "wall_s": (ft.elapsed().as_millis() as f64) / 1000.0}));
        for h in nts {
            distinct.insert(mix(h, hash_str(f.name)));
        }
        for (k, v) in labs.into_inner().unwrap() {
            *labels.entry(format!("{}: {k}", f.name)).or_insert(0) += v;
        }
        let mut fs = res.into_inner().unwrap();
        fs.sort_by_key(|x| x.index);
        if let Some(x) = fs.into_iter().next() {
            found = Some(x);
            break;
        }
        // One sample per family, generated from the run's own seed.
        for i in [n / 2] {
            let mut s = src_for(f, seed, id, i);
            let mut c = Ctx { want_desc: true, ..Default::default() };
            let _ = run_case(f, &mut s, &mut c);
            let mut lines: Vec<String> = c.desc.iter().take(12).map(|x| x.chars().take(400).collect()).collect();
            if c.desc.len() > 12 {
                lines.push(format!("... {} more", c.desc.len() - 12));
            }
            if samples.len() < 24 {
                samples.push(json!({"family": f.name, "case": i, "is": lines, "choices": s.rec.len()}));
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        let fm = &prop.families[f.fam];
        let (tape, fail, ev) = shrink(fm, f.tape.clone(), &f.fail.sig);
        let (tape, fail) = if fail.msg.starts_with("(not reproduced") { (f.tape.clone(), f.fail.clone()) } else { (tape, fail) };
        let (desc, _) = describe(fm, &tape);
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{}.json", fm.name));
        let body = json!({"property": id, "family": fm.name, "seed": seed, "case": f.index, "signature": fail.sig, "message": fail.msg,
            "original_message": f.fail.msg, "tape": tape, "shrink_evaluations": ev, "case_is": desc});
        let mut fh = std::fs::File::create(&path).unwrap();
        writeln!(fh, "{}", serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{id}/{}: {} [{}]", fm.name, fail.msg, fail.sig);
        for l in desc.iter().take(30) {
            println!("  | {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        violations = 1;
        code = 1;
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed as i64, "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "saves_or_calls_executed": execs,
            "families": per_family,
            "classes": labels,
            "known_findings_reproduced": known_hits,
        },
        "assumptions": prop.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    }
    println!("{id}: {} cases, {} distinct non-trivial, {:.1} s, {}", evaluations, distinct.len(), t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "VIOLATED" });
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["families"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
    }
    code
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("");
    let fname = v["family"].as_str().unwrap_or("");
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    install_hook();
    let Some(f) = props.iter().find(|p| p.id == id).and_then(|p| p.families.iter().find(|f| f.name == fname)) else {
        eprintln!("no such family {id}/{fname}");
        return 2;
    };
    let (desc, r) = describe(f, &tape);
    for l in desc {
        println!("  | {l}");
    }
    match r {
        Ok(()) => {
            println!("{id}/{fname}: held on the replayed case");
            0
        }
        Err(e) => {
            println!("{id}/{fname}: {} [{}]", e.msg, e.sig);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
