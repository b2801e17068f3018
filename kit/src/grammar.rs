//! Judges stored parts against the grammar of the file format in grammar.txt.
use crate::opc::Pkg;
use crate::xml::{Elem, Node};
use crate::{ensure, fail, R};
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

#[derive(Debug)]
enum M {
    El { name: String, ty: String, min: usize, max: usize },
    Seq(Vec<M>),
    Choice(Vec<M>, bool),
    All(Vec<M>),
    Any(Vec<M>),
}
#[derive(Debug)]
struct Attr {
    req: bool,
    kind: String,
}
#[derive(Debug)]
struct Type {
    model: Vec<M>,
    text: Option<String>,
    attrs: HashMap<String, Attr>,
}
struct Part {
    pat: String,
    root: String,
    ty: String,
    ns: String,
}
struct Grammar {
    kinds: HashMap<String, String>,
    types: HashMap<String, Type>,
    parts: Vec<Part>,
    skip: Vec<String>,
    ns: HashMap<String, Vec<String>>,
    ext: HashMap<String, String>,
}

fn tokens(s: &str) -> Vec<String> {
    let (mut out, mut cur, mut brace) = (vec![], String::new(), 0);
    for c in s.chars() {
        match c {
            '{' | '[' => brace += 1,
            '}' | ']' => brace -= 1,
            _ => {}
        }
        if brace == 0 && (c == ' ' || c == '(' || c == ')' || c == '|') {
            if c == '(' && (cur == "any" || cur == "all") {
                cur.push('(');
                out.push(std::mem::take(&mut cur));
                continue;
            }
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if c != ' ' {
                cur.push(c);
                // A repetition mark right after the parenthesis belongs to it.
                if c != ')' {
                    out.push(std::mem::take(&mut cur));
                }
            }
            continue;
        }
        if cur == ")" && c != '?' && c != '*' && c != '+' {
            out.push(std::mem::take(&mut cur));
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn element(tok: &str) -> M {
    let (mut body, mut min, mut max) = (tok, 1, 1);
    if let Some(b) = tok.strip_suffix('?') {
        (body, min, max) = (b, 0, 1);
    } else if let Some(b) = tok.strip_suffix('*') {
        (body, min, max) = (b, 0, usize::MAX);
    } else if let Some(b) = tok.strip_suffix('+') {
        (body, min, max) = (b, 1, usize::MAX);
    } else if let Some((b, r)) = tok.strip_suffix('}').and_then(|t| t.split_once('{')) {
        let (lo, hi) = r.split_once(',').unwrap();
        (body, min, max) = (b, lo.parse().unwrap(), if hi.is_empty() { usize::MAX } else { hi.parse().unwrap() });
    }
    let (name, ty) = body.split_once('=').unwrap_or((body, body));
    M::El { name: name.into(), ty: ty.into(), min, max }
}

fn sequence(t: &[String], i: &mut usize, groups: &HashMap<String, String>) -> Vec<M> {
    let mut v = vec![];
    while *i < t.len() && !t[*i].starts_with(')') && t[*i] != "|" {
        let k = t[*i].clone();
        *i += 1;
        if let Some(g) = k.strip_prefix('&') {
            let tt = tokens(&groups[g]);
            let mut j = 0;
            v.push(M::Seq(sequence(&tt, &mut j, groups)));
        } else if k == "(" || k == "any(" || k == "all(" {
            let mut alts = vec![sequence(t, i, groups)];
            while t[*i] == "|" {
                *i += 1;
                alts.push(sequence(t, i, groups));
            }
            let close = t[*i].clone();
            *i += 1;
            let flat = |alts: Vec<Vec<M>>| alts.into_iter().flatten().collect::<Vec<_>>();
            match k.as_str() {
                "any(" => v.push(M::Any(flat(alts))),
                "all(" => v.push(M::All(flat(alts))),
                _ => v.push(M::Choice(alts.into_iter().map(M::Seq).collect(), close == ")?")),
            }
        } else {
            v.push(element(&k));
        }
    }
    v
}

fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| {
        let src = include_str!("grammar.txt");
        let mut g = Grammar { kinds: HashMap::new(), types: HashMap::new(), parts: vec![], skip: vec![], ns: HashMap::new(), ext: HashMap::new() };
        let mut raw: Vec<(String, String, String)> = vec![];
        for l in src.lines() {
            let l = l.trim_end();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split(' ').collect();
            if let Some(k) = w[0].strip_prefix('%') {
                g.kinds.insert(k.into(), w[1].into());
            } else if w[0] == "part" {
                let (root, ty) = w[2].split_once('=').unwrap_or((w[2], w[2]));
                g.parts.push(Part { pat: w[1].into(), root: root.into(), ty: ty.into(), ns: w[3].into() });
            } else if w[0] == "skip" {
                g.skip.push(w[1].into());
            } else if w[0] == "ns" {
                g.ns.insert(w[1].into(), w[2..].iter().map(|s| s.to_string()).collect());
            } else if w[0] == "extension" {
                g.ext.insert(w[1].into(), w[2].into());
            } else {
                let (name, rest) = l.split_once(" = ").unwrap_or_else(|| panic!("grammar: {l}"));
                let (model, attrs) = rest.split_once(" @ ").unwrap_or((rest, ""));
                raw.push((name.into(), model.into(), attrs.into()));
            }
        }
        let groups: HashMap<String, String> = raw.iter().map(|(n, m, _)| (n.clone(), m.clone())).collect();
        for (n, m, a) in &raw {
            let mut attrs = HashMap::new();
            for t in tokens(a) {
                let (name, kind) = t.split_once('/').unwrap_or((&t, "str"));
                let (nm, req) = name.strip_suffix('!').map_or((name, false), |x| (x, true));
                attrs.insert(nm.to_string(), Attr { req, kind: kind.to_string() });
            }
            let (model, text) = match m.as_str() {
                "-" => (vec![], None),
                t if t.starts_with('#') => (vec![], Some(t[1..].to_string())),
                m => {
                    let t = tokens(m);
                    let mut i = 0;
                    let v = sequence(&t, &mut i, &groups);
                    assert!(i == t.len(), "grammar: {n}: {m}");
                    (v, None)
                }
            };
            assert!(g.types.insert(n.clone(), Type { model, text, attrs }).is_none(), "grammar: {n} twice");
        }
        fn refs(m: &M, out: &mut Vec<String>) {
            match m {
                M::El { ty, .. } => out.push(ty.clone()),
                M::Seq(v) | M::Choice(v, _) | M::All(v) | M::Any(v) => v.iter().for_each(|m| refs(m, out)),
            }
        }
        for (n, t) in &g.types {
            let mut r = vec![];
            t.model.iter().for_each(|m| refs(m, &mut r));
            for x in r {
                assert!(g.types.contains_key(&x), "grammar: {n} refers to {x}");
            }
        }
        for p in &g.parts {
            assert!(g.types.contains_key(&p.ty), "grammar: part {}", p.ty);
        }
        g
    })
}

fn glob(p: &str, s: &str) -> bool {
    if let Some(x) = p.strip_prefix('*') {
        return s.ends_with(x);
    }
    match p.split_once('#') {
        None => p == s,
        Some((a, b)) => s.strip_prefix(a).and_then(|t| t.strip_suffix(b)).is_some_and(|d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) && !d.starts_with('0')),
    }
}

/// Is this value of this kind?
fn value_ok(g: &Grammar, kind: &str, v: &str) -> bool {
    if let Some(set) = kind.strip_prefix('{').and_then(|k| k.strip_suffix('}')) {
        return set.split(',').any(|x| x == v);
    }
    if let Some(k) = g.kinds.get(kind) {
        return value_ok(g, k, v);
    }
    let (base, range) = match kind.strip_suffix(']').and_then(|k| k.split_once('[')) {
        Some((b, r)) => {
            let (lo, hi) = r.split_once("..").unwrap();
            (b, Some((lo.parse::<f64>().unwrap(), hi.parse::<f64>().unwrap())))
        }
        None => (kind, None),
    };
    let inside = |x: f64| range.map_or(true, |(lo, hi)| x >= lo && x <= hi);
    let hex = |n: usize, v: &str| v.len() == n && v.bytes().all(|c| c.is_ascii_hexdigit());
    match base {
        "str" => inside(v.encode_utf16().count().min(v.chars().count()) as f64),
        "str+" => !v.is_empty(),
        "tok" => !v.is_empty() && v.trim() == v,
        "int" => !v.starts_with('+') && v.parse::<i64>().is_ok_and(|x| (-2_147_483_648..=2_147_483_647).contains(&x) || range.is_some()) && inside(v.parse::<i64>().unwrap_or(0) as f64),
        "uint" => !v.starts_with('+') && v.parse::<u32>().is_ok(),
        "dbl" => v.bytes().all(|c| c.is_ascii_digit() || b"+-.eE".contains(&c)) && !v.starts_with('+') && v.parse::<f64>().is_ok_and(|x| x.is_finite() && inside(x)),
        "hex4" => v.len() >= 1 && v.len() <= 4 && hex(v.len(), v),
        "hex6" => hex(6, v),
        "hex8" => hex(8, v),
        "guid" => {
            let b = v.strip_prefix('{').and_then(|v| v.strip_suffix('}')).unwrap_or("");
            let f: Vec<&str> = b.split('-').collect();
            f.len() == 5 && f.iter().zip([8, 4, 4, 4, 12]).all(|(p, n)| hex(n, p))
        }
        "cell" => cell(v).is_some(),
        "ref" => area(v),
        "sqref" => !v.is_empty() && v.split(' ').all(area),
        "spans" => v.split(' ').all(|p| p.split_once(':').is_some_and(|(a, b)| matches!((a.parse::<u32>(), b.parse::<u32>()), (Ok(a), Ok(b)) if a >= 1 && a <= b && b <= 16384))),
        "ver" => v.split_once('.').is_some_and(|(a, b)| !a.is_empty() && a.len() <= 2 && b.len() == 4 && (a.to_string() + b).bytes().all(|c| c.is_ascii_digit())),
        "when" => when(v),
        "tf" => matches!(v, "t" | "f" | "true" | "false"),
        "vmlref" => v.starts_with('#') && v.len() > 1,
        "idlist" => !v.is_empty() && v.split(',').all(|x| x.parse::<u32>().is_ok()),
        "anchor" => {
            let f: Vec<&str> = v.split(',').map(|x| x.trim()).collect();
            f.len() == 8 && f.iter().all(|x| x.parse::<u32>().is_ok())
        }
        k => panic!("grammar: kind {k}"),
    }
}

fn cell(v: &str) -> Option<(u32, u32)> {
    let n = v.bytes().take_while(|c| c.is_ascii_uppercase()).count();
    let (c, r) = v.split_at(n);
    if n == 0 || n > 3 || r.is_empty() || r.starts_with('0') || !r.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let col = c.bytes().fold(0u32, |a, b| a * 26 + (b - b'A' + 1) as u32);
    let row: u32 = r.parse().ok()?;
    (col <= 16384 && row <= 1_048_576).then_some((row, col))
}
fn area(v: &str) -> bool {
    match v.split_once(':') {
        None => cell(v).is_some(),
        Some((a, b)) => matches!((cell(a), cell(b)), (Some(a), Some(b)) if a.0 <= b.0 && a.1 <= b.1),
    }
}
fn when(v: &str) -> bool {
    let b = v.as_bytes();
    let shape = b.len() == 20 && b.iter().zip(b"0000-00-00T00:00:00Z").all(|(c, p)| if *p == b'0' { c.is_ascii_digit() } else { c == p });
    if !shape {
        return false;
    }
    let n = |a: usize, z: usize| v[a..z].parse::<u32>().unwrap();
    let (y, m, d) = (n(0, 4), n(5, 7), n(8, 10));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    (1..=12).contains(&m) && d >= 1 && d <= dim[m as usize - 1] && n(11, 13) < 24 && n(14, 16) < 60 && n(17, 19) < 60
}

/// Matches the children from `pos`; returns the position after the match and
/// notes the type of each child.
fn run<'g>(m: &'g M, kids: &[&Elem], pos: usize, ty: &mut Vec<&'g str>) -> Option<usize> {
    match m {
        M::El { name, ty: t, min, max } => {
            let mut n = 0;
            while n < *max && pos + n < kids.len() && kids[pos + n].name == *name {
                ty.push(t);
                n += 1;
            }
            (n >= *min).then_some(pos + n)
        }
        M::Seq(v) => {
            let mut p = pos;
            for x in v {
                p = run(x, kids, p, ty)?;
            }
            Some(p)
        }
        M::Choice(v, opt) => {
            let len = ty.len();
            let mut empty = *opt;
            for x in v {
                match run(x, kids, pos, ty) {
                    Some(p) if p > pos => return Some(p),
                    Some(_) => empty = true,
                    None => {}
                }
                ty.truncate(len);
            }
            empty.then_some(pos)
        }
        M::All(v) => {
            let mut seen = HashSet::new();
            let mut p = pos;
            'next: while p < kids.len() {
                for x in v {
                    if let M::El { name, ty: t, .. } = x {
                        if *name == kids[p].name && seen.insert(name) {
                            ty.push(t);
                            p += 1;
                            continue 'next;
                        }
                    }
                }
                break;
            }
            Some(p)
        }
        M::Any(v) => {
            let mut p = pos;
            'next: while p < kids.len() {
                for x in v {
                    if let M::El { name, ty: t, .. } = x {
                        if *name == kids[p].name {
                            ty.push(t);
                            p += 1;
                            continue 'next;
                        }
                    }
                }
                break;
            }
            Some(p)
        }
    }
}

fn judge(g: &Grammar, part: &str, e: &Elem, ty: &str, scope: &mut Vec<(String, String)>) -> R {
    let t = &g.types[ty];
    let depth = scope.len();
    for (k, v) in &e.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            let want = g.ns.get(p);
            ensure!(want.is_some_and(|w| w.contains(v)), "grammar", "{part}: <{}> binds the prefix {p} to {v:?}", e.name);
            scope.push((p.to_string(), v.clone()));
        }
    }
    let bound = |n: &str| n.split_once(':').map_or(true, |(p, _)| p == "xml" || scope.iter().any(|(q, _)| q == p));
    ensure!(bound(&e.name), "grammar", "{part}: the prefix of <{}> stands for nothing", e.name);
    for (k, v) in &e.attrs {
        if k == "xmlns" || k.starts_with("xmlns:") {
            continue;
        }
        ensure!(bound(k), "grammar", "{part}: the prefix of {k} on <{}> stands for nothing", e.name);
        let Some(a) = t.attrs.get(k) else { fail!("grammar", "{part}: <{}> has an attribute {k}={v:?} the format does not know", e.name) };
        let ok = if a.kind == "n" { v.parse::<usize>().is_ok_and(|n| n == e.children().count()) } else { value_ok(g, &a.kind, v) };
        ensure!(ok, "grammar", "{part}: <{} {k}={v:?}> is not of the kind {} ({} children)", e.name, a.kind, e.children().count());
        if k == "mc:Ignorable" {
            ensure!(v.split(' ').all(|p| scope.iter().any(|(q, _)| q == p)), "grammar", "{part}: mc:Ignorable {v:?} names an unknown prefix");
        }
    }
    for (k, a) in &t.attrs {
        ensure!(!a.req || e.attr(k).is_some(), "grammar", "{part}: <{}> lacks {k}", e.name);
    }
    if let Some(kind) = &t.text {
        ensure!(e.children().next().is_none(), "grammar", "{part}: <{}> holds elements", e.name);
        let v = e.text();
        ensure!(value_ok(g, kind, &v), "grammar", "{part}: the text {v:?} of <{}> is not of the kind {kind}", e.name);
    } else {
        for k in &e.kids {
            if let Node::T(s) = k {
                ensure!(s.chars().all(char::is_whitespace), "grammar", "{part}: <{}> holds text {s:?}", e.name);
            }
        }
        let kids: Vec<&Elem> = e.children().collect();
        let mut types = vec![];
        let mut pos = Some(0);
        for m in &t.model {
            pos = pos.and_then(|p| run(m, &kids, p, &mut types));
        }
        let list = || kids.iter().map(|k| k.name.as_str()).take(40).collect::<Vec<_>>().join(" ");
        match pos {
            Some(p) if p == kids.len() => {}
            Some(p) => fail!("grammar", "{part}: <{}> may not hold <{}> in that place: {}", e.name, kids[p].name, list()),
            None => fail!("grammar", "{part}: the children of <{}> do not follow the format: {}", e.name, list()),
        }
        for (k, t) in kids.iter().zip(&types) {
            judge(g, part, k, t, scope)?;
        }
    }
    scope.truncate(depth);
    if e.name == "ext" || e.name == "a:ext" || e.name == "c:ext" {
        if let Some(u) = e.attr("uri") {
            let kid = e.children().next().map(|k| k.name.as_str()).unwrap_or("");
            ensure!(g.ext.get(u).is_some_and(|w| w == kid), "grammar", "{part}: extension {u} holds <{kid}>");
        }
    }
    Ok(())
}

/// Reads the grammar; panics when it is not well formed.
pub fn init() {
    let g = grammar();
    for t in g.types.values() {
        for k in t.attrs.values().map(|a| &a.kind).chain(t.text.iter()) {
            if k != "n" {
                value_ok(g, k, "");
            }
        }
    }
}

/// Every part of the package, alone and in what its parts say of each other.
pub fn check(p: &Pkg) -> R {
    let g = grammar();
    for (n, x) in &p.xml {
        if g.skip.iter().any(|s| glob(s, n)) {
            continue;
        }
        let Some(part) = g.parts.iter().find(|q| glob(&q.pat, n)) else { fail!("grammar", "no kind of part is stored as {n}") };
        ensure!(x.name == part.root, "grammar", "{n}: the root is <{}>", x.name);
        if part.ns != "-" {
            let ns = match x.name.split_once(':') {
                None => x.attr("xmlns"),
                Some((q, _)) => x.attr(&format!("xmlns:{q}")),
            };
            ensure!(ns == Some(&part.ns), "grammar", "{n}: the root's namespace is {ns:?}");
        }
        judge(g, n, x, &part.ty, &mut vec![])?;
        match part.root.as_str() {
            "c:chartSpace" => chart(n, x)?,
            "worksheet" => sheet(n, x)?,
            _ => {}
        }
    }
    Ok(())
}

fn vals(e: &Elem, k: &str) -> Vec<String> {
    e.all(k).map(|x| x.attr("val").unwrap_or("").to_string()).collect()
}

fn chart(n: &str, x: &Elem) -> R {
    let Some(area) = x.at("c:chart/c:plotArea") else { return Ok(()) };
    let axes: Vec<&Elem> = area.children().filter(|e| e.name.ends_with("Ax")).collect();
    let ids: Vec<String> = axes.iter().flat_map(|a| vals(a, "c:axId")).collect();
    let set: HashSet<&String> = ids.iter().collect();
    ensure!(set.len() == ids.len(), "grammar", "{n}: axis ids repeated: {ids:?}");
    let mut used = HashSet::new();
    let (mut idx, mut order) = (HashSet::new(), HashSet::new());
    for c in area.children().filter(|e| e.name.ends_with("Chart")) {
        let a = vals(c, "c:axId");
        for i in &a {
            ensure!(set.contains(i), "grammar", "{n}: <{}> uses axis {i}, which is not there", c.name);
            used.insert(i.clone());
        }
        if let [p, q] = &a[..] {
            let cross = |i: &str| axes.iter().find(|a| vals(a, "c:axId").iter().any(|v| v == i)).map(|a| vals(a, "c:crossAx")).unwrap_or_default();
            ensure!(cross(p) == [q.clone()] && cross(q) == [p.clone()], "grammar", "{n}: the axes {p} and {q} of <{}> do not cross each other", c.name);
        }
        for s in c.all("c:ser") {
            for (k, seen) in [("c:idx", &mut idx), ("c:order", &mut order)] {
                let v = vals(s, k);
                ensure!(v.len() == 1 && seen.insert(v[0].clone()), "grammar", "{n}: {k} {v:?} of two series");
            }
            for (k, holder) in [("c:dPt", Some(s)), ("c:dLbl", s.child("c:dLbls"))] {
                let mut seen = HashSet::new();
                for d in holder.map(|h| h.all(k).collect::<Vec<_>>()).unwrap_or_default() {
                    ensure!(seen.insert(vals(d, "c:idx")), "grammar", "{n}: {k} {:?} twice", vals(d, "c:idx"));
                }
            }
        }
    }
    // A chart whose series are all on the secondary axes still has the primary ones.
    for i in ids.iter().filter(|_| used.len() != 2 || ids.len() != 4) {
        ensure!(used.contains(i), "grammar", "{n}: axis {i} belongs to no chart");
    }
    let mut bad = None;
    x.walk(&mut |e| {
        if e.name == "c:numCache" || e.name == "c:strCache" {
            let count = e.child("c:ptCount").and_then(|c| c.attr("val")).and_then(|v| v.parse::<i64>().ok()).unwrap_or(i64::MAX);
            let mut last = -1;
            for p in e.all("c:pt") {
                let i = p.attr("idx").and_then(|v| v.parse::<i64>().ok()).unwrap_or(-1);
                if i <= last || i >= count {
                    bad = Some(format!("point {i} after {last} of {count}"));
                }
                last = i;
            }
        }
    });
    if let Some(b) = bad {
        fail!("grammar", "{n}: {b}");
    }
    Ok(())
}

fn sheet(n: &str, x: &Elem) -> R {
    // Rules of the sheet have priorities of their own and their halves match.
    let (mut prio, mut ids, mut far) = (HashSet::new(), HashSet::new(), HashSet::new());
    for r in x.descendants("cfRule") {
        ensure!(prio.insert(r.attr("priority").unwrap_or("").to_string()), "grammar", "{n}: two rules of priority {:?}", r.attr("priority"));
        for i in r.descendants("x14:id") {
            ensure!(ids.insert(i.text()), "grammar", "{n}: rule id {} twice", i.text());
        }
    }
    for r in x.descendants("x14:cfRule") {
        let id = r.attr("id").unwrap_or("").to_string();
        ensure!(far.insert(id.clone()), "grammar", "{n}: extended rule id {id} twice");
        match r.attr("type") {
            Some("dataBar") => ensure!(r.child("x14:dataBar").is_some() && ids.contains(&id), "grammar", "{n}: extended data bar {id} belongs to no rule"),
            _ => {
                ensure!(r.child("x14:iconSet").is_some(), "grammar", "{n}: extended rule {id} without icons");
                ensure!(r.attr("priority").is_some_and(|p| prio.insert(p.to_string())), "grammar", "{n}: two rules of priority {:?}", r.attr("priority"));
            }
        }
    }
    for i in &ids {
        ensure!(far.contains(i), "grammar", "{n}: rule {i} lacks its extended half");
    }
    for (k, cf, icon) in [("iconSet", "cfvo", "-"), ("x14:iconSet", "x14:cfvo", "x14:cfIcon")] {
        for s in x.descendants(k) {
            let want = s.attr("iconSet").and_then(|v| v.get(..1)).and_then(|v| v.parse::<usize>().ok()).unwrap_or(3);
            ensure!(s.all(cf).count() == want, "grammar", "{n}: {want} icons, {} limits", s.all(cf).count());
            let c = s.all(icon).count();
            ensure!(c == if s.attr("custom") == Some("1") { want } else { 0 }, "grammar", "{n}: {want} icons, {c} of them custom");
        }
    }
    for s in x.descendants("colorScale") {
        ensure!(s.all("cfvo").count() == s.all("color").count(), "grammar", "{n}: colour scale with {} limits and {} colours", s.all("cfvo").count(), s.all("color").count());
    }
    // What each kind of rule needs.
    for r in x.descendants("cfRule") {
        let ty = r.attr("type").unwrap_or("");
        let nf = r.all("formula").count();
        let two = matches!(r.attr("operator"), Some("between" | "notBetween"));
        let (lo, hi) = match ty {
            "cellIs" => (1 + two as usize, 1 + two as usize),
            "expression" | "containsText" | "notContainsText" | "beginsWith" | "endsWith" | "containsBlanks" | "notContainsBlanks" | "containsErrors" | "notContainsErrors" | "timePeriod" => (1, 1),
            _ => (0, 0),
        };
        ensure!(nf >= lo && nf <= hi, "grammar", "{n}: rule of kind {ty} {:?} with {nf} formulas", r.attr("operator"));
        for (k, a) in [("cellIs", "operator"), ("containsText", "text"), ("notContainsText", "text"), ("beginsWith", "text"), ("endsWith", "text"), ("timePeriod", "timePeriod"), ("top10", "rank")] {
            ensure!((ty == k) <= r.attr(a).is_some(), "grammar", "{n}: rule of kind {ty} lacks {a}");
        }
        for k in ["colorScale", "dataBar", "iconSet"] {
            ensure!((ty == k) == r.child(k).is_some(), "grammar", "{n}: rule of kind {ty} and <{k}>");
        }
    }
    for d in x.descendants("dataValidation") {
        let two = matches!(d.attr("operator"), None | Some("between" | "notBetween"));
        let want = match d.attr("type") {
            None | Some("none") => 0,
            Some("list" | "custom") => 1,
            _ => 1 + two as usize,
        };
        let got = d.child("formula1").is_some() as usize + d.child("formula2").is_some() as usize;
        ensure!(got == want && (got == 0 || d.child("formula1").is_some()), "grammar", "{n}: validation {:?} {:?} with {got} formulas", d.attr("type"), d.attr("operator"));
    }
    Ok(())
}

