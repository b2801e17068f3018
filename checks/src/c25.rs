//! C25: notes are stored on their cell with their text, author and shape.
use crate::draw::*;
use crate::fmt::*;
use crate::util::*;

#[derive(Clone, Debug)]
pub struct Nm {
    text: String,
    author: Option<String>,
    prefix: bool,
    w: u32,
    h: u32,
    visible: Option<bool>,
    bg: String,
    font: String,
    size: f64,
    family: u8,
    alt: String,
    mv: &'static str,
}

#[derive(Default)]
pub struct Sh {
    pub notes: BTreeMap<(u32, u16), Nm>,
    pub show_all: bool,
    pub author: Option<String>,
    pub buttons: usize,
    pub header: usize,
}

fn author(s: &mut Src) -> String {
    match s.below(8) {
        0 => "Author".into(),
        1 => "é".repeat(52),
        2 => gen::line_text(s, 12),
        _ => (*s.pick(&["Zed", "bob", "Alice", "Bob", "A & B", "日本", "_", "aa"])).to_string(),
    }
}

pub fn gen_note(s: &mut Src, c: &mut Ctx) -> (Note, Nm) {
    let text = gen::text(s, 30);
    let mut n = Note::new(&text);
    let mut m = Nm { text, author: None, prefix: true, w: 128, h: 74, visible: None, bg: "FFFFE1".into(), font: "Tahoma".into(), size: 8.0, family: 2, alt: String::new(), mv: "absolute" };
    shuffled!(s;
        {
            if s.chance(1, 2) {
                let a = author(s);
                if !a.is_empty() {
                    n = n.set_author(&a);
                    m.author = Some(a);
                    c.label("author");
                }
            }
        }
        {
            if s.chance(1, 12) {
                n = n.set_author("x".repeat(53));
            }
        }
        {
            if s.chance(1, 4) {
                m.prefix = s.bool();
                n = n.add_author_prefix(m.prefix);
            }
        }
        {
            if s.chance(1, 4) {
                let v = *s.pick(&[0, 1, 5, 64, 200, 1000]);
                n = n.set_width(v);
                if v > 0 { m.w = v; }
            }
        }
        {
            if s.chance(1, 4) {
                let v = *s.pick(&[0, 1, 5, 20, 200, 1000]);
                n = n.set_height(v);
                if v > 0 { m.h = v; }
            }
        }
        {
            if s.chance(1, 3) {
                let v = s.bool();
                n = n.set_visible(v);
                m.visible = Some(v);
                c.label("visibility");
            }
        }
        {
            if s.chance(1, 4) {
                let col = gen_rgb(s);
                n = n.set_background_color(col);
                if let Some(r) = rgb6(col) {
                    m.bg = r;
                }
            }
        }
        {
            if s.chance(1, 5) {
                m.font = (*s.pick(&["Calibri", "Arial", "Courier New", "MS Gothic", "A&B <f>"])).to_string();
                n = n.set_font_name(&m.font);
            }
        }
        {
            if s.chance(1, 5) {
                m.size = f64::from(s.u32(2, 60)) / 2.0;
                n = n.set_font_size(m.size);
            }
        }
        {
            if s.chance(1, 8) {
                m.family = s.u8(0, 5);
                n = n.set_font_family(m.family);
            }
        }
        {
            if s.chance(1, 4) {
                let t = match s.below(6) { 0 => "é".repeat(255), 1 => "x".repeat(256), _ => gen::line_text(s, 15) };
                n = n.set_alt_text(&t);
                if t.chars().count() <= 255 { m.alt = t; }
            }
        }
        {
            if let Some((mv, name)) = gen_movement(s) {
                n = n.set_object_movement(mv);
                m.mv = name;
            }
        }
    );
    if s.chance(1, 8) {
        m.text = gen::text(s, 20);
        n.reset_text(&m.text);
    }
    (n, m)
}

/// Compares the notes of a sheet with the model and returns the shape ids.
pub fn check(b: &Book, i: usize, want: &Sh, ids: &mut BTreeMap<u64, usize>, blocks: &mut BTreeMap<u64, usize>) -> R {
    let part = b.sheets[i].part.clone();
    let rels: Vec<_> = b.pkg.rels_of(&part).iter().filter(|r| r.kind() == "comments").collect();
    ensure!(rels.len() == usize::from(!want.notes.is_empty()), "part", "sheet {i}: {} parts with notes", rels.len());
    if let Some(r) = rels.first() {
        let x = b.pkg.part(&r.target)?;
        let authors: Vec<String> = x.at("authors").map(|a| a.all("author").map(|a| kit::xml::unescape_xstring(&a.text())).collect()).unwrap_or_default();
        let raw: Vec<String> = x.at("authors").map(|a| a.all("author").map(|a| a.text()).collect()).unwrap_or_default();
        let uniq: BTreeSet<&String> = raw.iter().collect();
        ensure_eq!(uniq.len(), raw.len(), "authors", "sheet {i}: authors {raw:?}");
        let mut seen = BTreeSet::new();
        for n in x.at("commentList").map(|l| l.children().collect::<Vec<_>>()).unwrap_or_default() {
            let (row, k) = parse_cell(n.attr("ref").unwrap_or(""))?;
            let key = (row, k as u16);
            let at = format!("sheet {i} note on {key:?}");
            let m = match want.notes.get(&key) { Some(m) => m, None => fail!("extra", "{at}: wasn't inserted") };
            ensure!(seen.insert(key), "twice", "{at}: stored twice");
            let id: usize = match n.attr("authorId").and_then(|v| v.parse().ok()) { Some(v) => v, None => fail!("author", "{at}: author {:?}", n.attr("authorId")) };
            let name = m.author.clone().or(want.author.clone()).unwrap_or("Author".into());
            let got = authors.get(id).cloned().unwrap_or_default();
            ensure!(got == name || raw.get(id) == Some(&name), "author", "{at}: by {got:?} where {name:?} expected");
            let t = match n.child("text") { Some(t) => t, None => fail!("text", "{at}: no text") };
            let runs: Vec<(String, Elem)> = t.all("r").map(|r| (kit::xml::unescape_xstring(&r.child("t").map(|t| t.text()).unwrap_or_default()), r.child("rPr").cloned().unwrap_or_default())).collect();
            let mut text: String = runs.iter().map(|r| r.0.as_str()).collect();
            if m.prefix {
                ensure!(runs.len() == 2 && runs[0].0 == format!("{name}:") && runs[0].1.child("b").is_some(), "prefix", "{at}: no author prefix in {runs:?}");
                text = runs[1].0.strip_prefix('\n').unwrap_or("?").to_string();
            } else {
                ensure!(runs.len() == 1, "prefix", "{at}: {runs:?}");
            }
            ensure_eq!(text, m.text, "text", "{at}: text");
            for (j, (_, p)) in runs.iter().enumerate() {
                let g = |k: &str| p.child(k).and_then(|e| e.attr("val")).unwrap_or("").to_string();
                ensure_eq!(g("rFont"), m.font, "font", "{at}: font");
                ensure_eq!(g("sz").parse::<f64>().unwrap_or(-1.0), m.size, "font", "{at}: font size");
                ensure_eq!(g("family"), m.family.to_string(), "font", "{at}: font family");
                ensure_eq!(p.child("b").is_some(), m.prefix && j == 0, "font", "{at}: bold");
            }
        }
        ensure_eq!(seen.len(), want.notes.len(), "count", "sheet {i}: notes");
    }
    // The shapes.
    let vs = vml_shapes(b, i, "legacyDrawing")?;
    let mut seen = BTreeSet::new();
    let mut buttons = 0;
    for v in &vs {
        if v.kind == "Button" {
            buttons += 1;
        } else {
            ensure!(v.kind == "Note", "shape", "sheet {i}: a {} shape", v.kind);
            let d = v.client()?;
            let n = |k: &str| d.child(k).and_then(|e| e.text().parse::<u32>().ok()).unwrap_or(u32::MAX);
            let key = (n("x:Row"), n("x:Column") as u16);
            let at = format!("sheet {i} note shape on {key:?}");
            let m = match want.notes.get(&key) { Some(m) => m, None => fail!("shape", "{at}: no such note") };
            ensure!(seen.insert(key), "shape", "{at}: stored twice");
            let vis = m.visible.unwrap_or(want.show_all);
            ensure!(d.child("x:Visible").is_some() == vis && v.style("visibility") == Some(if vis { "visible" } else { "hidden" }), "visible", "{at}: expected visible {vis}");
            let px = |k: &str| v.style(k).and_then(|x| x.strip_suffix("pt")).and_then(|x| x.parse::<f64>().ok()).unwrap_or(-1.0) / 0.75;
            ensure!((px("width") - f64::from(m.w)).abs() < 0.01 && (px("height") - f64::from(m.h)).abs() < 0.01, "size", "{at}: {}x{} where {}x{} expected", px("width"), px("height"), m.w, m.h);
            let fill = v.elem.attr("fillcolor").unwrap_or("").to_lowercase();
            ensure!(fill.starts_with(&format!("#{}", m.bg.to_lowercase())), "color", "{at}: colour {fill} where {} expected", m.bg);
            let alt = v.elem.attr("alt").unwrap_or("");
            ensure!(alt == m.alt || kit::xml::unescape_xstring(alt) == m.alt, "alt", "{at}: alternative text {alt:?} where {:?} expected", m.alt);
            ensure_eq!(v.movement()?, m.mv, "movement", "{at}: movement");
        }
    }
    ensure_eq!(seen.len(), want.notes.len(), "shape", "sheet {i}: note shapes");
    ensure_eq!(buttons, want.buttons, "shape", "sheet {i}: buttons");
    let hf = vml_shapes(b, i, "legacyDrawingHF")?;
    ensure_eq!(hf.len(), want.header, "shape", "sheet {i}: header images");
    let num = |t: &str| t.strip_prefix("_x0000_s").and_then(|n| n.parse::<u64>().ok());
    let data = |v: &[VShape]| -> R<Vec<u64>> {
        match v.first() {
            Some(v) => Ok(b.pkg.part(&v.part)?.descendants("o:idmap").iter().flat_map(|m| m.attr("data").unwrap_or("").split(',').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>()).collect()),
            None => Ok(vec![]),
        }
    };
    let map = data(&vs)?;
    for d in &map {
        if let Some(o) = blocks.insert(*d, i) {
            fail!("block", "sheets {o} and {i} share the shape id block {d}");
        }
    }
    for v in &vs {
        let id = match num(&v.id) { Some(n) => n, None => fail!("id", "sheet {i}: shape id {:?}", v.id) };
        if let Some(o) = ids.insert(id, i) {
            fail!("id", "shape id {id} is used on sheets {o} and {i}");
        }
        ensure!(map.contains(&(id / 1024)), "block", "sheet {i}: shape id {id} lies outside the id blocks {map:?}");
    }
    let map = data(&hf)?;
    let mut own = BTreeSet::new();
    for v in &hf {
        let id = match num(&v.spid) { Some(n) => n, None => fail!("id", "sheet {i}: header shape id {:?}", v.spid) };
        ensure!(own.insert(id), "id", "sheet {i}: header shape id {id} twice");
        ensure!(map.contains(&(id / 1024)), "block", "sheet {i}: header shape id {id} lies outside the id blocks {map:?}");
    }
    Ok(())
}

pub fn check_all(b: &Book, ms: &[Sh]) -> R {
    let (mut ids, mut blocks) = (BTreeMap::new(), BTreeMap::new());
    for (i, m) in ms.iter().enumerate() {
        check(b, i, m, &mut ids, &mut blocks)?;
    }
    Ok(())
}

fn notes(s: &mut Src, c: &mut Ctx) -> R {
    let img = gen_image(s, 3);
    let ns = s.small(1, 4);
    let mut wb = Workbook::new();
    let mut ms: Vec<Sh> = (0..ns).map(|_| Sh::default()).collect();
    for _ in 0..ns {
        wb.add_worksheet();
    }
    let rounds = if s.chance(1, 6) { 2 } else { 1 };
    let shared = gen_note(s, c);
    for round in 0..rounds {
        for _ in 0..s.span(1, 12, 60) {
            let i = s.idx(ns);
            let ws = must("sheet", wb.worksheet_from_index(i))?;
            let m = &mut ms[i];
            let key = if s.chance(1, 8) { (row(s), col(s)) } else { (s.u32(0, 6), s.u16(0, 4)) };
            match s.below(14) {
                0 => {
                    let v = s.bool();
                    ws.show_all_notes(v);
                    m.show_all = v;
                    c.d(|| format!("sheet {i} show_all_notes({v})"));
                    c.label("show all");
                }
                1 => {
                    let a = author(s);
                    if !a.is_empty() {
                        ws.set_default_note_author(&a);
                        c.d(|| format!("sheet {i} default author {a:?}"));
                        m.author = Some(a);
                        c.label("default author");
                    } else {
                        ws.set_default_note_author("y".repeat(53));
                    }
                }
                2 => {
                    must("insert_button", ws.insert_button(key.0, key.1, &Button::new()).map(|_| ()))?;
                    // Buttons on the same place replace each other.
                    m.buttons = usize::MAX;
                    c.d(|| format!("sheet {i} button on {key:?}"));
                    c.label("button");
                }
                3 => {
                    ws.set_header("&L&G");
                    must("header image", ws.set_header_image(&must("image", Image::new_from_buffer(&img.bytes))?, HeaderImagePosition::Left).map(|_| ()))?;
                    m.header = 1;
                    c.d(|| format!("sheet {i} header image"));
                    c.label("header image");
                }
                4 => {
                    let n = *s.pick(&[32_713usize, 32_714]);
                    let r = guard("insert_note", || ws.insert_note(key.0, key.1, &Note::new("é".repeat(n))).map(|_| ()))?;
                    c.d(|| format!("sheet {i} note of {n} characters on {key:?}"));
                    ensure_eq!(r.is_ok(), n == 32_713, "limit", "note of {n} characters accepted");
                    ensure!(r.is_ok() || matches!(r, Err(XlsxError::MaxStringLengthExceeded)), "limit", "refused with {r:?}");
                    if r.is_ok() {
                        let (_, mut d) = gen_note(&mut Src::replay(&[]), c);
                        d.text = "é".repeat(n);
                        m.notes.insert(key, d);
                    }
                    c.label("limit");
                }
                5 => {
                    let r = guard("insert_note", || if s.bool() { ws.insert_note(MAXR, 0, &shared.0).map(|_| ()) } else { ws.insert_note(0, MAXC, &shared.0).map(|_| ()) })?;
                    ensure!(matches!(r, Err(XlsxError::RowColumnLimitError)), "limit", "note outside the sheet: {r:?}");
                }
                6 => {
                    c.d(|| format!("sheet {i} shared note on {key:?} {:?}", shared.1));
                    must("insert_note", ws.insert_note(key.0, key.1, &shared.0).map(|_| ()))?;
                    m.notes.insert(key, shared.1.clone());
                }
                _ => {
                    let (n, nm) = gen_note(s, c);
                    c.d(|| format!("sheet {i} note on {key:?} {nm:?}"));
                    must("insert_note", ws.insert_note(key.0, key.1, &n).map(|_| ()))?;
                    c.label_if(m.notes.insert(key, nm).is_some(), "replaced");
                }
            }
        }
        c.label_if(round == 1, "saved twice");
        let b = save_book(&mut wb, c)?;
        b.pkg.audit()?;
        for (i, m) in ms.iter_mut().enumerate() {
            if m.buttons > 0 {
                m.buttons = vml_shapes(&b, i, "legacyDrawing")?.iter().filter(|v| v.kind == "Button").count();
            }
        }
        check_all(&b, &ms)?;
    }
    if ms.iter().map(|m| m.notes.len()).sum::<usize>() >= 2 {
        c.hit();
    }
    Ok(())
}

/// Numbers of notes and buttons around the shape id blocks.
fn blocks(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let mut ms = vec![];
    c.hit();
    for i in 0..s.small(2, 4) {
        let ws = wb.add_worksheet();
        let mut m = Sh::default();
        let total = *s.pick(&[1u32, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 0, 100]);
        let total = if total > 100 && s.bool() { s.u32(1000, 2100) } else { total };
        let nb = match s.below(4) { 0 => 0, 1 => total, 2 => s.u32(0, total), _ => s.u32(0, total.min(5)) };
        c.d(|| format!("sheet {i}: {} notes and {nb} buttons", total - nb));
        let (_, plain) = gen_note(&mut Src::replay(&[]), c);
        for j in 0..total - nb {
            let key = (j / 7, (j % 7) as u16);
            let mut nm = plain.clone();
            nm.text = format!("{j}");
            let mut n = Note::new(&nm.text);
            if j % 3 == 0 {
                let a = format!("{}", (total - j) % 50);
                n = n.set_author(&a);
                nm.author = Some(a);
            }
            must("insert_note", ws.insert_note(key.0, key.1, &n).map(|_| ()))?;
            m.notes.insert(key, nm);
        }
        for j in 0..nb {
            must("insert_button", ws.insert_button(j, 9, &Button::new()).map(|_| ()))?;
        }
        m.buttons = nb as usize;
        ms.push(m);
    }
    let b = save_book(&mut wb, c)?;
    check_all(&b, &ms)
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "at least two notes in the workbook (notes); every case (blocks)",
        level: "exploration",
        assumptions: &["notes and buttons share one set of shape ids over the workbook; header images have their own, as in Excel", "position and extent are decided by C09"],
        families: vec![fam("notes", 10000, 250_000, notes), fam("blocks", 60, 1_000, blocks)],
        known: vec![],
    }
}
