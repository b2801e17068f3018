//! C33: text boxes and buttons are stored with what was asked for.
use crate::c14::{self, Lm};
use crate::dml::*;
use crate::draw::*;
use crate::fmt::*;
use crate::util::*;

#[derive(Clone, Debug)]
pub struct Sm {
    text: String,
    link: Option<String>,
    fmt: FmtM,
    font: Option<FontM>,
    hal: usize,
    val: usize,
    dir: usize,
    alt: String,
    mv: &'static str,
    url: Option<Lm>,
}

const HAL: [(ShapeTextHorizontalAlignment, &str); 4] = [(ShapeTextHorizontalAlignment::Default, ""), (ShapeTextHorizontalAlignment::Left, "l"), (ShapeTextHorizontalAlignment::Center, "ctr"), (ShapeTextHorizontalAlignment::Right, "r")];
const VAL: [(ShapeTextVerticalAlignment, &str, &str); 6] = [
    (ShapeTextVerticalAlignment::Top, "t", ""),
    (ShapeTextVerticalAlignment::Middle, "ctr", "0"),
    (ShapeTextVerticalAlignment::Bottom, "b", "0"),
    (ShapeTextVerticalAlignment::TopCentered, "t", "1"),
    (ShapeTextVerticalAlignment::MiddleCentered, "ctr", "1"),
    (ShapeTextVerticalAlignment::BottomCentered, "b", "1"),
];
const DIR: [(ShapeTextDirection, &str); 5] = [(ShapeTextDirection::Horizontal, ""), (ShapeTextDirection::Stacked, "wordArtVert"), (ShapeTextDirection::Rotate90, "vert"), (ShapeTextDirection::Rotate270, "vert270"), (ShapeTextDirection::Rotate90EastAsian, "eaVert")];

fn body_text(s: &mut Src) -> String {
    match s.below(8) {
        0 => String::new(),
        1..=3 => (*s.pick(&["Text", "two\nlines", "a\n\nb", "\nx", "<&>\"'", "  pad  ", "日本\né", "_x0041_"])).to_string(),
        _ => {
            let n = s.small(1, 4);
            (0..n).map(|_| gen::line_text(s, 12)).collect::<Vec<_>>().join("\n")
        }
    }
}

fn alt(s: &mut Src) -> (String, bool) {
    match s.below(6) {
        0 => ("é".repeat(255), true),
        1 => ("é".repeat(256), false),
        _ => (gen::line_text(s, 15), true),
    }
}

pub fn gen_shape(s: &mut Src, links: &[String], c: &mut Ctx) -> R<(Shape, Sm)> {
    let mut sh = Shape::textbox();
    let mut m = Sm { text: String::new(), link: None, fmt: FmtM::default(), font: None, hal: 0, val: 0, dir: 0, alt: String::new(), mv: "", url: None };
    shuffled!(s;
        {
            if s.chance(4, 5) {
                m.text = body_text(s);
                sh = sh.set_text(&m.text);
                c.label_if(m.text.contains('\n'), "paragraphs");
            }
        }
        {
            if s.chance(1, 5) {
                let f = *s.pick(&["A1", "Sheet1!$A$1", "'It''s'!$B$2", "Names"]);
                m.link = Some(f.into());
                sh = if s.bool() { sh.set_text_link(format!("={f}").as_str()) } else { sh.set_text_link(f) };
                c.label("text link");
            }
        }
        {
            for _ in 0..s.small(0, 2) {
                let v = *s.pick(&[0u32, 4, 5, 100, 300]);
                sh = if s.bool() { sh.set_width(v) } else { sh.set_height(v) };
            }
        }
        {
            for _ in 0..s.small(0, 2) {
                m.fmt = gen_format(s);
                sh = match (s.chance(1, 3), &m.fmt.fill, &m.fmt.line) {
                    (true, Some(FillM::Solid(k, t)), None) => sh.set_format(&shape_solid(*k, *t)),
                    (true, Some(FillM::Pattern(p, f, b)), None) => sh.set_format(&shape_pattern(*p, *f, *b)),
                    (true, Some(FillM::Gradient(t, v, a)), None) => sh.set_format(&shape_gradient(*t, v, *a)),
                    (true, None, Some(Some(l))) => sh.set_format(&shape_line(l)),
                    _ => sh.set_format(&shape_format(&m.fmt)),
                };
                c.label("format");
            }
        }
        {
            if s.chance(1, 2) {
                let f = gen_font(s);
                sh = sh.set_font(&shape_font(&f));
                m.font = Some(f);
                c.label("font");
            }
        }
        {
            if s.chance(1, 2) {
                let mut t = ShapeText::new();
                if s.bool() { m.hal = s.idx(4); t = t.set_horizontal_alignment(HAL[m.hal].0.clone()); }
                if s.bool() { m.val = s.idx(6); t = t.set_vertical_alignment(VAL[m.val].0.clone()); }
                if s.bool() { m.dir = s.idx(5); t = t.set_direction(DIR[m.dir].0.clone()); }
                sh = sh.set_text_options(&t);
                c.label("text options");
            }
        }
        {
            if s.chance(1, 3) {
                let (u, l) = c14::gen_url(s, links, c);
                sh = must("set_url", sh.set_url(u))?;
                m.url = Some(l);
                c.label("link");
            }
        }
        {
            if s.chance(1, 3) {
                let (t, ok) = alt(s);
                sh = sh.set_alt_text(&t);
                if ok { m.alt = t; }
            }
        }
        {
            if let Some((mv, name)) = gen_movement(s) {
                sh = sh.set_object_movement(mv);
                m.mv = name;
            }
        }
    );
    Ok((sh, m))
}

fn font_attrs(f: &Option<FontM>, tag: &str) -> Elem {
    let d = FontM::default();
    let f = f.as_ref().unwrap_or(&d);
    let mut e = el(tag).a("lang", "en-US").a("sz", format!("{}", (f.size.unwrap_or(11.0) * 100.0).round()));
    e = e.a_if(f.bold == Some(true), "b", "1").a_if(f.italic, "i", "1").a_if(f.underline, "u", "sng").a_if(f.strike, "strike", "sngStrike");
    if let Some(c) = f.color {
        e = e.e(solid(c, 0));
    }
    if !f.name.is_empty() || f.pitch > 0 || f.charset > 0 {
        for t in ["a:latin", "a:cs"] {
            e = e.e(el(t).a_if(!f.name.is_empty(), "typeface", &f.name).a_if(f.pitch > 0, "pitchFamily", f.pitch).a_if(f.charset > 0, "charset", f.charset));
        }
    }
    e
}

/// Values that stand for "not set" in a font element.
fn normal(e: &Elem) -> Elem {
    let mut e = e.clone();
    e.attrs.retain(|(k, v)| !(k == "baseline" && v == "0" || k == "charset" && v == "0" || k == "pitchFamily" && v == "0" || matches!(k.as_str(), "b" | "i") && v == "0" || k == "u" && v == "none"));
    e.kids = e.kids.into_iter().map(|k| match k { kit::xml::Node::E(x) => kit::xml::Node::E(normal(&x)), t => t }).collect();
    e
}

fn cmp(got: Option<&Elem>, want: &Elem, sig: &str, at: &str) -> R {
    match got {
        Some(g) => match diff(&normal(g), &normal(want)) {
            None => Ok(()),
            Some(d) => fail!(sig, "{at}: {d}"),
        },
        None => fail!(sig, "{at}: no <{}>", want.name),
    }
}

pub fn check_shape(b: &Book, a: &Anchor, m: &Sm, at: &str) -> R {
    ensure_eq!(a.kind, "sp", "kind", "{at}: kind");
    ensure_eq!(a.edit_as, m.mv, "movement", "{at}: movement");
    let p = a.cnvpr()?;
    let d = p.attr("descr").unwrap_or("");
    ensure!(d == m.alt || kit::xml::unescape_xstring(d) == m.alt, "alt", "{at}: alternative text {d:?} where {:?} expected", m.alt);
    c14::check_object(b, a, m.url.as_ref(), at)?;
    let e = &a.elem;
    Pkg::order(e, &["xdr:nvSpPr", "xdr:spPr", "xdr:style", "xdr:txBody"], at)?;
    ensure_eq!(e.attr("textlink").unwrap_or(""), m.link.as_deref().unwrap_or(""), "textlink", "{at}: text link");
    ensure_eq!(e.attr("macro").unwrap_or(""), "", "macro", "{at}: macro");
    // Fill and line.
    let sp = match e.child("xdr:spPr") { Some(x) => x, None => fail!("format", "{at}: no format") };
    Pkg::order(sp, &["a:xfrm", "a:prstGeom", "a:noFill", "a:solidFill", "a:gradFill", "a:pattFill", "a:ln"], at)?;
    let fills: Vec<&Elem> = sp.children().filter(|k| k.name.ends_with("Fill")).collect();
    ensure_eq!(fills.len(), 1, "fill", "{at}: fills");
    let lt1 = |e: Elem| el("a:solidFill").e(e);
    let want = match &m.fmt.fill { Some(f) => fill(f), None => lt1(el("a:schemeClr").a("val", "lt1")) };
    cmp(Some(fills[0]), &want, "fill", at)?;
    let want = match &m.fmt.line {
        Some(None) => el("a:ln").a("w", 9525).a("cmpd", "sng").e(el("a:noFill")),
        l => {
            let d = LineM { color: None, width: None, tr: 0, dash: 0, hidden: false };
            let l = match l { Some(Some(l)) => l, _ => &d };
            let mut x = el("a:ln").a("w", width(l.width.unwrap_or(0.75))).a("cmpd", "sng");
            if l.hidden {
                x = x.e(el("a:noFill"));
            } else {
                x = x.e(match l.color { Some(c) => solid(c, l.tr), None => lt1(el("a:schemeClr").a("val", "lt1").e(el("a:shade").a("val", 50000))) });
                x = x.e_if(l.dash > 0, || el("a:prstDash").a("val", DASH[l.dash]));
            }
            x
        }
    };
    cmp(sp.child("a:ln"), &want, "line", at)?;
    // Text.
    let tx = match e.child("xdr:txBody") { Some(x) => x, None => fail!("text", "{at}: no text") };
    let want = el("a:bodyPr").a_if(m.dir > 0, "vert", DIR[m.dir].1).a("wrap", "square").a("rtlCol", 0).a("anchor", VAL[m.val].1).a_if(m.val > 0, "anchorCtr", VAL[m.val].2);
    cmp(tx.child("a:bodyPr"), &want, "body", at)?;
    let ps: Vec<&Elem> = tx.all("a:p").collect();
    let mut lines: Vec<&str> = m.text.split('\n').collect();
    if lines.len() == ps.len() + 1 && lines.last() == Some(&"") {
        lines.pop();
    }
    ensure_eq!(ps.len(), lines.len(), "text", "{at}: paragraphs for {:?}", m.text);
    for (j, (p, t)) in ps.iter().zip(&lines).enumerate() {
        let at = format!("{at} paragraph {j}");
        let rtl = m.font.as_ref().and_then(|f| f.rtl);
        let pp = el("a:pPr").a_if(m.hal > 0, "algn", HAL[m.hal].1).a_opt("rtl", rtl.map(u8::from));
        if m.hal > 0 || rtl.is_some() {
            cmp(p.child("a:pPr"), &pp, "align", &at)?;
        } else {
            ensure!(p.child("a:pPr").is_none_or(|p| p.attrs.is_empty()), "align", "{at}: alignment that wasn't set");
        }
        let runs: Vec<&Elem> = p.children().filter(|k| matches!(k.name.as_str(), "a:r" | "a:fld")).collect();
        if m.link.is_some() {
            ensure!(runs.len() == 1 && runs[0].name == "a:fld" && runs[0].attr("type") == Some("TxLink"), "text", "{at}: text link is not a field");
        } else {
            ensure!(runs.len() <= 1 && runs.iter().all(|r| r.name == "a:r"), "text", "{at}: runs");
            ensure!(!runs.is_empty() || t.is_empty(), "text", "{at}: no text where {t:?} expected");
        }
        if let Some(r) = runs.first() {
            let got = r.child("a:t").map(|t| t.text()).unwrap_or_default();
            ensure!(got == *t || m.link.is_some() && t.is_empty() && got == " ", "text", "{at}: text {got:?} where {t:?} expected");
            cmp(r.child("a:rPr"), &font_attrs(&m.font, "a:rPr"), "font", &at)?;
        }
        if let Some(r) = p.child("a:endParaRPr") {
            cmp(Some(r), &font_attrs(&m.font, "a:endParaRPr"), "font", &at)?;
        } else {
            ensure!(!runs.is_empty(), "font", "{at}: empty paragraph without font");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Default)]
pub struct Bm {
    caption: String,
    mac: String,
    alt: String,
    w: Option<u32>,
    h: Option<u32>,
    mv: &'static str,
}

pub fn gen_button(s: &mut Src, c: &mut Ctx) -> (Button, Bm) {
    let mut x = Button::new();
    let mut m = Bm::default();
    shuffled!(s;
        {
            if s.chance(2, 3) {
                let (t, ok) = alt(s);
                x = x.set_caption(&t);
                if ok { m.caption = t; }
                c.label("caption");
            }
        }
        {
            if s.chance(1, 2) {
                m.mac = (*s.pick(&["my_macro", "Module1.Go", "日本", "a&b"])).to_string();
                x = x.set_macro(&m.mac);
                c.label("macro");
            }
        }
        {
            if s.chance(1, 3) {
                let v = *s.pick(&[0u32, 1, 64, 200]);
                x = x.set_width(v);
                if v > 0 { m.w = Some(v); }
            }
        }
        {
            if s.chance(1, 3) {
                let v = *s.pick(&[0u32, 1, 20, 200]);
                x = x.set_height(v);
                if v > 0 { m.h = Some(v); }
            }
        }
        {
            if s.chance(1, 3) {
                let (t, ok) = alt(s);
                x = x.set_alt_text(&t);
                if ok { m.alt = t; }
            }
        }
        {
            if let Some((mv, name)) = gen_movement(s) {
                x = x.set_object_movement(mv);
                m.mv = name;
            }
        }
    );
    (x, m)
}

pub fn check_button(v: &VShape, n: usize, m: &Bm, at: &str) -> R {
    let same = |got: &str, want: &str| got == want || kit::xml::unescape_xstring(got) == want;
    let f = v.elem.descendants("font");
    ensure_eq!(f.len(), 1, "caption", "{at}: captions");
    let want = if m.caption.is_empty() { format!("Button {n}") } else { m.caption.clone() };
    ensure!(same(&f[0].deep_text(), &want), "caption", "{at}: caption {:?} where {want:?} expected", f[0].deep_text());
    let want = if m.mac.is_empty() { format!("[0]!Button{n}_Click") } else { format!("[0]!{}", m.mac) };
    let got = v.client()?.child("x:FmlaMacro").map(|e| e.text()).unwrap_or_default();
    ensure_eq!(got, want, "macro", "{at}: macro");
    ensure!(same(v.elem.attr("alt").unwrap_or(""), &m.alt), "alt", "{at}: alternative text {:?} where {:?} expected", v.elem.attr("alt"), m.alt);
    ensure_eq!(v.movement()?, m.mv, "movement", "{at}: movement");
    let px = |k: &str| v.style(k).and_then(|x| x.strip_suffix("pt")).and_then(|x| x.parse::<f64>().ok()).unwrap_or(-1.0) / 0.75;
    let (w, h) = (f64::from(m.w.unwrap_or(64)), f64::from(m.h.unwrap_or(20)));
    ensure!((px("width") - w).abs() < 0.01 && (px("height") - h).abs() < 0.01, "size", "{at}: {}x{} where {w}x{h} expected", px("width"), px("height"));
    Ok(())
}

#[derive(Default)]
struct Sh {
    shapes: BTreeMap<(u32, u16, u32, u32), Sm>,
    buttons: BTreeMap<(u32, u16, u32, u32), Bm>,
    images: BTreeSet<(u32, u16, u32, u32)>,
}

fn objects(s: &mut Src, c: &mut Ctx) -> R {
    let links = c14::gen_links(s);
    let img = gen_image(s, 3);
    let ns = s.small(1, 3);
    let mut wb = Workbook::new();
    let mut ms: Vec<Sh> = (0..ns).map(|_| Sh::default()).collect();
    for _ in 0..ns {
        wb.add_worksheet();
    }
    let shared = gen_shape(s, &links, c)?;
    let bshared = gen_button(s, c);
    let rounds = if s.chance(1, 6) { 2 } else { 1 };
    for round in 0..rounds {
        for _ in 0..s.span(1, 8, 60) {
            let i = s.idx(ns);
            let ws = must("sheet", wb.worksheet_from_index(i))?;
            let off = if s.chance(1, 3) { (*s.pick(&[0u32, 1, 10, 64]), *s.pick(&[0u32, 1, 5, 20])) } else { (0, 0) };
            let key = (s.u32(0, 4), s.u16(0, 3), off.1, off.0);
            match s.below(10) {
                0..=5 => {
                    let (sh, m) = if s.chance(1, 4) { shared.clone() } else { gen_shape(s, &links, c)? };
                    c.d(|| format!("sheet {i} shape at {key:?} {m:?}"));
                    if off == (0, 0) && s.bool() {
                        must("insert_shape", ws.insert_shape(key.0, key.1, &sh).map(|_| ()))?;
                    } else {
                        must("insert_shape_with_offset", ws.insert_shape_with_offset(key.0, key.1, &sh, off.0, off.1).map(|_| ()))?;
                    }
                    c.label_if(ms[i].shapes.insert(key, m).is_some(), "replaced");
                }
                6..=8 => {
                    let (x, m) = if s.chance(1, 4) { bshared.clone() } else { gen_button(s, c) };
                    c.d(|| format!("sheet {i} button at {key:?} {m:?}"));
                    if off == (0, 0) && s.bool() {
                        must("insert_button", ws.insert_button(key.0, key.1, &x).map(|_| ()))?;
                    } else {
                        must("insert_button_with_offset", ws.insert_button_with_offset(key.0, key.1, &x, off.0, off.1).map(|_| ()))?;
                    }
                    ms[i].buttons.insert(key, m);
                    c.label("button");
                }
                _ => {
                    let im = must("image", Image::new_from_buffer(&img.bytes))?;
                    must("insert_image", ws.insert_image_with_offset(key.0, key.1, &im, off.0, off.1).map(|_| ()))?;
                    ms[i].images.insert(key);
                    c.d(|| format!("sheet {i} image at {key:?}"));
                }
            }
        }
        c.label_if(round == 1, "saved twice");
        let b = save_book(&mut wb, c)?;
        b.pkg.audit()?;
        for (i, m) in ms.iter().enumerate() {
            let v = anchors(&b, i)?;
            let sp: Vec<&Anchor> = v.iter().filter(|a| a.kind == "sp").collect();
            ensure_eq!(sp.len(), m.shapes.len(), "count", "sheet {i}: shapes");
            ensure_eq!(v.len() - sp.len(), m.images.len(), "count", "sheet {i}: images");
            let mut ids = BTreeSet::new();
            for a in &v {
                let p = a.cnvpr()?;
                ensure!(ids.insert(p.attr("id").unwrap_or("").to_string()), "id", "sheet {i}: object id {:?} twice", p.attr("id"));
            }
            for (j, (a, (key, m))) in sp.iter().zip(&m.shapes).enumerate() {
                check_shape(&b, a, m, &format!("sheet {i} shape {j} at {key:?}"))?;
                ensure_eq!(a.elem.child("xdr:nvSpPr").and_then(|n| n.child("xdr:cNvSpPr")).and_then(|n| n.attr("txBox")), Some("1"), "kind", "text box");
            }
            let vs = vml_shapes(&b, i, "legacyDrawing")?;
            ensure_eq!(vs.len(), m.buttons.len(), "count", "sheet {i}: buttons");
            let mut ids = BTreeSet::new();
            for (j, (v, (key, m))) in vs.iter().zip(&m.buttons).enumerate() {
                ensure!(v.kind == "Button", "kind", "sheet {i}: a {}", v.kind);
                ensure!(ids.insert(v.id.clone()), "id", "sheet {i}: shape id {:?} twice", v.id);
                check_button(v, j + 1, m, &format!("sheet {i} button {j} at {key:?}"))?;
            }
        }
    }
    let n: usize = ms.iter().map(|m| m.shapes.len() + m.buttons.len()).sum();
    if n >= 2 {
        c.hit();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        rule: "at least two shapes or buttons in the workbook",
        level: "exploration",
        assumptions: &["objects put on the same cell and offset replace each other", "a trailing line break in the text of a shape may be dropped", "position and extent are decided by C09"],
        families: vec![fam("objects", 12000, 250_000, objects)],
        known: vec![],
    }
}
