//! C14: hyperlinks lead where they were told to.
use crate::draw::*;
use crate::fmt::*;
use crate::util::*;

/// Where a link string leads, worked out from the documentation alone.
#[derive(Clone, Debug)]
pub struct Lm {
    pub raw: String,
    pub tip: String,
    pub text: String,
}

const SPECIAL: &[char] = &[' ', '"', '<', '>', '[', ']', '^', '`', '{', '}'];

fn is_hex(b: u8) -> bool {
    b.is_ascii_hexdigit()
}
fn escaped(u: &str) -> bool {
    u.as_bytes().windows(3).any(|w| w[0] == b'%' && is_hex(w[1]) && is_hex(w[2]))
}
fn decode(u: &str) -> String {
    let b = u.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() && is_hex(b[i + 1]) && is_hex(b[i + 2]) {
            o.push(u8::from_str_radix(&u[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// Does `target` stand for the address `url`? Addresses that already hold
/// %xx are passed on, others are escaped.
fn stands_for(target: &str, url: &str) -> bool {
    let hash = target.replace("%23", "#");
    if escaped(url) {
        return target == url || hash == url.replace("%23", "#");
    }
    let lone = target.as_bytes().iter().enumerate().any(|(i, b)| *b == b'%' && !(i + 2 < target.len() && is_hex(target.as_bytes()[i + 1]) && is_hex(target.as_bytes()[i + 2])));
    !lone && !target.contains(SPECIAL) && decode(target) == url
}

pub enum Dest {
    /// (address, anchor) of an external link.
    Ext(String, String),
    Int(String),
}

/// The destination of a link string.
pub fn dest(raw: &str) -> Dest {
    if let Some(a) = raw.strip_prefix("internal:") {
        return Dest::Int(a.into());
    }
    if raw.starts_with("mailto:") {
        return Dest::Ext(raw.into(), String::new());
    }
    let mut base = raw.to_string();
    if raw.starts_with("file:") {
        let p = path_of(raw);
        let absolute = p.starts_with("\\\\") || p.chars().nth(1) == Some(':');
        if !absolute {
            base = p;
        }
    }
    match base.split_once('#') {
        Some((b, a)) => Dest::Ext(b.into(), a.into()),
        None => Dest::Ext(base, String::new()),
    }
}
fn path_of(raw: &str) -> String {
    raw.strip_prefix("file:///").or(raw.strip_prefix("file://")).unwrap_or(raw).to_string()
}

/// The text shown when none is given.
pub fn default_text(raw: &str) -> String {
    match raw {
        r if r.starts_with("internal:") => r["internal:".len()..].into(),
        r if r.starts_with("mailto:") => r["mailto:".len()..].into(),
        r if r.starts_with("file:") => path_of(r),
        r => r.into(),
    }
}

fn piece(s: &mut Src) -> String {
    match s.below(8) {
        0 => gen::word(s, 8),
        1 => (*s.pick(&[" ", "%20", "%C3%A9", "%2f", "%3C", "%5b", "%", "%%", "%zz", "%2", "a%41b", "é", "日本", "😀"])).into(),
        2 => (*s.pick(&["\"", "<", ">", "[x]", "^", "`", "{a}", "&", "&amp;", "'", "?a=1&b=2", "+", "~", "\\", "|", ";", ",", "@", "!", "$", "(", ")", "*", "="])).into(),
        3 => "/".into(),
        4 => (*s.pick(&["index.html", "a-b_c", "Sheet1", "Chart", "Book2.xlsx", "A1", ":8080"])).into(),
        _ => gen::word(s, 4),
    }
}
fn pieces(s: &mut Src, n: usize) -> String {
    let n = s.small(1, n);
    (0..n).map(|_| piece(s)).collect()
}
pub fn gen_anchor(s: &mut Src) -> String {
    match s.below(6) {
        0 => "Sheet1!A1".into(),
        1 => "'Sales Data'!A1:G5".into(),
        2 => "top".into(),
        3 => format!("{}#{}", gen::word(s, 3), gen::word(s, 3)),
        4 => "'It''s'!$B$2".into(),
        _ => pieces(s, 4),
    }
}

pub fn gen_link(s: &mut Src) -> String {
    let mut u = match s.below(9) {
        0..=2 => format!("{}{}{}", s.pick(&["http://", "https://", "ftp://", "ftps://"]), s.pick(&["example.com", "a.b", "localhost"]), if s.bool() { format!("/{}", pieces(s, 5)) } else { String::new() }),
        3 => return format!("mailto:{}{}", s.pick(&["jo@example.com", "a.b+c@d.e", "x"]), if s.bool() { pieces(s, 4) } else { String::new() }),
        4 | 5 => return format!("internal:{}", gen_anchor(s)),
        6 => format!("{}{}", s.pick(&["file:///", "file://"]), s.pick(&["Book2.xlsx", "..\\Sales\\Book2.xlsx", "sub/dir/Book 3.xlsx", "Some%20File.xlsx", "100% [x].xlsx", "ab:c.xlsx"])),
        7 => format!("file:///{}{}", s.pick(&["C:\\Temp\\Book1.xlsx", "D:/data/x y.xlsx", "z:\\"]), if s.bool() { pieces(s, 3) } else { String::new() }),
        _ => format!("{}\\\\server\\share\\{}", s.pick(&["file:///", "file://"]), pieces(s, 3)),
    };
    if s.chance(2, 5) {
        u.push('#');
        u.push_str(&gen_anchor(s));
    }
    u
}

/// A pool of links some of which differ in their anchors only.
pub fn gen_links(s: &mut Src) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..s.small(1, 5) {
        let u = gen_link(s);
        if !u.starts_with("internal:") && !u.starts_with("mailto:") && s.bool() {
            let b = u.split('#').next().unwrap_or("").to_string();
            v.push(format!("{b}#{}", gen_anchor(s)));
            v.push(format!("{b}#{}", gen_anchor(s)));
            v.push(b);
        }
        v.push(u);
    }
    v
}

pub fn gen_url(s: &mut Src, pool: &[String], c: &mut Ctx) -> (Url, Lm) {
    let raw = if s.chance(1, 3) { gen_link(s) } else { s.pick(pool).clone() };
    c.label(raw.split(':').next().unwrap_or(""));
    c.label_if(raw.contains('#'), "anchor");
    c.label_if(escaped(&raw), "already escaped");
    let mut u = Url::new(&raw);
    let mut m = Lm { tip: String::new(), text: default_text(&raw), raw };
    if s.chance(1, 3) {
        let t = gen::line_text(s, 20);
        u = u.set_text(&t);
        if !t.is_empty() {
            m.text = t;
        }
    }
    if s.chance(1, 3) {
        m.tip = if s.chance(1, 8) { "é".repeat(255) } else { gen::line_text(s, 20) };
        u = u.set_tip(&m.tip);
    }
    (u, m)
}

fn same(got: &str, want: &str) -> bool {
    got == want || kit::xml::unescape_xstring(got) == want
}

#[derive(Clone, Debug)]
enum Cv {
    Text(String),
    Num(f64),
    Bool(bool),
    Formula,
    Image,
    Any,
}

#[derive(Default)]
pub struct Sh {
    cells: BTreeMap<(u32, u16), Cv>,
    links: BTreeMap<(u32, u16), (Lm, bool)>,
    /// Cells that may or may not still have their link.
    maybe: BTreeSet<(u32, u16)>,
    styled: BTreeMap<(u32, u16), Option<Fm>>,
    objs: BTreeMap<String, Option<Lm>>,
}

pub fn check_object(b: &Book, a: &Anchor, want: Option<&Lm>, at: &str) -> R {
    let p = a.cnvpr()?;
    let h = p.descendants("a:hlinkClick");
    let Some(m) = want else {
        ensure!(h.is_empty(), "object", "{at}: has a link that wasn't set");
        return Ok(());
    };
    ensure_eq!(h.len(), 1, "object", "{at}: number of links");
    ensure!(same(h[0].attr("tooltip").unwrap_or(""), &m.tip), "tip", "{at}: tip {:?} where {:?} expected", h[0].attr("tooltip"), m.tip);
    let rel = b.pkg.rel(&a.part, h[0].attr("r:id").unwrap_or(""))?;
    ensure!(rel.kind() == "hyperlink", "object", "{at}: link refers to a {}", rel.kind());
    match dest(&m.raw) {
        Dest::Int(want) => {
            ensure!(!rel.external, "object", "{at}: internal link stored as external");
            let got = rel.target.strip_prefix('#').unwrap_or("");
            ensure!(got == want || stands_for(got, &want), "dest", "{at}: leads to {:?} where #{want:?} expected", rel.target);
        }
        Dest::Ext(base, anchor) => {
            ensure!(rel.external, "object", "{at}: external link stored as internal");
            let relative = m.raw.starts_with("file:") && !base.starts_with("file:");
            let full = match (relative, anchor.as_str()) {
                (true, "") => base.replace('\\', "/"),
                (true, x) => format!("{}#{x}", base.replace('\\', "/")),
                (false, _) => m.raw.clone(),
            };
            let full = full.strip_suffix('#').unwrap_or(&full).to_string();
            let got = rel.target.strip_suffix('#').or(rel.target.strip_suffix("%23")).unwrap_or(&rel.target);
            ensure!(stands_for(got, &full), "dest", "{at}: leads to {got:?} where {full:?} expected");
        }
    }
    Ok(())
}

pub fn check_cells(b: &Book, i: usize, want: &Sh) -> R {
    let part = b.sheets[i].part.clone();
    let x = b.sheet(i)?;
    let mut seen = BTreeSet::new();
    let mut rels = BTreeSet::new();
    for h in x.all("hyperlinks").flat_map(|h| h.children()) {
        ensure!(h.name == "hyperlink", "element", "<{}> in hyperlinks", h.name);
        let (r, k) = parse_cell(h.attr("ref").unwrap_or(""))?;
        let key = (r, k as u16);
        let at = format!("sheet {i} cell ({r},{k})");
        ensure!(seen.insert(key), "twice", "{at}: two links");
        let (m, object) = match want.links.get(&key) { Some(m) => m, None => fail!("extra", "{at}: has a link that wasn't written: {h:?}") };
        let at = format!("{at} link {:?}", m.raw);
        ensure!(same(h.attr("tooltip").unwrap_or(""), &m.tip), "tip", "{at}: tip {:?} where {:?} expected", h.attr("tooltip"), m.tip);
        let loc = h.attr("location").unwrap_or("");
        match dest(&m.raw) {
            Dest::Int(want) => {
                ensure!(h.attr("r:id").is_none(), "dest", "{at}: internal link with a relationship");
                ensure!(same(loc, &want), "dest", "{at}: leads to {loc:?} where {want:?} expected");
                ensure!(*object || same(h.attr("display").unwrap_or(""), &m.text), "display", "{at}: display text {:?} where {:?} expected", h.attr("display"), m.text);
            }
            Dest::Ext(base, anchor) => {
                let id = h.attr("r:id").unwrap_or("");
                ensure!(!id.is_empty(), "dest", "{at}: no relationship");
                rels.insert(id.to_string());
                let rel = b.pkg.rel(&part, id)?;
                ensure!(rel.kind() == "hyperlink" && rel.external, "dest", "{at}: relationship {rel:?}");
                ensure!(stands_for(&rel.target, &base), "dest", "{at}: leads to {:?} where {base:?} expected", rel.target);
                ensure!(same(loc, &anchor), "dest", "{at}: location {loc:?} where {anchor:?} expected");
                if let Some(d) = h.attr("display") {
                    ensure!(stands_for(d, &base) || same(d, &m.text) || same(d, &base), "display", "{at}: display text {d:?}");
                }
            }
        }
    }
    for k in want.links.keys() {
        ensure!(seen.contains(k) || want.maybe.contains(k), "missing", "sheet {i}: no link in cell {k:?}");
    }
    for r in b.pkg.rels_of(&part).iter().filter(|r| r.kind() == "hyperlink") {
        ensure!(rels.contains(&r.id), "unused", "sheet {i}: relationship {r:?} isn't used by any link");
    }
    let cells = b.cells(i)?;
    for (k, v) in &want.cells {
        let at = format!("sheet {i} cell {k:?}");
        let got = cells.get(&(k.0, u32::from(k.1)));
        let ok = match (v, got.map(|g| &g.v)) {
            (Cv::Any, _) => true,
            (Cv::Text(t), Some(V::Str(g))) => g == t,
            (Cv::Text(t), None | Some(V::Blank)) => t.is_empty(),
            (Cv::Num(n), Some(V::Num(g))) => n == g,
            (Cv::Bool(n), Some(V::Bool(g))) => n == g,
            (Cv::Formula, Some(V::Formula { .. })) | (Cv::Image, Some(V::Err(_))) => true,
            _ => false,
        };
        ensure!(ok, "cell", "{at}: holds {:?} where {v:?} expected", got.map(|g| &g.v));
        if let (Some(f), Some(g)) = (want.styled.get(k), got) {
            match f {
                Some(f) => f.check(b, g.s, &at)?,
                None => {
                    let st = b.style(g.s)?;
                    let col = st.font.child("color").and_then(|c| c.attr("theme"));
                    ensure!(st.font.child("u").is_some() && col == Some("10"), "style", "{at}: not in the hyperlink style: {:?}", st.font);
                }
            }
        }
    }
    Ok(())
}

pub fn op(s: &mut Src, ws: &mut Worksheet, m: &mut Sh, links: &[String], pool: &[(Format, Fm, String)], img: &ImgM, n: usize, c: &mut Ctx) -> R {
    let key = if !m.links.is_empty() && s.chance(1, 4) { *s.pick(&m.links.keys().copied().collect::<Vec<_>>()) } else { (s.u32(0, 8), s.u16(0, 5)) };
    let (r, k) = key;
    match s.below(16) {
        0..=6 => {
            let (mut u, mut lm) = gen_url(s, links, c);
            let fi = s.idx(pool.len());
            let f = &pool[fi];
            let api = s.below(8);
            let plain = Url::new(&lm.raw);
            let text = gen::line_text(s, 10);
            let mut styled = None;
            let res = guard("write_url", || match api {
                0 => {
                    lm.text = default_text(&lm.raw);
                    lm.tip.clear();
                    ws.write_url(r, k, lm.raw.as_str()).map(|_| ())
                }
                1 => {
                    if text.is_empty() { lm.text = default_text(&lm.raw) } else { lm.text = text.clone() }
                    lm.tip.clear();
                    ws.write_url_with_text(r, k, plain, text.as_str()).map(|_| ())
                }
                2 => {
                    styled = Some(f.1.clone());
                    ws.write_url_with_format(r, k, &u, &f.0).map(|_| ())
                }
                3 => {
                    u = Url::new(&lm.raw);
                    if text.is_empty() { lm.text = default_text(&lm.raw) } else { lm.text = text.clone() }
                    let some = fi % 2 == 0;
                    if some { styled = Some(f.1.clone()) }
                    ws.write_url_with_options(r, k, &u, text.as_str(), lm.tip.as_str(), some.then_some(&f.0)).map(|_| ())
                }
                4 => ws.write(r, k, u.clone()).map(|_| ()),
                5 => {
                    styled = Some(f.1.clone());
                    ws.write_with_format(r, k, &u, &f.0).map(|_| ())
                }
                _ => ws.write_url(r, k, &u).map(|_| ()),
            })?;
            c.d(|| format!("({r},{k}) link {:?} text {:?} tip {:?} api {api}", lm.raw, lm.text, lm.tip));
            must("write_url", res)?;
            m.cells.insert(key, Cv::Text(lm.text.clone()));
            m.styled.insert(key, styled);
            m.links.insert(key, (lm, false));
            m.maybe.remove(&key);
        }
        7 => {
            let t = gen::line_text(s, 10);
            let v = s.below(4);
            c.d(|| format!("({r},{k}) overwritten by kind {v} {t:?}"));
            c.label_if(m.links.contains_key(&key), "overwritten link");
            let (res, cv) = match v {
                0 => (ws.write_string(r, k, &t).map(|_| ()), Cv::Text(t)),
                1 => (ws.write_number(r, k, 1.5).map(|_| ()), Cv::Num(1.5)),
                2 => (ws.write_boolean(r, k, true).map(|_| ()), Cv::Bool(true)),
                _ => (ws.write_formula(r, k, "=1+1").map(|_| ()), Cv::Formula),
            };
            must("overwrite", res)?;
            if !matches!(&cv, Cv::Text(t) if t.is_empty()) {
                m.styled.remove(&key);
                m.cells.insert(key, cv);
            } else {
                m.styled.remove(&key);
                m.cells.insert(key, Cv::Any);
            }
        }
        8 => {
            c.d(|| format!("({r},{k}) cleared"));
            ws.clear_cell(r, k);
            m.cells.insert(key, Cv::Any);
            m.styled.remove(&key);
            m.maybe.insert(key);
        }
        9 | 10 => {
            let mut im = must("image", Image::new_from_buffer(&img.bytes))?.set_alt_text(format!("object {n}"));
            let with = s.chance(4, 5);
            let (u, lm) = gen_url(s, links, c);
            if with {
                im = must("Image::set_url", guard("Image::set_url", || im.set_url(u))?)?;
            }
            c.d(|| format!("({r},{k}) image {n} {:?}", with.then_some(&lm)));
            must("insert_image", ws.insert_image(r, k, &im).map(|_| ()))?;
            // A later image on the same place replaces the earlier one.
            m.objs.retain(|o, _| !o.ends_with(&format!("@{r},{k}")) || !o.starts_with('i'));
            m.objs.insert(format!("i{n}@{r},{k}"), with.then_some(lm));
            c.label("image link");
        }
        11 | 12 => {
            let mut sh = Shape::textbox().set_alt_text(format!("object {n}")).set_text("x");
            let with = s.chance(4, 5);
            let (u, lm) = gen_url(s, links, c);
            if with {
                sh = must("Shape::set_url", guard("Shape::set_url", || sh.set_url(u))?)?;
            }
            c.d(|| format!("({r},{k}) shape {n} {:?}", with.then_some(&lm)));
            must("insert_shape", ws.insert_shape(r, k, &sh).map(|_| ()))?;
            m.objs.retain(|o, _| !o.ends_with(&format!("@{r},{k}")) || !o.starts_with('s'));
            m.objs.insert(format!("s{n}@{r},{k}"), with.then_some(lm));
            c.label("shape link");
        }
        13 => {
            let (u, lm) = gen_url(s, links, c);
            let im = must("Image::set_url", must("image", Image::new_from_buffer(&img.bytes))?.set_url(u))?;
            c.d(|| format!("({r},{k}) embedded image {lm:?}"));
            must("embed_image", ws.embed_image(r, k, &im).map(|_| ()))?;
            m.cells.insert(key, Cv::Image);
            m.styled.insert(key, None);
            m.links.insert(key, (lm, true));
            m.maybe.remove(&key);
            c.label("embedded image link");
        }
        14 => {
            // Other users of relationships.
            match s.below(4) {
                0 => must("insert_note", ws.insert_note(r, k, &Note::new("n")).map(|_| ()))?,
                1 => must("background", ws.insert_background_image(&must("image", Image::new_from_buffer(&img.bytes))?).name().is_empty().then_some(()).ok_or(XlsxError::ParameterError(String::new())).or(Ok(())))?,
                2 => must("header image", ws.set_header("&L&G").set_header_image(&must("image", Image::new_from_buffer(&img.bytes))?, HeaderImagePosition::Left).map(|_| ()))?,
                _ => must("chart", {
                    let mut ch = Chart::new(ChartType::Line);
                    ch.add_series().set_values(("Sheet1", 0, 0, 1, 0));
                    ws.insert_chart(r, k, &ch).map(|_| ())
                })?,
            }
            c.label("other relationships");
        }
        _ => {
            // Refused links leave nothing behind.
            let v = s.below(8);
            let body = |n: usize| "a".repeat(n);
            let (u, what): (Url, &str) = match v {
                0 => (Url::new(format!("http://{}", body(2074))), "link of 2081"),
                1 => (Url::new(format!("http://a#{}", body(2081))), "anchor of 2081"),
                2 => (Url::new("http://a").set_tip("é".repeat(256)), "tip of 256"),
                3 => (Url::new(*s.pick(&["gopher://a", "www.example.com", "", "Http://a", "C:\\x", "http:/x", "internal", "file:/x", " http://a"])), "unknown scheme"),
                4 => (Url::new("http://a").set_text(body(32768)), "text of 32768"),
                5 => (Url::new(format!("internal:{}", body(2081))), "anchor of 2081"),
                6 => (Url::new(format!("http://{}#x", body(2073))), "link of 2080"),
                _ => (Url::new(format!("http://a#{}", body(2080))), "anchor of 2080"),
            };
            let ok = v >= 6;
            let api = s.below(3);
            let api = if v == 4 { 0 } else { api };
            c.d(|| format!("({r},{k}) {what} api {api}"));
            c.label("limits");
            let res = guard("link", || match api {
                0 => ws.write_url(r, k, &u).map(|_| ()),
                1 => Image::new_from_buffer(&img.bytes).and_then(|i| i.set_url(&u)).map(|_| ()),
                _ => Shape::textbox().set_url(&u).map(|_| ()),
            })?;
            ensure_eq!(res.is_ok(), ok, "limit", "{what}: accepted");
            let right = match (&res, v) {
                (Ok(()), _) => true,
                (Err(XlsxError::MaxUrlLengthExceeded), 0 | 1 | 5) | (Err(XlsxError::ParameterError(_)), 2) | (Err(XlsxError::UnknownUrlType(_)), 3) | (Err(XlsxError::MaxStringLengthExceeded), 4) => true,
                _ => false,
            };
            ensure!(right, "error", "{what}: refused with {res:?}");
            if ok && api == 0 {
                let raw = if v == 6 { format!("http://{}#x", body(2073)) } else { format!("http://a#{}", body(2080)) };
                m.cells.insert(key, Cv::Text(raw.clone()));
                m.styled.insert(key, None);
                m.links.insert(key, (Lm { text: raw.clone(), tip: String::new(), raw }, false));
                m.maybe.remove(&key);
            }
        }
    }
    Ok(())
}

fn links(s: &mut Src, c: &mut Ctx) -> R {
    let urls = gen_links(s);
    let pool = gen_pool(s, 2, 3);
    let img = gen_image(s, 1);
    let ns = s.small(1, 3);
    let mut wb = Workbook::new();
    let mut ms: Vec<Sh> = vec![];
    for _ in 0..ns {
        wb.add_worksheet();
        ms.push(Sh::default());
    }
    for n in 0..s.span(1, 14, 90) {
        let i = s.idx(ns);
        c.d(|| format!("-- sheet {i}"));
        let ws = must("sheet", wb.worksheet_from_index(i))?;
        op(s, ws, &mut ms[i], &urls, &pool, &img, n, c)?;
    }
    if ms.iter().map(|m| m.links.len() + m.objs.len()).sum::<usize>() >= 2 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    for (i, m) in ms.iter().enumerate() {
        check_cells(&b, i, m)?;
        let an = anchors(&b, i)?;
        let mut found = BTreeSet::new();
        for a in an.iter().filter(|a| a.kind != "graphicFrame") {
            let alt = a.cnvpr()?.attr("descr").unwrap_or("").to_string();
            let n = alt.strip_prefix("object ").unwrap_or("?").to_string();
            let hit = m.objs.iter().find(|(k, _)| k[1..].starts_with(&format!("{n}@")));
            let (k, want) = match hit { Some(h) => h, None => fail!("object", "sheet {i}: unexpected object {alt:?}") };
            ensure!(found.insert(k.clone()), "object", "sheet {i}: object {alt:?} twice");
            check_object(&b, a, want.as_ref(), &format!("sheet {i} {k} {:?}", want.as_ref().map(|m| &m.raw)))?;
        }
        // Images on the same place may both be kept.
        for k in m.objs.keys() {
            ensure!(found.contains(k), "object", "sheet {i}: object {k} is missing");
        }
    }
    Ok(())
}

/// Many links on one sheet.
fn many(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let urls = gen_links(s);
    let mut m = Sh::default();
    let n = s.u32(100, 3000);
    c.d(|| format!("{n} links from {urls:?}"));
    c.hit();
    let ws = wb.add_worksheet();
    for j in 0..n {
        let raw = s.pick(&urls).clone();
        let raw = if raw.contains('#') { raw } else { format!("{raw}#{j}") };
        let key = ((j * 7919) % n, (j % 3) as u16);
        must("write_url", ws.write_url(key.0, key.1, raw.as_str()).map(|_| ()))?;
        let text = default_text(&raw);
        m.cells.insert(key, Cv::Text(text.clone()));
        m.links.insert(key, (Lm { raw, text, tip: String::new() }, false));
    }
    let b = save_book(&mut wb, c)?;
    check_cells(&b, 0, &m)
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "at least two links or linked objects in the workbook (links); every case (many)",
        level: "exploration",
        assumptions: &["a link stays on its cell when the cell's value is overwritten", "backslashes in an address need no escape"],
        families: vec![fam("links", 12000, 300_000, links), fam("many", 20, 300, many)],
        known: vec![],
    }
}
