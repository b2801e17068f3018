//! C22: images are embedded byte-exact and each use shows its own image.
use crate::draw::*;
use crate::util::*;

/// Alternative text and flags an image object was given.
#[derive(Clone, Debug)]
struct Use {
    img: usize,
    alt: String,
    deco: bool,
    name: String,
    sx: f64,
    sy: f64,
    desc: String,
}

#[derive(Default)]
pub struct Sh {
    ins: BTreeMap<(u32, u16, u32, u32), Use>,
    emb: BTreeMap<(u32, u16), Use>,
    bg: Option<Use>,
    hf: BTreeMap<&'static str, Use>,
    notes: usize,
    buttons: usize,
    charts: usize,
}

fn alt_text(s: &mut Src) -> String {
    match s.below(6) {
        0 => gen::line_text(s, 30),
        1 => "é".repeat(255),
        2 => "x".repeat(256),
        _ => gen::line_text(s, 12),
    }
}

fn gen_use(s: &mut Src, pool: &[ImgM]) -> R<(Image, Use)> {
    let i = s.idx(pool.len());
    let m = &pool[i];
    // Images also come from files, which give them a name.
    let stem = if s.chance(1, 12) { Some(gen::word(s, 8) + s.pick(&["", " & co", "é", ".v1", "<1>"])) } else { None };
    let mut im = match &stem {
        None => must("Image::new_from_buffer", Image::new_from_buffer(&m.bytes))?,
        Some(n) => {
            static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let dir = std::env::temp_dir().join(format!("vp-c22-{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
            std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "scratch".into(), msg: e.to_string() })?;
            // The kind of image is that of the data, whatever the extension.
            let path = dir.join(format!("{n}.{}", s.pick(&["png", "jpg", "dat", "bmp"])));
            let r = std::fs::write(&path, &m.bytes).map_err(XlsxError::from).and_then(|()| Image::new(&path));
            let _ = std::fs::remove_dir_all(&dir);
            must("Image::new", r)?
        }
    };
    let mut u = Use { img: i, alt: String::new(), deco: false, name: stem.unwrap_or("image".into()), sx: 1.0, sy: 1.0, desc: format!("image #{i}") };
    shuffled!(s;
        {
            if s.bool() {
                let t = alt_text(s);
                im = im.set_alt_text(&t);
                if t.chars().count() <= 255 {
                    u.alt = t;
                }
            }
        }
        {
            if s.chance(1, 3) {
                u.deco = s.bool();
                im = im.set_decorative(u.deco);
            }
        }
        {
            if s.chance(1, 3) {
                u.name = gen::line_text(s, 10);
                im = im.set_vml_name(&u.name);
            }
        }
        {
            let (sized, z) = size_image(s, m, im, &mut u.desc);
            im = sized;
            u.sx = z.sx;
            u.sy = z.sy;
        }
    );
    u.desc.push_str(&format!(" alt {:?} decorative {} name {:?}", u.alt, u.deco, u.name));
    Ok((im, u))
}

const POS: [(&str, &str, HeaderImagePosition, bool); 6] = [
    ("LH", "&L", HeaderImagePosition::Left, true),
    ("CH", "&C", HeaderImagePosition::Center, true),
    ("RH", "&R", HeaderImagePosition::Right, true),
    ("LF", "&L", HeaderImagePosition::Left, false),
    ("CF", "&C", HeaderImagePosition::Center, false),
    ("RF", "&R", HeaderImagePosition::Right, false),
];

pub fn op(s: &mut Src, ws: &mut Worksheet, m: &mut Sh, pool: &[ImgM], c: &mut Ctx) -> R {
    let (im, u) = gen_use(s, pool)?;
    match s.weighted(&[8, 6, 2, 5, 1, 1, 1]) {
        0 => {
            let (r, k) = (s.u32(0, 5), s.u16(0, 4));
            let (x, y) = if s.bool() { (0, 0) } else { (s.u32(0, 20), s.u32(0, 10)) };
            c.d(|| format!("insert {} at ({r},{k})+({x},{y})", u.desc));
            if (x, y) == (0, 0) && s.bool() {
                must("insert_image", ws.insert_image(r, k, &im))?;
            } else {
                must("insert_image_with_offset", ws.insert_image_with_offset(r, k, &im, x, y))?;
            }
            m.ins.insert((r, k, y, x), u);
            c.label("inserted");
        }
        1 => {
            let (r, k) = (s.u32(0, 5), s.u16(0, 4));
            c.d(|| format!("embed {} at ({r},{k})", u.desc));
            if s.bool() {
                must("embed_image", ws.embed_image(r, k, &im))?;
            } else {
                must("embed_image_with_format", ws.embed_image_with_format(r, k, &im, &Format::new().set_bold()))?;
            }
            m.emb.insert((r, k), u);
            c.label("embedded");
        }
        2 => {
            c.d(|| format!("background {}", u.desc));
            ws.insert_background_image(&im);
            m.bg = Some(u);
            c.label("background");
        }
        3 => {
            let (id, _, p, head) = POS[s.idx(6)].clone();
            c.d(|| format!("{id} {}", u.desc));
            let t = *s.pick(&["&L&G&C&G&R&G", "&L&[Picture]&Ca&[Picture]&R&[Picture]", "&CX&G&L&Gy&R&G"]);
            if head {
                ws.set_header(t);
                must("set_header_image", ws.set_header_image(&im, p))?;
            } else {
                ws.set_footer(t);
                must("set_footer_image", ws.set_footer_image(&im, p))?;
            }
            m.hf.insert(id, u);
            c.label("header/footer");
        }
        4 => {
            must("insert_note", ws.insert_note(s.u32(0, 3), 9, &Note::new("n")))?;
            m.notes += 1;
        }
        5 => {
            must("insert_button", ws.insert_button(m.buttons as u32, 8, &Button::new()))?;
            m.buttons += 1;
        }
        _ => {
            let mut ch = Chart::new_line();
            ch.add_series().set_values("Sheet1!$A$1:$A$2");
            must("insert_chart", ws.insert_chart(20 + m.charts as u32, 1, &ch))?;
            m.charts += 1;
        }
    }
    Ok(())
}

fn media<'a>(b: &'a Book, part: &str, id: &str, m: &ImgM, at: &str) -> R<String> {
    let r = b.pkg.rel(part, id)?;
    ensure!(r.kind() == "image" && !r.external, "media", "{at}: {id} is a {} relationship", r.kind());
    let bytes = match b.pkg.bytes.get(&r.target) {
        Some(x) => x,
        None => fail!("media", "{at}: {} is missing", r.target),
    };
    ensure!(*bytes == m.bytes, "media", "{at}: {} does not hold the bytes of the image", r.target);
    ensure!(r.target.ends_with(&format!(".{}", m.ext)), "media", "{at}: {} is a {} image", r.target, m.ext);
    let ct = b.pkg.content_type(&r.target).unwrap_or("");
    ensure!(ct == format!("image/{}", m.ext), "media", "{at}: {} has content type {ct}", r.target);
    Ok(r.target.clone())
}

fn uses(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.small(1, 6);
    let mut pool: Vec<ImgM> = vec![];
    for i in 0..n {
        // Images that differ in few bytes, anywhere in the file.
        if i > 0 && s.chance(1, 3) {
            let k = s.idx(i);
            let fill = *s.pick(&[0usize, 10, 600, 5000, 70_000]);
            let len = pool[k].bytes.len();
            pool[k].bytes.extend(vec![7; fill]);
            let mut m = pool[k].clone();
            match s.below(3) {
                0 => m.bytes.push(i as u8),
                1 if fill > 0 => {
                    let at = len + s.idx(fill);
                    m.bytes[at] = 100 + i as u8;
                }
                _ => m.bytes.extend([i as u8, 9, 9]),
            }
            pool.push(m);
            c.label("near copy");
        } else {
            pool.push(gen_image(s, i as u32));
        }
    }
    for (i, m) in pool.iter().enumerate() {
        c.d(|| format!("image #{i}: {} {}x{} dpi {:.2}x{:.2}", m.ext, m.w, m.h, m.xd, m.yd));
        c.label(m.ext);
        let im = must("Image::new_from_buffer", guard("Image::new_from_buffer", || Image::new_from_buffer(&m.bytes))?)?;
        ensure!(im.width() == m.w && im.height() == m.h, "size", "image #{i} is read as {}x{}", im.width(), im.height());
        ensure!((im.width_dpi() - m.xd).abs() < 1e-9 && (im.height_dpi() - m.yd).abs() < 1e-9, "dpi", "image #{i} is read with resolution {}x{} (expected {}x{})", im.width_dpi(), im.height_dpi(), m.xd, m.yd);
    }
    let ns = s.small(1, 4);
    let mut wb = Workbook::new();
    let mut models: Vec<Sh> = vec![];
    for _ in 0..ns {
        wb.add_worksheet();
        models.push(Sh::default());
    }
    for _ in 0..s.span(1, 14, 60) {
        let i = s.idx(ns);
        c.d(|| format!("-- sheet {i}"));
        let ws = must("worksheet_from_index", wb.worksheet_from_index(i))?;
        op(s, ws, &mut models[i], &pool, c)?;
    }
    let total: usize = models.iter().map(|m| m.ins.len() + m.emb.len() + m.hf.len() + usize::from(m.bg.is_some())).sum();
    if total >= 2 {
        c.hit();
    }
    let b = save_book(&mut wb, c)?;
    b.pkg.audit()?;
    // Media used per kind of use, by image.
    let mut per: BTreeMap<(&str, usize), BTreeSet<String>> = BTreeMap::new();
    for (i, m) in models.iter().enumerate() {
        let x = b.sheet(i)?;
        let part = b.sheets[i].part.clone();
        // Worksheet images.
        let an = anchors(&b, i)?;
        let pics: Vec<&Anchor> = an.iter().filter(|a| a.kind == "pic").collect();
        ensure_eq!(pics.len(), m.ins.len(), "count", "sheet {i}: number of pictures");
        let g = Grid::read(&b, i)?;
        let mut left: Vec<&Anchor> = pics.clone();
        for ((r, k, y, xo), u) in &m.ins {
            let at = format!("sheet {i} picture at ({r},{k})+({xo},{y}) [{}]", u.desc);
            let (lx, ty) = (g.x(u32::from(*k)) + f64::from(*xo), g.y(*r) + f64::from(*y));
            // Pictures are stored in order of their position.
            let mut why = None;
            let mut hit = None;
            for (j, a) in left.iter().enumerate() {
                if (g.x(a.from.0) + a.from.1 - lx).abs() > 0.01 || (g.y(a.from.2) + a.from.3 - ty).abs() > 0.01 {
                    continue;
                }
                let r = check_pic(&b, a, u, &pool, &at);
                match r {
                    Ok(t) => { hit = Some((j, t)); break; }
                    Err(e) => why = Some(e),
                }
            }
            match (hit, why) {
                (Some((j, t)), _) => {
                    left.remove(j);
                    per.entry(("sheet", u.img)).or_default().insert(t);
                }
                (None, Some(e)) => return Err(e),
                (None, None) => fail!("picture", "{at}: no picture at this position"),
            }
        }
        // Embedded images.
        let cells = b.cells(i)?;
        for ((r, k), u) in &m.emb {
            let at = format!("sheet {i} embedded image in ({r},{k}) [{}]", u.desc);
            let cell = match cells.get(&(*r, u32::from(*k))) { Some(c) => c, None => fail!("embed", "{at}: no cell") };
            ensure!(cell.v == V::Err("#VALUE!".into()), "embed", "{at}: cell holds {:?}", cell.v);
            let t = check_embedded(&b, cell.vm.as_deref(), u, &pool, &at)?;
            per.entry(("cell", u.img)).or_default().insert(t);
        }
        for ((r, k), cell) in &cells {
            ensure!(cell.vm.is_none() || m.emb.contains_key(&(*r, *k as u16)), "embed", "sheet {i} cell ({r},{k}) shows an image");
        }
        // Background.
        match (&m.bg, x.child("picture")) {
            (Some(u), Some(p)) => {
                let t = media(&b, &part, p.attr("r:id").unwrap_or(""), &pool[u.img], &format!("sheet {i} background"))?;
                per.entry(("background", u.img)).or_default().insert(t);
            }
            (None, None) => {}
            (a, g) => fail!("background", "sheet {i}: background {:?} where {:?} expected", g, a.as_ref().map(|u| u.img)),
        }
        // Header and footer.
        let vs = vml_shapes(&b, i, "legacyDrawingHF")?;
        let got: BTreeSet<&str> = vs.iter().map(|v| v.id.as_str()).collect();
        let want: BTreeSet<&str> = m.hf.keys().copied().collect();
        ensure_eq!(got, want, "header", "sheet {i}: header/footer images");
        ensure_eq!(vs.len(), want.len(), "header", "sheet {i}: header/footer images");
        let ids: BTreeSet<&str> = vs.iter().map(|v| v.spid.as_str()).collect();
        ensure!(ids.len() == vs.len(), "header", "sheet {i}: header images share shape ids");
        for v in &vs {
            let u = &m.hf[v.id.as_str()];
            let at = format!("sheet {i} {} image [{}]", v.id, u.desc);
            let d = match v.elem.child("v:imagedata") { Some(d) => d, None => fail!("header", "{at}: no image data") };
            let im = &pool[u.img];
            let t = media(&b, &v.part, d.attr("o:relid").unwrap_or(""), im, &at)?;
            per.entry(("header", u.img)).or_default().insert(t);
            ensure_eq!(d.attr("o:title").unwrap_or(""), u.name, "header", "{at}: name");
            for (k, px) in [("width", im.px().0 * u.sx), ("height", im.px().1 * u.sy)] {
                let got = v.style(k).and_then(|x| x.strip_suffix("pt")).and_then(|x| x.parse::<f64>().ok()).unwrap_or(-1.0);
                ensure!((got / 0.75 - px).abs() <= 1.0, "header", "{at}: {k} {got}pt where {px} px expected");
            }
            let locked = v.elem.child("o:lock").and_then(|l| l.attr("aspectratio"));
            let scaled = u.sx != 1.0 || u.sy != 1.0;
            ensure!(scaled || locked.is_none(), "header", "{at}: aspect ratio lock {locked:?}");
        }
        let notes = vml_shapes(&b, i, "legacyDrawing")?;
        let n_notes = notes.iter().filter(|v| v.kind == "Note").count();
        ensure!(notes.len() - n_notes == m.buttons && (n_notes > 0) == (m.notes > 0), "objects", "sheet {i}: notes or buttons changed");
        ensure_eq!(an.len() - pics.len(), m.charts, "objects", "sheet {i}: charts");
    }
    for ((kind, img), parts) in &per {
        ensure!(parts.len() == 1, "dedup", "image #{img} is stored {} times for its {kind} uses: {parts:?}", parts.len());
    }
    // No unused or surplus media.
    // (an embedded image whose cell was overwritten may stay in the package).
    let rv = b.pkg.rels_of(&b.wb).iter().find(|r| r.kind() == "richValueRel").map(|r| r.target.clone()).unwrap_or_default();
    let used: BTreeSet<&String> = per.values().flatten().chain(b.pkg.rels_of(&rv).iter().map(|r| &r.target)).collect();
    for n in b.pkg.names.iter().filter(|n| n.starts_with("xl/media/")) {
        ensure!(used.contains(n), "media", "{n} is not used by any image");
    }
    Ok(())
}

fn check_pic(b: &Book, a: &Anchor, u: &Use, pool: &[ImgM], at: &str) -> R<String> {
    let blip = a.elem.descendants("a:blip");
    ensure!(blip.len() == 1, "picture", "{at}: {} blips", blip.len());
    let t = media(b, &a.part, blip[0].attr("r:embed").unwrap_or(""), &pool[u.img], at)?;
    let p = a.cnvpr()?;
    ensure_eq!(p.attr("descr").unwrap_or(""), u.alt, "alt", "{at}: alternative text");
    let deco = p.descendants("adec:decorative").iter().any(|d| d.attr("val") == Some("1"));
    ensure_eq!(deco, u.deco, "decorative", "{at}: decorative flag");
    let ext = a.elem.descendants("a:ext").into_iter().find(|e| e.attr("cx").is_some()).cloned().unwrap_or_default();
    let (pw, ph) = pool[u.img].px();
    for (k, px) in [("cx", pw * u.sx), ("cy", ph * u.sy)] {
        let got = ext.attr(k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(-1.0) / 9525.0;
        ensure!((got - px).abs() <= 1.0, "scale", "{at}: {k} is {got} px where {px} expected");
    }
    Ok(t)
}

fn check_embedded(b: &Book, vm: Option<&str>, u: &Use, pool: &[ImgM], at: &str) -> R<String> {
    let by = |k: &str| -> R<String> {
        match b.pkg.rels_of(&b.wb).iter().find(|r| r.kind() == k) {
            Some(r) => Ok(r.target.clone()),
            None => fail!("embed", "{at}: no {k} part"),
        }
    };
    let n = |v: Option<&str>, what: &str| -> R<usize> {
        match v.and_then(|v| v.parse().ok()) {
            Some(v) => Ok(v),
            None => fail!("embed", "{at}: bad {what} {v:?}"),
        }
    };
    let nth = |e: Option<&Elem>, kid: &str, i: usize, what: &str| -> R<Elem> {
        match e.and_then(|e| e.all(kid).nth(i)) {
            Some(x) => Ok(x.clone()),
            None => fail!("embed", "{at}: no {what} {i}"),
        }
    };
    let meta = b.pkg.part(&by("sheetMetadata")?)?;
    let vmi = n(vm, "vm")?;
    ensure!(vmi >= 1, "embed", "{at}: vm {vmi}");
    let bk = nth(meta.child("valueMetadata"), "bk", vmi - 1, "value metadata")?;
    let rc = nth(Some(&bk), "rc", 0, "rc")?;
    let ty = n(rc.attr("t"), "type")?;
    let mt = nth(meta.child("metadataTypes"), "metadataType", ty.wrapping_sub(1), "metadata type")?;
    ensure!(mt.attr("name") == Some("XLRICHVALUE"), "embed", "{at}: metadata type {:?}", mt.attr("name"));
    let fm = meta.all("futureMetadata").find(|f| f.attr("name") == Some("XLRICHVALUE"));
    let fb = nth(fm, "bk", n(rc.attr("v"), "value")?, "future metadata")?;
    let rvb = match fb.descendants("xlrd:rvb").first() { Some(x) => n(x.attr("i"), "rvb")?, None => fail!("embed", "{at}: no rvb") };
    let rvd = b.pkg.part(&by("rdRichValue")?)?;
    ensure_eq!(rvd.attr("count").unwrap_or("").to_string(), rvd.all("rv").count().to_string(), "embed", "{at}: rich value count");
    let rv = nth(Some(rvd), "rv", rvb, "rich value")?;
    let vs: Vec<String> = rv.all("v").map(|v| v.text()).collect();
    ensure!(vs.len() >= 2, "embed", "{at}: rich value {rv:?}");
    let relp = by("richValueRel")?;
    let rel = nth(Some(b.pkg.part(&relp)?), "rel", n(Some(&vs[0]), "relation index")?, "rich value relation")?;
    let t = media(b, &relp, rel.attr("r:id").unwrap_or(""), &pool[u.img], at)?;
    ensure_eq!(vs[1], if u.deco { "6" } else { "5" }, "decorative", "{at}: decorative flag");
    // C03 is about the encoding of unusual characters; here either is fine.
    let alt = vs.get(2).map_or("", |v| v.as_str());
    ensure!(alt == u.alt || kit::xml::unescape_xstring(alt) == u.alt, "alt", "{at}: alternative text {alt:?}");
    if !u.alt.is_empty() {
        let st = b.pkg.part(&by("rdRichValueStructure")?)?;
        let s = nth(Some(st), "s", n(rv.attr("s"), "structure")?, "structure")?;
        ensure!(s.all("k").any(|k| k.attr("n") == Some("Text")), "embed", "{at}: no place for the alternative text in the structure");
    }
    Ok(t)
}

/// Header parsing of every truncation and mutation of an image is total.
fn headers(s: &mut Src, c: &mut Ctx) -> R {
    let m = gen_image(s, 7);
    let mut b = m.bytes.clone();
    let cut = s.idx(b.len() + 1);
    if s.bool() {
        b.truncate(cut);
    }
    for _ in 0..s.small(0, 4) {
        if !b.is_empty() {
            let i = s.idx(b.len());
            b[i] = s.u8(0, 255);
        }
    }
    c.d(|| format!("{} bytes of a {} image", b.len(), m.ext));
    c.hit();
    let r = guard("Image::new_from_buffer", || Image::new_from_buffer(&b))?;
    match r {
        Ok(im) => {
            c.label("accepted");
            ensure!(im.width() >= 1.0 && im.height() >= 1.0, "size", "accepted image of size {}x{}", im.width(), im.height());
            ensure!(im.width_dpi() > 0.0 && im.height_dpi() > 0.0, "dpi", "accepted image of resolution {}x{}", im.width_dpi(), im.height_dpi());
        }
        Err(_) => c.label("refused"),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "at least two image uses in the workbook (uses); every case (headers)",
        level: "exploration",
        assumptions: &["identical images are stored once per kind of use (worksheet, cell, header/footer, background)"],
        families: vec![fam("uses", 5000, 120_000, uses), fam("headers", 20000, 500_000, headers)],
        known: vec![],
    }
}
