//! Readers of drawing parts and generators of images, shared by several checks.
use crate::util::*;

/// One object of a drawing part.
#[derive(Clone, Debug)]
pub struct Anchor {
    pub edit_as: String,
    /// (col, col offset, row, row offset), offsets in pixels.
    pub from: (u32, f64, u32, f64),
    pub to: (u32, f64, u32, f64),
    pub kind: String,
    pub elem: Elem,
    pub part: String,
}

pub fn num(e: &Elem, path: &str) -> R<f64> {
    match e.at(path).and_then(|x| x.text().parse::<f64>().ok()) {
        Some(v) => Ok(v),
        None => fail!("drawing", "no number at {path} in {e:?}"),
    }
}

/// The drawing part of a sheet, if it has one.
pub fn drawing_part(b: &Book, i: usize) -> R<Option<String>> {
    let x = b.sheet(i)?;
    let part = &b.sheets[i].part;
    match x.child("drawing") {
        Some(d) => Ok(Some(b.pkg.rel(part, d.attr("r:id").unwrap_or(""))?.target.clone())),
        None => {
            ensure!(b.pkg.rels_of(part).iter().all(|r| r.kind() != "drawing"), "drawing", "sheet {i} has a drawing that it doesn't use");
            Ok(None)
        }
    }
}

pub fn anchors(b: &Book, i: usize) -> R<Vec<Anchor>> {
    let Some(part) = drawing_part(b, i)? else { return Ok(vec![]) };
    let mut v = vec![];
    for a in b.pkg.part(&part)?.children() {
        if a.name == "xdr:absoluteAnchor" {
            let k = a.children().find(|k| !matches!(k.name.as_str(), "xdr:pos" | "xdr:ext" | "xdr:clientData"));
            let k = match k { Some(k) => k.clone(), None => fail!("drawing", "empty anchor") };
            v.push(Anchor { edit_as: "chartsheet".into(), from: (0, 0., 0, 0.), to: (0, 0., 0, 0.), kind: k.name.trim_start_matches("xdr:").into(), elem: k, part: part.clone() });
            continue;
        }
        ensure!(a.name == "xdr:twoCellAnchor", "drawing", "{part}: unexpected <{}>", a.name);
        Pkg::order(a, &["xdr:from", "xdr:to", "xdr:sp", "xdr:pic", "xdr:graphicFrame", "xdr:clientData"], &part)?;
        let p = |k: &str| -> R<(u32, f64, u32, f64)> {
            let e = match a.child(k) { Some(e) => e, None => fail!("drawing", "no {k}") };
            Pkg::order(e, &["xdr:col", "xdr:colOff", "xdr:row", "xdr:rowOff"], &part)?;
            Ok((num(e, "xdr:col")? as u32, num(e, "xdr:colOff")? / 9525.0, num(e, "xdr:row")? as u32, num(e, "xdr:rowOff")? / 9525.0))
        };
        let objs: Vec<&Elem> = a.children().filter(|k| matches!(k.name.as_str(), "xdr:sp" | "xdr:pic" | "xdr:graphicFrame")).collect();
        ensure!(objs.len() == 1, "drawing", "{part}: anchor with {} objects", objs.len());
        v.push(Anchor { edit_as: a.attr("editAs").unwrap_or("").into(), from: p("xdr:from")?, to: p("xdr:to")?, kind: objs[0].name.trim_start_matches("xdr:").into(), elem: objs[0].clone(), part: part.clone() });
    }
    Ok(v)
}

impl Anchor {
    pub fn cnvpr(&self) -> R<&Elem> {
        match self.elem.descendants("xdr:cNvPr").first() {
            Some(e) => Ok(e),
            None => fail!("drawing", "no cNvPr in {:?}", self.elem),
        }
    }
}

/// A shape of a VML drawing part.
#[derive(Clone, Debug)]
pub struct VShape {
    pub id: String,
    pub spid: String,
    pub kind: String,
    pub elem: Elem,
    pub part: String,
}

/// The shapes of the VML drawing that an element of the sheet (legacyDrawing
/// or legacyDrawingHF) refers to.
pub fn vml_shapes(b: &Book, i: usize, tag: &str) -> R<Vec<VShape>> {
    let x = b.sheet(i)?;
    let Some(l) = x.child(tag) else { return Ok(vec![]) };
    let part = b.pkg.rel(&b.sheets[i].part, l.attr("r:id").unwrap_or(""))?.target.clone();
    let mut v = vec![];
    for s in b.pkg.part(&part)?.all("v:shape") {
        let ty = s.attr("type").unwrap_or("").trim_start_matches('#').to_string();
        let known: Vec<&Elem> = b.pkg.part(&part)?.all("v:shapetype").filter(|t| t.attr("id") == Some(&ty)).collect();
        ensure!(known.len() == 1, "vml", "{part}: shape type {ty:?} is declared {} times", known.len());
        let kind = match s.at("x:ClientData") {
            Some(c) => c.attr("ObjectType").unwrap_or("").to_string(),
            None => "Image".into(),
        };
        v.push(VShape { id: s.attr("id").unwrap_or("").into(), spid: s.attr("o:spid").unwrap_or("").into(), kind, elem: s.clone(), part: part.clone() });
    }
    Ok(v)
}

impl VShape {
    pub fn style(&self, key: &str) -> Option<&str> {
        self.elem.attr("style")?.split(';').filter_map(|p| p.split_once(':')).find(|(k, _)| *k == key).map(|(_, v)| v)
    }
    pub fn client(&self) -> R<&Elem> {
        match self.elem.child("x:ClientData") {
            Some(e) => Ok(e),
            None => fail!("vml", "no client data in {:?}", self.elem),
        }
    }
    pub fn anchor(&self) -> R<((u32, f64, u32, f64), (u32, f64, u32, f64))> {
        let t = self.client()?.child("x:Anchor").map(|a| a.text()).unwrap_or_default();
        let v: Vec<f64> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        ensure!(v.len() == 8, "vml", "anchor {t:?}");
        Ok(((v[0] as u32, v[1], v[2] as u32, v[3]), (v[4] as u32, v[5], v[6] as u32, v[7])))
    }
    /// The requested move/size behaviour as stored.
    pub fn movement(&self) -> R<&'static str> {
        let c = self.client()?;
        Ok(match (c.child("x:MoveWithCells").is_some(), c.child("x:SizeWithCells").is_some()) {
            (false, false) => "",
            (false, true) => "oneCell",
            (true, true) => "absolute",
            _ => "?",
        })
    }
}

/// Sizes in pixels of the lines of a sheet, as read from the saved file.
pub struct Grid {
    rows: BTreeMap<u32, (f64, bool)>,
    cols: BTreeMap<u32, (f64, bool)>,
    def_row: f64,
    /// Hidden lines count with their full size.
    pub full: bool,
}

impl Grid {
    pub fn read(b: &Book, i: usize) -> R<Grid> {
        let x = b.sheet(i)?;
        let f = |e: &Elem, k: &str| e.attr(k).and_then(|v| v.parse::<f64>().ok());
        let def_row = x.child("sheetFormatPr").and_then(|e| f(e, "defaultRowHeight")).unwrap_or(15.0);
        let mut g = Grid { rows: BTreeMap::new(), cols: BTreeMap::new(), def_row: (def_row * 4.0 / 3.0).floor(), full: false };
        for r in x.child("sheetData").map(|d| d.children().collect::<Vec<_>>()).unwrap_or_default() {
            let h = f(r, "ht").unwrap_or(def_row);
            g.rows.insert(f(r, "r").unwrap_or(0.0) as u32 - 1, ((h * 4.0 / 3.0).floor(), r.attr("hidden") == Some("1")));
        }
        for c in x.child("cols").map(|d| d.children().collect::<Vec<_>>()).unwrap_or_default() {
            let w = f(c, "width").unwrap_or(9.140625);
            let mut px = ((256.0 * w + (128.0f64 / 7.0).floor()) / 256.0 * 7.0).floor();
            // Hidden columns of default width are stored with width 0.
            if w == 0.0 && c.attr("hidden") == Some("1") {
                px = 64.0;
            }
            for k in f(c, "min").unwrap_or(1.0) as u32..=f(c, "max").unwrap_or(1.0) as u32 {
                g.cols.insert(k - 1, (px, c.attr("hidden") == Some("1")));
            }
        }
        Ok(g)
    }
    pub fn w(&self, c: u32) -> f64 {
        match self.cols.get(&c) {
            Some((w, h)) => if *h && !self.full { 0.0 } else { *w },
            None => 64.0,
        }
    }
    pub fn h(&self, r: u32) -> f64 {
        match self.rows.get(&r) {
            Some((w, h)) => if *h && !self.full { 0.0 } else { *w },
            None => self.def_row,
        }
    }
    pub fn x(&self, c: u32) -> f64 {
        let mut v = f64::from(c) * 64.0;
        for (k, _) in self.cols.range(..c) {
            v += self.w(*k) - 64.0;
        }
        v
    }
    pub fn y(&self, r: u32) -> f64 {
        let mut v = f64::from(r) * self.def_row;
        for (k, _) in self.rows.range(..r) {
            v += self.h(*k) - self.def_row;
        }
        v
    }
    /// Checks that an anchor covers the rectangle that starts at a cell plus
    /// offset and has a size, all in pixels.
    pub fn covers(&self, from: (u32, f64, u32, f64), to: (u32, f64, u32, f64), cell: (u32, u32, f64, f64), size: (f64, f64), at: &str) -> R {
        let (r, c, xo, yo) = cell;
        let (left, top) = (self.x(c) + xo, self.y(r) + yo);
        let got = (self.x(from.0) + from.1, self.y(from.2) + from.3);
        ensure!((got.0 - left).abs() < 0.01 && (got.1 - top).abs() < 0.01, "anchor", "{at}: starts at pixel {got:?} where ({left}, {top}) was requested");
        let end = (self.x(to.0) + to.1, self.y(to.2) + to.3);
        let want = (left + size.0, top + size.1);
        ensure!((end.0 - want.0).abs() <= 1.0 && (end.1 - want.1).abs() <= 1.0, "anchor", "{at}: ends at pixel {end:?} where {want:?} was requested (size {size:?})");
        // Beyond the sheet there are no cells to measure with.
        if to.0 >= 16_384 || to.2 >= 1_048_576 {
            return Ok(());
        }
        for (o, s, w) in [(from.1, self.w(from.0), "left"), (from.3, self.h(from.2), "top"), (to.1, self.w(to.0), "right"), (to.3, self.h(to.2), "bottom")] {
            ensure!(o >= 0.0 && o <= s + 0.001, "anchor", "{at}: {w} offset {o} lies outside its cell of size {s}");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ images

#[derive(Clone, Debug)]
pub struct ImgM {
    pub bytes: Vec<u8>,
    pub w: f64,
    pub h: f64,
    pub xd: f64,
    pub yd: f64,
    pub ext: &'static str,
}

impl ImgM {
    /// Displayed size in pixels, unscaled.
    pub fn px(&self) -> (f64, f64) {
        (self.w * 96.0 / self.xd, self.h * 96.0 / self.yd)
    }
}

fn junk(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.small(0, max);
    (0..n).map(|_| s.u8(0, 255)).collect()
}

/// A header of a valid image file; `tag` makes images distinct.
pub fn gen_image(s: &mut Src, tag: u32) -> ImgM {
    let dim = |s: &mut Src, hi: u32| match s.below(4) {
        0 => s.u32(1, 100),
        1 => s.u32(1, 2000),
        2 => *s.pick(&[1u32, 2, 255, 256, 257, 32, 64, 480]),
        _ => s.u32(1, hi),
    };
    let kind = s.below(4);
    let (w, h) = (dim(s, 3000), dim(s, 3000));
    let (mut xd, mut yd) = (96.0, 96.0);
    let mut b: Vec<u8> = vec![];
    let ext;
    match kind {
        0 => {
            ext = "png";
            b.extend([0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a]);
            let mut chunk = |ty: &[u8], d: &[u8]| {
                b.extend((d.len() as u32).to_be_bytes());
                b.extend(ty);
                b.extend(d);
                b.extend([1, 2, 3, 4]);
            };
            let mut ih = w.to_be_bytes().to_vec();
            ih.extend(h.to_be_bytes());
            ih.extend([8, 2, 0, 0, 0]);
            chunk(b"IHDR", &ih);
            for _ in 0..s.small(0, 3) {
                let d = junk(s, 20);
                chunk(*s.pick(&[b"gAMA", b"tEXt", b"sRGB", b"iCCP"]), &d);
            }
            if s.bool() {
                let (x, y) = (*s.pick(&[2835u32, 3780, 5669, 11811, 1000, 3937]), *s.pick(&[2835u32, 3780, 5669, 11811, 3937, 100_000]));
                let unit = s.u8(0, 1);
                let mut d = x.to_be_bytes().to_vec();
                d.extend(y.to_be_bytes());
                d.push(unit);
                if unit == 1 {
                    (xd, yd) = (f64::from(x) * 0.0254, f64::from(y) * 0.0254);
                }
                chunk(b"pHYs", &d);
            }
            chunk(b"IDAT", &tag.to_le_bytes());
            if s.bool() {
                let d = junk(s, 20);
                chunk(b"tEXt", &d);
            }
            chunk(b"IEND", &[]);
        }
        1 => {
            ext = "jpeg";
            b.extend([0xff, 0xd8]);
            let mut seg = |m: u8, d: &[u8]| {
                b.extend([0xff, m]);
                b.extend((d.len() as u16 + 2).to_be_bytes());
                b.extend(d);
            };
            if s.chance(4, 5) {
                let unit = s.u8(0, 2);
                let (x, y) = (*s.pick(&[1u16, 72, 96, 150, 300, 38, 0]), *s.pick(&[1u16, 72, 96, 150, 300, 38]));
                let mut d = b"JFIF\0\x01\x01".to_vec();
                d.push(unit);
                d.extend(x.to_be_bytes());
                d.extend(y.to_be_bytes());
                d.extend([0, 0]);
                seg(0xe0, &d);
                if unit > 0 {
                    let k = if unit == 1 { 1.0 } else { 2.54 };
                    let f = |v: u16| { let d = f64::from(v) * k; if d == 0.0 || d == 1.0 { 96.0 } else { d } };
                    (xd, yd) = (f(x), f(y));
                }
            }
            if s.chance(1, 3) {
                let mut d = b"JFXX\0".to_vec();
                d.extend([0x13, s.u8(0, 3), s.u8(0, 3), 1, 2, 3, 4, 5]);
                seg(0xe0, &d);
            }
            for _ in 0..s.small(0, 3) {
                let d = junk(s, 30);
                seg(*s.pick(&[0xe1u8, 0xe2, 0xed, 0xfe, 0xdb, 0xc4]), &d);
            }
            let mut d = vec![8];
            d.extend((h as u16).to_be_bytes());
            d.extend((w as u16).to_be_bytes());
            d.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            seg(*s.pick(&[0xc0u8, 0xc1, 0xc2, 0xc3, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb]), &d);
            if s.bool() {
                let d = junk(s, 30);
                seg(*s.pick(&[0xc4u8, 0xdd, 0xcc]), &d);
            }
            seg(0xda, &[3, 1, 0, 2, 0x11, 3, 0x11, 0, 0x3f, 0]);
            b.extend(tag.to_le_bytes());
            b.extend([0xff, 0xd9]);
        }
        2 => {
            ext = "bmp";
            b.extend(b"BM");
            b.extend((54u32 + 4).to_le_bytes());
            b.extend([0; 4]);
            b.extend(54u32.to_le_bytes());
            b.extend(40u32.to_le_bytes());
            b.extend(w.to_le_bytes());
            let hh = if s.chance(1, 3) { -(h as i32) } else { h as i32 };
            b.extend(hh.to_le_bytes());
            b.extend([1, 0, 24, 0]);
            b.extend([0; 24]);
            b.extend(tag.to_le_bytes());
        }
        _ => {
            ext = "gif";
            b.extend(if s.bool() { b"GIF89a" } else { b"GIF87a" });
            b.extend((w as u16).to_le_bytes());
            b.extend((h as u16).to_le_bytes());
            b.extend([0, 0, 0]);
            b.extend(tag.to_le_bytes());
            b.push(0x3b);
        }
    }
    ImgM { bytes: b, w: f64::from(w), h: f64::from(h), xd, yd, ext }
}

/// Requested size of an image: the scale factors after a few setter calls.
#[derive(Clone, Debug)]
pub struct Sized {
    pub sx: f64,
    pub sy: f64,
}

pub fn size_image(s: &mut Src, m: &ImgM, mut im: Image, desc: &mut String) -> (Image, Sized) {
    let mut z = Sized { sx: 1.0, sy: 1.0 };
    let (pw, ph) = m.px();
    for _ in 0..s.small(0, 3) {
        match s.below(6) {
            0 => {
                let v = s.u32(0, 400);
                im = im.set_width(v);
                if v > 0 { z.sx = f64::from(v) / pw; }
                desc.push_str(&format!(".set_width({v})"));
            }
            1 => {
                let v = s.u32(0, 400);
                im = im.set_height(v);
                if v > 0 { z.sy = f64::from(v) / ph; }
                desc.push_str(&format!(".set_height({v})"));
            }
            2 => {
                let v = *s.pick(&[0.5, 1.0, 2.0, 0.75, 0.1, 1.25, 0.0, -1.0]);
                im = im.set_scale_width(v);
                if v > 0.0 { z.sx = v; }
                desc.push_str(&format!(".set_scale_width({v})"));
            }
            3 => {
                let v = *s.pick(&[0.5, 1.0, 2.0, 0.75, 0.1, 1.25, 0.0, -1.0]);
                im = im.set_scale_height(v);
                if v > 0.0 { z.sy = v; }
                desc.push_str(&format!(".set_scale_height({v})"));
            }
            k => {
                let (w, h, keep) = (s.u32(0, 300), s.u32(0, 300), k == 4);
                im = im.set_scale_to_size(w, h, keep);
                if w > 0 && h > 0 {
                    z.sx = f64::from(w) / pw;
                    z.sy = f64::from(h) / ph;
                    if keep {
                        z.sx = z.sx.min(z.sy);
                        z.sy = z.sx;
                    }
                }
                desc.push_str(&format!(".set_scale_to_size({w},{h},{keep})"));
            }
        }
    }
    (im, z)
}

pub fn gen_movement(s: &mut Src) -> Option<(ObjectMovement, &'static str)> {
    match s.below(6) {
        0 | 1 => None,
        2 => Some((ObjectMovement::MoveAndSizeWithCells, "")),
        3 => Some((ObjectMovement::MoveButDontSizeWithCells, "oneCell")),
        4 => Some((ObjectMovement::DontMoveOrSizeWithCells, "absolute")),
        _ => Some((ObjectMovement::MoveAndSizeWithCellsAfter, "")),
    }
}
