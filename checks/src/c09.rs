//! C09: objects are anchored at the requested cell, offset and size.
use crate::draw::*;
use crate::util::*;

struct Want {
    kind: &'static str,
    /// Drawing key: row, col, y, x.
    cell: (u32, u32, f64, f64),
    size: (f64, f64),
    movement: &'static str,
    full: bool,
    desc: String,
}

fn place(s: &mut Src) -> (u32, u16, u32, u32) {
    let r = match s.below(12) {
        0..=8 => s.u32(0, 12),
        9..=10 => s.u32(0, 200),
        _ => *s.pick(&[5000u32, 65_535, 1_048_400]),
    };
    let c = match s.below(12) {
        0..=9 => s.u16(0, 12),
        10 => s.u16(0, 200),
        _ => *s.pick(&[16_300u16, 1000]),
    };
    let (x, y) = if s.bool() { (s.u32(0, 200), s.u32(0, 100)) } else if s.chance(1, 6) { (s.u32(0, 3000), s.u32(0, 1500)) } else { (0, 0) };
    (r, c, x, y)
}

fn layout(s: &mut Src, ws: &mut Worksheet, c: &mut Ctx) -> R {
    let (r, k) = (s.u32(0, 14), s.u16(0, 14));
    match s.below(9) {
        0 => { let p = s.u16(0, 200); c.d(|| format!("column {k} width {p} px")); must("set_column_width_pixels", ws.set_column_width_pixels(k, p))?; }
        1 => { let p = s.u16(0, 120); c.d(|| format!("row {r} height {p} px")); must("set_row_height_pixels", ws.set_row_height_pixels(r, p))?; }
        2 => { c.d(|| format!("hide column {k}")); must("set_column_hidden", ws.set_column_hidden(k))?; }
        3 => { c.d(|| format!("hide row {r}")); must("set_row_hidden", ws.set_row_hidden(r))?; }
        4 => { let p = s.u16(1, 60); c.d(|| format!("default row height {p} px")); ws.set_default_row_height_pixels(p); }
        5 => { let f = Format::new().set_bold(); must("set_row_format", ws.set_row_format(r, &f))?; c.d(|| format!("row {r} format")); }
        6 => { let f = Format::new().set_bold(); must("set_column_format", ws.set_column_format(k, &f))?; c.d(|| format!("column {k} format")); }
        7 => { let k2 = k + s.u16(0, 4); let p = s.u16(0, 100); c.d(|| format!("columns {k}-{k2} width {p} px")); must("set_column_range_width_pixels", ws.set_column_range_width_pixels(k, k2, p))?; }
        _ => { let w = s.u16(0, 400) as f64 / 8.0; c.d(|| format!("column {k} width {w}")); must("set_column_width", ws.set_column_width(k, w))?; }
    }
    Ok(())
}

fn objects(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ns = 1 + usize::from(s.chance(1, 4));
    let mut wants: Vec<BTreeMap<(u8, u32, u16, u32, u32), Want>> = vec![];
    let mut sheets_opts: Vec<Option<()>> = vec![];
    for i in 0..ns {
        let ws = wb.add_worksheet();
        let mut w: BTreeMap<(u8, u32, u16, u32, u32), Want> = BTreeMap::new();
        for _ in 0..s.small(0, 6) {
            layout(s, ws, c)?;
        }
        let nobj = s.small(1, 4);
        for j in 0..nobj {
            insert(s, ws, &mut w, c, j == nobj - 1)?;
            if s.chance(1, 4) && j + 1 < nobj {
                layout(s, ws, c)?;
            }
        }
        c.d(|| format!("-- end of sheet {i}"));
        wants.push(w);
        sheets_opts.push(None);
    }
    let b = save_book(&mut wb, c)?;
    for (i, w) in wants.iter().enumerate() {
        let mut g = Grid::read(&b, i)?;
        let an = anchors(&b, i)?;
        let vml = vml_shapes(&b, i, "legacyDrawing")?;
        let dr: Vec<&Want> = w.iter().filter(|(k, _)| k.0 < 3).map(|x| x.1).collect();
        let vm: Vec<&Want> = w.iter().filter(|(k, _)| k.0 >= 3).map(|x| x.1).collect();
        ensure_eq!(an.len(), dr.len(), "objects", "sheet {i}: number of drawing objects");
        ensure_eq!(vml.len(), vm.len(), "objects", "sheet {i}: number of VML shapes");
        // Each requested object is matched with one stored object.
        let mut left: Vec<usize> = (0..an.len()).collect();
        for x in &dr {
            g.full = x.full;
            let mut why = None;
            let hit = left.iter().position(|j| {
                let a = &an[*j];
                if a.kind != x.kind || a.edit_as != x.movement {
                    return false;
                }
                match g.covers(a.from, a.to, x.cell, x.size, &x.desc) {
                    Ok(()) => true,
                    Err(e) => { if why.is_none() { why = Some(e); } false }
                }
            });
            match hit {
                Some(p) => {
                    let a = &an[left.remove(p)];
                    if a.kind != "graphicFrame" {
                        let off = a.elem.descendants("a:off")[0];
                        let ext = a.elem.descendants("a:ext").into_iter().find(|e| e.attr("cx").is_some()).cloned().unwrap_or_default();
                        let f = |e: &Elem, k: &str| e.attr(k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(-1.0) / 9525.0;
                        let (lx, ty) = (g.x(x.cell.1) + x.cell.2, g.y(x.cell.0) + x.cell.3);
                        ensure!((f(off, "x") - lx).abs() < 0.01 && (f(off, "y") - ty).abs() < 0.01, "absolute", "{}: absolute position {off:?} where ({lx}, {ty}) expected", x.desc);
                        ensure!((f(&ext, "cx") - x.size.0).abs() <= 1.0 && (f(&ext, "cy") - x.size.1).abs() <= 1.0, "extent", "{}: extent {ext:?} where {:?} expected", x.desc, x.size);
                    }
                }
                None => match why {
                    Some(e) => return Err(e),
                    None => fail!("objects", "sheet {i}: no stored {} with movement {:?} for {}", x.kind, x.movement, x.desc),
                },
            }
        }
        let mut left: Vec<usize> = (0..vml.len()).collect();
        for x in &vm {
            g.full = x.full;
            let mut why = None;
            let hit = left.iter().position(|j| {
                let a = &vml[*j];
                let mv = a.movement().unwrap_or("?");
                if a.kind != x.kind || mv != x.movement {
                    return false;
                }
                match a.anchor().and_then(|(f, t)| g.covers(f, t, x.cell, x.size, &x.desc)) {
                    Ok(()) => true,
                    Err(e) => { if why.is_none() { why = Some(e); } false }
                }
            });
            match hit {
                Some(p) => {
                    let a = &vml[left.remove(p)];
                    let px = |k: &str| a.style(k).and_then(|v| v.strip_suffix("pt")).and_then(|v| v.parse::<f64>().ok()).unwrap_or(-1.0) / 0.75;
                    let want = [("margin-left", g.x(x.cell.1) + x.cell.2), ("margin-top", g.y(x.cell.0) + x.cell.3), ("width", x.size.0), ("height", x.size.1)];
                    for (k, v) in want {
                        ensure!((px(k) - v).abs() <= 1.0, "vml-style", "{}: {k} is {} px where {v} expected", x.desc, px(k));
                    }
                }
                None => match why {
                    Some(e) => return Err(e),
                    None => fail!("objects", "sheet {i}: no stored {} with movement {:?} for {}", x.kind, x.movement, x.desc),
                },
            }
        }
    }
    c.hit();
    b.pkg.audit()
}

fn insert(s: &mut Src, ws: &mut Worksheet, w: &mut BTreeMap<(u8, u32, u16, u32, u32), Want>, c: &mut Ctx, last: bool) -> R {
    let (r, k, x, y) = place(s);
    let mv = gen_movement(s);
    let full = matches!(mv, Some((ObjectMovement::MoveAndSizeWithCellsAfter, _)));
    let off = (f64::from(x), f64::from(y));
    let mut cell = (r, u32::from(k), off.0, off.1);
    let kind = s.weighted(&[5, 4, 4, 3, 3]);
    let mut desc = format!("at ({r},{k})+({x},{y})");
    let (mut key, def, size, tag): (_, &'static str, (f64, f64), &'static str);
    match kind {
        0 => {
            let m = gen_image(s, w.len() as u32);
            let im = must("image", Image::new_from_buffer(&m.bytes))?;
            let (mut im, mut z) = size_image(s, &m, im, &mut desc);
            if let Some((o, _)) = mv { im = im.set_object_movement(o); }
            key = (0, r, k, y, x);
            def = "oneCell";
            tag = "pic";
            if last && r < 20 && k < 20 && s.chance(1, 3) {
                // Fit the image into its cell: the cell's size is read from a
                // second sheet model below, so only untouched cells are used.
                let keep = s.bool();
                let (r0, k0) = (30 + r, 30 + k);
                let (mut cw, mut ch) = (64.0, f64::NAN);
                if s.bool() { let p = s.u16(1, 300); must("width", ws.set_column_width_pixels(k0, p))?; cw = f64::from(p); }
                if s.bool() { let p = s.u16(1, 300); must("height", ws.set_row_height_pixels(r0, p))?; ch = f64::from(p); }
                if ch.is_nan() {
                    let p = 1 + s.u16(0, 80);
                    must("height", ws.set_row_height_pixels(r0, p))?;
                    ch = f64::from(p);
                }
                must("insert_image_fit_to_cell", ws.insert_image_fit_to_cell(r0, k0, &im, keep))?;
                let (pw, ph) = m.px();
                z.sx = cw / pw;
                z.sy = ch / ph;
                if keep { z.sx = z.sx.min(z.sy); z.sy = z.sx; }
                key = (0, r0, k0, 0, 0);
                cell = (r0, u32::from(k0), 0.0, 0.0);
                desc.push_str(&format!(" fit to cell ({r0},{k0}) {cw}x{ch} keep={keep}"));
                c.label("fit to cell");
            } else {
                must("insert_image_with_offset", ws.insert_image_with_offset(r, k, &im, x, y))?;
            }
            size = (m.px().0 * z.sx, m.px().1 * z.sy);
            desc = format!("image {}x{} dpi {}x{} {desc}", m.w, m.h, m.xd, m.yd);
        }
        1 => {
            let mut ch = Chart::new(*s.pick(&[ChartType::Line, ChartType::Pie, ChartType::Column]));
            ch.add_series().set_values("Sheet1!$A$1:$A$3");
            let (mut cw, mut chh, mut sx, mut sy) = (480.0, 288.0, 1.0, 1.0);
            for _ in 0..s.small(0, 3) {
                match s.below(4) {
                    0 => { let v = s.u32(0, 900); ch.set_width(v); if v > 0 { cw = f64::from(v); } desc.push_str(&format!(".set_width({v})")); }
                    1 => { let v = s.u32(0, 900); ch.set_height(v); if v > 0 { chh = f64::from(v); } desc.push_str(&format!(".set_height({v})")); }
                    2 => { let v = *s.pick(&[0.5, 1.5, 2.0, 0.3, 0.0, -2.0]); ch.set_scale_width(v); if v > 0.0 { sx = v; } desc.push_str(&format!(".set_scale_width({v})")); }
                    _ => { let v = *s.pick(&[0.5, 1.5, 2.0, 0.3, 0.0, -2.0]); ch.set_scale_height(v); if v > 0.0 { sy = v; } desc.push_str(&format!(".set_scale_height({v})")); }
                }
            }
            if let Some((o, _)) = mv { ch.set_object_movement(o); }
            must("insert_chart_with_offset", ws.insert_chart_with_offset(r, k, &ch, x, y))?;
            key = (1, r, k, y, x);
            def = "";
            tag = "graphicFrame";
            size = (cw * sx, chh * sy);
            desc = format!("chart {desc}");
        }
        2 => {
            let mut sh = Shape::textbox();
            let (mut cw, mut chh) = (192.0, 120.0);
            for _ in 0..s.small(0, 2) {
                if s.bool() { let v = *s.pick(&[0u32, 5, 20, 64, 99, 250, 500]); sh = sh.set_width(v); if v > 0 { cw = f64::from(v); } desc.push_str(&format!(".set_width({v})")); }
                else { let v = *s.pick(&[0u32, 5, 20, 64, 99, 250, 500]); sh = sh.set_height(v); if v > 0 { chh = f64::from(v); } desc.push_str(&format!(".set_height({v})")); }
            }
            if let Some((o, _)) = mv { sh = sh.set_object_movement(o); }
            must("insert_shape_with_offset", ws.insert_shape_with_offset(r, k, &sh, x, y))?;
            key = (2, r, k, y, x);
            def = "";
            tag = "sp";
            size = (cw, chh);
            desc = format!("shape {desc}");
        }
        3 => {
            let mut bt = Button::new();
            let (mut cw, mut chh) = (64.0, 20.0);
            for _ in 0..s.small(0, 2) {
                if s.bool() { let v = s.u32(0, 500); bt = bt.set_width(v); if v > 0 { cw = f64::from(v); } desc.push_str(&format!(".set_width({v})")); }
                else { let v = s.u32(0, 500); bt = bt.set_height(v); if v > 0 { chh = f64::from(v); } desc.push_str(&format!(".set_height({v})")); }
            }
            if let Some((o, _)) = mv { bt = bt.set_object_movement(o); }
            must("insert_button_with_offset", ws.insert_button_with_offset(r, k, &bt, x, y))?;
            key = (3, r, k, y, x);
            def = "";
            tag = "Button";
            size = (cw, chh);
            desc = format!("button {desc}");
        }
        _ => {
            // Notes float beside their cell: one column right, one row up.
            let (r, k) = if s.chance(1, 8) { (*s.pick(&[MAXR - 1, MAXR - 2, MAXR - 3, MAXR - 4]), *s.pick(&[MAXC - 1, MAXC - 2, MAXC - 3, MAXC - 4])) } else { (r, k) };
            let mut n = Note::new("n");
            let (mut cw, mut chh) = (128.0, 74.0);
            for _ in 0..s.small(0, 2) {
                if s.bool() { let v = s.u32(0, 300); n = n.set_width(v); if v > 0 { cw = f64::from(v); } desc.push_str(&format!(".set_width({v})")); }
                else { let v = s.u32(0, 300); n = n.set_height(v); if v > 0 { chh = f64::from(v); } desc.push_str(&format!(".set_height({v})")); }
            }
            if let Some((o, _)) = mv { n = n.set_object_movement(o); }
            must("insert_note", ws.insert_note(r, k, &n))?;
            let (nr, ny) = match MAXR - r { 1 => (MAXR - 5, 14.0), 2 => (MAXR - 6, 16.0), 3 => (MAXR - 7, 16.0), _ if r == 0 => (0, 2.0), _ => (r - 1, 10.0) };
            let (nc, nx) = match MAXC - k { 1 => (MAXC - 4, 49.0), 2 => (MAXC - 5, 49.0), 3 => (MAXC - 6, 49.0), _ => (k + 1, 15.0) };
            cell = (nr, u32::from(nc), nx, ny);
            key = (4, r, k, 0, 0);
            def = "absolute";
            tag = "Note";
            size = (cw, chh);
            desc = format!("note on ({r},{k}) {desc}");
        }
    }
    let movement = mv.map_or(def, |m| m.1);
    c.d(|| format!("{desc} movement {:?} size {size:?}", mv));
    c.label(tag);
    w.insert(key, Want { kind: tag, cell, size, movement, full, desc });
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "every case inserts at least one object on a generated layout",
        level: "exploration",
        assumptions: &["line sizes are read back from the saved sheet with Excel's documented width formula", "notes float one column right and one row up of their cell, as the crate's defaults say"],
        families: vec![fam("objects", 6000, 150_000, objects)],
        known: vec![],
    }
}
