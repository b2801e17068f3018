//! C15: serialised records land in the right cells.
use crate::fmt::*;
use crate::util::*;
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Debug)]
enum Val {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64), Str(String), Char(char), None, Some(Box<Val>), Unit, UnitStruct,
    Variant(&'static str), New(Box<Val>), NewVariant(Box<Val>), Date(f64), Chrono(Option<(i32, u32)>), Nested(Box<Rec>), Many(Vec<Rec>),
}

#[derive(Clone, Debug)]
struct Rec { name: &'static str, fields: Vec<(&'static str, Val)> }

/// What is handed to one `serialize()` call.
#[derive(Clone, Debug)]
enum Tree { One(Rec), Seq(Vec<Tree>), Tuple(Vec<Tree>), TupleStruct(Vec<Tree>), Some(Box<Tree>), New(Box<Tree>), Map(Vec<(String, Tree)>), Value(Val) }

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(v) => z.serialize_bool(*v),
            Val::I8(v) => z.serialize_i8(*v),
            Val::I16(v) => z.serialize_i16(*v),
            Val::I32(v) => z.serialize_i32(*v),
            Val::I64(v) => z.serialize_i64(*v),
            Val::U8(v) => z.serialize_u8(*v),
            Val::U16(v) => z.serialize_u16(*v),
            Val::U32(v) => z.serialize_u32(*v),
            Val::U64(v) => z.serialize_u64(*v),
            Val::F32(v) => z.serialize_f32(*v),
            Val::F64(v) => z.serialize_f64(*v),
            Val::Str(v) => z.serialize_str(v),
            Val::Char(v) => z.serialize_char(*v),
            Val::None => z.serialize_none(),
            Val::Some(v) => z.serialize_some(v),
            Val::Unit => z.serialize_unit(),
            Val::UnitStruct => z.serialize_unit_struct("Nothing"),
            Val::Variant(v) => z.serialize_unit_variant("Kind", 0, v),
            Val::New(v) => z.serialize_newtype_struct("Wrap", v),
            Val::NewVariant(v) => z.serialize_newtype_variant("Kind", 1, "With", v),
            Val::Date(v) => ExcelDateTime::from_serial_datetime(*v).expect("date").serialize(z),
            Val::Chrono(v) => rust_xlsxwriter::utility::serialize_chrono_option_naive_to_excel(&v.map(|(y, d)| chrono::NaiveDate::from_yo_opt(y, d).expect("date")), z),
            Val::Nested(v) => v.serialize(z),
            Val::Many(v) => v.serialize(z),
        }
    }
}
impl Serialize for Rec {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        let mut t = z.serialize_struct(self.name, self.fields.len())?;
        for (k, v) in &self.fields { t.serialize_field(k, v)?; }
        t.end()
    }
}
impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Tree::One(r) => r.serialize(z),
            Tree::Seq(v) => { let mut t = z.serialize_seq(Some(v.len()))?; for x in v { t.serialize_element(x)?; } t.end() }
            Tree::Tuple(v) => { let mut t = z.serialize_tuple(v.len())?; for x in v { t.serialize_element(x)?; } t.end() }
            Tree::TupleStruct(v) => { let mut t = z.serialize_tuple_struct("Pair", v.len())?; for x in v { t.serialize_field(x)?; } t.end() }
            Tree::Some(v) => z.serialize_some(v),
            Tree::New(v) => z.serialize_newtype_struct("Outer", v),
            Tree::Map(v) => { let mut t = z.serialize_map(Some(v.len()))?; for (k, x) in v { t.serialize_entry(k, x)?; } t.end() }
            Tree::Value(v) => v.serialize(z),
        }
    }
}

/// Types that can be deserialised, to declare headers without an instance.
const FIXED: [(&str, &[&str]); 4] = [("Produce", &["fruit", "cost"]), ("Student", &["name", "age", "id", "dob"]), ("One", &["a"]), ("Ünïcode", &["größe", "weird name", "a"])];
struct De<const N: usize>;
impl<'de, const N: usize> Deserialize<'de> for De<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl serde::de::Visitor<'_> for Vis {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "nothing") }
        }
        d.deserialize_struct(FIXED[N].0, FIXED[N].1, Vis)?;
        Ok(De)
    }
}

const NAMES: [&str; 6] = ["Alpha", "alpha", "Beta", "Gamma", "X", "Type With Space"];
const FIELDS: [&str; 10] = ["id", "name", "value", "cost", "a", "b", "Id", "Field Name", "größe", "x_1"];

/// A declared shape: the kinds of its fields.
#[derive(Clone, Debug)]
struct Ty { name: &'static str, fields: Vec<(&'static str, u64)>, fixed: Option<usize> }

#[derive(Clone, Debug)]
struct Col { field: &'static str, col: u16, val_fmt: Option<usize> }
#[derive(Clone, Debug)]
struct Head { row: u32, col: u16, last_col: u16, cols: Vec<Col>, next: u32, table: Option<(bool, usize)>, header: bool }

#[derive(Clone, Debug, PartialEq)]
struct TabM { at: (u32, u16, u32, u16), header: bool, total: bool, style: usize, empty: bool, names: Vec<String> }

#[derive(Default)]
struct Model {
    heads: BTreeMap<&'static str, Head>,
    cells: BTreeMap<(u32, u16), (V, Option<usize>)>,
    col_fmt: BTreeMap<u16, usize>,
    width: BTreeMap<u16, f64>,
    tables: Vec<TabM>,
    records: usize,
}

const NESTED: u64 = 20;

fn gen_val(s: &mut Src, kind: u64, tys: &[Ty]) -> Val {
    match kind {
        0 => Val::Bool(s.bool()),
        1 => Val::I8(s.any64() as i8),
        2 => Val::I16(s.any64() as i16),
        3 => Val::I32(s.any64() as i32),
        4 => Val::I64(s.any64() as i64 >> s.below(60)),
        5 => Val::U8(s.any64() as u8),
        6 => Val::U16(s.any64() as u16),
        7 => Val::U32(s.any64() as u32),
        8 => Val::U64(s.any64() >> s.below(60)),
        9 => Val::F32(gen::dec(s, -4000, 4000, 7) as f32),
        10 => Val::F64(gen::finite(s)),
        11 | 12 => Val::Str(gen::xml_text(s, 12)),
        13 => Val::Char(gen::ch(s)),
        14 => if s.chance(1, 3) { Val::None } else { let k = s.below(14); Val::Some(Box::new(gen_val(s, k, tys))) },
        15 => if s.bool() { Val::Unit } else { Val::UnitStruct },
        16 => if s.bool() { Val::Variant(s.pick(&["Red", "Green", ""])) } else { let k = s.below(14); Val::NewVariant(Box::new(gen_val(s, k, tys))) },
        17 => { let k = s.below(14); Val::New(Box::new(gen_val(s, k, tys))) }
        18 => Val::Date(f64::from(s.u32(1, 2_900_000)) + f64::from(s.u32(0, 3)) / 4.0),
        19 => Val::Chrono(s.chance(3, 4).then(|| (s.u32(1901, 2100) as i32, s.u32(1, 365)))),
        k => {
            let t = (k - NESTED) as usize;
            if s.chance(1, 4) { Val::Many((0..s.small(0, 3)).map(|_| gen_rec(s, t, tys, false)).collect()) } else {
                let v = Val::Nested(Box::new(gen_rec(s, t, tys, false)));
                if s.chance(1, 4) { Val::Some(Box::new(v)) } else { v }
            }
        }
    }
}

fn gen_rec(s: &mut Src, t: usize, tys: &[Ty], full: bool) -> Rec {
    let mut fields = vec![];
    for (n, k) in &tys[t].fields {
        // Fields can be left out with `skip_serializing_if`.
        if !full && s.chance(1, 10) { continue; }
        fields.push((*n, gen_val(s, *k, tys)));
    }
    Rec { name: tys[t].name, fields }
}

fn gen_tree(s: &mut Src, tys: &[Ty], depth: usize) -> Tree {
    if depth == 0 || s.chance(2, 5) {
        let t = s.idx(tys.len());
        return Tree::One(gen_rec(s, t, tys, false));
    }
    let many = |s: &mut Src| (0..s.small(0, 5)).map(|_| gen_tree(s, tys, depth - 1)).collect::<Vec<_>>();
    match s.below(10) {
        0..=3 => Tree::Seq(many(s)),
        4 => Tree::Tuple(many(s)),
        5 => Tree::TupleStruct(many(s)),
        6 => Tree::Some(Box::new(gen_tree(s, tys, depth - 1))),
        7 => Tree::New(Box::new(gen_tree(s, tys, depth - 1))),
        8 => { let v = many(s); Tree::Map(v.into_iter().map(|t| (gen::word(s, 5), t)).collect()) }
        _ => { let k = s.below(20); Tree::Value(gen_val(s, k, tys)) }
    }
}

impl Model {
    fn put(&mut self, at: (u32, u16), v: &Val, f: Option<usize>) {
        let num = |x: f64| V::Num(x);
        let x = match v {
            Val::Bool(v) => V::Bool(*v),
            Val::I8(v) => num(f64::from(*v)),
            Val::I16(v) => num(f64::from(*v)),
            Val::I32(v) => num(f64::from(*v)),
            Val::I64(v) => num(*v as f64),
            Val::U8(v) => num(f64::from(*v)),
            Val::U16(v) => num(f64::from(*v)),
            Val::U32(v) => num(f64::from(*v)),
            Val::U64(v) => num(*v as f64),
            Val::F32(v) => num(f64::from(*v)),
            Val::F64(v) | Val::Date(v) => num(*v),
            Val::Str(v) => V::Str(v.clone()),
            Val::Char(v) => V::Str(v.to_string()),
            Val::Variant(v) => V::Str((*v).to_string()),
            Val::None | Val::Unit | Val::UnitStruct | Val::Chrono(None) => V::Str(String::new()),
            Val::Chrono(Some((y, d))) => {
                let t = chrono::NaiveDate::from_yo_opt(*y, *d).expect("date");
                let n = (t - chrono::NaiveDate::from_ymd_opt(1899, 12, 31).expect("date")).num_days();
                num((if n > 59 { n + 1 } else { n }) as f64)
            }
            Val::Some(v) | Val::New(v) | Val::NewVariant(v) => return self.put(at, v, f),
            Val::Nested(r) => return self.rec(r),
            Val::Many(v) => { for r in v { self.rec(r); } return; }
        };
        match x {
            // An empty text only stores the format.
            V::Str(t) if t.is_empty() => { if f.is_some() { self.cells.insert(at, (V::Blank, f)); } }
            x => { self.cells.insert(at, (x, f)); }
        }
    }
    fn rec(&mut self, r: &Rec) {
        let (cols, row) = match self.heads.get_mut(r.name) {
            Some(h) => { h.next += 1; self.records += 1; (h.cols.clone(), h.next - 1) }
            None => (vec![], 0),
        };
        for (k, v) in &r.fields {
            match cols.iter().find(|c| c.field == *k) {
                Some(c) => self.put((row, c.col), v, c.val_fmt),
                None => self.inner(v),
            }
        }
    }
    /// Records inside a field without a header.
    fn inner(&mut self, v: &Val) {
        match v {
            Val::Some(v) | Val::New(v) | Val::NewVariant(v) => self.inner(v),
            Val::Nested(r) => self.rec(r),
            Val::Many(v) => { for r in v { self.rec(r); } }
            _ => {}
        }
    }
    fn tree(&mut self, t: &Tree) {
        match t {
            Tree::One(r) => self.rec(r),
            Tree::Seq(v) | Tree::Tuple(v) | Tree::TupleStruct(v) => for x in v { self.tree(x) },
            Tree::Some(v) | Tree::New(v) => self.tree(v),
            Tree::Map(v) => for (_, x) in v { self.tree(x) },
            Tree::Value(_) => {}
        }
    }
    fn close(&mut self, name: &str) {
        let Some(h) = self.heads.get_mut(name) else { return };
        let Some((total, style)) = h.table.take() else { return };
        let data = h.row + u32::from(h.header);
        let names: Vec<String> = if h.header { h.cols.iter().map(|c| match self.cells.get(&(h.row, c.col)) { Some((V::Str(t), _)) => t.clone(), _ => String::new() }).collect() } else { (1..=h.cols.len()).map(|i| format!("Column{i}")).collect() };
        // Names that only differ in case can't be columns of one table.
        let clash = names.iter().map(|n| n.to_lowercase()).collect::<BTreeSet<_>>().len() < names.len();
        let empty = h.next == data || clash;
        let last = h.next.max(data + 1) - 1;
        self.tables.push(TabM { at: (h.row, h.col, last + u32::from(total), h.last_col), header: h.header, total, style, empty, names });
    }
}

fn declare_fixed(ws: &mut Worksheet, n: usize, row: u32, col: u16, how: usize, f: &Format, o: &SerializeFieldOptions) -> Result<(), XlsxError> {
    macro_rules! go { ($i:literal) => { match how { 0 => ws.deserialize_headers::<De<$i>>(row, col).map(|_| ()), 1 => ws.deserialize_headers_with_format::<De<$i>>(row, col, f).map(|_| ()), _ => ws.deserialize_headers_with_options::<De<$i>>(row, col, o).map(|_| ()) } } }
    match n { 0 => go!(0), 1 => go!(1), 2 => go!(2), _ => go!(3) }
}

const STYLES: [(TableStyle, &str); 3] = [(TableStyle::Medium9, "TableStyleMedium9"), (TableStyle::Light1, "TableStyleLight1"), (TableStyle::Dark11, "TableStyleDark11")];

/// Declares the headers of a type at a place of its own.
fn declare(s: &mut Src, ws: &mut Worksheet, ty: &Ty, tys: &[Ty], t: usize, at: (u32, u16), pool: &[(Format, Fm, String)], m: &mut Model, c: &mut Ctx) -> R<bool> {
    let (row, col) = at;
    let how = s.idx(4).min(2);
    let hf = s.idx(pool.len());
    let mut cols: Vec<(&'static str, String, Option<usize>, Option<usize>)> = ty.fields.iter().map(|(f, _)| (*f, (*f).to_string(), None, None)).collect();
    let mut header = true;
    let mut table = None;
    let mut o = SerializeFieldOptions::new();
    let mut default_hf = if how == 1 { Some(hf) } else { None };
    let plain = how == 0;
    let mut widths: BTreeMap<&str, f64> = BTreeMap::new();
    let mut chars: HashSet<&str> = HashSet::new();
    let mut col_fmt: BTreeMap<&str, usize> = BTreeMap::new();
    if how == 2 {
        if s.bool() { o = o.set_header_format(&pool[hf].0); default_hf = Some(hf); }
        let mut custom: Vec<CustomSerializeField> = vec![];
        let mut chosen: Vec<(&'static str, String, Option<usize>, Option<usize>, bool)> = vec![];
        let mut order: Vec<usize> = (0..cols.len()).collect();
        s.shuffle(&mut order);
        let only = s.chance(1, 3);
        let want_table = s.chance(1, 3);
        let keep = s.idx(order.len());
        for (j, i) in order.into_iter().enumerate() {
            if j != keep && s.chance(1, 3) { continue; }
            let f = cols[i].0;
            let mut x = CustomSerializeField::new(f);
            let mut e = (f, f.to_string(), None, None, false);
            for _ in 0..s.small(0, 4) {
                match s.below(7) {
                    0 | 1 => { let n = if want_table { format!("{} {i}", gen::word(s, 4)) } else { gen::line_text(s, 8) }; x = x.rename(n.as_str()); e.1 = n; }
                    2 => { let k = s.idx(pool.len()); x = x.set_header_format(&pool[k].0); e.2 = Some(k); }
                    3 => { let k = s.idx(pool.len()); x = x.set_value_format(&pool[k].0); e.3 = Some(k); }
                    4 => { let k = s.idx(pool.len()); x = x.set_column_format(&pool[k].0); col_fmt.insert(f, k); }
                    5 if j != keep => { x = x.skip(true); e.4 = true; }
                    6 => {
                        // A width in characters is used before one in pixels.
                        if s.bool() { let w = f64::from(s.u32(2, 40)); x = x.set_column_width(w); widths.insert(f, w * 7.0 + 5.0); chars.insert(f); }
                        else { let w = s.u16(20, 300); x = x.set_column_width_pixels(w); if !chars.contains(f) { widths.insert(f, f64::from(w)); } }
                    }
                    _ => {}
                }
            }
            custom.push(x);
            chosen.push(e);
        }
        o = o.set_custom_headers(&custom);
        if only { o = o.use_custom_headers_only(true); c.label("custom headers only"); }
        cols = if only { chosen.into_iter().filter(|e| !e.4).map(|e| (e.0, e.1, e.2, e.3)).collect() } else {
            cols.into_iter().filter_map(|x| match chosen.iter().find(|e| e.0 == x.0) { Some(e) if e.4 => None, Some(e) => Some((e.0, e.1.clone(), e.2, e.3)), None => Some(x) }).collect()
        };
        if s.chance(1, 4) { o = o.hide_headers(true); header = false; c.label("hidden headers"); }
        if want_table {
            let st = s.idx(3);
            let total = s.chance(1, 4);
            o = if total { o.set_table(Table::new().set_total_row(true).set_style(STYLES[st].0)) } else { match s.below(3) { 0 => { table = Some((false, 0)); o.set_table_default() } 1 => o.set_table_style(STYLES[st].0), _ => o.set_table(&Table::new().set_style(STYLES[st].0)) } };
            if table.is_none() { table = Some((total, st)); }
            c.label("table");
        }
    }
    let r = match ty.fixed {
        Some(n) if s.bool() => { c.label("deserialised headers"); declare_fixed(ws, n, row, col, how, &pool[hf].0, &o) }
        _ => {
            let p = gen_rec(s, t, tys, true);
            match how { 0 => ws.serialize_headers(row, col, &p).map(|_| ()), 1 => ws.serialize_headers_with_format(row, col, &p, &pool[hf].0).map(|_| ()), _ => ws.serialize_headers_with_options(row, col, &p, &o).map(|_| ()) }
        }
    };
    // The table of the headers before needs a record.
    if matches!(r, Err(XlsxError::TableError(_))) {
        m.close(ty.name);
        if m.tables.iter().any(|t| t.empty) {
            return Ok(false);
        }
    }
    must("headers", r)?;
    c.d(|| format!("headers of {} at {row},{col} how {how} header {header} table {table:?} {cols:?} widths {widths:?} column formats {col_fmt:?}", ty.name));
    m.close(ty.name);
    let mut list = vec![];
    for (i, (f, name, h, v)) in cols.iter().enumerate() {
        let cc = col + i as u16;
        if let Some(w) = widths.get(f) { m.width.insert(cc, *w); }
        if let Some(k) = col_fmt.get(f) { m.col_fmt.insert(cc, *k); }
        if header {
            let fm = h.or(default_hf);
            if name.is_empty() {
                // usize::MAX: the default format, given explicitly.
                if fm.is_some() || plain { m.cells.insert((row, cc), (V::Blank, fm.or(Some(usize::MAX)))); }
            } else {
                m.cells.insert((row, cc), (V::Str(name.clone()), fm.or(plain.then_some(usize::MAX))));
            }
        }
        list.push(Col { field: f, col: cc, val_fmt: *v });
    }
    let last_col = col + cols.len() as u16 - 1;
    m.heads.insert(ty.name, Head { row, col, last_col, cols: list, next: row + u32::from(header), table, header });
    Ok(true)
}

/// Field and struct names which don't exist are refused.
fn dims(ws: &mut Worksheet, m: &Model, c: &mut Ctx) -> R {
    c.evals += 1;
    for (n, h) in &m.heads {
        let last = h.next.max(h.row + 1) - 1;
        let g = must("dimensions", ws.get_serialize_dimensions(n))?;
        ensure_eq!(g, (h.row, h.col, last, h.last_col), "dimensions", "{n}");
        for x in &h.cols {
            let g = must("dimensions", ws.get_serialize_column_dimensions(n, x.field))?;
            ensure_eq!(g, (h.row, x.col, last, x.col), "dimensions", "{n}.{}", x.field);
        }
        ensure!(ws.get_serialize_column_dimensions(n, "no such field").is_err(), "dimensions", "dimensions of an unknown field");
    }
    ensure!(ws.get_serialize_dimensions("No such struct").is_err(), "dimensions", "dimensions of an unknown struct");
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx, wb: &mut Workbook) -> R<(Model, Vec<(Format, Fm, String)>)> {
    let pool = gen_pool(s, 4, 3);
    let date = must("date", ExcelDateTime::parse_from_str("2024-05-06T07:08:09"))?;
    wb.set_properties(&DocProperties::new().set_creation_datetime(&date));
    let ws = wb.add_worksheet();
    let mut m = Model::default();
    let mut tys: Vec<Ty> = vec![];
    let n = s.small(1, 4);
    for i in 0..n {
        let kind = |s: &mut Src, i: usize| if i > 0 && s.chance(1, 8) { NESTED + s.below(i as u64) } else { s.below(20) };
        let ty = if s.chance(1, 3) {
            let f = s.idx(4);
            Ty { name: FIXED[f].0, fields: FIXED[f].1.iter().map(|n| (*n, kind(s, i))).collect(), fixed: Some(f) }
        } else {
            let mut names = FIELDS.to_vec();
            s.shuffle(&mut names);
            let k = s.small(1, 6);
            Ty { name: s.pick(&NAMES), fields: names.into_iter().take(k).map(|n| (n, kind(s, i))).collect(), fixed: None }
        };
        if tys.iter().any(|t| t.name == ty.name) { continue; }
        tys.push(ty);
    }
    // Nested kinds refer to the types before, which may have been dropped.
    let len = tys.len() as u64;
    for i in 0..tys.len() { for f in &mut tys[i].fields { if f.1 >= NESTED && (f.1 - NESTED >= len || f.1 - NESTED >= i as u64) { f.1 = 10; } } }
    let nested = tys.iter().any(|t| t.fields.iter().any(|f| f.1 >= NESTED));
    c.label_if(nested, "nested structs");
    c.d(|| format!("{tys:?}"));
    let mut spot = vec![0u32; tys.len()];
    for step in 0..s.span(1, 10, 30) {
        let t = s.idx(tys.len());
        if s.chance(1, 3) || step == 0 {
            let place = if spot[t] == 0 && s.chance(1, 40) { 1_040_000 } else { spot[t] + s.u32(0, 3) };
            if spot[t] > 3 { c.label("headers again"); }
            let ty = tys[t].clone();
            let col = 8 * t as u16 + s.u16(0, 2);
            if !declare(s, ws, &ty, &tys, t, (place, col), &pool, &mut m, c)? { break; }
            spot[t] = place + 1000;
        } else {
            let tree = gen_tree(s, &tys, 3);
            c.d(|| format!("serialize {tree:?}"));
            match &tree { Tree::One(r) if s.bool() => { must("serialize", ws.serialize(r))?; } _ => { must("serialize", ws.serialize(&tree))?; } }
            m.tree(&tree);
        }
        dims(ws, &m, c)?;
    }
    let names: Vec<&'static str> = m.heads.keys().copied().collect();
    for n in names { m.close(n); }
    m.tables.sort_by_key(|t| (t.at.0, t.at.1));
    Ok((m, pool))
}

fn shapes(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let (m, pool) = run(s, c, &mut wb)?;
    if m.tables.iter().any(|t| t.empty) {
        // A table needs a record: saving may be refused.
        c.label("table without records");
        c.evals += 1;
        let _ = kit::runner::guard("save", || wb.save_to_buffer())?;
        return Ok(());
    }
    let b = save_book(&mut wb, c)?;
    if m.records > 1 { c.hit(); }
    let got = b.cells(0)?;
    for (at, (v, f)) in &m.cells {
        let k = (at.0, u32::from(at.1));
        let name = cell_name(k.0, k.1);
        let plain = f.is_some_and(|i| i >= pool.len() || pool[i].1.is_default());
        if *v == V::Blank && plain && !got.contains_key(&k) { continue; }
        let Some(g) = got.get(&k) else { fail!("missing", "{name}: no cell where {v:?} was serialised") };
        let same = match (&g.v, v) { (V::Num(a), V::Num(b)) => a == b, (V::Str(a), V::Str(b)) => a == b, (a, b) => a == b };
        ensure!(same, "value", "{name}: {:?} where {v:?} was serialised", g.v);
        match f.or_else(|| m.col_fmt.get(&at.1).copied()) {
            Some(i) if i < pool.len() && !pool[i].1.is_default() => pool[i].1.check(&b, g.s, &name)?,
            // A default format given explicitly gives way to the column's.
            Some(_) if g.s != 0 && m.col_fmt.contains_key(&at.1) => pool[m.col_fmt[&at.1]].1.check(&b, g.s, &name)?,
            Some(i) if i < pool.len() => pool[i].1.check(&b, g.s, &name)?,
            _ => ensure_eq!(g.s, 0, "format", "{name}: style"),
        }
    }
    for (k, g) in &got {
        if m.cells.contains_key(&(k.0, k.1 as u16)) { continue; }
        // Rows of totals hold cells of the table.
        if m.tables.iter().any(|t| t.total && t.at.2 == k.0) { continue; }
        fail!("surplus", "{}: {:?} wasn't serialised", cell_name(k.0, k.1), g.v);
    }
    // Columns.
    let x = b.sheet(0)?;
    let mut w: BTreeMap<u16, (f64, usize)> = BTreeMap::new();
    for e in x.child("cols").map(|e| e.all("col").collect::<Vec<_>>()).unwrap_or_default() {
        let n = |k: &str| e.attr(k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
        for cc in n("min") as u16..=n("max") as u16 { w.insert(cc - 1, (if e.attr("customWidth") == Some("1") { n("width") } else { 0.0 }, n("style") as usize)); }
    }
    for cc in 0..60u16 {
        let (gw, gs) = w.get(&cc).copied().unwrap_or((0.0, 0));
        match m.width.get(&cc) {
            Some(px) => ensure!(((gw * 7.0).round() - px).abs() < 0.5, "width", "column {cc}: width {gw} where {px} pixels were set"),
            None => ensure!(gw == 0.0, "width", "column {cc}: width {gw} though none was set"),
        }
        match m.col_fmt.get(&cc) { Some(i) => pool[*i].1.check(&b, gs, &format!("column {cc}"))?, None => ensure_eq!(gs, 0, "format", "column {cc}: style") }
    }
    // Tables, in the order of their places.
    let part = &b.sheets[0].part;
    let parts: Vec<String> = x.child("tableParts").map(|e| e.all("tablePart").map(|p| b.pkg.rel(part, p.attr("r:id").unwrap_or("")).map(|r| r.target.clone())).collect::<R<Vec<_>>>()).transpose()?.unwrap_or_default();
    ensure_eq!(parts.len(), m.tables.len(), "tables", "tables");
    let mut seen = vec![];
    for p in &parts {
        let e = b.pkg.part(p)?;
        let (r1, c1, r2, c2) = parse_range(e.attr("ref").unwrap_or(""))?;
        let at = (r1, c1 as u16, r2, c2 as u16);
        seen.push((at, e.attr("name").unwrap_or("").to_string()));
        let Some(t) = m.tables.iter().find(|t| t.at == at) else { fail!("table", "table at {at:?} where {:?} expected", m.tables) };
        ensure_eq!(e.attr("headerRowCount") != Some("0"), t.header, "table", "header row");
        ensure_eq!(e.attr("totalsRowCount") == Some("1"), t.total, "table", "total row");
        ensure_eq!(e.child("tableStyleInfo").and_then(|x| x.attr("name")).unwrap_or(""), STYLES[t.style].1, "table", "style");
        let names: Vec<String> = e.child("tableColumns").map(|x| x.all("tableColumn").map(|y| y.attr("name").unwrap_or("").to_string()).collect()).unwrap_or_default();
        ensure_eq!(names, t.names, "table", "columns");
    }
    Ok(())
}

/// The same calls give the same file.
fn twice(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let (m, _) = run(s, c, &mut wb)?;
    if m.tables.iter().any(|t| t.empty) { return Ok(()); }
    let a = save_book(&mut wb, c)?;
    let tape = s.rec.clone();
    for _ in 0..3 {
        let mut wb = Workbook::new();
        run(&mut Src::replay(&tape), &mut Ctx::default(), &mut wb)?;
        let b = save_book(&mut wb, c)?;
        crate::kitchen::same_parts(&a.pkg, &b.pkg, "the same calls")?;
    }
    if m.tables.len() > 1 { c.hit(); }
    Ok(())
}

/// Wrong declarations are refused.
fn refused(s: &mut Src, c: &mut Ctx) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let ty = Ty { name: "Alpha", fields: vec![("id", 3), ("name", 11)], fixed: None };
    let p = gen_rec(s, 0, &[ty], true);
    let what = s.below(5);
    let r = match what {
        0 => ws.serialize_headers_with_options(0, 0, &p, &SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("Name")])).err(),
        1 => ws.serialize_headers(MAXR + 1, 0, &p).err(),
        2 => ws.serialize_headers(0, MAXC + 1, &p).err(),
        3 => { let k = s.below(14); let v = gen_val(s, k, &[]); ws.serialize_headers(0, 0, &v).err() }
        _ => ws.serialize_headers_with_options(0, 0, &p, &SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("id").skip(true), CustomSerializeField::new("name").skip(true)])).err(),
    };
    c.d(|| format!("case {what}: {r:?}"));
    ensure!(r.is_some(), "accepted", "a wrong declaration ({what}) was accepted");
    must("serialize", ws.serialize(&p))?;
    let b = save_book(&mut wb, c)?;
    ensure!(b.cells(0)?.is_empty(), "surplus", "cells {:?} without headers", b.cells(0)?);
    c.hit();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "at least two records were serialised below declared headers (twice: at least two serialised tables; refused: every case)",
        level: "exploration",
        assumptions: &[
            "every struct type has columns of its own; the type of a nested struct isn't that of the struct around it",
            "empty texts and missing options write no cell unless a value format is set",
            "fields holding sequences of values or maps are a documented limitation and not generated",
            "saving a serialised table without records may be refused",
        ],
        known: vec![],
        families: vec![fam("shapes", 20000, 800_000, shapes), fam("twice", 600, 40_000, twice), fam("refused", 200, 5_000, refused)],
    }
}
