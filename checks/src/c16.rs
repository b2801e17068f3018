//! C16: the derive macro does what the options would do if they were set by hand.
//!
//! Programs of many struct definitions are generated, compiled against /repo/macros and
//! run. Each struct is serialised twice: with the options made by the macro, and with
//! options written out by the generator, whose headers come from serde itself. Both
//! workbooks must be the same, byte by byte.
use crate::util::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

const FIELDS: &[&str] = &[
    "a", "id", "name", "fruit", "cost", "unit_price", "very_long_field_name", "x1", "z42", "col_1_2", "_id", "__x", "a__b", "trailing_", "original", "r#type", "r#fn", "r#match", "Upper", "camelCase", "MIXED_Case", "größe", "a_é", "naïve_x", "value", "custom_headers", "self_", "format", "table",
    "header", "field_name", "t", "q9_", "r#async",
];
const NAMES: &[&str] = &["Produce", "A", "MyStruct", "lower", "Snake_Case", "r#struct", "Größe", "Data1", "_S", "Original"];
const CASES: &[&str] = &["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
const FORMATS: &[&str] = &[
    "Format::new().set_bold()",
    "Format::new().set_font_color(Color::Red).set_align(FormatAlign::Center)",
    "Format::new().set_border(FormatBorder::Thin).set_background_color(\"C6EFCE\")",
    "Format::new().set_num_format(\"0.00;[Red]-0.00\")",
    "Format::new().set_underline(FormatUnderline::Double).set_font_size(20)",
    "Format::new().set_pattern(FormatPattern::DarkGray).set_font_script(FormatScript::Superscript)",
    "Format::new().set_border_diagonal(FormatBorder::Thin).set_border_diagonal_type(FormatDiagonalBorder::BorderUp)",
    "my_format()",
    "self::my_format().set_font_strikethrough()",
    "super::far_format()",
    "\"0.000\"",
    "&my_format()",
    "Format::default()",
];
const TABLES: &[&str] = &[
    "Table::new()",
    "Table::new().set_style(TableStyle::Light3)",
    "Table::new().set_total_row(true).set_banded_columns(true)",
    "Table::new().set_columns(&vec![TableColumn::new().set_total_function(TableFunction::Sum)]).set_total_row(true)",
    "my_table()",
    "Table::new().set_autofilter(false)",
];
const NUMS: &[&str] = &["0.00", "$0.00", "[$-409]d \"of\" mmm", "@", "0.00%", "", "General", "#,##0;\\-#,##0"];

struct Def {
    code: String,
    /// What the struct looks like, for messages.
    text: String,
    features: BTreeSet<&'static str>,
}

fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

/// Names as serde's documentation and implementation have them.
fn serde_case(name: &str, case: &str) -> String {
    let pascal = || {
        let mut out = String::new();
        let mut up = true;
        for c in name.chars() {
            if c == '_' {
                up = true;
            } else if up {
                out.push(c.to_ascii_uppercase());
                up = false;
            } else {
                out.push(c);
            }
        }
        out
    };
    match case {
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => name.to_ascii_uppercase(),
        "PascalCase" => pascal(),
        "camelCase" => {
            let p = pascal();
            let mut c = p.chars();
            c.next().map(|f| f.to_ascii_lowercase().to_string() + c.as_str()).unwrap_or_default()
        }
        "kebab-case" => name.replace('_', "-"),
        "SCREAMING-KEBAB-CASE" => name.to_ascii_uppercase().replace('_', "-"),
        _ => name.to_string(),
    }
}

fn lit(s: &mut Src, t: &str) -> String {
    if !t.contains(['"', '\\', '\r']) && s.chance(1, 5) {
        return format!("r#\"{t}\"#");
    }
    format!("{t:?}")
}

fn a_name(s: &mut Src) -> String {
    match s.below(6) {
        0 => (*s.pick(&["Item", "Unit Price", "Ünï", "a\"b\\c", "", "x_y", "A & B <c>", "type", "日本"])).to_string(),
        1 => gen::line_text(s, 12),
        _ => gen::word(s, 6),
    }
}

/// Spreads attributes over groups of one kind.
fn grouped(s: &mut Src, kind: &str, l: &[String], out: &mut Vec<String>) {
    let mut i = 0;
    while i < l.len() {
        let n = (1 + s.idx(3)).min(l.len() - i);
        let tail = if s.chance(1, 6) { "," } else { "" };
        out.push(format!("#[{kind}({}{tail})]", l[i..i + n].join(", ")));
        i += n;
    }
}

fn a_struct(s: &mut Src, i: usize) -> Def {
    let mut features = BTreeSet::new();
    let raw = if s.chance(1, 3) { (*s.pick(NAMES)).to_string() } else { format!("S{i}") };
    if raw.starts_with("r#") {
        features.insert("raw identifiers");
    }
    let generics = s.weighted(&[8, 2, 2, 1]);
    let (decl, wher, inst) = match generics {
        1 => *s.pick(&[("<T>", "", "<f64>"), ("<T: Clone>", "", "<f64>"), ("<T>", "where T: Clone + PartialOrd", "<f64>"), ("<T = f64>", "", "")]),
        2 => ("<'a>", "", "<'static>"),
        3 => ("<const N: usize>", "", "<3>"),
        _ => ("", "", ""),
    };
    if generics > 0 {
        features.insert("generics");
    }

    // Container attributes.
    let mut case = "";
    let mut serde: Vec<String> = vec![];
    if s.chance(1, 2) {
        case = s.pick(CASES);
        features.insert("rename_all");
        serde.push(match s.below(4) {
            0 => format!("rename_all(serialize = {case:?})"),
            1 if s.bool() => format!("rename_all(deserialize = \"UPPERCASE\", serialize = {case:?})"),
            1 => format!("rename_all(serialize = {case:?}, deserialize = \"camelCase\")"),
            _ => format!("rename_all = {case:?}"),
        });
    }
    if s.chance(1, 4) {
        let n = a_name(s);
        features.insert("renamed struct");
        serde.push(match s.below(4) {
            0 => format!("rename(serialize = {n:?})"),
            1 => format!("rename(deserialize = \"other\", serialize = {n:?})"),
            _ => format!("rename = {}", lit(s, &n)),
        });
    }
    if s.chance(1, 5) {
        serde.push((*s.pick(&["deny_unknown_fields", "crate = \"serde\""])).to_string());
        features.insert("other serde attributes");
    }
    s.shuffle(&mut serde);
    let mut xlsx: Vec<String> = vec![];
    let mut by_hand: Vec<String> = vec![];
    if s.chance(1, 6) {
        xlsx.push("hide_headers".into());
        by_hand.push(".hide_headers(true)".into());
        features.insert("hidden headers");
    }
    if s.chance(1, 3) {
        let f = *s.pick(FORMATS);
        xlsx.push(format!("header_format = {f}"));
        by_hand.push(format!(".set_header_format({f})"));
        features.insert("header format");
    }
    match s.below(9) {
        0 => {
            xlsx.push("table_default".into());
            by_hand.push(".set_table_default()".into());
            features.insert("table");
        }
        1 => {
            let t = *s.pick(&["TableStyle::Medium10", "TableStyle::None", "TableStyle::Dark1", "super::far_style()"]);
            xlsx.push(format!("table_style = {t}"));
            by_hand.push(format!(".set_table_style({t})"));
            features.insert("table");
        }
        2 | 3 => {
            let t = *s.pick(TABLES);
            xlsx.push(format!("table = {t}"));
            by_hand.push(format!(".set_table({t})"));
            features.insert("table");
        }
        _ => (),
    }
    let mut order: Vec<usize> = (0..xlsx.len()).collect();
    s.shuffle(&mut order);
    let xlsx: Vec<String> = order.iter().map(|i| xlsx[*i].clone()).collect();
    let by_hand: Vec<String> = order.iter().map(|i| by_hand[*i].clone()).collect();
    let mut attrs = vec![];
    grouped(s, "xlsx", &xlsx, &mut attrs);
    grouped(s, "serde", &serde, &mut attrs);
    if s.chance(1, 6) {
        attrs.push("/// A documented struct.".into());
        attrs.push("#[allow(dead_code)]".into());
    }
    s.shuffle(&mut attrs);

    // Fields.
    let mut seen = BTreeSet::new();
    let mut decls = String::new();
    let mut customs = vec![];
    let mut makers: Vec<Vec<String>> = vec![vec![]; 4];
    let n = s.small(1, 6);
    let mut idents = BTreeSet::new();
    for k in 0..n + usize::from(generics == 1 || generics == 2) {
        let ident = *s.pick(FIELDS);
        if !idents.insert(ident) {
            if k < n {
                continue;
            }
            // The parameter has to be used.
            return a_struct_plain(i);
        }
        if ident.starts_with("r#") {
            features.insert("raw identifiers");
        }
        let mut name = serde_case(unraw(ident), case);
        if case != "" && name != unraw(ident) {
            features.insert("names in another case");
        }
        // Types and values: the first value is never skipped.
        let choice = if k == n { 20 } else { s.below(11) };
        let (ty, values): (String, Vec<String>) = match choice {
            0 | 1 => ("f64".into(), vec!["1.5".into(), format!("{:?}", f64::from(s.u32(0, 9999)) / 8.0), "0.0".into(), "-3.25".into()]),
            2 => ("i32".into(), vec!["7".into(), s.u32(0, 1000).to_string(), "0".into(), "-5".into()]),
            3 => ("u8".into(), vec!["7".into(), "255".into(), "0".into(), "1".into()]),
            4 => ("bool".into(), vec!["true".into(), "false".into(), "false".into(), "true".into()]),
            5 => ("char".into(), vec!["'x'".into(), "'é'".into(), "'<'".into(), "'0'".into()]),
            6 | 7 => ("String".into(), vec!["\"text\".to_string()".into(), format!("{:?}.to_string()", gen::line_text(s, 8)), "String::new()".into(), "\"12\".to_string()".into()]),
            8 => ("&'static str".into(), vec!["\"text\"".into(), format!("{:?}", gen::word(s, 5)), "\"\"".into(), "\"é&<\"".into()]),
            9 => ("Option<f64>".into(), vec!["Some(2.5)".into(), "None".into(), "Some(0.0)".into(), "None".into()]),
            10 => ("Option<String>".into(), vec!["Some(\"t\".to_string())".into(), "None".into(), "Some(String::new())".into(), "None".into()]),
            _ if generics == 1 => ("T".into(), vec!["1.25".into(), "2.5".into(), "0.0".into(), "9.0".into()]),
            _ => ("&'a str".into(), vec!["\"one\"".into(), "\"two\"".into(), "\"\"".into(), "\"é\"".into()]),
        };
        // serde's attributes.
        let mut serde: Vec<String> = vec![];
        let mut gone = false;
        if s.chance(1, 4) {
            let t = a_name(s);
            features.insert("renamed field");
            serde.push(match s.below(4) {
                0 => format!("rename(serialize = {t:?})"),
                1 => format!("rename(deserialize = \"other\", serialize = {t:?})"),
                _ => format!("rename = {}", lit(s, &t)),
            });
            name = t;
        }
        if s.chance(1, 5) {
            features.insert("other serde attributes");
            let mut l = vec!["default", "default = \"Default::default\"", "alias = \"other\"", "skip_deserializing", "bound = \"\"", "bound(serialize = \"\")", "deserialize_with = \"nothing\""];
            match ty.as_str() {
                "i32" => l.extend(["serialize_with = \"super::twice\"", "skip_serializing_if = \"super::zero\""]),
                "Option<f64>" | "Option<String>" => l.push("skip_serializing_if = \"Option::is_none\""),
                "String" => l.push("skip_serializing_if = \"String::is_empty\""),
                _ => (),
            }
            // A type parameter needs its bound.
            if choice == 20 { l.retain(|a| !a.starts_with("bound")); }
            let a = *s.pick(&l);
            serde.push(a.to_string());
        }
        if s.chance(1, 8) {
            // serde doesn't take both.
            serde.retain(|a| a != "skip_deserializing");
            serde.push((*s.pick(&["skip", "skip_serializing"])).to_string());
            gone = true;
            features.insert("field skipped by serde");
        }
        s.shuffle(&mut serde);
        // Attributes of the macro.
        let mut xlsx: Vec<(String, String)> = vec![];
        if s.chance(1, 4) {
            let t = a_name(s);
            features.insert("renamed header");
            xlsx.push((format!("rename = {}", lit(s, &t)), format!(".rename({t:?})")));
        }
        if s.chance(1, 5) {
            let t = *s.pick(NUMS);
            features.insert("value format");
            xlsx.push((format!("num_format = {}", lit(s, t)), format!(".set_value_format({t:?})")));
        }
        for (a, m, odds) in [("header_format", "set_header_format", 6), ("value_format", "set_value_format", 5), ("column_format", "set_column_format", 7)] {
            // Which of two attributes for the same option wins is left open.
            if s.chance(1, odds) && !(a == "value_format" && xlsx.iter().any(|x| x.0.starts_with("num_format"))) {
                let f = *s.pick(FORMATS);
                features.insert(match m {
                    "set_value_format" => "value format",
                    "set_column_format" => "column format",
                    _ => "header format",
                });
                xlsx.push((format!("{a} = {f}"), format!(".{m}({f})")));
            }
        }
        if s.chance(1, 6) {
            let w = *s.pick(&["12.0", "20.0", "8.43", "1e1", "20.5_f64", "0.0", "255.0", "0.5f32"]);
            features.insert("width");
            xlsx.push((format!("column_width = {w}"), format!(".set_column_width({w})")));
        }
        if s.chance(1, 8) && !xlsx.iter().any(|x| x.0.starts_with("column_width")) {
            let w = *s.pick(&["100", "0x40", "1_00", "50u16", "0", "64", "1790"]);
            features.insert("width");
            xlsx.push((format!("column_width_pixels = {w}"), format!(".set_column_width_pixels({w})")));
        }
        if s.chance(1, 9) {
            features.insert("field skipped by the macro");
            xlsx.push(("skip".into(), ".skip(true)".into()));
        }
        s.shuffle(&mut xlsx);
        if !gone && !seen.insert(name.clone()) {
            // Two headers of one name tell nothing.
            if k == n {
                return a_struct_plain(i);
            }
            continue;
        }
        let mut attrs = vec![];
        let (l, hand): (Vec<String>, Vec<String>) = xlsx.into_iter().unzip();
        grouped(s, "xlsx", &l, &mut attrs);
        grouped(s, "serde", &serde, &mut attrs);
        if s.chance(1, 8) {
            attrs.push((*s.pick(&["/// A field.", "#[allow(unused)]", "#[cfg(all())]"])).to_string());
        }
        s.shuffle(&mut attrs);
        let vis = *s.pick(&["pub ", "", "pub(crate) "]);
        for a in &attrs {
            writeln!(decls, "        {a}").ok();
        }
        writeln!(decls, "        {vis}{ident}: {ty},").ok();
        if !gone {
            customs.push(format!("CustomSerializeField::new({name:?}){}", hand.concat()));
        }
        for (l, v) in makers.iter_mut().zip(&values) {
            l.push(format!("{ident}: {v}"));
        }
    }
    // A struct without columns is an error, or nothing: left open.
    if customs.iter().all(|c| c.ends_with(".skip(true)") || c.contains(".skip(true).")) {
        return a_struct_plain(i);
    }
    let (row, col) = (s.u32(0, 5), s.u16(0, 5));
    let records = s.below(4);
    let text = format!("    {}\n    pub struct {raw}{decl} {wher} {{\n{decls}    }}", attrs.join("\n    "));
    let mut code = format!("mod s{i} {{\n    #[derive(derive_local::XlsxSerialize, ::serde::Serialize)]\n{text}\n");
    writeln!(code, "    type Me = {raw}{inst};").ok();
    code.push_str("    fn my_format() -> rust_xlsxwriter::Format { rust_xlsxwriter::Format::new().set_italic() }\n");
    code.push_str("    fn my_table() -> rust_xlsxwriter::Table { rust_xlsxwriter::Table::new().set_banded_rows(false) }\n");
    code.push_str("    fn values() -> Vec<Me> {\n        vec![\n");
    for m in &makers {
        writeln!(code, "            {raw} {{ {} }},", m.join(", ")).ok();
    }
    code.push_str("        ]\n    }\n");
    writeln!(
        code,
        "    pub fn run() {{
        use rust_xlsxwriter::*;
        let options = || SerializeFieldOptions::new(){}.set_custom_headers(&[{}]);
        let make = |hand: bool| -> Result<Vec<u8>, XlsxError> {{
            let mut wb = super::workbook();
            let ws = wb.add_worksheet();
            let v = values();
            if hand {{
                ws.serialize_headers_with_options({row}, {col}, &v[0], &options())?;
            }} else {{
                ws.set_serialize_headers::<Me>({row}, {col})?;
            }}
            for v in &v[..{records}] {{
                ws.serialize(v)?;
            }}
            wb.save_to_buffer()
        }};
        super::compare({i}, make(false), make(true));
    }}
}}",
        by_hand.concat(),
        customs.join(", ")
    )
    .ok();
    Def { code, text, features }
}

fn a_struct_plain(i: usize) -> Def {
    // Used where the generator led nowhere.
    let code = format!("mod s{i} {{\n    pub fn run() {{ println!(\"same {i}\"); }}\n}}\n");
    Def { code, text: String::new(), features: BTreeSet::new() }
}

const HEAD: &str = r#"#![allow(warnings)]
fn workbook() -> rust_xlsxwriter::Workbook {
    let mut wb = rust_xlsxwriter::Workbook::new();
    let date = rust_xlsxwriter::ExcelDateTime::parse_from_str("2024-05-06T07:08:09").unwrap();
    wb.set_properties(&rust_xlsxwriter::DocProperties::new().set_creation_datetime(&date));
    wb
}
fn far_format() -> rust_xlsxwriter::Format { rust_xlsxwriter::Format::new().set_font_name("Arial") }
fn far_style() -> rust_xlsxwriter::TableStyle { rust_xlsxwriter::TableStyle::Light7 }
fn zero(v: &i32) -> bool { *v == 0 }
fn twice<S: serde::Serializer>(v: &i32, s: S) -> Result<S::Ok, S::Error> { s.serialize_i32(v * 2) }
fn compare(i: usize, derived: Result<Vec<u8>, rust_xlsxwriter::XlsxError>, hand: Result<Vec<u8>, rust_xlsxwriter::XlsxError>) {
    let dir = std::env::args().nth(1).unwrap();
    match (derived, hand) {
        (Ok(a), Ok(b)) if a == b => println!("same {i}"),
        (Ok(a), Ok(b)) => {
            std::fs::write(format!("{dir}/{i}.derived.xlsx"), a).unwrap();
            std::fs::write(format!("{dir}/{i}.hand.xlsx"), b).unwrap();
            println!("differ {i}");
        }
        (Err(a), Err(b)) if a.to_string() == b.to_string() => println!("refused {i}"),
        (a, b) => println!("mixed {i} derived: {:?} by hand: {:?}", a.map(|a| a.len()).map_err(|e| e.to_string()), b.map(|a| a.len()).map_err(|e| e.to_string())),
    }
}
"#;

static SERIAL: AtomicU64 = AtomicU64::new(0);
static LOCK: Mutex<()> = Mutex::new(());

fn root() -> PathBuf {
    kit::runner::verif_dir().join("checks/target/c16")
}

fn harness<T>(what: &str) -> impl Fn(T) -> Fail + '_
where
    T: std::fmt::Display,
{
    move |e| Fail { sig: "harness".into(), msg: format!("{what}: {e}") }
}

struct Crate {
    dir: PathBuf,
    name: String,
}
impl Drop for Crate {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
        for d in ["debug", "debug/deps"] {
            for e in std::fs::read_dir(root().join("build").join(d)).into_iter().flatten().flatten() {
                if e.file_name().to_string_lossy().starts_with(&self.name) {
                    std::fs::remove_file(e.path()).ok();
                }
            }
        }
        std::fs::remove_dir_all(root().join("build/debug/.fingerprint").join(&self.name)).ok();
    }
}

/// Writes a crate of the given source; the dependencies are shared by all of them.
fn a_crate(code: &str) -> R<Crate> {
    let name = format!("gen_{}_{}", std::process::id(), SERIAL.fetch_add(1, Ordering::Relaxed));
    let dir = root().join(&name);
    let k = Crate { dir: dir.clone(), name: name.clone() };
    std::fs::create_dir_all(dir.join("src")).map_err(harness("directory"))?;
    let toml = format!(
        "[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\nrust_xlsxwriter = {{ path = \"/repo\", features = [\"serde\"] }}\nderive_local = {{ path = \"/repo/macros\", package = \"rust_xlsxwriter_derive\" }}\nserde = {{ version = \"1\", features = [\"derive\"] }}\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n\n[profile.dev.package.rust_xlsxwriter]\nopt-level = 1\n"
    );
    std::fs::write(dir.join("Cargo.toml"), toml).map_err(harness("Cargo.toml"))?;
    std::fs::write(dir.join("src/main.rs"), code).map_err(harness("main.rs"))?;
    Ok(k)
}

/// Compiles; the messages of the compiler when it fails.
fn compile(k: &Crate) -> R<Result<PathBuf, String>> {
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--message-format", "short"])
        .current_dir(&k.dir)
        .env("CARGO_TARGET_DIR", root().join("build"))
        .env("RUST_BACKTRACE", "0")
        .output()
        .map_err(harness("cargo"))?;
    if o.status.success() {
        Ok(Ok(root().join("build/debug").join(&k.name)))
    } else {
        Ok(Err(String::from_utf8_lossy(&o.stderr).into_owned()))
    }
}

/// The lines that have errors.
fn error_lines(text: &str) -> Vec<(usize, String)> {
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("src/main.rs:")?;
            let (n, rest) = rest.split_once(':')?;
            let (_, rest) = rest.split_once(": ")?;
            rest.starts_with("error").then(|| (n.parse().unwrap_or(0), rest.to_string()))
        })
        .collect()
}

fn programs(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.u32(1, 160) as usize;
    let defs: Vec<Def> = (0..n).map(|i| a_struct(s, i)).collect();
    let mut code = HEAD.to_string();
    let mut spans = vec![];
    for d in &defs {
        let from = code.lines().count() + 1;
        code.push_str(&d.code);
        spans.push((from, code.lines().count()));
    }
    code.push_str("fn main() {\n");
    for i in 0..n {
        writeln!(code, "    s{i}::run();").ok();
    }
    code.push_str("}\n");
    let _lock = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let k = a_crate(&code)?;
    let exe = match compile(&k)? {
        Ok(exe) => exe,
        Err(text) => {
            for (line, what) in error_lines(&text) {
                if let Some(i) = spans.iter().position(|x| x.0 <= line && line <= x.1) {
                    c.d(|| defs[i].text.clone());
                    fail!("compile", "a struct with documented attributes doesn't compile: {what}\n{}", defs[i].text);
                }
            }
            // /repo/macros itself.
            fail!("compile", "the generated program doesn't compile: {}", text.chars().take(2000).collect::<String>());
        }
    };
    let o = Command::new(exe).arg(&k.dir).output().map_err(harness("program"))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut answers = 0;
    for l in out.lines() {
        let mut w = l.split(' ');
        let (Some(what), Some(i)) = (w.next(), w.next().and_then(|v| v.parse::<usize>().ok())) else { continue };
        let Some(d) = defs.get(i) else { continue };
        answers += 1;
        match what {
            "same" | "refused" => {
                if d.features.len() > 1 {
                    c.evals += 1;
                }
                if what == "refused" {
                    c.label("refused both times");
                }
                for f in &d.features {
                    c.label(f);
                }
            }
            "differ" => {
                let read = |x: &str| std::fs::read(k.dir.join(format!("{i}.{x}.xlsx"))).map_err(harness("result"));
                c.d(|| d.text.clone());
                let why = match crate::kitchen::same_parts(&Pkg::open(&read("hand")?)?, &Pkg::open(&read("derived")?)?, "differs") {
                    Err(e) => e.msg,
                    Ok(()) => "bytes differ".into(),
                };
                fail!("differs", "the options of the macro and those set by hand give different workbooks: {why}\n{}", d.text);
            }
            _ => {
                c.d(|| d.text.clone());
                fail!("differs", "{l}\n{}", d.text);
            }
        }
    }
    if answers != n {
        let last = defs.get(answers).map(|d| d.text.clone()).unwrap_or_default();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        fail!("panic", "the program stopped after {answers} of {n} structs: {}\n{last}", err.chars().take(600).collect::<String>());
    }
    c.hit();
    c.d(|| format!("{n} structs, the first one:\n{}", defs[0].text));
    Ok(())
}

/// A struct with something the macro doesn't support, and the number of its lines.
fn a_wrong_struct(s: &mut Src, i: usize) -> (String, String) {
    let container = s.chance(2, 5);
    let word = {
        let w = gen::word(s, 5).to_lowercase();
        if w.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) { format!("{w}_x") } else { "bogus".into() }
    };
    let bad: String = if container {
        match s.below(7) {
            0 => word,
            1 => format!("{word} = {}", s.pick(&["1", "\"x\"", "true", "Format::new()"])),
            2 => (*s.pick(&["rename = \"x\"", "num_format = \"0.00\"", "value_format = Format::new()", "column_format = Format::new()", "column_width = 1.0", "column_width_pixels = 20", "skip"])).into(),
            3 => (*s.pick(&["header_format", "table_style", "table", "header_format = ", "header_format()"])).into(),
            4 => (*s.pick(&["hide_headers = true", "table_default = 1", "hide_headers(true)", "table_default(x)"])).into(),
            5 => (*s.pick(&["Hide_Headers", "hide_header", "headers_format = Format::new()", "table_styles = TableStyle::Light1", "rust_xlsxwriter::hide_headers", "hide-headers"])).into(),
            _ => format!("{word}(x = 1)"),
        }
    } else {
        match s.below(8) {
            0 => word,
            1 => format!("{word} = {}", s.pick(&["1", "\"x\"", "true", "Format::new()"])),
            2 => (*s.pick(&["hide_headers", "table_default", "table_style = TableStyle::Light1", "table = Table::new()"])).into(),
            3 => (*s.pick(&["rename = 5", "rename = Format::new()", "num_format = 7", "num_format = Format::new()", "column_width = \"x\"", "column_width_pixels = 1.5", "column_width_pixels = \"20\"", "rename = 'c'", "rename = b\"x\""])).into(),
            4 => (*s.pick(&["rename", "num_format", "header_format", "value_format", "column_format", "column_width", "column_width_pixels"])).into(),
            5 => (*s.pick(&["skip = true", "skip(true)", "skip = \"x\""])).into(),
            6 => (*s.pick(&["Rename = \"x\"", "number_format = \"0\"", "width = 1.0", "column_width_pixel = 3", "skip_serializing", "hidden", "values_format = Format::new()"])).into(),
            _ => format!("{word}(x = 1)"),
        }
    };
    // Valid attributes around it.
    let around: &[&str] = if container { &["hide_headers", "table_default", "header_format = Format::new()"] } else { &["rename = \"y\"", "skip", "column_width = 2.0", "num_format = \"0\""] };
    let mut l = vec![bad.clone()];
    for _ in 0..s.below(3) {
        let a = s.pick(around).to_string();
        let at = s.idx(l.len() + 1);
        l.insert(at, a);
    }
    let whole = s.chance(1, 12);
    let attr = if whole { (*s.pick(&["#[xlsx]", "#[xlsx = \"x\"]"])).to_string() } else { format!("#[xlsx({})]", l.join(", ")) };
    let other = *s.pick(&["", "", "#[xlsx(skip)]", "#[serde(rename = \"n\")]", "#[serde(skip)]", "#[serde(skip_serializing)]"]);
    let (c, f) = if container { (attr.clone(), String::new()) } else if s.bool() { (String::new(), format!("{attr} {other}")) } else { (String::new(), format!("{other} {attr}")) };
    let which = s.below(2);
    let text = format!(
        "    #[derive(derive_local::XlsxSerialize, ::serde::Serialize)]\n    {c}\n    pub struct W{i} {{\n        {}\n        a: f64,\n        {}\n        b: f64,\n    }}\n",
        if which == 0 { &f } else { "" },
        if which == 1 { &f } else { "" },
    );
    (format!("mod w{i} {{\n{text}}}\n"), text)
}

fn wrong(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.u32(1, 150) as usize;
    let mut code = "#![allow(warnings)]\n".to_string();
    let mut spans = vec![];
    let mut texts = vec![];
    for i in 0..n {
        let (m, t) = a_wrong_struct(s, i);
        let from = code.lines().count() + 1;
        code.push_str(&m);
        spans.push((from, code.lines().count()));
        texts.push(t);
    }
    code.push_str("fn main() {}\n");
    let _lock = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let k = a_crate(&code)?;
    let lines = match compile(&k)? {
        Ok(_) => vec![],
        Err(text) => {
            let l = error_lines(&text);
            ensure!(!l.is_empty(), "compile", "the program stops with another error: {}", text.chars().take(2000).collect::<String>());
            l
        }
    };
    for (x, t) in spans.iter().zip(&texts) {
        c.evals += 1;
        let Some((_, what)) = lines.iter().find(|l| x.0 <= l.0 && l.0 <= x.1) else {
            c.d(|| t.clone());
            fail!("ignored", "an attribute that isn't supported is ignored:\n{t}");
        };
        c.label(if what.contains("unknown rust_xlsxwriter") { "unknown attribute named" } else { "other message" });
    }
    c.hit();
    c.d(|| format!("{n} structs, the first one:\n{}", texts[0]));
    Ok(())
}

/// Compiles the dependencies of the generated programs.
pub fn prepare() -> bool {
    let Ok(k) = a_crate("fn main() {}\n") else { return false };
    matches!(compile(&k), Ok(Ok(_)))
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "programs that compiled and ran (programs) or were refused (wrong); evaluations count the structs with more than one feature, and the wrong attributes",
        level: "randomised exploration of programs, compiled and run; options set by hand as the reference",
        assumptions: &[
            "field and struct names are those serde itself uses when the sample value is serialised",
            "attribute values are expressions that syn parses without its feature \"full\"",
            "structs with named fields; fields of one struct have different names",
        ],
        known: vec![],
        families: vec![fam("programs", 3, 200, programs), fam("wrong", 2, 100, wrong)],
    }
}

#[allow(dead_code)]
fn unused(_: &Path) {}
