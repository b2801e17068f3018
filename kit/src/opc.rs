//! OPC package reader and auditor.
use crate::xml::{self, Elem};
use crate::{ensure, fail, zipr, Fail, R};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
}

impl Rel {
    pub fn kind(&self) -> &str {
        self.ty.rsplit('/').next().unwrap_or("")
    }
}

pub struct Pkg {
    pub names: Vec<String>,
    pub bytes: BTreeMap<String, Vec<u8>>,
    pub xml: BTreeMap<String, Elem>,
    pub rels: HashMap<String, Vec<Rel>>,
    pub defaults: Vec<(String, String)>,
    pub overrides: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Watch {
    pub packages: u64,
    pub roots: BTreeMap<String, u64>,
    pub first: Option<Fail>,
}

thread_local! {
    /// While set, every opened package is also judged against the grammar of
    /// the file format: the roots of their parts, and the first failure.
    pub static WATCH: std::cell::RefCell<Option<Watch>> = const { std::cell::RefCell::new(None) };
}

pub fn rels_name(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{d}/_rels/{f}.rels"),
        None => format!("_rels/{part}.rels"),
    }
}

pub fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut segs: Vec<&str> = source.split('/').collect();
    segs.pop();
    for s in target.split('/') {
        match s {
            ".." => {
                segs.pop();
            }
            "." | "" => {}
            s => segs.push(s),
        }
    }
    segs.join("/")
}

fn bad(sig: &str, m: String) -> Fail {
    Fail { sig: sig.into(), msg: m }
}

impl Pkg {
    pub fn open(b: &[u8]) -> R<Pkg> {
        let mut p = Pkg { names: vec![], bytes: BTreeMap::new(), xml: BTreeMap::new(), rels: HashMap::new(), defaults: vec![], overrides: vec![] };
        for e in zipr::read(b)? {
            let n = e.name.clone();
            let is_xml = n.ends_with(".xml") || n.ends_with(".rels") || n.ends_with(".vml");
            if is_xml {
                let x = xml::parse(&e.data, !n.ends_with(".vml")).map_err(|m| bad("xml", format!("{n}: {m}")))?;
                p.xml.insert(n.clone(), x);
            }
            p.names.push(n.clone());
            p.bytes.insert(n, e.data);
        }
        let ct = p.xml.get("[Content_Types].xml").ok_or_else(|| bad("opc", "no [Content_Types].xml".into()))?;
        for c in ct.children() {
            let ty = c.attr("ContentType").unwrap_or("").to_string();
            match c.name.as_str() {
                "Default" => p.defaults.push((c.attr("Extension").unwrap_or("").to_ascii_lowercase(), ty)),
                "Override" => p.overrides.push((c.attr("PartName").unwrap_or("").to_string(), ty)),
                o => fail!("opc", "unexpected {o} in content types"),
            }
        }
        let mut rels = HashMap::new();
        for (n, x) in &p.xml {
            if !n.ends_with(".rels") {
                continue;
            }
            let (dir, file) = n.rsplit_once("_rels/").ok_or_else(|| bad("opc", format!("odd rels part {n}")))?;
            let source = format!("{dir}{}", file.trim_end_matches(".rels"));
            let mut v = vec![];
            for r in x.children() {
                let external = match r.attr("TargetMode") {
                    None | Some("Internal") => false,
                    Some("External") => true,
                    Some(o) => fail!("opc", "TargetMode {o}"),
                };
                let t = r.attr("Target").unwrap_or("").to_string();
                v.push(Rel { id: r.attr("Id").unwrap_or("").to_string(), ty: r.attr("Type").unwrap_or("").to_string(), target: if external || t.starts_with('#') { t } else { resolve(&source, &t) }, external });
            }
            rels.insert(source, v);
        }
        p.rels = rels;
        WATCH.with(|w| {
            if let Some(w) = &mut *w.borrow_mut() {
                w.packages += 1;
                for x in p.xml.values() {
                    *w.roots.entry(x.name.clone()).or_insert(0) += 1;
                }
                if w.first.is_none() {
                    w.first = crate::grammar::check(&p).err();
                }
            }
        });
        Ok(p)
    }

    pub fn rels_of(&self, part: &str) -> &[Rel] {
        self.rels.get(part).map_or(&[], |v| v.as_slice())
    }
    pub fn rel(&self, part: &str, id: &str) -> R<&Rel> {
        let mut it = self.rels_of(part).iter().filter(|r| r.id == id);
        let r = it.next().ok_or_else(|| bad("rel", format!("{part}: relationship {id} is not declared")))?;
        ensure!(it.next().is_none(), "rel", "{part}: relationship {id} is declared twice");
        Ok(r)
    }
    pub fn part(&self, n: &str) -> R<&Elem> {
        self.xml.get(n).ok_or_else(|| bad("part", format!("part {n} is missing")))
    }
    pub fn content_type(&self, n: &str) -> Option<&str> {
        let key = format!("/{n}");
        if let Some((_, t)) = self.overrides.iter().find(|(p, _)| p.eq_ignore_ascii_case(&key)) {
            return Some(t);
        }
        let ext = n.rsplit_once('.').map(|x| x.1.to_ascii_lowercase())?;
        self.defaults.iter().find(|(e, _)| *e == ext).map(|(_, t)| t.as_str())
    }

    /// Full structural audit.
    pub fn audit(&self) -> R {
        // Content types.
        let mut seen = HashSet::new();
        for (e, _) in &self.defaults {
            ensure!(seen.insert(e.clone()), "ctype", "Default for {e} twice");
        }
        let mut seen = HashSet::new();
        for (n, _) in &self.overrides {
            ensure!(seen.insert(n.to_ascii_lowercase()), "ctype", "Override for {n} twice");
            ensure!(n.starts_with('/') && self.bytes.contains_key(&n[1..]), "ctype", "Override for missing part {n}");
        }
        for n in &self.names {
            if n != "[Content_Types].xml" {
                ensure!(self.content_type(n).is_some(), "ctype", "part {n} has no content type");
            }
        }
        // Relationships.
        let mut reach: BTreeSet<String> = BTreeSet::new();
        for (src, rs) in &self.rels {
            ensure!(src.is_empty() || self.bytes.contains_key(src), "rel", "relationships of missing part {src}");
            let mut ids = HashSet::new();
            for r in rs {
                ensure!(!r.id.is_empty() && ids.insert(r.id.clone()), "rel", "{src}: relationship id {:?} repeated or empty", r.id);
                ensure!(r.ty.starts_with("http://schemas."), "rel", "{src}: odd relationship type {:?}", r.ty);
                if r.external || r.target.starts_with('#') {
                    ensure!(r.kind() == "hyperlink" || r.kind() == "image", "rel", "{src}: external {}", r.kind());
                } else {
                    ensure!(self.bytes.contains_key(&r.target), "rel", "{src}: {} -> {} is missing", r.id, r.target);
                    reach.insert(r.target.clone());
                    let ct = self.content_type(&r.target).unwrap_or("");
                    let want = match r.kind() {
                        "worksheet" => "spreadsheetml.worksheet+xml",
                        "chartsheet" => "spreadsheetml.chartsheet+xml",
                        "sharedStrings" => "sharedStrings+xml",
                        "styles" => "styles+xml",
                        "theme" => "theme+xml",
                        "drawing" => "drawing+xml",
                        "chart" => "drawingml.chart+xml",
                        "table" => "table+xml",
                        "comments" => "comments+xml",
                        "vmlDrawing" => "vmlDrawing",
                        "image" => "image/",
                        "vbaProject" => "vbaProject",
                        "vbaProjectSignature" => "vbaProjectSignature",
                        "officeDocument" => "main+xml",
                        "core-properties" => "core-properties+xml",
                        "extended-properties" => "extended-properties+xml",
                        "custom-properties" => "custom-properties+xml",
                        "sheetMetadata" => "sheetMetadata+xml",
                        "rdRichValue" => "rdrichvalue+xml",
                        "rdRichValueStructure" => "rdrichvaluestructure+xml",
                        "rdRichValueTypes" => "rdrichvaluetypes+xml",
                        "richValueRel" => "richvaluerel+xml",
                        "FeaturePropertyBag" | "featurePropertyBag" => "featurepropertybag+xml",
                        k => fail!("rel", "{src}: unknown relationship kind {k}"),
                    };
                    ensure!(ct.contains(want), "rel", "{src}: {} of kind {} leads to {} of type {ct}", r.id, r.kind(), r.target);
                }
            }
        }
        for n in &self.names {
            if n != "[Content_Types].xml" && !n.ends_with(".rels") {
                ensure!(reach.contains(n), "rel", "part {n} is not reachable by any relationship");
            }
        }
        // Relationship ids used inside the parts.
        for (n, x) in &self.xml {
            if n.ends_with(".rels") || n == "[Content_Types].xml" {
                continue;
            }
            let mut uses: Vec<(String, String, String)> = vec![];
            x.walk(&mut |e| {
                for (k, v) in &e.attrs {
                    if k == "r:id" || k == "r:embed" || k == "r:link" || k == "r:pict" || k == "o:relid" {
                        uses.push((e.name.clone(), k.clone(), v.clone()));
                    }
                }
            });
            let mut used = HashSet::new();
            for (en, k, id) in uses {
                if id.is_empty() && en == "a:hlinkClick" {
                    continue;
                }
                let r = self.rel(n, &id)?;
                used.insert(id.clone());
                let want: &[&str] = match en.as_str() {
                    "sheet" => &["worksheet", "chartsheet"],
                    "drawing" => &["drawing"],
                    "legacyDrawing" | "legacyDrawingHF" => &["vmlDrawing"],
                    "picture" | "a:blip" | "v:imagedata" | "rel" => &["image"],
                    "tablePart" => &["table"],
                    "hyperlink" | "a:hlinkClick" => &["hyperlink"],
                    "c:chart" => &["chart"],
                    o => fail!("rel", "{n}: unexpected {k} on <{o}>"),
                };
                ensure!(want.contains(&r.kind()), "rel", "{n}: <{en} {k}={id}> leads to a {} relationship", r.kind());
            }
            for r in self.rels_of(n) {
                if matches!(r.kind(), "worksheet" | "chartsheet" | "drawing" | "vmlDrawing" | "image" | "table" | "hyperlink" | "chart") {
                    ensure!(used.contains(&r.id), "rel", "{n}: relationship {} ({}) is declared but never used", r.id, r.kind());
                }
            }
        }
        self.audit_workbook()
    }

    fn count(e: &Elem, attr: &str, kid: Option<&str>, what: &str) -> R {
        if let Some(c) = e.attr(attr) {
            let n = match kid {
                Some(k) => e.all(k).count(),
                None => e.children().count(),
            };
            ensure!(c == n.to_string(), "count", "{what}: <{} {attr}={c}> has {n} entries", e.name);
        }
        Ok(())
    }

    pub fn order(e: &Elem, seq: &[&str], what: &str) -> R {
        let mut last = 0usize;
        let mut prev = "";
        for c in e.children() {
            match seq.iter().position(|s| *s == c.name) {
                Some(i) => {
                    ensure!(i >= last, "order", "{what}: <{}> after <{prev}>", c.name);
                    last = i;
                    prev = &c.name;
                }
                None => fail!("order", "{what}: unexpected <{}> in <{}>", c.name, e.name),
            }
        }
        Ok(())
    }

    fn audit_workbook(&self) -> R {
        let wb_path = self.rels_of("").iter().find(|r| r.kind() == "officeDocument").map(|r| r.target.clone()).ok_or_else(|| bad("opc", "no office document".into()))?;
        let wb = self.part(&wb_path)?;
        Self::order(wb, &["fileVersion", "fileSharing", "workbookPr", "workbookProtection", "bookViews", "sheets", "definedNames", "calcPr", "extLst"], "workbook")?;
        let (mut ids, mut names, mut targets) = (HashSet::new(), HashSet::new(), HashSet::new());
        let sheets: Vec<&Elem> = wb.child("sheets").map(|s| s.children().collect()).unwrap_or_default();
        ensure!(!sheets.is_empty(), "workbook", "no sheets");
        for s in &sheets {
            let nm = s.attr("name").unwrap_or("");
            ensure!(ids.insert(s.attr("sheetId").unwrap_or("").to_string()), "unique", "sheetId of {nm} repeated");
            ensure!(names.insert(nm.to_lowercase()), "unique", "sheet name {nm} repeated");
            let n = nm.encode_utf16().count();
            ensure!(n >= 1 && nm.chars().count() <= 31, "workbook", "sheet name {nm:?} has illegal length");
            let r = self.rel(&wb_path, s.attr("r:id").unwrap_or(""))?;
            ensure!(targets.insert(r.target.clone()), "unique", "sheets share part {}", r.target);
        }
        for d in wb.child("definedNames").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
            if let Some(l) = d.attr("localSheetId") {
                ensure!(l.parse::<usize>().is_ok_and(|l| l < sheets.len()), "workbook", "localSheetId {l} out of range");
            }
        }
        // Styles.
        let styles_path = self.rels_of(&wb_path).iter().find(|r| r.kind() == "styles").map(|r| r.target.clone()).ok_or_else(|| bad("opc", "no styles".into()))?;
        let st = self.part(&styles_path)?;
        Self::order(st, &["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"], "styles")?;
        for c in st.children() {
            if c.name != "colors" && c.name != "extLst" && c.name != "tableStyles" {
                Self::count(c, "count", None, "styles")?;
            }
        }
        let n_of = |n: &str| st.child(n).map_or(0, |e| e.children().count());
        let (nf, nfl, nb, ncs, nxf, ndxf) = (n_of("fonts"), n_of("fills"), n_of("borders"), n_of("cellStyleXfs"), n_of("cellXfs"), n_of("dxfs"));
        let mut fmt_ids = HashSet::new();
        for f in st.child("numFmts").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
            ensure!(fmt_ids.insert(f.attr("numFmtId").unwrap_or("").to_string()), "unique", "numFmtId {:?} repeated", f.attr("numFmtId"));
        }
        for (grp, is_cell) in [("cellStyleXfs", false), ("cellXfs", true)] {
            for x in st.child(grp).map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
                let g = |k: &str| x.attr(k).and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
                ensure!(g("fontId") < nf && g("fillId") < nfl && g("borderId") < nb, "style-index", "{grp}: index out of range in {x:?}");
                ensure!(!is_cell || g("xfId") < ncs, "style-index", "{grp}: xfId out of range in {x:?}");
                let nid = g("numFmtId");
                ensure!(nid < 164 || fmt_ids.contains(&nid.to_string()), "style-index", "numFmtId {nid} undefined");
            }
        }
        for s in st.child("cellStyles").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
            ensure!(s.attr("xfId").and_then(|v| v.parse::<usize>().ok()).is_some_and(|v| v < ncs), "style-index", "cellStyle xfId out of range");
        }
        // Shared strings.
        let sst = self.rels_of(&wb_path).iter().find(|r| r.kind() == "sharedStrings").map(|r| r.target.clone());
        let n_si = match &sst {
            Some(p) => {
                let x = self.part(p)?;
                Self::count(x, "uniqueCount", Some("si"), "sharedStrings")?;
                x.all("si").count()
            }
            None => 0,
        };
        let mut n_refs = 0usize;
        let (mut tids, mut tnames) = (HashSet::new(), HashSet::new());
        for s in &sheets {
            let r = self.rel(&wb_path, s.attr("r:id").unwrap_or(""))?;
            let x = self.part(&r.target)?;
            let name = &r.target;
            if r.kind() == "chartsheet" {
                Self::order(x, &["sheetPr", "sheetViews", "sheetProtection", "customSheetViews", "pageMargins", "pageSetup", "headerFooter", "drawing", "legacyDrawing", "legacyDrawingHF", "picture", "extLst"], name)?;
                ensure!(x.child("sheetViews").is_some() && x.child("drawing").is_some(), "order", "{name}: required element missing");
            } else {
                Self::order(x, WS_ORDER, name)?;
                ensure!(x.child("sheetData").is_some(), "order", "{name}: no sheetData");
                let mut once = HashSet::new();
                for c in x.children() {
                    ensure!(c.name == "conditionalFormatting" || once.insert(&c.name), "order", "{name}: <{}> repeated", c.name);
                }
            }
            for (k, a, kid) in [("mergeCells", "count", "mergeCell"), ("tableParts", "count", "tablePart"), ("dataValidations", "count", "dataValidation"), ("rowBreaks", "count", "brk"), ("rowBreaks", "manualBreakCount", "brk"), ("colBreaks", "count", "brk"), ("colBreaks", "manualBreakCount", "brk")] {
                if let Some(e) = x.child(k) {
                    ensure!(e.children().next().is_some(), "count", "{name}: empty <{k}>");
                    Self::count(e, a, Some(kid), name)?;
                }
            }
            for k in ["cols", "hyperlinks", "protectedRanges", "ignoredErrors", "extLst"] {
                if let Some(e) = x.child(k) {
                    ensure!(e.children().next().is_some(), "count", "{name}: empty <{k}>");
                }
            }
            let mut bad_idx = None;
            x.walk(&mut |e| {
                if e.name == "c" || e.name == "row" || e.name == "col" {
                    let k = if e.name == "col" { "style" } else { "s" };
                    if let Some(v) = e.attr(k) {
                        if !v.parse::<usize>().is_ok_and(|v| v < nxf) {
                            bad_idx = Some(format!("{} {v}", e.name));
                        }
                    }
                    if e.name == "c" && e.attr("t") == Some("s") {
                        n_refs += 1;
                        let v = e.child("v").map(|v| v.text()).unwrap_or_default();
                        if !v.parse::<usize>().is_ok_and(|v| v < n_si) {
                            bad_idx = Some(format!("shared string {v}"));
                        }
                    }
                }
                for (k, v) in &e.attrs {
                    if (k == "dxfId" || k.ends_with("DxfId")) && !v.parse::<usize>().is_ok_and(|v| v < ndxf) {
                        bad_idx = Some(format!("{k} {v}"));
                    }
                }
            });
            if let Some(b) = bad_idx {
                fail!("style-index", "{name}: {b} out of range");
            }
            let mut prev_row = 0u32;
            for row in x.child("sheetData").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
                let r: u32 = row.attr("r").and_then(|v| v.parse().ok()).unwrap_or(0);
                ensure!(r > prev_row && r <= 1_048_576, "cell-order", "{name}: row {r} after {prev_row}");
                prev_row = r;
                let mut prev_col = None;
                for c in row.children() {
                    let (cr, cc) = crate::xl::parse_cell(c.attr("r").unwrap_or(""))?;
                    ensure!(cr + 1 == r, "cell-order", "{name}: cell {:?} in row {r}", c.attr("r"));
                    ensure!(prev_col.map_or(true, |p| cc > p), "cell-order", "{name}: cell {:?} out of order", c.attr("r"));
                    prev_col = Some(cc);
                }
            }
            let mut lastc = 0u32;
            for c in x.child("cols").map(|s| s.children().collect::<Vec<_>>()).unwrap_or_default() {
                let g = |k: &str| c.attr(k).and_then(|v| v.parse::<u32>().ok()).unwrap_or(0);
                ensure!(g("min") > lastc && g("max") >= g("min") && g("max") <= 16384, "cols", "{name}: {c:?} overlaps or is inverted");
                lastc = g("max");
            }
            // Extension list: unique URIs.
            if let Some(e) = x.child("extLst") {
                let mut u = HashSet::new();
                for c in e.children() {
                    ensure!(c.name == "ext" && u.insert(c.attr("uri").unwrap_or("").to_string()), "ext", "{name}: ext {:?} repeated", c.attr("uri"));
                    ensure!(c.children().next().is_some(), "ext", "{name}: empty ext");
                }
            }
            for r in self.rels_of(name) {
                if r.kind() == "table" {
                    let t = self.part(&r.target)?;
                    ensure!(tids.insert(t.attr("id").unwrap_or("").to_string()), "unique", "table id {:?} repeated", t.attr("id"));
                    for k in ["name", "displayName"] {
                        ensure!(t.attr(k).is_some_and(|v| !v.is_empty()), "table", "{}: no {k}", r.target);
                    }
                    ensure!(tnames.insert(t.attr("name").unwrap_or("").to_lowercase()), "unique", "table name {:?} repeated", t.attr("name"));
                    Self::order(t, &["autoFilter", "sortState", "tableColumns", "tableStyleInfo"], &r.target)?;
                    if let Some(tc) = t.child("tableColumns") {
                        Self::count(tc, "count", Some("tableColumn"), &r.target)?;
                        let mut cn = HashSet::new();
                        for (i, c) in tc.children().enumerate() {
                            ensure!(c.attr("id") == Some(&(i + 1).to_string()), "table", "{}: column id {:?}", r.target, c.attr("id"));
                            ensure!(cn.insert(c.attr("name").unwrap_or("").to_lowercase()), "unique", "{}: column {:?} repeated", r.target, c.attr("name"));
                        }
                    }
                    let mut bad = None;
                    t.walk(&mut |e| {
                        for (k, v) in &e.attrs {
                            if (k == "dxfId" || k.ends_with("DxfId")) && !v.parse::<usize>().is_ok_and(|v| v < ndxf) {
                                bad = Some(format!("{k} {v}"));
                            }
                        }
                    });
                    if let Some(b) = bad {
                        fail!("style-index", "{}: {b} out of range", r.target);
                    }
                }
                if r.kind() == "comments" {
                    let c = self.part(&r.target)?;
                    let na = c.child("authors").map_or(0, |a| a.children().count());
                    let mut refs = HashSet::new();
                    for k in c.child("commentList").map(|a| a.children().collect::<Vec<_>>()).unwrap_or_default() {
                        ensure!(k.attr("authorId").and_then(|v| v.parse::<usize>().ok()).is_some_and(|v| v < na), "comments", "{}: authorId out of range", r.target);
                        ensure!(refs.insert(k.attr("ref").unwrap_or("").to_string()), "unique", "{}: two comments on {:?}", r.target, k.attr("ref"));
                    }
                }
                if r.kind() == "drawing" {
                    let d = self.part(&r.target)?;
                    let mut ids = HashSet::new();
                    for c in d.descendants("xdr:cNvPr") {
                        ensure!(ids.insert(c.attr("id").unwrap_or("").to_string()), "unique", "{}: object id {:?} repeated", r.target, c.attr("id"));
                    }
                    ensure!(d.children().next().is_some(), "drawing", "{}: empty drawing", r.target);
                }
                if r.kind() == "vmlDrawing" {
                    let d = self.part(&r.target)?;
                    let mut ids = HashSet::new();
                    for c in d.all("v:shape") {
                        ensure!(ids.insert(c.attr("id").unwrap_or("").to_string()), "unique", "{}: shape id {:?} repeated", r.target, c.attr("id"));
                    }
                }
            }
        }
        if let Some(p) = &sst {
            let x = self.part(p)?;
            if let Some(c) = x.attr("count") {
                // The count may include strings of cells overwritten between two saves.
                ensure!(c.parse::<usize>().is_ok_and(|c| c >= n_refs), "count", "sharedStrings count={c} but {n_refs} cells refer to it");
            }
        }
        Ok(())
    }
}

pub const WS_ORDER: &[&str] = &[
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection", "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr", "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing", "legacyDrawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts", "extLst",
];
