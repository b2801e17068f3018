//! Strict, namespace-aware, non-validating XML 1.0 parser producing a DOM.
//! Performs the attribute-value and end-of-line normalisation of the XML
//! specification, so text read here is what any conforming reader sees.
use std::fmt;

#[derive(Clone, PartialEq, Eq)]
pub enum Node {
    E(Elem),
    T(String),
}

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

pub type XResult<T> = Result<T, String>;

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn is_name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
fn is_name_char(c: char) -> bool {
    is_name_start(c) || c.is_numeric() || matches!(c, '-' | '.' | ':' | '\u{B7}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
    scopes: Vec<Vec<String>>,
    depth: usize,
}

impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn children(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Node::E(e) => Some(e),
            Node::T(_) => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&Elem> {
        self.children().find(|e| e.name == n)
    }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Elem> + 'a {
        self.children().filter(move |e| e.name == n)
    }
    /// Follows a path of child names.
    pub fn at(&self, path: &str) -> Option<&Elem> {
        let mut e = self;
        for p in path.split('/') {
            e = e.child(p)?;
        }
        Some(e)
    }
    /// Own text (concatenated direct text children).
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::T(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    /// Text of the element and all descendants.
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::T(t) => s.push_str(t),
                Node::E(e) => s.push_str(&e.deep_text()),
            }
        }
        s
    }
    pub fn find<'a>(&'a self, n: &str, out: &mut Vec<&'a Elem>) {
        if self.name == n {
            out.push(self);
        }
        for c in self.children() {
            c.find(n, out);
        }
    }
    pub fn descendants(&self, n: &str) -> Vec<&Elem> {
        let mut v = vec![];
        for c in self.children() {
            c.find(n, &mut v);
        }
        v
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Elem)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }
    /// Canonical form: attributes sorted, pure white-space text between
    /// elements dropped when the element also has element children.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        let mut a = self.attrs.clone();
        a.sort();
        for (k, v) in a {
            s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::E(e) => e.canon_into(s),
                Node::T(t) => {
                    s.push_str(&format!("{t:?}"));
                }
            }
        }
        s.push_str("</>");
    }
}

impl fmt::Debug for Elem {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.canon())
    }
}

/// Builders for expected elements.
pub fn el(name: &str) -> Elem {
    Elem { name: name.into(), ..Default::default() }
}
impl Elem {
    pub fn a(mut self, k: &str, v: impl ToString) -> Elem {
        self.attrs.push((k.into(), v.to_string()));
        self
    }
    pub fn a_if(self, c: bool, k: &str, v: impl ToString) -> Elem {
        if c {
            self.a(k, v)
        } else {
            self
        }
    }
    pub fn a_opt<T: ToString>(self, k: &str, v: Option<T>) -> Elem {
        match v {
            Some(v) => self.a(k, v),
            None => self,
        }
    }
    pub fn e(mut self, e: Elem) -> Elem {
        self.kids.push(Node::E(e));
        self
    }
    pub fn e_if(self, c: bool, f: impl FnOnce() -> Elem) -> Elem {
        if c {
            self.e(f())
        } else {
            self
        }
    }
    pub fn e_opt(self, e: Option<Elem>) -> Elem {
        match e {
            Some(e) => self.e(e),
            None => self,
        }
    }
    pub fn es(mut self, v: impl IntoIterator<Item = Elem>) -> Elem {
        for e in v {
            self.kids.push(Node::E(e));
        }
        self
    }
    pub fn t(mut self, t: impl ToString) -> Elem {
        let t = t.to_string();
        if !t.is_empty() {
            self.kids.push(Node::T(t));
        }
        self
    }
}

/// Difference between two trees as a readable path, attributes unordered.
pub fn diff(got: &Elem, want: &Elem) -> Option<String> {
    diff_at(got, want, &got.name)
}
fn diff_at(g: &Elem, w: &Elem, path: &str) -> Option<String> {
    if g.name != w.name {
        return Some(format!("{path}: element <{}> where <{}> expected", g.name, w.name));
    }
    let mut ga = g.attrs.clone();
    let mut wa = w.attrs.clone();
    ga.sort();
    wa.sort();
    if ga != wa {
        return Some(format!("{path}: attributes {ga:?} where {wa:?} expected"));
    }
    let (gk, wk) = (&g.kids, &w.kids);
    for (i, (a, b)) in gk.iter().zip(wk.iter()).enumerate() {
        match (a, b) {
            (Node::T(a), Node::T(b)) => {
                if a != b {
                    return Some(format!("{path}: text {a:?} where {b:?} expected"));
                }
            }
            (Node::E(a), Node::E(b)) => {
                if let Some(d) = diff_at(a, b, &format!("{path}/{}[{i}]", a.name)) {
                    return Some(d);
                }
            }
            (Node::T(a), Node::E(b)) => return Some(format!("{path}: text {a:?} where <{}> expected", b.name)),
            (Node::E(a), Node::T(b)) => return Some(format!("{path}: <{}> where text {b:?} expected", a.name)),
        }
    }
    if gk.len() > wk.len() {
        return Some(format!("{path}: surplus {:?}", match &gk[wk.len()] { Node::E(e) => e.canon(), Node::T(t) => t.clone() }));
    }
    if wk.len() > gk.len() {
        return Some(format!("{path}: missing {:?}", match &wk[gk.len()] { Node::E(e) => e.canon(), Node::T(t) => t.clone() }));
    }
    None
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn bump(&mut self) -> XResult<char> {
        let c = self.peek().ok_or_else(|| self.err("unexpected end"))?;
        self.i += c.len_utf8();
        if !is_xml_char(c) {
            return Err(self.err(&format!("illegal character U+{:04X}", c as u32)));
        }
        Ok(c)
    }
    fn err(&self, m: &str) -> String {
        let lo = self.s[..self.i.min(self.s.len())].char_indices().rev().nth(60).map_or(0, |x| x.0);
        let hi = self.s[self.i.min(self.s.len())..].char_indices().nth(30).map_or(self.s.len(), |x| self.i + x.0);
        format!("{m} at byte {} near {:?}", self.i, &self.s[lo..hi])
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t)
    }
    fn expect(&mut self, t: &str) -> XResult<()> {
        if self.starts(t) {
            self.i += t.len();
            Ok(())
        } else {
            Err(self.err(&format!("expected {t:?}")))
        }
    }
    fn ws(&mut self) -> bool {
        let b = self.i;
        while let Some(c) = self.peek() {
            if matches!(c, ' ' | '\t' | '\n' | '\r') {
                self.i += 1;
            } else {
                break;
            }
        }
        self.i > b
    }
    fn name(&mut self) -> XResult<String> {
        let b = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            _ => return Err(self.err("expected a name")),
        }
        while let Some(c) = self.peek() {
            if is_name_char(c) {
                self.i += c.len_utf8();
            } else {
                break;
            }
        }
        let n = &self.s[b..self.i];
        if n.matches(':').count() > 1 || n.ends_with(':') {
            return Err(self.err("bad qualified name"));
        }
        Ok(n.to_string())
    }
    fn reference(&mut self) -> XResult<char> {
        // After '&'.
        let rest = &self.s[self.i..];
        let end = rest.find(';').ok_or_else(|| self.err("unterminated reference"))?;
        let r = &rest[..end];
        let c = match r {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                let c = n.and_then(char::from_u32).filter(|c| is_xml_char(*c));
                c.ok_or_else(|| self.err(&format!("bad reference &{r};")))?
            }
        };
        self.i += end + 1;
        Ok(c)
    }
    fn attr_value(&mut self) -> XResult<String> {
        let q = self.bump()?;
        if q != '"' && q != '\'' {
            return Err(self.err("attribute value not quoted"));
        }
        let mut v = String::new();
        loop {
            let c = self.bump()?;
            match c {
                c if c == q => return Ok(v),
                '<' => return Err(self.err("'<' in attribute value")),
                '&' => v.push(self.reference()?),
                '\r' => {
                    if self.peek() == Some('\n') {
                        self.i += 1;
                    }
                    v.push(' ');
                }
                '\t' | '\n' => v.push(' '),
                c => v.push(c),
            }
        }
    }
    fn check_prefix(&self, n: &str) -> XResult<()> {
        if let Some((p, _)) = n.split_once(':') {
            if p != "xml" && p != "xmlns" && !self.scopes.iter().flatten().any(|x| x == p) {
                return Err(self.err(&format!("undeclared prefix in {n}")));
            }
        }
        Ok(())
    }
    fn element(&mut self) -> XResult<Elem> {
        self.depth += 1;
        if self.depth > 200 {
            return Err(self.err("nesting too deep"));
        }
        self.expect("<")?;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        let mut scope = vec![];
        let mut empty = false;
        loop {
            let sp = self.ws();
            if self.starts("/>") {
                self.i += 2;
                empty = true;
                break;
            }
            if self.starts(">") {
                self.i += 1;
                break;
            }
            if !sp {
                return Err(self.err("white space expected between attributes"));
            }
            let k = self.name()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let v = self.attr_value()?;
            if attrs.iter().any(|(x, _)| *x == k) {
                return Err(self.err(&format!("duplicate attribute {k}")));
            }
            if let Some(p) = k.strip_prefix("xmlns:") {
                scope.push(p.to_string());
            }
            attrs.push((k, v));
        }
        self.scopes.push(scope);
        self.check_prefix(&name)?;
        for (k, _) in &attrs {
            self.check_prefix(k)?;
        }
        let mut kids = vec![];
        if !empty {
            let mut text = String::new();
            loop {
                if self.starts("</") {
                    self.i += 2;
                    let n = self.name()?;
                    if n != name {
                        return Err(self.err(&format!("</{n}> closes <{name}>")));
                    }
                    self.ws();
                    self.expect(">")?;
                    break;
                } else if self.starts("<!--") {
                    let e = self.s[self.i + 4..].find("-->").ok_or_else(|| self.err("unterminated comment"))?;
                    self.i += 4 + e + 3;
                } else if self.starts("<![CDATA[") || self.starts("<!") || self.starts("<?") {
                    return Err(self.err("unexpected markup"));
                } else if self.starts("<") {
                    if !text.is_empty() {
                        kids.push(Node::T(std::mem::take(&mut text)));
                    }
                    kids.push(Node::E(self.element()?));
                } else {
                    if self.starts("]]>") {
                        return Err(self.err("']]>' in text"));
                    }
                    match self.bump()? {
                        '&' => text.push(self.reference()?),
                        '\r' => {
                            if self.peek() == Some('\n') {
                                self.i += 1;
                            }
                            text.push('\n');
                        }
                        c => text.push(c),
                    }
                }
            }
            if !text.is_empty() {
                kids.push(Node::T(text));
            }
        }
        self.scopes.pop();
        self.depth -= 1;
        Ok(Elem { name, attrs, kids })
    }
}

/// Parses a document. `decl` says whether an XML declaration is required.
pub fn parse(bytes: &[u8], decl: bool) -> XResult<Elem> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { s, i: 0, scopes: vec![], depth: 0 };
    if p.starts("<?xml ") {
        let e = s.find("?>").ok_or("unterminated declaration")?;
        let d = &s[..e];
        if !d.contains("version=\"1.0\"") || !d.contains("encoding=\"UTF-8\"") {
            return Err(format!("odd declaration {d:?}"));
        }
        p.i = e + 2;
    } else if decl {
        return Err("no XML declaration".into());
    }
    p.ws();
    let e = p.element()?;
    p.ws();
    if p.i != s.len() {
        return Err(p.err("content after the root element"));
    }
    Ok(e)
}

/// Decodes the `_xHHHH_` escapes of the ST_Xstring type.
pub fn unescape_xstring(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '_' && i + 6 < b.len() && b[i + 1] == 'x' && b[i + 6] == '_' && b[i + 2..i + 6].iter().all(char::is_ascii_hexdigit) {
            let h: String = b[i + 2..i + 6].iter().collect();
            let n = u32::from_str_radix(&h, 16).unwrap();
            if let Some(c) = char::from_u32(n) {
                out.push(c);
                i += 7;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
