//! A strict XML parser and the reference checks for one SVG document.
use std::collections::BTreeSet;

#[derive(Debug, Clone)]
pub enum Kid { Elem(Elem), Text(String) }
#[derive(Debug, Clone)]
pub struct Elem { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Kid> }
impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()) }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids { match k { Kid::Text(t) => s.push_str(t), Kid::Elem(e) => s.push_str(&e.text()) } }
        s
    }
    /// All elements below this one, in document order.
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Elem>) {
        for k in &self.kids { if let Kid::Elem(e) = k { out.push(e); e.walk(out); } }
    }
}

struct P<'a> { s: &'a str, i: usize }
fn name_start(c: char) -> bool { c.is_alphabetic() || c == '_' || c == ':' }
fn name_char(c: char) -> bool { name_start(c) || c.is_numeric() || c == '-' || c == '.' }
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn peek(&self) -> Option<char> { self.rest().chars().next() }
    fn bump(&mut self) -> R<char> {
        let c = self.peek().ok_or("unexpected end of the document")?;
        self.i += c.len_utf8();
        Ok(c)
    }
    fn eat(&mut self, t: &str) -> bool { if self.rest().starts_with(t) { self.i += t.len(); true } else { false } }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) { self.i += 1; }
        self.i > s
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let mut a = self.i.saturating_sub(40);
        while !self.s.is_char_boundary(a) { a -= 1; }
        let mut b = (self.i + 20).min(self.s.len());
        while !self.s.is_char_boundary(b) { b += 1; }
        Err(format!("{} at byte {} near {:?}", m, self.i, &self.s[a..b]))
    }
    fn name(&mut self) -> R<String> {
        let s = self.i;
        match self.peek() { Some(c) if name_start(c) => {} _ => return self.err("expected a name") }
        while let Some(c) = self.peek() { if name_char(c) { self.i += c.len_utf8() } else { break } }
        Ok(self.s[s..self.i].to_string())
    }
    fn entity(&mut self) -> R<char> {
        // After '&'.
        let end = match self.rest().find(';') { Some(e) if e < 12 => e, _ => return self.err("bare '&'") };
        let n = &self.rest()[..end];
        let c = match n {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            _ if n.starts_with("#x") => match u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32) { Some(c) if xml_char(c) => c, _ => return self.err("bad character reference") },
            _ if n.starts_with('#') => match n[1..].parse::<u32>().ok().and_then(char::from_u32) { Some(c) if xml_char(c) => c, _ => return self.err("bad character reference") },
            _ => return self.err("undefined entity"),
        };
        self.i += end + 1;
        Ok(c)
    }
    fn attr_value(&mut self) -> R<String> {
        let q = self.bump()?;
        if q != '"' && q != '\'' { return self.err("expected a quoted value"); }
        let mut v = String::new();
        loop {
            let c = self.bump()?;
            if c == q { return Ok(v); }
            match c {
                '<' => return self.err("'<' in an attribute value"),
                '&' => v.push(self.entity()?),
                c if !xml_char(c) => return self.err("character not allowed in XML"),
                c => v.push(c),
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") { self.comment()?; continue; }
            return Ok(());
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        match self.rest().find("--") {
            Some(e) if self.rest()[e..].starts_with("-->") => { self.i += e + 3; Ok(()) }
            _ => self.err("bad comment"),
        }
    }
    fn elem(&mut self, depth: usize) -> R<Elem> {
        if depth > 200 { return self.err("nested too deep"); }
        if !self.eat("<") { return self.err("expected an element"); }
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            if self.eat("/>") { return Ok(Elem { name, attrs, kids: vec![] }); }
            if self.eat(">") { break; }
            if !sp { return self.err("expected white space before an attribute"); }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") { return self.err("expected '='"); }
            self.ws();
            let v = self.attr_value()?;
            if attrs.iter().any(|a| a.0 == n) { return self.err(&format!("attribute {} given twice", n)); }
            attrs.push((n, v));
        }
        let mut kids = vec![];
        let mut text = String::new();
        loop {
            if self.rest().starts_with("</") {
                self.i += 2;
                let n = self.name()?;
                if n != name { return self.err(&format!("</{}> closes <{}>", n, name)); }
                self.ws();
                if !self.eat(">") { return self.err("expected '>'"); }
                if !text.is_empty() { kids.push(Kid::Text(text)); }
                return Ok(Elem { name, attrs, kids });
            }
            if self.rest().starts_with("<!--") { self.comment()?; continue; }
            if self.rest().starts_with("<![CDATA[") {
                match self.rest().find("]]>") { Some(e) => { text.push_str(&self.rest()[9..e]); self.i += e + 3; } None => return self.err("open CDATA") }
                continue;
            }
            if self.rest().starts_with('<') {
                if !text.is_empty() { kids.push(Kid::Text(std::mem::take(&mut text))); }
                kids.push(Kid::Elem(self.elem(depth + 1)?));
                continue;
            }
            if self.rest().starts_with("]]>") { return self.err("']]>' in text"); }
            match self.bump()? {
                '&' => text.push(self.entity()?),
                c if !xml_char(c) => return self.err("character not allowed in XML"),
                c => text.push(c),
            }
        }
    }
}

pub fn parse(s: &str) -> R<Elem> {
    let mut p = P { s, i: 0 };
    if p.eat("<?xml") {
        match p.rest().find("?>") {
            Some(e) => {
                let d = &p.rest()[..e];
                if !d.contains("version=\"1.0\"") && !d.contains("version='1.0'") && !d.contains("version=\"1.1\"") { return Err("bad XML declaration".into()); }
                p.i += e + 2;
            }
            None => return Err("bad XML declaration".into()),
        }
    }
    p.misc()?;
    let e = p.elem(0)?;
    p.misc()?;
    if p.i != s.len() { return p.err("content after the root element"); }
    Ok(e)
}

/// Well-formed, self-contained, every id defined once, every reference resolves.
pub fn check_svg(s: &str) -> R<Elem> {
    let root = parse(s)?;
    if root.name != "svg" { return Err(format!("the root element is <{}>", root.name)); }
    if root.attr("xmlns") != Some("http://www.w3.org/2000/svg") { return Err("no SVG name space".into()); }
    let mut all = vec![&root];
    root.walk(&mut all);
    let mut ids: BTreeSet<&str> = BTreeSet::new();
    let mut classes: BTreeSet<String> = BTreeSet::new();
    for e in &all {
        if let Some(id) = e.attr("id") {
            if id.is_empty() { return Err("an empty id".into()); }
            if !ids.insert(id) { return Err(format!("the id {:?} is defined twice", id)); }
        }
        if e.name == "style" {
            let css = e.text();
            let (mut o, mut c) = (0, 0);
            for ch in css.chars() { if ch == '{' { o += 1 } else if ch == '}' { c += 1 } }
            if o != c { return Err("unbalanced braces in the style sheet".into()); }
            for part in css.split('}') {
                if let Some(sel) = part.split('{').next() {
                    for x in sel.split(',') {
                        let x = x.trim();
                        if let Some(n) = x.strip_prefix('.') {
                            if !classes.insert(n.to_string()) { return Err(format!("the class {:?} is defined twice", n)); }
                        }
                    }
                }
            }
        }
    }
    for e in &all {
        for (n, v) in &e.attrs {
            let mut t = v.as_str();
            while let Some(k) = t.find("url(") {
                let r = &t[k + 4..];
                let end = r.find(')').ok_or_else(|| format!("open url( in {:?}", v))?;
                let id = r[..end].trim().trim_matches('\'').trim_matches('"');
                match id.strip_prefix('#') {
                    Some(id) if ids.contains(id) => {}
                    _ => return Err(format!("the reference {:?} does not resolve", id)),
                }
                t = &r[end..];
            }
            if n == "href" || n == "xlink:href" {
                match v.strip_prefix('#') {
                    Some(id) if ids.contains(id) => {}
                    _ => return Err(format!("the reference {:?} does not resolve", v)),
                }
            }
            if n == "class" && (e.name == "text" || e.name == "textPath" || e.name == "tspan") {
                for c in v.split_whitespace() { if !classes.contains(c) { return Err(format!("the style class {:?} is not defined", c)); } }
            }
        }
    }
    Ok(root)
}
