//! Seeded generators: documents, API graphs, drawing calls, damage.
use serde::{Deserialize, Serialize};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn z(&mut self, n: usize) -> usize { self.u(n as u64) as usize }
    /// True in one of n cases.
    pub fn one(&mut self, n: u64) -> bool { self.u(n) == 0 }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.z(v.len())] }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T { v[self.z(v.len())].clone() }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.z(b - a + 1) }
    pub fn fork(&mut self) -> Rng { Rng(self.next()) }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); }
    h
}

/// Seeded filler text of exactly `len` bytes.
pub fn filler(len: usize, seed: u64, flavour: u32) -> String {
    let mut r = Rng::new(seed ^ 0x5157);
    let mut s = String::with_capacity(len + 8);
    let mut k = 0u64;
    while s.len() < len {
        match flavour {
            0 => { s.push_str(&format!("<{:x} {}>\n", r.next(), k)); }
            1 => { s.push(r.of(&['é', 'x', '漢', '\u{1f600}', '\n', 'ß', '}', '"'])); }
            2 => s.push((b'a' + (k % 26) as u8) as char),
            4 => s.push_str(&format!("line {}\r\n\r\n", k)),
            5 => { s.push(r.of(&['\0', ' ', '\t', '\n', '\r', '\u{1a}', '\u{85}', 'a'])); }
            6 => { if k == 0 { s.push('\u{feff}'); } s.push_str(r.of(&["%s", "%n", "\\n", "$HOME", "%%", "{}", "\n", "z"])); }
            7 => { let c = r.of(&[' ', '\n', '0', '\0', 'y']); let n = r.of(&[1usize, 600, 4096, 9000]); for _ in 0..n { s.push(c); if s.len() > len { break; } } }
            _ => s.push_str(&format!("<text x=\"{}\" y=\"{}\">{}</text>\n", r.u(1000), r.u(1000), r.u(1 << 40))),
        }
        k += 1;
    }
    // Cut at a character boundary and pad.
    while s.len() > len { s.pop(); }
    while s.len() < len { s.push('~'); }
    s
}

// ------------------------------------------------------------------ documents

/// The knobs of one document (swarm style: most are off in any one document).
#[derive(Clone)]
pub struct Prof {
    pub nodes: usize,
    pub stmts: usize,
    pub edges: usize,
    pub depth: usize,
    pub nasty_strings: bool,
    pub nasty_comments: bool,
    pub unicode: bool,
    pub attrs: bool,
    pub records: bool,
    pub ports: bool,
    pub subgraphs: bool,
    pub defaults: bool,
    pub numbers: bool,
    pub lr: bool,
    pub big_label: bool,
    pub tail: bool,
}
impl Prof {
    pub fn random(r: &mut Rng, scale: usize) -> Prof {
        let nodes = 1 + r.z(2 + scale);
        Prof {
            nodes,
            stmts: 1 + r.z(3 + scale),
            edges: r.z(2 * nodes + 2),
            depth: if r.one(10) { 9 } else { 3 },
            nasty_strings: r.one(2),
            nasty_comments: r.one(2),
            unicode: r.one(3),
            attrs: !r.one(4),
            records: r.one(2),
            ports: r.one(2),
            subgraphs: r.one(2),
            defaults: r.one(2),
            numbers: r.one(4),
            lr: r.one(3),
            big_label: r.one(8),
            tail: r.one(2),
        }
    }
}

pub struct Doc {
    pub text: String,
    /// Byte position of the brace that closes the graph.
    pub brace: usize,
}

struct W<'a> { s: String, r: &'a mut Rng, p: Prof }

const NASTY: [&str; 52] = [
    "&b;", "a &b; c", "&foo;", "&#0;", "&#x1;", "&lt", "&lt;", "&nbsp;", "<b>", "</text>", "\u{ffff}", "\t", "\r", "?>", "<?xml", "<!--", "--", "<![CDATA[", "%", "url(#x)",
    "\u{b}", "a\r\nb", "\n\n", "<f1> x", "a|b", "{a|b}",
    "}", "{", "};", "// x", "/* x", "*/", "/*}*/", "a\"b", "\\", "]", "[", "->", "--", "=", ";", "digraph {", "",
    " ", "<&>'\"", "]]>", "-->", "\u{1}", "a\nb", "&amp;", "}\n}\n", "<f0>",
];
const UNI: [&str; 9] = ["é", "漢字", "\u{1f600}", "שלום", "\u{fffe}", "a\u{301}", "\u{2028}", "\u{feff}x", "\u{7f}"];
const WORDS: [&str; 16] = ["a", "b", "start", "end", "x1", "node_2", "Alpha", "hello", "main", "entry", "loop", "exit", "A", "B2", "foo_bar", "q"];

impl<'a> W<'a> {
    fn ws(&mut self) {
        let nc = self.p.nasty_comments;
        match self.r.u(if nc { 16 } else { 8 }) {
            0 => self.s.push('\n'),
            1 => self.s.push_str("\t "),
            2 => self.s.push_str("\r\n"),
            3 => self.s.push_str("  "),
            4..=7 => self.s.push(' '),
            8 => self.s.push_str("/* } */"),
            9 => self.s.push_str("// }\n"),
            10 => self.s.push_str("/** ]; **/"),
            11 => self.s.push_str("//\" } /*\n"),
            12 => self.s.push_str("/*//*/"),
            13 => self.s.push_str("/* \" ' \n } ] \n*/ "),
            14 => self.s.push_str("// end */ }\r"),
            _ => self.s.push_str(" /**/ "),
        }
        if nc && self.r.one(3) { self.ws() }
    }
    /// Optional white space.
    fn ows(&mut self) { if self.r.one(3) { self.ws() } }
    fn quoted(&mut self, v: &str) {
        self.s.push('"');
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' if self.r.one(2) => self.s.push_str("\\n"),
                _ => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn text(&mut self) -> String {
        let mut t = String::new();
        let n = if self.p.big_label && self.r.one(3) { 6 + self.r.z(12) } else { 1 + self.r.z(2) };
        for _ in 0..n {
            if !t.is_empty() { t.push(if self.r.one(4) { '\n' } else { ' ' }); }
            if self.p.nasty_strings && self.r.one(2) { t.push_str(self.r.pick(&NASTY)); }
            else if self.p.unicode && self.r.one(2) { t.push_str(self.r.pick(&UNI)); }
            else { t.push_str(self.r.pick(&WORDS)); }
        }
        t
    }
    fn name(&mut self, k: usize) -> String {
        // The k-th node has one name, decided by k.
        let mut r = Rng::new(k as u64 * 77 + self.p.nodes as u64);
        if self.p.numbers && r.one(2) { return format!("{}", 10 + k); }
        if self.p.nasty_strings && r.one(3) { return format!("{}{}", r.pick(&NASTY), k); }
        if self.p.unicode && r.one(3) { return format!("{}{}", r.pick(&UNI), k); }
        format!("{}{}", r.pick(&WORDS), k)
    }
    fn id(&mut self, v: &str) {
        let ident = !v.is_empty()
            && v.bytes().next().unwrap().is_ascii_alphabetic()
            && v.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
            && !matches!(v, "graph" | "node" | "edge" | "digraph" | "strict" | "subgraph");
        let num = !v.is_empty() && v.bytes().all(|c| c.is_ascii_digit());
        if (ident || num) && !self.r.one(5) { self.s.push_str(v) } else { self.quoted(v) }
    }
    fn node_ref(&mut self) {
        let k = self.r.z(self.p.nodes);
        let n = self.name(k);
        self.id(&n);
        if self.p.ports && self.r.one(3) {
            self.ows();
            self.s.push(':');
            self.ows();
            let p = format!("f{}", self.r.z(4));
            self.id(&p);
        }
    }
    fn record(&mut self, d: usize) -> String {
        let n = 1 + self.r.z(4);
        let mut t = String::new();
        for i in 0..n {
            if i > 0 { t.push('|'); }
            if d > 0 && self.r.one(3) { t.push('{'); t.push_str(&self.record(d - 1)); t.push('}'); continue; }
            if self.r.one(2) { t.push_str(&format!("<f{}>", self.r.z(4))); t.push(' '); }
            if self.r.one(8) { continue; }
            let w = if self.p.nasty_strings && self.r.one(5) { self.r.pick(&NASTY) } else { self.r.pick(&WORDS) };
            t.push_str(w);
        }
        t
    }
    fn attr(&mut self, edge: bool) {
        let k = if edge {
            self.r.pick(&["label", "label", "color", "style", "fontsize", "penwidth", "weight", "dir", "arrowhead", "fontcolor", "labelfontcolor", "fillcolor", "headlabel", "taillabel", "xlabel",
                "fontname", "tooltip", "id", "class", "comment", "arrowsize", "arrowtail", "constraint", "minlen", "len", "tailport", "headport", "URL", "labelfontsize"])
        } else if self.r.one(3) {
            self.r.pick(&["fontcolor", "bgcolor", "pencolor", "fillcolor", "color", "xlabel", "fontname", "tooltip", "id", "class", "comment", "group", "rank", "peripheries", "margin", "height", "penwidth",
                "regular", "sides", "nodesep", "ranksep", "href", "target", "orientation", "colorscheme", "fixedsize", "layer", "pos", "image", "labelloc", "width"])
        } else if self.p.records {
            self.r.pick(&["shape", "label", "label", "shape", "fontsize", "color", "width", "style", "fillcolor"])
        } else {
            self.r.pick(&["shape", "label", "color", "fillcolor", "style", "fontsize", "width", "fontname", "rankdir", "id", "URL", "penwidth"])
        };
        let v: String = match k {
            "shape" => {
                if self.p.records && self.r.one(2) { self.r.pick(&["record", "Mrecord"]).into() }
                else { self.r.pick(&["box", "circle", "doublecircle", "ellipse", "record", "Mrecord", "plaintext", "none", "???"]).into() }
            }
            "label" => if !edge && self.p.records && self.r.one(2) { self.record(2) } else { self.text() },
            k if k.ends_with("color") => self.r.pick(&["#12345é", "#é12345", "#+12345", "# 12", "#1234567", "#123456789", "#1234567é", "#12345678é", "#abc", "#abcd", "#abcé", "##112233", "é", "RED", "Red", "0.5,0.5,0.5", "#ffffff;0.5", "none", "grey50", ":", "red;0.2:blue",
                "black", "gold", "#000", "#12", "#1", "white", "#FFaa00","red", "blue", "green", "coral", "#112233", "#11223344", "red:blue", "transparent", "lightgray", "nocolor", "#zz", "", "é:x", "#", "/accent3/1"]).into(),
            "style" => self.r.pick(&["filled", "dashed", "dotted", "bold", "rounded", "invis", "filled,dashed"]).into(),
            "fontsize" => self.r.pick(&["8", "9", "10", "11", "12", "14", "16", "18", "20", "24", "31", "0", "x", "12.5", "99999999999999999999", "70000", "+9", "-4", "1e1", "", " 10", "65535", "13pt", "٣"]).into(),
            "width" | "penwidth" => self.r.pick(&["0", "1", "2", "5", "0.5", "-1", "x", "18446744073709551616", "1e3", "+3", " 2", "65536", "", "é", "0x10"]).into(),
            "rankdir" => self.r.pick(&["LR", "TB", "BT"]).into(),
            _ => self.text(),
        };
        self.id(k);
        self.ows();
        self.s.push('=');
        self.ows();
        self.id(&v);
    }
    fn attrs(&mut self, edge: bool) {
        self.ows();
        self.s.push('[');
        let n = if self.r.one(8) { 4 + self.r.z(7) } else { self.r.z(if self.p.records { 5 } else { 4 }) };
        for i in 0..n {
            self.ows();
            self.attr(edge);
            if i + 1 < n || self.r.one(3) {
                let s = self.r.pick(&[",", ";", " ", ", ", ",\n"]);
                self.s.push_str(s);
            }
        }
        self.ows();
        self.s.push(']');
    }
    fn edge(&mut self) {
        self.node_ref();
        let n = if self.r.one(4) { 1 + self.r.z(4) } else { 1 };
        for _ in 0..n {
            self.ows();
            let a = if self.r.one(6) { "--" } else { "->" };
            self.s.push_str(a);
            self.ows();
            self.node_ref();
        }
        if self.p.attrs && self.r.one(2) { self.attrs(true); }
    }
    fn stmt(&mut self, d: usize) {
        let k = self.r.u(12);
        if k < 4 {
            self.node_ref();
            if self.p.attrs { self.attrs(false); }
            self.semi();
        } else if k < 8 && self.p.edges > 0 {
            self.edge();
            self.semi();
        } else if k == 8 && self.p.defaults {
            let w = self.r.pick(&["node", "edge", "graph"]);
            self.s.push_str(w);
            self.attrs(w == "edge");
            self.osemi();
        } else if k == 9 && self.p.defaults {
            let (a, b) = self.r.of(&[("rankdir", "LR"), ("size", "8,5"), ("label", "the graph"), ("color", "red"), ("rankdir", "TB")]);
            self.id(a);
            self.ows();
            self.s.push('=');
            self.id(b);
            self.semi();
        } else if k >= 10 && self.p.subgraphs && d > 0 {
            match self.r.u(3) {
                0 => self.s.push('{'),
                1 => self.s.push_str("subgraph{"),
                _ => {
                    self.s.push_str("subgraph ");
                    let n = format!("cluster_{}", self.r.z(9));
                    self.id(&n);
                    self.ows();
                    self.s.push('{');
                }
            }
            self.body(d - 1);
            self.s.push('}');
            self.osemi();
        } else {
            self.node_ref();
            self.semi();
        }
    }
    fn semi(&mut self) { self.ows(); self.s.push(';'); self.ows(); }
    fn osemi(&mut self) { if self.r.one(2) { self.semi() } else { self.s.push('\n') } }
    fn body(&mut self, d: usize) {
        self.ows();
        let n = if d == self.p.depth { self.p.stmts } else { self.r.z(4) };
        for _ in 0..n { self.stmt(d); }
        self.ows();
    }
}

pub fn doc(r: &mut Rng, p: &Prof) -> Doc {
    let mut w = W { s: String::new(), r, p: p.clone() };
    w.ows();
    if w.r.one(8) { w.s.push_str("strict "); }
    let kw = w.r.pick(&["digraph", "digraph", "graph"]);
    w.s.push_str(kw);
    if w.r.one(2) {
        w.s.push(' ');
        let n = w.text();
        if w.r.one(2) { w.s.push('G') } else { w.quoted(&n) }
    }
    w.ows();
    w.s.push('{');
    if p.lr { w.s.push_str("rankdir=LR;"); }
    w.body(p.depth);
    for _ in 0..p.edges { if w.r.one(2) { w.edge(); w.semi(); } }
    let brace = w.s.len();
    w.s.push('}');
    if p.tail { w.ows(); w.ows(); }
    Doc { text: w.s, brace }
}

/// A graph of some ranks with many crossing edges.
pub fn layers(r: &mut Rng, scale: usize) -> String {
    let ranks = 2 + r.z(3);
    let w: Vec<usize> = (0..ranks).map(|_| 1 + r.z(2 + scale / 2)).collect();
    let mut s = String::from(r.pick(&["digraph {\n", "digraph L {\nrankdir=LR;\n", "digraph {\nnode [shape=box];\n"]));
    for k in 0..ranks - 1 {
        let n = r.z(2 * (w[k] + w[k + 1]));
        for _ in 0..1 + n { s.push_str(&format!("l{}_{} -> l{}_{};\n", k, r.z(w[k]), k + 1, r.z(w[k + 1]))); }
    }
    if r.one(3) { s.push_str(&format!("l0_0 -> l{}_0 [label=far];\n", ranks - 1)); }
    s.push_str("}\n");
    s
}
/// A small graph with a great many ways through it: rows of diamonds, grids,
/// every edge forward, complete rows, two spines, at times with ways back.
pub fn mazes(r: &mut Rng, max: usize) -> String {
    let mut e: Vec<(usize, usize)> = vec![];
    match r.u(6) {
        0 | 1 => {
            let (n, w) = (8 + r.z(28), 2 + r.z(2));
            for k in 0..n { for j in 0..w { e.push((k * (w + 1), k * (w + 1) + 1 + j)); e.push((k * (w + 1) + 1 + j, (k + 1) * (w + 1))); } }
        }
        2 => {
            let (a, b) = (3 + r.z(6), 3 + r.z(6));
            for y in 0..a { for x in 0..b { if x + 1 < b { e.push((y * b + x, y * b + x + 1)); } if y + 1 < a { e.push((y * b + x, y * b + x + b)); } } }
        }
        3 => { let n = 4 + r.z(9); for a in 0..n { for b in a + 1..n { e.push((a, b)); } } }
        4 => {
            let (n, w) = (4 + r.z(8), 2 + r.z(2));
            for k in 0..n { for i in 0..w { for j in 0..w { e.push((k * w + i, k * w + w + j)); } } }
        }
        _ => { let n = 10 + r.z(40); for k in 0..n { e.push((k, k + 1)); e.push((k, k + 2)); } }
    }
    e.truncate(max);
    let far = e.iter().map(|x| x.1).max().unwrap_or(0);
    if r.one(3) { for i in (1..e.len()).rev() { e.swap(i, r.z(i + 1)); } }
    for _ in 0..r.of(&[0usize, 0, 1, 2, 5]) { let (a, b) = (r.z(far + 1), r.z(far + 1)); e.push((a.max(b), a.min(b))); }
    if r.one(4) { e.iter_mut().for_each(|x| *x = (x.1, x.0)); }
    if r.one(4) { e.reverse(); }
    let mut s = String::from("digraph {\n");
    for (a, b) in e { s.push_str(&format!("m{} -> m{};\n", a, b)); }
    s.push_str("}\n");
    s
}
pub fn any_doc(r: &mut Rng, scale: usize) -> Doc {
    let p = Prof::random(r, scale);
    doc(r, &p)
}

pub const CORPUS: [(&str, &str); 21] = [
    ("1", include_str!("../corpus/1.dot")), ("2", include_str!("../corpus/2.dot")), ("3", include_str!("../corpus/3.dot")),
    ("4", include_str!("../corpus/4.dot")), ("5", include_str!("../corpus/5.dot")), ("6", include_str!("../corpus/6.dot")),
    ("7", include_str!("../corpus/7.dot")), ("8", include_str!("../corpus/8.dot")), ("9", include_str!("../corpus/9.dot")),
    ("bk", include_str!("../corpus/bk.dot")), ("diamond", include_str!("../corpus/diamond.dot")), ("ella", include_str!("../corpus/ella.dot")),
    ("expr", include_str!("../corpus/expr.dot")), ("heb", include_str!("../corpus/heb.dot")), ("noa", include_str!("../corpus/noa.dot")),
    ("prof", include_str!("../corpus/prof.dot")), ("sched0", include_str!("../corpus/sched0.dot")), ("sched1", include_str!("../corpus/sched1.dot")),
    ("self", include_str!("../corpus/self.dot")), ("small", include_str!("../corpus/small.dot")), ("cross", include_str!("../corpus/cross_prio.dot")),
];
pub fn corpus_doc(r: &mut Rng, max: usize) -> String {
    loop {
        let c = CORPUS[r.z(CORPUS.len())].1;
        if c.len() <= max { return c.to_string(); }
    }
}
/// The closing brace of a corpus document.
pub fn last_brace(s: &str) -> usize { s.rfind('}').unwrap_or(0) }

// ------------------------------------------------------------------ damage

/// What storage or transfer does to the bytes of a document.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Damage {
    Cut(usize),
    ZeroFrom(usize),
    Flip(usize, u8),
    Set(usize, u8),
    Lose(usize, usize),
    Zero(usize, usize),
    Repeat(usize, usize, usize),
    Swap(usize, usize, usize),
    /// A block of another document at this place.
    Splice(usize, String),
}
impl Damage {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        let at = |i: usize| i.min(n);
        match self {
            Damage::Cut(i) => b.truncate(at(*i)),
            Damage::ZeroFrom(i) => for c in &mut b[at(*i)..] { *c = 0 },
            Damage::Flip(i, bit) => if *i < n { b[*i] ^= 1 << (bit & 7) },
            Damage::Set(i, v) => if *i < n { b[*i] = *v },
            Damage::Lose(i, l) => { b.drain(at(*i)..at(i + l)); }
            Damage::Zero(i, l) => for c in &mut b[at(*i)..at(i + l)] { *c = 0 },
            Damage::Repeat(i, l, k) => {
                let blk = b[at(*i)..at(i + l)].to_vec();
                let mut ins = vec![];
                for _ in 0..*k { ins.extend_from_slice(&blk); }
                let p = at(i + l);
                b.splice(p..p, ins);
            }
            Damage::Swap(i, j, l) => {
                let (i, j) = (*i.min(j), *i.max(j));
                if i + l <= j && j + l <= n { for k in 0..*l { b.swap(i + k, j + k) } }
            }
            Damage::Splice(i, s) => {
                let v = s.as_bytes();
                for (k, c) in v.iter().enumerate() { if i + k < n { b[i + k] = *c } }
            }
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Damage::Cut(_) => "cut", Damage::ZeroFrom(_) => "zeroed_tail", Damage::Flip(..) => "bit_flip", Damage::Set(..) => "byte_overwritten",
            Damage::Lose(..) => "block_lost", Damage::Zero(..) => "block_zeroed", Damage::Repeat(..) => "block_repeated",
            Damage::Swap(..) => "blocks_swapped", Damage::Splice(..) => "foreign_block",
        }
    }
}
/// The places inside quoted strings and right after a `=`, `<`, `:`, `#` or `|`.
pub fn hot_spots(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut q = false;
    let mut esc = false;
    for (i, c) in b.iter().enumerate() {
        if q { v.push(i); if esc { esc = false } else if *c == b'\\' { esc = true } else if *c == b'"' { q = false } }
        else if *c == b'"' { q = true; }
        else if i > 0 && b"=<:#|[".contains(&b[i - 1]) { v.push(i); }
    }
    v
}
pub fn damage(r: &mut Rng, len: usize, other: &str) -> Damage {
    let i = r.z(len + 1);
    damage_at(r, i, len, other)
}
pub fn damage_at(r: &mut Rng, i: usize, len: usize, other: &str) -> Damage {
    let bl = r.of(&[1usize, 1, 2, 3, 4, 8, 16, 32, 64, 512]);
    match r.u(12) {
        0 => Damage::Cut(i),
        1 => Damage::ZeroFrom(if r.one(2) { i / 16 * 16 } else { i }),
        2 | 3 => Damage::Flip(i, r.u(8) as u8),
        4 | 5 => {
            let v = if r.one(4) { r.u(256) as u8 } else { r.of(b"{}[]\"\\/*-><=;:,|0 \n\tas\0#%&'9+.") };
            if r.one(6) { return Damage::Splice(i, r.pick(&["é", "漢", "\u{1f600}", "\u{301}", "\\\"", "\\|", "<f0", "#é", "|}", "{|"]).into()); }
            Damage::Set(i, v)
        }
        6 => Damage::Lose(i, bl),
        7 => Damage::Zero(i, bl),
        8 | 9 => { let k = if r.one(6) { 40 + r.z(2000 / bl.max(1) + 1) } else { 1 + r.z(6) }; Damage::Repeat(i, bl, k) }
        10 => Damage::Swap(i, r.z(len + 1), bl),
        _ => {
            let b = other.as_bytes();
            let j = r.z(b.len() + 1);
            let s = String::from_utf8_lossy(&b[j..(j + bl).min(b.len())]).to_string();
            Damage::Splice(i, s)
        }
    }
}

// ------------------------------------------------------------------ API graphs

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Look { pub color: String, pub width: usize, pub fill: Option<String>, pub rounded: usize, pub font: usize }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Rec { Text(String, Option<String>), Row(Vec<Rec>) }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Shape { Box(String), Circle(String), Double(String), Record(Rec), None }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct ApiNode { pub shape: Shape, pub look: Look, pub flip: bool, pub w: f64, pub h: f64, pub props: Option<String> }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct ApiEdge {
    pub from: usize, pub to: usize, pub heads: (bool, bool), pub style: u8, pub text: String, pub look: Look,
    pub props: Option<String>, pub ports: (Option<String>, Option<String>),
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct ApiGraph { pub lr: bool, pub nodes: Vec<ApiNode>, pub edges: Vec<ApiEdge> }

pub fn look(r: &mut Rng) -> Look {
    Look {
        color: r.pick(&["black", "red", "blue", "#102030", "#10203040", "coral"]).into(),
        width: r.z(4),
        fill: if r.one(3) { None } else { Some(r.pick(&["white", "pink", "#abcdef", "gold"]).into()) },
        rounded: r.of(&[0, 0, 5, 15]),
        font: r.of(&[8, 10, 12, 13, 14, 15, 15, 16, 18, 20, 24, 33]),
    }
}
fn label(r: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..1 + r.z(3) {
        if i > 0 { s.push(r.of(&[' ', '\n'])); }
        match r.u(5) { 0 => s.push_str(r.pick(&NASTY)), 1 => s.push_str(r.pick(&UNI)), _ => s.push_str(r.pick(&WORDS)) }
    }
    s
}
fn props(r: &mut Rng) -> Option<String> {
    if !r.one(4) { return None; }
    Some(r.pick(&["class=\"k\"", "data-x=\"1\" data-y='2'", "onclick=\"f(1)\"", "", "opacity=\"0.5\"", "data-t=\"a &amp; b\""]).into())
}
fn rec(r: &mut Rng, d: usize) -> Rec {
    if d == 0 || r.one(2) {
        let p = if r.one(2) { Some(format!("f{}", r.z(4))) } else { None };
        return Rec::Text(label(r), p);
    }
    Rec::Row((0..1 + r.z(3)).map(|_| rec(r, d - 1)).collect())
}
pub fn api_graph(r: &mut Rng, scale: usize) -> ApiGraph {
    let n = 1 + r.z(2 + scale);
    let nodes = (0..n).map(|_| ApiNode {
        shape: match r.u(9) {
            0..=2 => Shape::Box(label(r)),
            3 | 4 => Shape::Circle(label(r)),
            5 => Shape::Double(label(r)),
            6..=7 => Shape::Record(Rec::Row((0..1 + r.z(3)).map(|_| rec(r, 2)).collect())),
            _ => if r.one(3) { Shape::None } else { Shape::Box(label(r)) },
        },
        look: look(r), flip: r.one(4), w: 20. + r.u(160) as f64, h: 20. + r.u(100) as f64, props: props(r),
    }).collect();
    let mut edges = vec![];
    for _ in 0..r.z(2 * n + 1) {
        edges.push(ApiEdge {
            from: r.z(n), to: r.z(n), heads: (r.one(3), !r.one(4)), style: r.u(8) as u8,
            text: if r.one(3) { label(r) } else { String::new() }, look: look(r), props: props(r),
            ports: (if r.one(4) { Some(format!("f{}", r.z(4))) } else { None }, if r.one(4) { Some(format!("f{}", r.z(4))) } else { None }),
        });
    }
    ApiGraph { lr: r.one(2), nodes, edges }
}

// ------------------------------------------------------------------ drawing calls

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Call {
    Rect { xy: (f64, f64), size: (f64, f64), look: Look, props: Option<String>, clip: Option<usize> },
    Line { a: (f64, f64), b: (f64, f64), look: Look, props: Option<String> },
    Circle { xy: (f64, f64), size: (f64, f64), look: Look, props: Option<String> },
    Text { xy: (f64, f64), text: String, look: Look },
    Arrow { path: Vec<((f64, f64), (f64, f64))>, dashed: bool, head: (bool, bool), look: Look, props: Option<String>, text: String },
    Clip { xy: (f64, f64), size: (f64, f64), rounded: usize },
}
fn pt(r: &mut Rng) -> (f64, f64) { (r.u(4000) as f64 / 4., r.u(4000) as f64 / 4.) }
pub fn call(r: &mut Rng) -> Call {
    let look = look(r);
    match r.u(8) {
        0 | 1 => Call::Rect { xy: pt(r), size: pt(r), look, props: props(r), clip: if r.one(2) { Some(r.z(6)) } else { None } },
        2 => Call::Line { a: pt(r), b: pt(r), look, props: props(r) },
        3 => Call::Circle { xy: pt(r), size: pt(r), look, props: props(r) },
        4 | 5 => Call::Text { xy: pt(r), text: if r.one(8) { String::new() } else { label(r) }, look },
        6 => Call::Arrow {
            path: (0..2 + r.z(3)).map(|_| (pt(r), pt(r))).collect(), dashed: r.one(2), head: (r.one(2), r.one(2)), look, props: props(r),
            text: if r.one(2) { label(r) } else { String::new() },
        },
        _ => Call::Clip { xy: pt(r), size: pt(r), rounded: r.z(20) },
    }
}
