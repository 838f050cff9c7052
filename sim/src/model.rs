//! Documents whose drawing is known, and the check that a drawing is it.
use crate::gen::Rng;
use crate::xml::{self, Elem};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Field { Leaf(String), Row(Vec<Field>) }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct MNode { pub name: String, pub label: String, pub shape: String, pub fields: Option<Field> }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct MEdge { pub from: usize, pub to: usize, pub label: String, pub directed: bool, pub dashed: bool }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Model { pub nodes: Vec<MNode>, pub edges: Vec<MEdge> }

fn quote(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")) }

fn leafs(f: &Field, out: &mut Vec<String>) { match f { Field::Leaf(s) => out.push(s.clone()), Field::Row(v) => for x in v { leafs(x, out) } } }
fn boxes(f: &Field) -> usize { match f { Field::Leaf(_) => 1, Field::Row(v) => 1 + v.iter().map(boxes).sum::<usize>() } }
fn rec_text(f: &Field, ports: &mut usize, top: bool) -> String {
    match f {
        Field::Leaf(s) => { *ports += 1; format!("<p{}> {}", *ports - 1, s) }
        Field::Row(v) => {
            let t: Vec<String> = v.iter().map(|x| rec_text(x, ports, false)).collect();
            if top { t.join("|") } else { format!("{{{}}}", t.join("|")) }
        }
    }
}
fn field(r: &mut Rng, d: usize, n: &mut usize, tag: &str) -> Field {
    let k = 1 + r.z(3);
    Field::Row((0..k).map(|_| {
        *n += 1;
        if d > 0 && r.one(3) { field(r, d - 1, n, tag) } else { Field::Leaf(format!("{}f{}", tag, n)) }
    }).collect())
}

/// Attributes that show nothing.
fn inert(r: &mut Rng) -> String {
    let k = r.pick(&["tooltip", "id", "class", "comment", "fontname", "fontcolor", "group", "URL", "minlen", "weight", "constraint", "pencolor", "height", "margin"]);
    let v = r.pick(&["x", "1", "\"a b\"", "red", "\"#112233\"", "\"\"", "\"é; }\"", "0.5"]);
    format!("{}={}", k, if v.contains('.') { "\"0.5\"" } else { v })
}

/// A document and what its drawing must contain.
pub fn model_doc(r: &mut Rng, scale: usize) -> (String, Model) {
    let n = 1 + r.z(scale + 1);
    let shapes = ["box", "circle", "doublecircle", "record", "Mrecord", "ellipse", ""];
    let swarm: Vec<&str> = { let k = 1 + r.z(4); (0..k).map(|_| shapes[r.z(shapes.len())]).collect() };
    let weird = r.one(2);
    let odd = r.one(4);
    // What all nodes and edges have unless they say something else.
    let dshape = if r.one(8) { r.pick(&["box", "doublecircle", "circle"]).to_string() } else { String::new() };
    let dlabel = if r.one(12) { "all alike".to_string() } else { String::new() };
    let ddash = r.one(12);
    let alike = r.one(6);
    let mut nodes = vec![];
    for i in 0..n {
        let shape = swarm[r.z(swarm.len())].to_string();
        let name = match r.u(if odd { 14 } else if weird { 6 } else { 2 }) {
            0 => format!("n{}", i),
            1 => format!("Node_{}", i),
            2 => format!("{}", 100 + i),
            3 => format!("a b {}", i),
            4 => format!("é{}", i),
            5 => format!("}} {}", i),
            // Names that have nearly everything in common.
            6 => if i % 2 == 0 { format!("case{}", i) } else { format!("CASE{}", i - 1) },
            7 => format!("long_{}_{}", "y".repeat(60 + 100 * (i / 5 % 3)), i),
            8 => if i % 2 == 0 { format!("trim{}", i) } else { format!(" trim{}", i - 1) },
            9 => if i % 2 == 0 { format!("0{}", i) } else { format!("{}.0", i - 1) },
            10 => if i < 6 { ["graph", "node", "edge", "digraph", "strict", "subgraph"][i].to_string() } else { format!("-{}", i) },
            11 => if i % 2 == 0 { format!("p:{}", i) } else { format!("p{}", i - 1) },
            12 => format!("{}_head", i),
            _ => format!("Ж{}ß", i),
        };
        let mut fields = None;
        let label = if shape == "record" || shape == "Mrecord" {
            let mut c = 0;
            fields = Some(field(r, 2, &mut c, &format!("r{}x", i)));
            String::new()
        } else {
            match r.u(if weird { 7 } else { 3 }) {
                _ if alike && r.one(2) => "the same label".to_string(),
                0 | 1 => name.clone(),
                2 => format!("label {}", i),
                3 => format!("<&> {} \"'", i),
                4 => format!("two\nlines {}", i),
                5 => format!("漢字 {} // }} ;", i),
                _ => format!("a much longer label for the node with the number {}", i),
            }
        };
        nodes.push(MNode { name, label, shape, fields });
    }
    // Statements, shuffled into scopes.
    let mut stmts: Vec<String> = vec![];
    let id = |r: &mut Rng, s: &str| -> String {
        let num = s.bytes().all(|c| c.is_ascii_digit());
        let ok = s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && (num || !s.as_bytes()[0].is_ascii_digit()) && !matches!(s, "graph" | "node" | "edge" | "digraph" | "strict" | "subgraph");
        if ok && !r.one(4) { s.to_string() } else { quote(s) }
    };
    let mut edges: Vec<MEdge> = vec![];
    let ne = if n > 2 && r.one(10) { 3 * n } else { r.z(2 * n + 2) };
    // A node that many edges meet at, two that many edges join, or a chain
    // that some edges skip most of.
    let topo = r.u(12);
    let hub = r.z(n);
    let mut declared = vec![false; n];
    for i in 0..n {
        let m = &nodes[i];
        let plain = m.shape.is_empty() && m.label == m.name;
        if plain && r.one(2) { continue; }
        declared[i] = true;
        let mut at = vec![];
        if let Some(f) = &m.fields {
            let mut p = 0;
            at.push(format!("label={}", quote(&rec_text(f, &mut p, true))));
        } else if m.label != m.name || r.one(4) { at.push(format!("label={}", quote(&m.label))); }
        if !m.shape.is_empty() { at.push(format!("shape={}", m.shape)); }
        if r.one(3) { at.push(format!("color={}", r.pick(&["red", "blue", "\"#aabbcc\""]))); }
        if r.one(4) { at.push("style=filled".into()); }
        if r.one(4) { at.push(format!("fontsize={}", 8 + r.u(20))); }
        if r.one(5) { for _ in 0..1 + r.z(3) { at.push(inert(r)); } }
        // Shuffle.
        for k in (1..at.len()).rev() { at.swap(k, r.z(k + 1)); }
        let sep = r.pick(&[",", ", ", " ", ";"]).to_string();
        let nm = id(r, &m.name);
        stmts.push(if at.is_empty() { format!("{};", nm) } else { format!("{} [{}];", nm, at.join(&sep)) });
    }
    let port = |r: &mut Rng, m: &MNode| -> String {
        if m.fields.is_some() && r.one(2) { format!(":p{}", r.z(3)) } else { String::new() }
    };
    let mut k = 0;
    while k < ne {
        let len = if r.one(5) { 2 + r.z(3) } else { 1 };
        let directed = !r.one(6);
        let dashed = r.one(5);
        let label = match r.u(6) { 0 if alike => "the same text".to_string(), 0 | 1 => format!("e{}", edges.len()), 2 if weird => format!("<e{}> & \"{}\"", edges.len(), k), _ => String::new() };
        let mut cur = match topo { 0 if r.one(2) => hub, 1 if !r.one(4) => hub, 2 if k < n => k, _ => r.z(n) };
        let mut s = id(r, &nodes[cur].name);
        s.push_str(&port(r, &nodes[cur]));
        let arrow = if directed { "->" } else { "--" };
        for _ in 0..len {
            // Parallel and self edges on purpose.
            let to = if topo == 0 && cur != hub && !r.one(4) { hub } else if topo == 1 && !r.one(4) { (hub + 1) % n } else if topo == 2 && k + 1 < n { k + 1 } else if r.one(9) { cur } else if r.one(5) && !edges.is_empty() { edges[r.z(edges.len())].to } else { r.z(n) };
            s.push_str(r.pick(&[" ", ""]));
            s.push_str(arrow);
            s.push_str(r.pick(&[" ", ""]));
            s.push_str(&id(r, &nodes[to].name));
            s.push_str(&port(r, &nodes[to]));
            edges.push(MEdge { from: cur, to, label: if label.is_empty() { dlabel.clone() } else { label.clone() }, directed, dashed: dashed || ddash });
            declared[cur] = true;
            declared[to] = true;
            cur = to;
            k += 1;
        }
        let mut at = vec![];
        if !label.is_empty() { at.push(format!("label={}", quote(&label))); }
        if dashed { at.push("style=dashed".to_string()); }
        if r.one(5) { at.push("color=green".into()); }
        if r.one(8) { at.push("penwidth=2".into()); }
        if r.one(6) { at.push(format!("fontsize={}", 8 + r.u(20))); }
        if r.one(6) { for _ in 0..1 + r.z(3) { at.push(inert(r)); } }
        if !at.is_empty() { s.push_str(&format!(" [{}]", at.join(","))); }
        s.push(';');
        stmts.push(s);
    }
    for m in nodes.iter_mut() { if m.shape.is_empty() { m.shape = dshape.clone(); } }
    for i in 0..n { if !declared[i] { let nm = id(r, &nodes[i].name); stmts.push(format!("{};", nm)); } }
    // Declared once more.
    for _ in 0..r.z(3) { let i = r.z(n); if declared[i] && (dshape.is_empty() || nodes[i].shape == dshape) { let nm = id(r, &nodes[i].name); let x = inert(r); stmts.push(if r.one(2) { format!("{};", nm) } else { format!("{} [{}];", nm, x) }); } }
    for k in (1..stmts.len()).rev() { if r.one(2) { stmts.swap(k, r.z(k + 1)); } }
    let mut out = String::new();
    if r.one(6) { out.push_str("strict "); }
    out.push_str(if r.one(6) { "graph" } else { "digraph" });
    out.push_str(r.pick(&[" G {\n", " {\n", " \"a } b\" {\n"]));
    if r.one(3) { out.push_str("rankdir=LR;\n"); }
    if !dshape.is_empty() { out.push_str(&format!("node [shape={}];\n", dshape)); }
    if !dlabel.is_empty() { out.push_str(&format!("edge [label={}];\n", quote(&dlabel))); }
    if ddash { out.push_str("edge [style=dashed]\n"); }
    let mut open = 0;
    let comments = r.one(2);
    let deep = r.one(6);
    let most = if deep { 12 } else { 3 };
    let defaults = r.one(3);
    for s in &stmts {
        while r.one(if deep { 3 } else { 8 }) && open < most { out.push_str(r.pick(&["subgraph cluster_0 {\n", "{\n", "subgraph {\n", "subgraph \"é }\" {", "{ {}"])); open += 1; }
        if comments && r.one(3) { out.push_str(r.pick(&["/* } */ ", "// } ; x -> y\n", "/* lost -> found */\n", "//*\n"])); }
        if defaults && r.one(4) {
            out.push_str(r.pick(&["node [color=red];\n", "edge [color=\"blue\"]\n", "graph [label=\"the graph\"];\n", "size=\"8,5\";\n", "node [fontsize=11, width=2]", "edge [penwidth=3; fontsize=9];", "node []", "rankdir=TB;", "node [style=filled, fillcolor=gold];\n"]));
        }
        out.push_str(s);
        out.push('\n');
        while open > 0 && r.one(if deep { 2 } else { 3 }) { out.push_str("}\n"); open -= 1; }
    }
    for _ in 0..open { out.push_str("}\n"); }
    out.push_str("}\n");
    match r.u(12) { 0 | 1 => out = out.replace('\n', "\r\n"), 2 => out = out.replace('\n', "\n\n\t"), 3 => { out.pop(); } _ => {} }
    (out, Model { nodes, edges })
}

fn num(s: &str) -> Result<f64, String> {
    let v: f64 = s.trim().parse().map_err(|_| format!("not a number: {:?}", s))?;
    if v.is_finite() { Ok(v) } else { Err(format!("not finite: {}", s)) }
}

/// Does the drawing show every node and edge exactly once and nothing else?
pub fn check(svg: &str, m: &Model, debug: bool, layout: bool) -> Result<(), String> {
    let root = xml::check_svg(svg)?;
    let mut all: Vec<&Elem> = vec![];
    root.walk(&mut all);
    // Text.
    let mut want: BTreeMap<Vec<String>, i64> = BTreeMap::new();
    let lines = |s: &str| -> Vec<String> { s.lines().map(|x| x.to_string()).collect() };
    let (mut rects, mut ells, mut clips) = (0usize, 0usize, 0usize);
    for n in &m.nodes {
        match &n.fields {
            Some(f) => {
                let mut l = vec![];
                leafs(f, &mut l);
                for x in l { *want.entry(vec![x]).or_insert(0) += 1; }
                rects += 1 + boxes(f);
                if n.shape == "Mrecord" { rects += 1; clips += 1; }
            }
            None => {
                *want.entry(lines(&n.label)).or_insert(0) += 1;
                match n.shape.as_str() { "box" => rects += 1, "doublecircle" => ells += 2, _ => ells += 1 }
            }
        }
    }
    for e in &m.edges { if !e.label.is_empty() { *want.entry(lines(&e.label)).or_insert(0) += 1; } }
    let mut shown: BTreeMap<Vec<String>, i64> = BTreeMap::new();
    for e in &all {
        if e.name != "text" { continue; }
        let mut sub = vec![];
        e.walk(&mut sub);
        if sub.iter().any(|x| x.name == "textPath") {
            let t = e.text();
            if !t.is_empty() { *shown.entry(lines(&t)).or_insert(0) += 1; }
            continue;
        }
        let l: Vec<String> = sub.iter().filter(|x| x.name == "tspan").map(|x| x.text()).collect();
        *shown.entry(l).or_insert(0) += 1;
    }
    for (k, v) in &want {
        let s = shown.get(k).copied().unwrap_or(0);
        if s != *v { return Err(format!("the text {:?} is drawn {} times instead of {}", k, s, v)); }
    }
    for (k, v) in &shown { if !want.contains_key(k) { return Err(format!("the text {:?} is drawn {} times but is not in the document", k, v)); } }
    // Edges.
    let paths: Vec<&&Elem> = all.iter().filter(|e| e.name == "path").collect();
    if paths.len() != m.edges.len() { return Err(format!("{} edges are drawn, the document has {}", paths.len(), m.edges.len())); }
    let nd = m.edges.iter().filter(|e| e.dashed).count();
    let gd = paths.iter().filter(|p| p.attr("stroke-dasharray").is_some()).count();
    if nd != gd { return Err(format!("{} dashed edges are drawn, the document has {}", gd, nd)); }
    let heads: usize = paths.iter().map(|p| p.attr("marker-start").is_some() as usize + p.attr("marker-end").is_some() as usize).sum();
    let wh = m.edges.iter().filter(|e| e.directed).count();
    if heads != wh { return Err(format!("{} arrow heads are drawn, the document has {}", heads, wh)); }
    if debug { return Ok(()); }
    // Shapes.
    let c = |n: &str| all.iter().filter(|e| e.name == n).count();
    for (n, w) in [("rect", rects), ("ellipse", ells), ("clipPath", clips), ("line", 0)] {
        if c(n) != w { return Err(format!("{} <{}> are drawn instead of {}", c(n), n, w)); }
    }
    if !layout { return Ok(()); }
    // Ends of the edges: find the node that each end lies on.
    let mut last: Option<(f64, f64, f64, f64)> = None;
    let mut bbox: BTreeMap<Vec<String>, Vec<(f64, f64, f64, f64)>> = BTreeMap::new();
    let mut pend: Vec<Vec<String>> = vec![];
    let mut inside_clip = false;
    for e in &all {
        match e.name.as_str() {
            "clipPath" => inside_clip = true,
            "rect" => {
                if inside_clip { inside_clip = false; continue; }
                let g = |n: &str| num(e.attr(n).unwrap_or("?"));
                let b = (g("x")?, g("y")?, g("x")? + g("width")?, g("y")? + g("height")?);
                if e.attr("fill").map(|f| f.ends_with("00000000")).unwrap_or(false) {
                    // The outline that ends a record: the box of all its fields.
                    for t in pend.drain(..) { bbox.entry(t).or_default().push(b); }
                }
                last = Some(b);
            }
            "ellipse" => {
                let g = |n: &str| num(e.attr(n).unwrap_or("?"));
                let (cx, cy, rx, ry) = (g("cx")?, g("cy")?, g("rx")?, g("ry")?);
                let b = (cx - rx, cy - ry, cx + rx, cy + ry);
                // The inner circle of a double circle is not its border.
                last = match last { Some(l) if (l.0 + l.2 - 2. * cx).abs() < 1e-6 && (l.1 + l.3 - 2. * cy).abs() < 1e-6 && l.0 < b.0 => Some(l), _ => Some(b) };
            }
            "text" => {
                let mut sub = vec![];
                e.walk(&mut sub);
                if sub.iter().any(|x| x.name == "textPath") { continue; }
                let l: Vec<String> = sub.iter().filter(|x| x.name == "tspan").map(|x| x.text()).collect();
                let rec = m.nodes.iter().any(|n| n.fields.as_ref().map(|f| { let mut v = vec![]; leafs(f, &mut v); l.len() == 1 && v.contains(&l[0]) }).unwrap_or(false));
                if rec { pend.push(l); } else if let Some(b) = last { bbox.entry(l).or_default().push(b); }
            }
            _ => {}
        }
    }
    // Boxes by node; labels that are not unique make a node unusable.
    let mut nb: Vec<Option<(f64, f64, f64, f64)>> = vec![];
    for n in &m.nodes {
        let key = match &n.fields { Some(f) => { let mut v = vec![]; leafs(f, &mut v); vec![v[0].clone()] } None => lines(&n.label) };
        nb.push(match bbox.get(&key) { Some(v) if v.len() == 1 && want[&key] == 1 => Some(v[0]), _ => None });
    }
    if nb.iter().any(|b| b.is_none()) { return Ok(()); }
    let at = |x: f64, y: f64| -> Option<usize> {
        let mut f = None;
        for (i, b) in nb.iter().enumerate() {
            let b = b.unwrap();
            if x >= b.0 - 4. && x <= b.2 + 4. && y >= b.1 - 4. && y <= b.3 + 4. { if f.is_some() { return None; } f = Some(i); }
        }
        f
    };
    let mut got: BTreeMap<(usize, usize, bool, bool), i64> = BTreeMap::new();
    for p in &paths {
        let d = p.attr("d").unwrap_or("");
        let v: Result<Vec<f64>, String> = d.split(|c: char| c == ' ' || c == ',' || c.is_ascii_alphabetic()).filter(|x| !x.is_empty()).map(num).collect();
        let v = v?;
        if v.len() < 8 || v.len() % 2 != 0 { return Err(format!("odd path {:?}", d)); }
        let (a, b) = (at(v[0], v[1]), at(v[v.len() - 2], v[v.len() - 1]));
        let (a, b) = match (a, b) { (Some(a), Some(b)) => (a, b), _ => return Ok(()) };
        let (s, e) = (p.attr("marker-start").is_some(), p.attr("marker-end").is_some());
        let key = if s && !e { (b, a, true) } else if e && !s { (a, b, true) } else { (a.min(b), a.max(b), false) };
        *got.entry((key.0, key.1, key.2, p.attr("stroke-dasharray").is_some())).or_insert(0) += 1;
    }
    let mut exp: BTreeMap<(usize, usize, bool, bool), i64> = BTreeMap::new();
    for e in &m.edges {
        let k = if e.directed { (e.from, e.to, true) } else { (e.from.min(e.to), e.from.max(e.to), false) };
        *exp.entry((k.0, k.1, k.2, e.dashed)).or_insert(0) += 1;
    }
    if got != exp { return Err(format!("edges drawn (from, to, directed, dashed): {:?}, in the document: {:?}", got, exp)); }
    Ok(())
}
