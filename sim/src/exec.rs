//! Runs one simulated process in which the library under test works.
use crate::gen::{self, ApiGraph, Call};
use crate::world::*;
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::core::utils::save_to_file;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Env {
    pub rnd: u64, pub scatter: u64, pub clock_real: i64, pub clock_mono: i64, pub tick: i64,
    pub pid: u32, pub ncpu: u32, pub spurious: u32,
    /// 0: off ... 5: trace
    pub log: u8,
    /// Work on the main thread of the process.
    pub main: bool,
    pub idle_threads: u8,
    pub vars: Vec<(String, String)>,
    /// What environment variables hold that nobody has set (0: nothing).
    #[serde(default)]
    pub env_seed: u64,
    /// How much of the stack is used up before the work starts.
    #[serde(default)]
    pub pad: u32,
    #[serde(default)]
    pub cwd: Option<String>,
    /// Files that are there in this environment.
    #[serde(default)]
    pub files: Vec<(String, Body)>,
}
impl Env {
    pub fn plain() -> Env {
        Env { rnd: 1, scatter: 0, clock_real: 1_700_000_000_000_000_000, clock_mono: 1_000_000_000_000, tick: 1000, pid: 4242,
            ncpu: 4, spurious: 0, log: 0, main: false, idle_threads: 0, vars: vec![], env_seed: 0, pad: 0, cwd: None, files: vec![] }
    }
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Sched { pub mode: u32, pub seed: u64, pub p: u64, pub p2: u64, pub len: u64, pub guard: u64, pub list: Vec<(u32, u64, u32)> }
impl Sched {
    pub fn none() -> Sched { Sched { mode: 0, seed: 0, p: 0, p2: 0, len: 0, guard: 0, list: vec![] } }
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Src { Dot(String), Api(ApiGraph) }
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Opt { pub debug: bool, pub noopt: bool, pub nolayout: bool }
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq, Debug)]
pub enum How { Fresh, Ast, Builder,
    /// A graph that was built beforehand, by the main thread.
    Made }
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq, Debug)]
pub struct Cancel { pub log: bool, pub at: usize, pub before: bool }
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Op {
    /// Parse and show the tree.
    Parse { src: usize },
    /// Parse, and print the error or the tree to standard output.
    Print { src: usize },
    /// Render into a writer of one's own.
    Draw { src: usize, how: How, opt: Opt, cancel: Option<Cancel> },
    /// Render into the writer that all tasks share.
    Stream { src: usize, how: How, opt: Opt, cancel: Option<Cancel> },
    /// Drawing calls on the shared writer.
    Calls { calls: Vec<Call> },
    /// Takes the document from the shared writer.
    Take,
    /// Takes the document from a finished writer that is shared by reference.
    Final { src: usize, opt: Opt },
    Save { path: String, body: Body },
    /// The trouble with the storage is over.
    Clear,
    Repeat { n: usize, op: Box<Op> },
}
/// What a drawing backend or log sink does with the library at one of its calls.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Nest {
    /// 0: in a call made by an operation of a task, 1: in one made by such a
    /// nested operation, and so on.
    pub depth: usize,
    pub log: bool,
    /// Which of these calls, counted over the whole run.
    pub at: u64,
    /// On a thread of its own, which the callback waits for.
    pub thread: bool,
    pub op: Op,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Spec {
    pub env: Env,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub crash_step: u64,
    pub budget: u64,
    pub capacity: Option<u64>,
    pub disk: Disk,
    pub srcs: Vec<Src>,
    pub tasks: Vec<Vec<Op>>,
    /// Run by the main thread once the tasks are done.
    pub epilogue: Vec<Op>,
    /// Keep account of what is in use after every operation, not of results.
    #[serde(default)]
    pub lean: bool,
    /// How many operations of the only task each thread runs (0: all of them).
    #[serde(default)]
    pub chunk: usize,
    #[serde(default)]
    pub nested: Vec<Nest>,
}
impl Spec {
    pub fn new() -> Spec {
        Spec { env: Env::plain(), sched: Sched::none(), faults: vec![], crash_step: 0, budget: 0, capacity: None, disk: Disk::new(),
            srcs: vec![], tasks: vec![], epilogue: vec![], lean: false, chunk: 0, nested: vec![] }
    }
}

// Outcomes of an operation.
pub const T_OK: u8 = 0;
pub const T_REJECTED: u8 = 1;
pub const T_PANIC: u8 = 2;
pub const T_CANCELLED: u8 = 3;
pub const T_IOERR: u8 = 4;

#[derive(Clone, PartialEq, Debug)]
pub struct Done {
    pub task: u32, pub op: u32, pub tag: u8, pub msg: String, pub out: Vec<u8>, pub calls: Vec<u8>, pub late: u64,
    /// Faults that fired while the operation ran.
    pub trouble: u64,
    /// Drawing calls / log records that were made.
    pub ncalls: u64, pub nlogs: u64,
}
impl Done {
    pub fn tag_name(&self) -> &'static str { ["ok", "rejected", "panic", "cancelled", "io_error"][self.tag as usize] }
}
#[derive(Clone, PartialEq, Debug)]
pub enum End { Done, Crashed, Hang, Deadlock, Limit, Signal(i32), Exit(i32), Wall }

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64, pub steps: u64, pub switches: u64, pub blocked: u64, pub hot: u64, pub sim_ns: u64,
    #[serde(default)]
    pub max_steps: u64,
    pub cnt: Vec<u64>, pub fired: BTreeMap<String, u64>, pub ends: BTreeMap<String, u64>,
    pub scheds: std::collections::BTreeSet<u64>, pub histories: std::collections::BTreeSet<u64>,
    pub guards: std::collections::BTreeSet<u32>, pub cli_guards: std::collections::BTreeSet<u32>,
    pub probes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_insert(0) += 1; }
    pub fn probe_n(&mut self, k: &str, n: u64) { *self.probes.entry(k.to_string()).or_insert(0) += n; }
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs; self.steps += o.steps; self.switches += o.switches; self.blocked += o.blocked; self.hot += o.hot; self.sim_ns += o.sim_ns;
        self.max_steps = self.max_steps.max(o.max_steps);
        if self.cnt.len() < C_N { self.cnt.resize(C_N, 0); }
        for (i, c) in o.cnt.iter().enumerate() { self.cnt[i] += c; }
        for (k, v) in &o.fired { *self.fired.entry(k.clone()).or_insert(0) += v; }
        for (k, v) in &o.ends { *self.ends.entry(k.clone()).or_insert(0) += v; }
        for (k, v) in &o.probes { *self.probes.entry(k.clone()).or_insert(0) += v; }
        self.scheds.extend(&o.scheds); self.histories.extend(&o.histories); self.guards.extend(&o.guards); self.cli_guards.extend(&o.cli_guards);
    }
    pub fn add_world(&mut self, w: &World, end: &str, mono0: i64, cli: bool) {
        self.runs += 1;
        self.max_steps = self.max_steps.max(w.total_steps);
        self.steps += w.total_steps; self.switches += w.nswitch; self.blocked += w.nblocked; self.hot += w.ninteresting;
        self.sim_ns += (w.clock_mono - mono0).max(0) as u64;
        if self.cnt.len() < C_N { self.cnt.resize(C_N, 0); }
        for i in 0..C_N {
            self.cnt[i] += w.cnt[i];
            for k in 0..F_N { if w.fired[i][k] > 0 { *self.fired.entry(format!("{}:{}", CLASSES[i], KINDS[k])).or_insert(0) += w.fired[i][k]; } }
        }
        *self.ends.entry(end.to_string()).or_insert(0) += 1;
        if w.nswitch > 0 { self.scheds.insert(w.sw_hash); }
        self.histories.insert(w.ev_hash ^ w.total_steps.wrapping_mul(0x9e3779b97f4a7c15));
        let g = if cli { &mut self.cli_guards } else { &mut self.guards };
        if w.nguards as usize != 0 {
            for (i, b) in w.gmap.iter().enumerate() { if *b != 0 { for k in 0..8 { if b >> k & 1 != 0 { g.insert((i * 8 + k) as u32); } } } }
        }
    }
}

pub struct RunResult {
    pub end: End,
    pub recs: Vec<Rec>,
    pub done: Vec<Done>,
    pub disk: BTreeMap<String, (u32, u32, Vec<u8>)>,
    pub sched: Vec<(u32, u64, u32)>,
    pub steps: u64,
    pub task_steps: Vec<u64>,
    pub nswitch: u64,
    pub ev_hash: u64,
    pub sw_hash: u64,
    pub fired: u64,
    pub harness_err: u32,
    pub events: Vec<String>,
    pub stdout: Vec<u8>,
    pub guards: Vec<u32>,
    pub cnt: [u64; C_N],
    pub wpaths: Vec<String>,
    pub rpaths: Vec<String>,
    /// How often each planned fault fired.
    pub hits: Vec<u64>,
}
impl RunResult {
    /// Everything that must be the same when the run is repeated.
    pub fn fingerprint(&self) -> u64 {
        let mut h = gen::hash(format!("{:?}", self.end).as_bytes()) ^ self.ev_hash.rotate_left(7) ^ self.sw_hash.rotate_left(13) ^ self.steps;
        for d in &self.done { h = h.rotate_left(5) ^ gen::hash(&d.out) ^ gen::hash(&d.calls) ^ gen::hash(d.msg.as_bytes()) ^ d.tag as u64; }
        for (p, (_, _, b)) in &self.disk { h = h.rotate_left(3) ^ gen::hash(p.as_bytes()) ^ gen::hash(b); }
        for s in &self.sched { h = h.rotate_left(3) ^ (s.0 as u64) << 40 ^ (s.2 as u64) << 50 ^ s.1; }
        h ^ gen::hash(&self.stdout)
    }
}

// ------------------------------------------------------------------ in the child

static mut WORLD: *mut World = std::ptr::null_mut();
fn world() -> &'static mut World { unsafe { &mut *WORLD } }
fn me() -> usize { unsafe { sim_task().max(0) as usize } }

struct Cancelled;
static mut LOC: [String; MAX_TASK] = [const { String::new() }; MAX_TASK];
static mut LOG_N: [usize; MAX_TASK] = [0; MAX_TASK];
static mut LOG_AT: [usize; MAX_TASK] = [0; MAX_TASK];

/// Which list of operations a thread works on, as records name it: 1 + idle
/// threads + its number, 0 for the main thread.
static mut LIST: [u32; MAX_TASK] = [0; MAX_TASK];
static mut CTX: *const Ctx = std::ptr::null();
static mut DEPTH: [u8; MAX_TASK] = [0; MAX_TASK];
static mut SEEN: [[u64; 2]; 8] = [[0; 2]; 8];
/// The callback uses the library, if that is planned for this call.
fn nest(log: bool) {
    unsafe {
        if CTX.is_null() || (*CTX).nested.is_empty() { return; }
        let c = &*CTX;
        let t = me();
        let d = DEPTH[t] as usize;
        if d > 6 { return; }
        SEEN[d][log as usize] += 1;
        let n = SEEN[d][log as usize];
        for (i, x) in c.nested.iter().enumerate() {
            if x.depth != d || x.log != log || x.at != n { continue; }
            if x.thread {
                let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                    DEPTH[me()] = d as u8 + 1;
                    LIST[me()] = 900;
                    run_op(&*CTX, &c.nested[i].op, 2000 + i as u32);
                });
                let _ = h.unwrap().join();
            } else {
                let (at, seen) = (LOG_AT[t], LOG_N[t]);
                LOG_AT[t] = 0;
                DEPTH[t] += 1;
                run_op(c, &x.op, 2000 + i as u32);
                DEPTH[t] -= 1;
                LOG_AT[t] = at; LOG_N[t] = seen;
            }
        }
    }
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        unsafe {
            sim_call_point(2);
            let s = format!("{} {}", r.level(), r.args());
            std::hint::black_box(&s);
            let t = me();
            LOG_N[t] += 1;
            nest(true);
            if LOG_AT[t] == LOG_N[t] { LOG_AT[t] = 0; std::panic::panic_any(Cancelled); }
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

struct Pause(i32);
impl Pause {
    fn new() -> Pause { unsafe { extern "C" { fn sim_active() -> i32; } let a = sim_active(); sim_pause(1); Pause(a) } }
}
impl Drop for Pause { fn drop(&mut self) { if self.0 != 0 { unsafe { sim_pause(0) } } } }

pub fn to_look(l: &gen::Look) -> StyleAttr {
    StyleAttr::new(Color::fast(&l.color), l.width, l.fill.as_ref().map(|c| Color::fast(c)), l.rounded, l.font)
}
fn to_rec(r: &gen::Rec) -> RecordDef {
    match r {
        gen::Rec::Text(s, p) => RecordDef::Text(s.clone(), p.clone()),
        gen::Rec::Row(v) => RecordDef::Array(v.iter().map(to_rec).collect()),
    }
}
fn build_api(g: &ApiGraph) -> VisualGraph {
    let or = if g.lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let mut vg = VisualGraph::new(or);
    let mut hs = vec![];
    for n in &g.nodes {
        let shape = match &n.shape {
            gen::Shape::Box(s) => ShapeKind::new_box(s),
            gen::Shape::Circle(s) => ShapeKind::new_circle(s),
            gen::Shape::Double(s) => ShapeKind::new_double_circle(s),
            gen::Shape::Record(r) => ShapeKind::new_record(&to_rec(r)),
            gen::Shape::None => ShapeKind::None,
        };
        let o = if n.flip { or.flip() } else { or };
        let e = match &n.props {
            Some(p) => Element::create_with_properties(shape, to_look(&n.look), o, Point::new(n.w, n.h), p.clone()),
            None => Element::create(shape, to_look(&n.look), o, Point::new(n.w, n.h)),
        };
        hs.push(vg.add_node(e));
    }
    for e in &g.edges {
        if e.from >= hs.len() || e.to >= hs.len() { continue; }
        let le = |b: bool| if b { LineEndKind::Arrow } else { LineEndKind::None };
        let st = match e.style { 0 => LineStyleKind::Dashed, 1 => LineStyleKind::Dotted, 2 => LineStyleKind::None, _ => LineStyleKind::Normal };
        let a = match &e.props {
            Some(p) => Arrow::with_properties(le(e.heads.0), le(e.heads.1), st, &e.text, &to_look(&e.look), p.clone(), &e.ports.0, &e.ports.1),
            None => Arrow::new(le(e.heads.0), le(e.heads.1), st, &e.text, &to_look(&e.look), &e.ports.0, &e.ports.1),
        };
        vg.add_edge(a, hs[e.from], hs[e.to]);
    }
    vg
}

/// A drawing call as it was received.
#[derive(Clone)]
enum DCall {
    Rect(Point, Point, StyleAttr, Option<String>, Option<ClipHandle>),
    Line(Point, Point, StyleAttr, Option<String>),
    Circle(Point, Point, StyleAttr, Option<String>),
    Text(Point, String, StyleAttr),
    Arrow(Vec<(Point, Point)>, bool, (bool, bool), StyleAttr, Option<String>, String),
    Clip(Point, Point, usize, ClipHandle),
}
impl DCall {
    fn apply(&self, w: &mut dyn RenderBackend) -> bool {
        match self {
            DCall::Rect(a, b, l, p, c) => w.draw_rect(*a, *b, l, p.clone(), *c),
            DCall::Line(a, b, l, p) => w.draw_line(*a, *b, l, p.clone()),
            DCall::Circle(a, b, l, p) => w.draw_circle(*a, *b, l, p.clone()),
            DCall::Text(a, t, l) => w.draw_text(*a, t, l),
            DCall::Arrow(v, d, h, l, p, t) => w.draw_arrow(v, *d, *h, l, p.clone(), t),
            DCall::Clip(a, b, r, h) => return w.create_clip(*a, *b, *r) == *h,
        }
        true
    }
}

/// The simulated drawing backend: records every call, may cancel at any.
struct Tap<'a> {
    inner: Option<&'a mut dyn RenderBackend>,
    log: &'a mut Vec<u8>,
    n: usize,
    cancel: Option<Cancel>,
    gone: bool,
    late: u64,
    next_clip: usize,
}
impl<'a> Tap<'a> {
    fn new(inner: Option<&'a mut dyn RenderBackend>, log: &'a mut Vec<u8>, cancel: Option<Cancel>) -> Tap<'a> {
        Tap { inner, log, n: 0, cancel, gone: false, late: 0, next_clip: 0 }
    }
    fn enter(&mut self, s: String) {
        unsafe { sim_call_point(1); }
        {
            let _p = Pause::new();
            self.log.extend_from_slice(s.as_bytes());
            self.log.push(b'\n');
        }
        self.n += 1;
        if self.gone { self.late += 1; return; }
        nest(false);
        if let Some(c) = self.cancel { if !c.log && c.before && c.at == self.n { self.stop(); } }
    }
    fn leave(&mut self) {
        if self.gone { return; }
        if let Some(c) = self.cancel { if !c.log && !c.before && c.at == self.n { self.stop(); } }
    }
    fn stop(&mut self) {
        self.gone = true;
        std::panic::panic_any(Cancelled);
    }
}
impl<'a> RenderBackend for Tap<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, properties: Option<String>, clip: Option<ClipHandle>) {
        self.enter(format!("rect {:?} {:?} {:?} {:?} {:?}", xy, size, look, properties, clip));
        if let Some(b) = self.inner.as_mut() { b.draw_rect(xy, size, look, properties, clip) }
        self.leave();
    }
    fn draw_line(&mut self, start: Point, stop: Point, look: &StyleAttr, properties: Option<String>) {
        self.enter(format!("line {:?} {:?} {:?} {:?}", start, stop, look, properties));
        if let Some(b) = self.inner.as_mut() { b.draw_line(start, stop, look, properties) }
        self.leave();
    }
    fn draw_circle(&mut self, xy: Point, size: Point, look: &StyleAttr, properties: Option<String>) {
        self.enter(format!("circle {:?} {:?} {:?} {:?}", xy, size, look, properties));
        if let Some(b) = self.inner.as_mut() { b.draw_circle(xy, size, look, properties) }
        self.leave();
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        self.enter(format!("text {:?} {:?} {:?}", xy, text, look));
        if let Some(b) = self.inner.as_mut() { b.draw_text(xy, text, look) }
        self.leave();
    }
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), look: &StyleAttr, properties: Option<String>, text: &str) {
        self.enter(format!("arrow {:?} {:?} {:?} {:?} {:?} {:?}", path, dashed, head, look, properties, text));
        if let Some(b) = self.inner.as_mut() { b.draw_arrow(path, dashed, head, look, properties, text) }
        self.leave();
    }
    fn create_clip(&mut self, xy: Point, size: Point, rounded_px: usize) -> ClipHandle {
        self.enter(format!("clip {:?} {:?} {:?}", xy, size, rounded_px));
        let h = match self.inner.as_mut() {
            Some(b) => b.create_clip(xy, size, rounded_px),
            None => { self.next_clip += 1; self.next_clip - 1 }
        };
        self.leave();
        h
    }
}

struct Shared { w: SVGWriter, log: Vec<Logged> }
enum Logged { Call(DCall), Take(String) }
/// The shared writer behind a lock, call by call.
struct Locked<'a>(&'a Mutex<Shared>);
impl<'a> Locked<'a> {
    fn go(&self, c: DCall) {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        c.apply(&mut s.w);
        let _p = Pause::new();
        s.log.push(Logged::Call(c));
    }
}
impl<'a> RenderBackend for Locked<'a> {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, properties: Option<String>, clip: Option<ClipHandle>) {
        self.go(DCall::Rect(xy, size, look.clone(), properties, clip))
    }
    fn draw_line(&mut self, a: Point, b: Point, look: &StyleAttr, properties: Option<String>) { self.go(DCall::Line(a, b, look.clone(), properties)) }
    fn draw_circle(&mut self, a: Point, b: Point, look: &StyleAttr, properties: Option<String>) { self.go(DCall::Circle(a, b, look.clone(), properties)) }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) { self.go(DCall::Text(xy, text.to_string(), look.clone())) }
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), look: &StyleAttr, properties: Option<String>, text: &str) {
        self.go(DCall::Arrow(path.to_vec(), dashed, head, look.clone(), properties, text.to_string()))
    }
    fn create_clip(&mut self, xy: Point, size: Point, r: usize) -> ClipHandle {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let h = s.w.create_clip(xy, size, r);
        let _p = Pause::new();
        s.log.push(Logged::Call(DCall::Clip(xy, size, r, h)));
        h
    }
}

/// What the tasks share. The types under test are used by shared reference
/// from several threads, as the property has it.
/// How something failed, and what it said.
type Fail = (u8, String);
struct Ctx {
    srcs: Vec<Src>,
    asts: Vec<Option<Result<ast::Graph, Fail>>>,
    builders: Vec<Option<Result<GraphBuilder, Fail>>>,
    finals: Vec<((usize, Opt), Result<SVGWriter, Fail>)>,
    shared: Mutex<Shared>,
    lean: bool,
    nested: Vec<Nest>,
    made: Mutex<Vec<(usize, Result<VisualGraph, Fail>)>>,
}
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

fn payload(p: Box<dyn std::any::Any + Send>) -> (u8, String) {
    if p.is::<Cancelled>() { return (T_CANCELLED, String::new()); }
    let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
    let loc = unsafe { (*std::ptr::addr_of!(LOC))[me()].clone() };
    (T_PANIC, format!("{} at {}", m, loc))
}

enum Graph<'a> { Dot(How, &'a Ctx, usize, &'a str), Api(&'a ApiGraph) }
fn make_graph(g: &Graph) -> Result<VisualGraph, Fail> {
    match g {
        Graph::Api(a) => Ok(build_api(a)),
        Graph::Dot(How::Fresh, _, _, text) => {
            let mut p = DotParser::new(text);
            let g = p.process().map_err(|e| (T_REJECTED, e))?;
            let mut b = GraphBuilder::new();
            b.visit_graph(&g);
            Ok(b.get())
        }
        Graph::Dot(How::Ast, c, i, _) => match c.asts[*i].as_ref().unwrap() {
            Ok(g) => {
                let mut b = GraphBuilder::new();
                b.visit_graph(g);
                Ok(b.get())
            }
            Err(e) => Err(e.clone()),
        },
        Graph::Dot(How::Builder, c, i, _) => match c.builders[*i].as_ref().unwrap() {
            Ok(b) => Ok(b.get()),
            Err(e) => Err(e.clone()),
        },
        Graph::Dot(How::Made, ..) => unreachable!(),
    }
}
fn made(c: &Ctx, src: usize) -> Option<Result<VisualGraph, Fail>> {
    let mut m = c.made.lock().unwrap_or_else(|e| e.into_inner());
    let i = m.iter().position(|x| x.0 == src)?;
    Some(m.swap_remove(i).1)
}
fn graph_of<'a>(c: &'a Ctx, src: usize, how: How) -> Graph<'a> {
    match &c.srcs[src] { Src::Dot(t) => Graph::Dot(how, c, src, t), Src::Api(a) => Graph::Api(a) }
}

struct Outcome { tag: u8, msg: String, out: Vec<u8>, calls: Vec<u8>, late: u64, ncalls: u64 }
impl Outcome { fn new(tag: u8, msg: String) -> Outcome { Outcome { tag, msg, out: vec![], calls: vec![], late: 0, ncalls: 0 } } }

fn draw(c: &Ctx, src: usize, how: How, opt: Opt, cancel: Option<Cancel>, shared: bool) -> Outcome {
    unsafe { LOG_AT[me()] = match cancel { Some(x) if x.log => x.at, _ => 0 }; }
    let mut log: Vec<u8> = { let _p = Pause::new(); Vec::with_capacity(1 << 16) };
    let ready = if how == How::Made { made(c, src) } else { None };
    let g = graph_of(c, src, if how == How::Made { How::Fresh } else { how });
    let mut own = SVGWriter::new();
    let mut lk = Locked(&c.shared);
    let (res, late, ncalls) = {
        let inner: &mut dyn RenderBackend = if shared { &mut lk } else { &mut own };
        let mut tap = Tap::new(Some(inner), &mut log, cancel);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut vg = match ready { Some(r) => r?, None => make_graph(&g)? };
            vg.do_it(opt.debug, opt.noopt, opt.nolayout, &mut tap);
            Ok::<(), Fail>(())
        }));
        (r, tap.late, tap.n as u64)
    };
    unsafe { LOG_AT[me()] = 0; }
    let mut o = match res {
        Ok(Ok(())) => Outcome::new(T_OK, String::new()),
        Ok(Err((t, e))) => Outcome::new(t, e),
        Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) }
    };
    if !shared {
        match catch_unwind(AssertUnwindSafe(|| own.finalize())) {
            Ok(s) => o.out = s.into_bytes(),
            Err(p) => { let (t, m) = payload(p); o.tag = t; o.msg = format!("finalize: {}", m); }
        }
    }
    o.calls = log;
    o.late = late;
    o.ncalls = ncalls;
    o
}

/// What is in use once an operation has returned.
fn account(k: u32, steps: u64) {
    let _p = Pause::new();
    let w = world();
    unsafe { (*std::ptr::addr_of_mut!(LOC))[me()] = String::new(); }
    let (b, n) = crate::alloc::live();
    let fds = w.open_files() as i64;
    let files = w.dir.iter().filter(|d| d.used != 0).count() as i64;
    let live = w.task[..w.ntask as usize].iter().filter(|t| t.state != 0 && t.state != 5).count() as i64;
    let v = [b, n, fds, files, live, steps as i64];
    let mut x = [0u8; 48];
    for (i, v) in v.iter().enumerate() { x[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes()); }
    w.journal(R_LIVE, 0, k, &[&x]);
}
fn run_op(c: &Ctx, op: &Op, k: u32) {
    if let Op::Repeat { n, op } = op { for _ in 0..*n { run_op(c, op, k); } return; }
    if !c.lean { return run_one(c, op, k); }
    let s0 = unsafe { sim_steps() };
    run_one(c, op, k);
    account(k, unsafe { sim_steps() } - s0);
}
fn run_one(c: &Ctx, op: &Op, k: u32) {
    let t = unsafe { LIST[me()] };
    let fired0 = {
        let _p = Pause::new();
        let w = world();
        if c.lean { w.journal(R_START, t, k, &[]); } else if let Op::Save { path, .. } = op {
            let p = abs_path(path);
            let old: Option<Vec<u8>> = w.file(&p).map(|b| b.to_vec());
            match &old { Some(b) => w.journal(R_START, t, k, &[b]), None => w.journal(R_START, t, k, &[]) }
        } else { w.journal(R_START, t, k, &[]); }
        unsafe { LOG_N[me()] = 0; }
        fired_total(w)
    };
    let o = match op {
        Op::Parse { src } => match &c.srcs[*src] {
            Src::Dot(text) => match catch_unwind(AssertUnwindSafe(|| DotParser::new(text).process())) {
                Ok(Ok(g)) => { let _p = Pause::new(); let mut o = Outcome::new(T_OK, String::new()); o.out = format!("{:?}", g).into_bytes(); o }
                Ok(Err(e)) => Outcome::new(T_REJECTED, e),
                Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) }
            },
            Src::Api(_) => Outcome::new(T_OK, String::new()),
        },
        Op::Print { src } => match &c.srcs[*src] {
            Src::Dot(text) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut p = DotParser::new(text);
                    match p.process() {
                        Ok(g) => { layout::gv::dump_ast(&g); Ok(()) }
                        Err(e) => { p.print_error(); Err(e) }
                    }
                }));
                match r { Ok(Ok(())) => Outcome::new(T_OK, String::new()), Ok(Err(e)) => Outcome::new(T_REJECTED, e), Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) } }
            }
            Src::Api(_) => Outcome::new(T_OK, String::new()),
        },
        Op::Draw { src, how, opt, cancel } => draw(c, *src, *how, *opt, *cancel, false),
        Op::Stream { src, how, opt, cancel } => draw(c, *src, *how, *opt, *cancel, true),
        Op::Calls { calls } => {
            let mut clips: Vec<ClipHandle> = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut w = Locked(&c.shared);
                for call in calls {
                    unsafe { sim_call_point(1); }
                    let p = |x: &(f64, f64)| Point::new(x.0, x.1);
                    match call {
                        Call::Rect { xy, size, look, props, clip } => {
                            let h = clip.and_then(|i| if clips.is_empty() { None } else { Some(clips[i % clips.len()]) });
                            w.draw_rect(p(xy), p(size), &to_look(look), props.clone(), h)
                        }
                        Call::Line { a, b, look, props } => w.draw_line(p(a), p(b), &to_look(look), props.clone()),
                        Call::Circle { xy, size, look, props } => w.draw_circle(p(xy), p(size), &to_look(look), props.clone()),
                        Call::Text { xy, text, look } => w.draw_text(p(xy), text, &to_look(look)),
                        Call::Arrow { path, dashed, head, look, props, text } => {
                            let v: Vec<(Point, Point)> = path.iter().map(|x| (p(&x.0), p(&x.1))).collect();
                            w.draw_arrow(&v, *dashed, *head, &to_look(look), props.clone(), text)
                        }
                        Call::Clip { xy, size, rounded } => { let h = w.create_clip(p(xy), p(size), *rounded); clips.push(h); }
                    }
                }
            }));
            match r { Ok(()) => Outcome::new(T_OK, String::new()), Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) } }
        }
        Op::Take => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut s = c.shared.lock().unwrap_or_else(|e| e.into_inner());
                let text = s.w.finalize();
                let _p = Pause::new();
                s.log.push(Logged::Take(text.clone()));
                text
            }));
            match r {
                Ok(s) => { let mut o = Outcome::new(T_OK, String::new()); o.out = s.into_bytes(); o }
                Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) }
            }
        }
        Op::Final { src, opt } => {
            match c.finals.iter().find(|f| f.0 == (*src, *opt)) {
                Some((_, Ok(w))) => match catch_unwind(AssertUnwindSafe(|| w.finalize())) {
                    Ok(s) => { let mut o = Outcome::new(T_OK, String::new()); o.out = s.into_bytes(); o }
                    Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) }
                },
                Some((_, Err(e))) => Outcome::new(e.0, e.1.clone()),
                None => Outcome::new(T_REJECTED, "no writer".into()),
            }
        }
        Op::Save { path, body } => {
            let text = { let _p = Pause::new(); String::from_utf8(body.bytes()).unwrap() };
            match catch_unwind(AssertUnwindSafe(|| save_to_file(path, &text))) {
                Ok(Ok(())) => Outcome::new(T_OK, String::new()),
                Ok(Err(e)) => Outcome::new(T_IOERR, format!("{:?} {:?}", e.kind(), e.raw_os_error())),
                Err(p) => { let (t, m) = payload(p); Outcome::new(t, m) }
            }
        }
        Op::Clear => {
            let w = world();
            w.nfault = 0;
            w.capacity = 1 << 40;
            for i in w.ino.iter_mut() { if i.used != 0 { i.mode |= 0o700; } }
            Outcome::new(T_OK, String::new())
        }
        Op::Repeat { .. } => unreachable!(),
    };
    let _p = Pause::new();
    let w = world();
    let mut out = o.out;
    let mut exists = 1u64;
    if let Op::Save { path, .. } = op {
        match w.file(&abs_path(path)) { Some(b) => out = b.to_vec(), None => exists = 0 }
    }
    let trouble = fired_total(w) - fired0;
    let nl = unsafe { LOG_N[me()] as u64 };
    let calls = if c.lean { out.clear(); &[] } else { &o.calls[..] };
    w.journal(R_END, t, k, &[&[o.tag], o.msg.as_bytes(), &out, calls, &o.late.to_le_bytes(), &trouble.to_le_bytes(),
        &o.ncalls.to_le_bytes(), &nl.to_le_bytes(), &exists.to_le_bytes()]);
}
fn fired_total(w: &World) -> u64 {
    let mut n = w.fired[C_WRITE as usize][F_FULL as usize];
    for f in &w.fault[..] { n += f.fired; }
    n
}
pub fn abs_path(p: &str) -> String {
    let s = if p.starts_with('/') { p.to_string() } else { format!("/work/{}", p) };
    let mut v: Vec<&str> = vec![];
    for c in s.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } }
    format!("/{}", v.join("/"))
}

fn needs(ops: &[Op], ast: &mut Vec<bool>, bld: &mut Vec<bool>, fin: &mut Vec<(usize, Opt)>, made: &mut Vec<usize>) {
    for o in ops {
        match o {
            Op::Draw { src, how, .. } | Op::Stream { src, how, .. } => match how {
                How::Ast => ast[*src] = true,
                How::Builder => bld[*src] = true,
                How::Fresh => {}
                How::Made => made.push(*src),
            },
            Op::Final { src, opt } => if !fin.contains(&(*src, *opt)) { fin.push((*src, *opt)) },
            Op::Repeat { op, .. } => needs(std::slice::from_ref(op), ast, bld, fin, made),
            _ => {}
        }
    }
}

/// Uses up some of the stack first.
#[inline(never)]
fn deep(n: u32, f: &mut dyn FnMut()) {
    let a = [n as u8; 240];
    std::hint::black_box(&a);
    if n == 0 { f() } else { deep(n - 1, f) }
    std::hint::black_box(&a);
}
fn child(spec: &Spec) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 90, rlim_max: 100 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::alarm(300);
        for (k, v) in &spec.env.vars { std::env::set_var(k, v); }
        crate::alloc::set_scatter(spec.env.scatter);
        let _ = log::set_logger(&LOGGER);
        log::set_max_level(match spec.env.log {
            0 => log::LevelFilter::Off, 1 => log::LevelFilter::Error, 2 => log::LevelFilter::Warn, 3 => log::LevelFilter::Info,
            4 => log::LevelFilter::Debug, _ => log::LevelFilter::Trace,
        });
        std::panic::set_hook(Box::new(|i| {
            let _p = Pause::new();
            let s = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
            (*std::ptr::addr_of_mut!(LOC))[me()] = s;
        }));
        sim_start();
        let ns = spec.srcs.len();
        let (mut na, mut nb, mut nf, mut nm) = (vec![false; ns], vec![false; ns], vec![], vec![]);
        for t in spec.tasks.iter().chain([&spec.epilogue]) { needs(t, &mut na, &mut nb, &mut nf, &mut nm); }
        for n in &spec.nested { needs(std::slice::from_ref(&n.op), &mut na, &mut nb, &mut nf, &mut nm); }
        let mut ctx = Ctx { srcs: spec.srcs.clone(), asts: vec![], builders: vec![], finals: vec![],
            shared: Mutex::new(Shared { w: SVGWriter::new(), log: vec![] }), lean: spec.lean, nested: spec.nested.clone(), made: Mutex::new(vec![]) };
        let parse = |i: usize| -> Result<ast::Graph, Fail> {
            match &spec.srcs[i] {
                Src::Dot(t) => match catch_unwind(AssertUnwindSafe(|| DotParser::new(t).process())) { Ok(r) => r.map_err(|e| (T_REJECTED, e)), Err(p) => Err(payload(p)) },
                Src::Api(_) => Err((T_REJECTED, "api".into())),
            }
        };
        for i in 0..ns {
            ctx.asts.push(if na[i] { Some(parse(i)) } else { None });
            ctx.builders.push(if nb[i] {
                Some(parse(i).and_then(|g| catch_unwind(AssertUnwindSafe(|| { let mut b = GraphBuilder::new(); b.visit_graph(&g); b })).map_err(payload)))
            } else { None });
        }
        for f in &nf {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut vg = make_graph(&graph_of(&ctx, f.0, How::Fresh))?;
                let mut w = SVGWriter::new();
                vg.do_it(f.1.debug, f.1.noopt, f.1.nolayout, &mut w);
                Ok::<SVGWriter, Fail>(w)
            }));
            ctx.finals.push((*f, match r { Ok(x) => x, Err(p) => Err(payload(p)) }));
        }
        for i in nm {
            let g = catch_unwind(AssertUnwindSafe(|| make_graph(&graph_of(&ctx, i, How::Fresh)))).unwrap_or_else(|p| Err(payload(p)));
            ctx.made.lock().unwrap().push((i, g));
        }
        let ctx = Arc::new(Force(ctx));
        CTX = &ctx.0;
        if spec.env.main {
            deep(spec.env.pad, &mut || for t in &spec.tasks { for (k, op) in t.iter().enumerate() { run_op(&ctx.0, op, k as u32); } });
        } else {
            for _ in 0..spec.env.idle_threads {
                let h = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {}).unwrap();
                let _ = h.join();
            }
            let mut hs = vec![];
            if spec.chunk > 0 {
                for i in (0..spec.tasks[0].len()).step_by(spec.chunk) {
                    let c = ctx.clone();
                    let ops = Force(spec.tasks[0][i..(i + spec.chunk).min(spec.tasks[0].len())].to_vec());
                    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                        let c = &c;
                        let ops = &ops;
                        for (k, op) in ops.0.iter().enumerate() { run_op(&c.0, op, (i + k) as u32); }
                    });
                    let _ = h.unwrap().join();
                }
            } else { for i in 0..spec.tasks.len() {
                let c = ctx.clone();
                let ops = Force(spec.tasks[i].clone());
                let pad = spec.env.pad;
                let list = 1 + spec.env.idle_threads as u32 + i as u32;
                let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                    let c = &c;
                    let ops = &ops;
                    DEPTH[me()] = 0;
                    LIST[me()] = list;
                    deep(pad, &mut || for (k, op) in ops.0.iter().enumerate() { run_op(&c.0, op, k as u32); });
                });
                hs.push(h.unwrap());
            } }
            for h in hs { let _ = h.join(); }
        }
        for (k, op) in spec.epilogue.iter().enumerate() { run_op(&ctx.0, op, (1000 + k) as u32); }
        sim_stop();
        // Check the shared writer against a replay, one call after another.
        let w = world();
        {
            let s = ctx.0.shared.lock().unwrap_or_else(|e| e.into_inner());
            if !s.log.is_empty() {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut f = SVGWriter::new();
                    let mut n = 0;
                    for l in &s.log {
                        match l {
                            Logged::Call(c) => if !c.apply(&mut f) { return Some(("clip handle".to_string(), String::new(), n)); },
                            Logged::Take(t) => {
                                let u = f.finalize();
                                if u != *t { return Some((t.clone(), u, n)); }
                            }
                        }
                        n += 1;
                    }
                    None
                }));
                match r {
                    Ok(None) => w.journal(R_NOTE, 0, 1, &[b"same"]),
                    Ok(Some((a, b, n))) => w.journal(R_NOTE, 0, 1, &[b"differs", a.as_bytes(), b.as_bytes(), &(n as u64).to_le_bytes()]),
                    Err(p) => { let m = payload(p).1; w.journal(R_NOTE, 0, 1, &[b"panic", m.as_bytes()]) }
                }
                let fin = catch_unwind(AssertUnwindSafe(|| s.w.finalize())).unwrap_or_default();
                w.journal(R_TAKE, 0, 0, &[fin.as_bytes()]);
            }
        }
        w.status = ST_DONE;
        libc::_exit(0);
    }
}

// ------------------------------------------------------------------ in the parent

pub struct Exec { pub w: &'static mut World, pub stats: Stats, pub keep_events: bool }

impl Exec {
    pub fn new() -> Exec {
        let w = World::map(-1);
        unsafe {
            WORLD = w as *mut World;
            sim_attach(w);
        }
        Exec { w, stats: Stats::default(), keep_events: false }
    }
    pub fn run(&mut self, spec: &Spec) -> RunResult {
        let w = &mut *self.w;
        w.reset();
        let e = &spec.env;
        w.rnd_seed = e.rnd; w.clock_real = e.clock_real; w.clock_mono = e.clock_mono; w.clock_tick = e.tick; w.pid = e.pid; w.ncpu = e.ncpu;
        w.spurious = e.spurious;
        w.env_seed = e.env_seed;
        if let Some(p) = &e.cwd { w.set_cwd(p); }
        let s = &spec.sched;
        w.sched_on = 1;
        w.sched_mode = s.mode; w.sched_seed = s.seed; w.sched_p = s.p; w.sched_p2 = s.p2; w.sched_len = s.len; w.sched_guard = s.guard;
        w.nsched_in = s.list.len() as u32;
        for (i, x) in s.list.iter().enumerate() { w.sched_in[i] = Sw { task: x.0, step: x.1, next: x.2 }; }
        if spec.budget > 0 { w.budget = spec.budget; }
        w.crash_step = spec.crash_step;
        if let Some(c) = spec.capacity { w.capacity = c; }
        w.set_faults(&spec.faults);
        if e.files.is_empty() { w.set_disk(&spec.disk); } else {
            let mut d = spec.disk.clone();
            for (p, b) in &e.files { d.insert(p.clone(), Node::File { mode: 0o644, body: b.clone() }); }
            w.set_disk(&d);
        }
        let st = unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 { child(spec); }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            st
        };
        let end = if libc::WIFEXITED(st) {
            match (libc::WEXITSTATUS(st), w.status) {
                (0, ST_DONE) => End::Done,
                (102, _) => End::Crashed,
                (103, _) => End::Hang,
                (104, _) => End::Deadlock,
                (105, _) => End::Limit,
                (n, _) => End::Exit(n),
            }
        } else {
            match libc::WTERMSIG(st) { libc::SIGXCPU => End::Hang, libc::SIGALRM => End::Wall, s => End::Signal(s) }
        };
        let recs = w.read_journal();
        let mut done = vec![];
        for r in &recs {
            if r.kind == R_END && r.parts.len() == 9 {
                let p = &r.parts;
                let u = |i: usize| u64::from_le_bytes(p[i][..8].try_into().unwrap());
                done.push(Done { task: r.task, op: r.op, tag: p[0][0], msg: String::from_utf8_lossy(&p[1]).to_string(), out: p[2].clone(),
                    calls: p[3].clone(), late: u(4), trouble: u(5), ncalls: u(6), nlogs: u(7) });
            }
        }
        let mono0 = spec.env.clock_mono;
        self.stats.add_world(w, &format!("{:?}", end), mono0, false);
        let mut guards = vec![];
        for (i, b) in w.gmap.iter().enumerate() { if *b != 0 { for k in 0..8 { if b >> k & 1 != 0 { guards.push((i * 8 + k) as u32); } } } }
        RunResult {
            end, recs, done, disk: w.snapshot(),
            sched: w.sched_out[..w.nsched_out as usize].iter().map(|s| (s.task, s.step, s.next)).collect(),
            steps: w.total_steps, task_steps: w.task[..w.ntask as usize].iter().map(|t| t.steps).collect(), nswitch: w.nswitch,
            ev_hash: w.ev_hash, sw_hash: w.sw_hash, fired: w.fault.iter().map(|f| f.fired).sum::<u64>() + w.fired[C_WRITE as usize][F_FULL as usize],
            harness_err: w.harness_err, events: if self.keep_events { w.events() } else { vec![] },
            stdout: w.out[0][..w.stdout_len as usize].to_vec(), guards, cnt: w.cnt, wpaths: w.wpaths(), rpaths: w.rpaths(),
            hits: w.fault[..spec.faults.len()].iter().map(|f| f.fired).collect(),
        }
    }
}
