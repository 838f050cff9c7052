//! Cases: what is simulated, and what counts as a violation.
use crate::cli::{self, Cli, CliResult, CliSpec, Turn};
use crate::exec::*;
use crate::gen;
use crate::model::{self, Model};
use crate::world::*;
use crate::xml;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// What is known about the input of a run of the command line tool.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Known { Model(Model), Bad, Nothing }

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Case {
    /// The same work in several environments.
    Same { spec: Spec, envs: Vec<Env>, cli: Vec<CliSpec>, out: String, opt: Opt },
    /// Work on several threads at once.
    Conc { spec: Spec },
    /// Work after failed and cancelled work.
    Hist { spec: Spec },
    /// Saves: is what was reported as stored there?
    Save { spec: Spec },
    /// Saves: what is left of old and new content?
    Crash { spec: Spec },
    /// The command line tool: exit status, output.
    Tool { spec: CliSpec, known: Known, out: String },
    /// The command line tool: when is the output touched, and what else is?
    Touch { spec: CliSpec, known: Known, out: String },
    /// A torn document: (bytes kept, zero bytes after them).
    Cuts { text: String, brace: usize, cuts: Vec<(usize, usize)> },
    /// The same, read by the command line tool.
    ToolCut { spec: CliSpec, out: String },
    /// Damaged documents.
    Damaged { spec: Spec },
    /// A shared SVG writer.
    Writer { spec: Spec },
    /// The same round of work again and again; the words in `vary` are others
    /// in every round.
    Leak { spec: Spec, vary: Vec<String> },
    /// Callbacks use the library.
    Nested { spec: Spec },
    /// Runs of the tool at the same time on one disk.
    Together { disk: Disk, procs: Vec<CliSpec>, outs: Vec<String>, turns: Vec<Turn> },
    /// One process after the other on one disk.
    Life { disk: Disk, stages: Vec<Stage> },
}
/// What happens next on a disk; the processes find it as the last one left it.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Stage {
    Tool { spec: CliSpec, out: String },
    /// A process that uses the library to save files.
    Lib { spec: Spec },
    Put { path: String, body: Body },
    Remove { path: String },
}

#[derive(Clone, Debug)]
pub struct Bad { pub kind: String, pub msg: String }
pub struct Verdict {
    pub bad: Option<Bad>,
    /// Did the case do what its property is about?
    pub nontrivial: bool,
    /// What tells this case from others.
    pub sig: u64,
    pub evals: u64,
    /// The schedules that were taken, to replay them.
    pub sched: Vec<(u32, u64, u32)>,
    pub events: Vec<String>,
    pub print: u64,
}
fn bad(kind: &str, msg: String) -> Option<Bad> { Some(Bad { kind: kind.to_string(), msg }) }

pub struct Rig { pub ex: Exec, pub cli: Option<Cli>, seats: Vec<Cli>, bin: Option<String>, solo: BTreeMap<u64, Option<Done>>, basis: BTreeMap<u64, std::rc::Rc<CliResult>> }

pub fn die(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", msg);
    std::process::exit(3);
}
pub fn clip(b: &[u8], at: usize) -> String {
    let a = at.saturating_sub(60);
    String::from_utf8_lossy(&b[a.min(b.len())..(at + 100).min(b.len())]).replace('\n', "\\n")
}
fn first_diff(a: &[u8], b: &[u8]) -> usize { a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())) }
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = first_diff(a, b);
    format!("lengths {} and {}, first difference at byte {}: ...{}... and ...{}...", a.len(), b.len(), i, clip(a, i), clip(b, i))
}

impl Rig {
    pub fn new(bin: Option<String>) -> Rig {
        Rig { ex: Exec::new(), cli: None, seats: vec![], bin, solo: BTreeMap::new(), basis: BTreeMap::new() }
    }
    pub fn cli(&mut self) -> &mut Cli {
        if self.cli.is_none() {
            match &self.bin { Some(b) => self.cli = Some(Cli::new(b)), None => die("the command line tool was not built") }
        }
        self.cli.as_mut().unwrap()
    }
    pub fn keep_events(&mut self, on: bool) {
        self.ex.keep_events = on;
        if self.bin.is_some() { self.cli().keep_events = on; for c in self.seats.iter_mut() { c.keep_events = on; } }
    }
    pub fn stats(&mut self) -> Stats {
        let mut s = self.ex.stats.clone();
        for c in self.cli.iter().chain(&self.seats) { s.merge(&c.stats); }
        s
    }
    pub fn go(&mut self, s: &Spec) -> RunResult {
        let mut r = self.ex.run(s);
        if r.end == End::Wall { r = self.ex.run(s); }
        if r.end == End::Wall { die("a simulated process got no processor time"); }
        if r.harness_err != 0 { die(&format!("simulator limit {} reached", r.harness_err)); }
        r
    }
    pub fn tool(&mut self, s: &CliSpec, watch: Option<(&str, &[u8])>) -> CliResult {
        let mut r = self.cli().run(s, watch);
        if r.end == End::Wall { r = self.cli().run(s, watch); }
        if r.end == End::Wall { die("a simulated tool got no processor time"); }
        if r.harness_err != 0 { die(&format!("simulator limit {} reached by the tool ({:?})", r.harness_err, r.end)); }
        r
    }
    pub fn together(&mut self, specs: &[CliSpec], turns: &[Turn]) -> (Vec<CliResult>, Vec<cli::Life>, BTreeMap<String, (u32, u32, Vec<u8>)>) {
        let on = self.cli().keep_events;
        while self.seats.len() < specs.len() { let mut c = Cli::new(self.bin.as_ref().unwrap()); c.keep_events = on; self.seats.push(c); }
        let r = cli::play(&mut self.seats, specs, turns);
        for x in &r.0 {
            if x.end == End::Wall { die("a simulated tool got no processor time"); }
            if x.harness_err != 0 { die(&format!("simulator limit {} reached by the tool ({:?})", x.harness_err, x.end)); }
        }
        r
    }
    /// The run of the tool without any disturbance.
    pub fn basis(&mut self, s: &CliSpec) -> std::rc::Rc<CliResult> {
        let mut b = s.clone();
        b.faults.clear(); b.crash_step = 0; b.capacity = None;
        let k = gen::hash(serde_json::to_string(&b).unwrap().as_bytes());
        if let Some(r) = self.basis.get(&k) { return r.clone(); }
        if self.basis.len() > 40 { self.basis.clear(); }
        let r = std::rc::Rc::new(self.tool(&b, None));
        self.basis.insert(k, r.clone());
        r
    }
    /// What the operation gives alone in a fresh process.
    pub fn solo(&mut self, src: &Src, op: &Op) -> Option<Done> {
        let k = gen::hash(serde_json::to_string(&(src, op)).unwrap().as_bytes());
        if let Some(d) = self.solo.get(&k) { return d.clone(); }
        if self.solo.len() > 200 { self.solo.clear(); }
        let mut s = Spec::new();
        s.srcs = vec![src.clone()];
        s.tasks = vec![vec![op.clone()]];
        let r = self.go(&s);
        let d = if r.end == End::Done { r.done.first().cloned() } else { None };
        self.solo.insert(k, d.clone());
        d
    }
}

fn strip(o: &Op) -> &Op { match o { Op::Repeat { op, .. } => strip(op), x => x } }
/// The list a record's task number stands for; the idle threads came first.
fn list_of(s: &Spec, task: u32) -> &Vec<Op> {
    if task == 0 { &s.tasks[0] } else { &s.tasks[task as usize - 1 - s.env.idle_threads as usize] }
}
/// The operation of a record. On the main thread there is just one task.
fn op_raw(s: &Spec, task: u32, op: u32) -> &Op {
    if op >= 2000 { &s.nested[op as usize - 2000].op } else if op >= 1000 { &s.epilogue[op as usize - 1000] } else { &list_of(s, task)[op as usize] }
}
fn op_at<'a>(s: &'a Spec, d: &Done) -> &'a Op { strip(op_raw(s, d.task, d.op)) }
pub fn count_ops(s: &Spec) -> usize {
    fn n(o: &Op) -> usize { match o { Op::Repeat { n: k, op } => k * n(op), _ => 1 } }
    s.tasks.iter().chain([&s.epilogue]).flatten().map(n).sum()
}
/// Compares a result with what the operation gives alone.
fn against_solo(rig: &mut Rig, s: &Spec, d: &Done) -> Option<Bad> {
    let (src, op) = match op_at(s, d) {
        Op::Draw { src, opt, .. } => (*src, Op::Draw { src: 0, how: How::Fresh, opt: *opt, cancel: None }),
        Op::Final { src, opt } => (*src, Op::Draw { src: 0, how: How::Fresh, opt: *opt, cancel: None }),
        Op::Parse { src } => (*src, Op::Parse { src: 0 }),
        Op::Print { src } => (*src, Op::Parse { src: 0 }),
        _ => return None,
    };
    let what = match op_at(s, d) { Op::Draw { how, .. } => format!("draw ({:?})", how), o => format!("{:?}", o).split(' ').next().unwrap().to_lowercase() };
    let a = rig.solo(&s.srcs[src], &op)?;
    let here = if d.op >= 2000 { format!("operation {} of a callback ({} of document {})", d.op - 2000, what, src) } else { format!("task {} operation {} ({} of document {})", d.task, d.op, what, src) };
    if d.tag == T_CANCELLED {
        if !a.calls.starts_with(&d.calls) {
            return bad("prefix", format!("{}: the drawing calls before the cancellation are not a prefix of an undisturbed run's: {}", here, diff(&d.calls, &a.calls)));
        }
        if d.late > 0 { return bad("late", format!("{}: {} drawing calls were made after the backend had panicked", here, d.late)); }
        return None;
    }
    if d.tag != a.tag {
        return bad("outcome", format!("{}: ended as {} ({}), alone as {} ({})", here, d.tag_name(), d.msg, a.tag_name(), a.msg));
    }
    if d.tag == T_PANIC { return None; }
    let (mut draws, mut outs) = (true, true);
    match op_at(s, d) { Op::Final { .. } => draws = false, Op::Parse { .. } => draws = false, Op::Print { .. } => { draws = false; outs = false }, _ => {} }
    if d.tag == T_REJECTED {
        if d.msg != a.msg { return bad("error_text", format!("{}: the error is {:?}, alone {:?}", here, d.msg, a.msg)); }
        return None;
    }
    if draws && d.calls != a.calls { return bad("calls", format!("{}: other drawing calls than alone: {}", here, diff(&d.calls, &a.calls))); }
    if outs && d.out != a.out { return bad("output", format!("{}: another result than alone: {}", here, diff(&d.out, &a.out))); }
    None
}
fn end_bad(r: &RunResult) -> Option<Bad> {
    match &r.end {
        End::Done => None,
        e => {
            let started: Vec<(u32, u32)> = r.recs.iter().filter(|x| x.kind == R_START).map(|x| (x.task, x.op)).collect();
            let open: Vec<String> = started.iter().filter(|s| !r.done.iter().any(|d| (d.task, d.op) == **s)).map(|s| format!("task {} operation {}", s.0, s.1)).collect();
            bad(match e { End::Hang => "hang", End::Deadlock => "deadlock", End::Limit => "memory", End::Signal(_) => "abort", _ => "ended" },
                format!("the process ended with {:?} after {} steps, in progress: {}", e, r.steps, open.join(", ")))
        }
    }
}
fn abs_targets(s: &Spec) -> Vec<String> {
    let mut v = vec![];
    for o in s.tasks.iter().chain([&s.epilogue]).flatten().chain(s.nested.iter().map(|n| &n.op)) { if let Op::Save { path, .. } = strip(o) { v.push(abs_path(path)); } }
    v
}
pub fn tag_hash(d: &Done) -> u64 { gen::hash(&d.out) ^ gen::hash(&d.calls).rotate_left(9) ^ d.tag as u64 ^ (d.op as u64) << 20 ^ (d.task as u64) << 32 }

impl Verdict {
    fn new() -> Verdict { Verdict { bad: None, nontrivial: false, sig: 0, evals: 0, sched: vec![], events: vec![], print: 0 } }
    fn take(&mut self, r: &RunResult) {
        self.evals += 1;
        self.print = self.print.rotate_left(11) ^ r.fingerprint();
        self.events = r.events.clone();
        self.sched = r.sched.clone();
    }
    fn take_cli(&mut self, r: &CliResult) {
        self.evals += 1;
        self.print = self.print.rotate_left(11) ^ r.fingerprint();
        self.events = r.events.clone();
    }
}

pub fn eval(case: &Case, rig: &mut Rig) -> Verdict {
    let mut v = Verdict::new();
    match case {
        Case::Same { spec, envs, cli, out, opt } => same(spec, envs, cli, out, *opt, rig, &mut v),
        Case::Conc { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.sw_hash ^ r.ev_hash;
            let live = r.task_steps.iter().skip(1).filter(|n| **n > 0).count();
            v.nontrivial = live >= 2 && r.nswitch as usize > spec.tasks.len() + 1;
            // Was any of it able to finish alone?
            for d in &r.done { if v.bad.is_none() { v.bad = against_solo(rig, spec, d); } }
            if v.bad.is_none() { v.bad = saves(spec, &r, false); }
            if v.bad.is_none() {
                if let Some(b) = end_bad(&r) { if alone_ends(rig, spec) { v.bad = Some(b); } }
            }
            if v.bad.is_none() && r.end == End::Done && r.done.len() != count_ops(spec) { die("operations are missing"); }
        }
        Case::Hist { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.nontrivial = r.done.iter().any(|d| d.tag == T_CANCELLED || d.tag == T_REJECTED) && r.done.iter().any(|d| d.tag == T_OK);
            for d in &r.done {
                v.sig = v.sig.rotate_left(5) ^ tag_hash(d);
                if v.bad.is_none() { v.bad = against_solo(rig, spec, d); }
            }
            let n = |t: u8| r.done.iter().filter(|d| d.tag == t).count() as u64;
            rig.ex.stats.probe_n("operations cancelled", n(T_CANCELLED));
            rig.ex.stats.probe_n("operations rejected", n(T_REJECTED));
            rig.ex.stats.probe_n("operations completed", n(T_OK));
            if v.bad.is_none() { if let Some(b) = end_bad(&r) { if alone_ends(rig, spec) { v.bad = Some(b); } } }
        }
        Case::Save { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.ev_hash;
            v.nontrivial = r.fired > 0 || r.done.iter().any(|d| d.tag == T_IOERR) || r.nswitch > 3;
            v.bad = saves(spec, &r, true);
            rig.ex.stats.probe_n("saves reported as successful", r.done.iter().filter(|d| d.tag == T_OK).count() as u64);
            rig.ex.stats.probe_n("saves reported as failed", r.done.iter().filter(|d| d.tag == T_IOERR).count() as u64);
            if v.bad.is_none() { v.bad = end_bad(&r); }
        }
        Case::Crash { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.ev_hash ^ r.steps;
            v.nontrivial = r.end == End::Crashed || r.done.iter().any(|d| d.tag == T_IOERR);
            v.bad = leftovers(spec, &r, rig);
        }
        Case::Tool { spec, known, out } => tool(spec, known, out, rig, &mut v),
        Case::Together { disk, procs, outs, turns } => together(disk, procs, outs, turns, rig, &mut v),
        Case::Life { disk, stages } => life(disk, stages, rig, &mut v),
        Case::Touch { spec, known, out } => touch(spec, known, out, rig, &mut v),
        Case::Cuts { text, brace, cuts } => cut_docs(text, *brace, cuts, rig, &mut v),
        Case::ToolCut { spec, out } => {
            let r = rig.tool(spec, None);
            v.take_cli(&r);
            v.nontrivial = true;
            v.sig = r.ev_hash ^ r.steps;
            if r.end == End::Exit(0) {
                v.bad = bad("accepted", format!("layout {} exits with 0 although the document is cut off; output {} bytes", spec.args.join(" "), r.file(out).map(|b| b.len()).unwrap_or(0)));
            } else if r.file(out) != file_of(&spec.disk, out).as_deref() {
                v.bad = bad("accepted", "the output file was written although the document is cut off".into());
            }
        }
        Case::Damaged { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.ev_hash ^ r.steps;
            v.nontrivial = true;
            for d in &r.done {
                v.sig = v.sig.rotate_left(5) ^ tag_hash(d);
                if d.tag == T_PANIC && v.bad.is_none() {
                    let kind = format!("panic {}", d.msg.rsplit(" at ").next().unwrap_or(""));
                    v.bad = bad(&kind, format!("operation {:?} panics: {}", brief(op_at(spec, d)), d.msg));
                }
                rig.ex.stats.probe(&format!("{} {}", match op_at(spec, d) { Op::Draw { .. } => "draw", Op::Print { .. } => "print", _ => "parse" }, d.tag_name()));
            }
            if v.bad.is_none() { v.bad = end_bad(&r); }
        }
        Case::Nested { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.sw_hash ^ r.ev_hash;
            let inner = r.done.iter().filter(|d| d.op >= 2000).count();
            v.nontrivial = inner > 0;
            for d in &r.done {
                v.sig = v.sig.rotate_left(5) ^ tag_hash(d);
                if v.bad.is_none() { v.bad = against_solo(rig, spec, d); }
            }
            rig.ex.stats.probe_n("operations inside callbacks", inner as u64);
            if v.bad.is_none() { v.bad = saves(spec, &r, false); }
            if v.bad.is_none() { if let Some(b) = end_bad(&r) { if alone_ends(rig, spec) { v.bad = Some(b); } } }
            if v.bad.is_none() && r.end == End::Done && r.done.iter().filter(|d| d.op < 1000).count() != count_ops(spec) { die("operations are missing"); }
        }
        Case::Leak { spec, vary } => leak(spec, vary, rig, &mut v),
        Case::Writer { spec } => {
            let r = rig.go(spec);
            v.take(&r);
            v.sig = r.sw_hash ^ r.ev_hash;
            let mut takes = 0;
            for rec in &r.recs {
                let (what, text) = match rec.kind {
                    R_TAKE => ("the final document", &rec.parts[0]),
                    _ => continue,
                };
                v.sig ^= gen::hash(text);
                if v.bad.is_none() { v.bad = svg_bad(what, text); }
            }
            for d in &r.done {
                match op_at(spec, d) {
                    Op::Take => { takes += 1; if d.tag == T_OK && v.bad.is_none() { v.bad = svg_bad(&format!("the document taken by task {} operation {}", d.task, d.op), &d.out); } }
                    Op::Draw { .. } if d.tag == T_OK || d.tag == T_CANCELLED => {
                        if v.bad.is_none() { v.bad = svg_bad(&format!("the document of task {} operation {} ({})", d.task, d.op, d.tag_name()), &d.out); }
                        if d.tag == T_CANCELLED { rig.ex.stats.probe("documents of cancelled renderings checked"); }
                    }
                    _ => {}
                }
                if d.tag == T_PANIC && v.bad.is_none() {
                    // Only a panic of the writer itself counts here.
                    if matches!(op_at(spec, d), Op::Take | Op::Calls { .. } | Op::Final { .. }) { v.bad = bad("panic", format!("{:?}: {}", brief(op_at(spec, d)), d.msg)); }
                }
            }
            rig.ex.stats.probe_n("documents taken between calls", takes);
            v.nontrivial = takes > 0 && r.done.len() > takes as usize;
            if v.bad.is_none() {
                for rec in &r.recs {
                    if rec.kind == R_NOTE && rec.op == 1 {
                        if rec.parts[0] == b"differs" {
                            v.bad = bad("disturbed", format!("taking the document changes what the same calls give later: {}", diff(&rec.parts[1], &rec.parts[2])));
                        }
                        if rec.parts[0] == b"panic" { v.bad = bad("panic", format!("the same calls in sequence panic: {}", String::from_utf8_lossy(&rec.parts[1]))); }
                    }
                }
            }
            if v.bad.is_none() && matches!(r.end, End::Hang | End::Deadlock | End::Signal(_)) && alone_ends(rig, spec) { v.bad = end_bad(&r); }
        }
    }
    v
}

fn brief(o: &Op) -> String { let s = format!("{:?}", o); if s.len() > 200 { s.chars().take(200).collect() } else { s } }
fn svg_bad(what: &str, text: &[u8]) -> Option<Bad> {
    match std::str::from_utf8(text) {
        Ok(s) => match xml::check_svg(s) { Ok(_) => None, Err(e) => bad("malformed", format!("{} is not a sound SVG document: {}", what, e)) },
        Err(e) => bad("malformed", format!("{} is not UTF-8: {}", what, e)),
    }
}
/// Does every drawing and parsing operation of the specification end alone?
fn alone_ends(rig: &mut Rig, s: &Spec) -> bool {
    for o in s.tasks.iter().chain([&s.epilogue]).flatten().chain(s.nested.iter().map(|n| &n.op)) {
        let (src, op) = match strip(o) {
            Op::Draw { src, opt, .. } | Op::Stream { src, opt, .. } | Op::Final { src, opt } => (*src, Op::Draw { src: 0, how: How::Fresh, opt: *opt, cancel: None }),
            Op::Parse { src } | Op::Print { src } => (*src, Op::Parse { src: 0 }),
            _ => continue,
        };
        if rig.solo(&s.srcs[src], &op).is_none() { return false; }
    }
    true
}

// ------------------------------------------------------------------ C01
fn same(spec: &Spec, envs: &[Env], cli: &[CliSpec], out: &str, opt: Opt, rig: &mut Rig, v: &mut Verdict) {
    let mut base: BTreeMap<(usize, Opt), (Done, String)> = BTreeMap::new();
    let mut plain = End::Done;
    // Each of them alone in a fresh process.
    for o in spec.tasks.iter().flatten().map(strip) {
        if let Op::Draw { src, opt, .. } = o {
            if base.contains_key(&(*src, *opt)) { continue; }
            if let Some(d) = rig.solo(&spec.srcs[*src], &Op::Draw { src: 0, how: How::Fresh, opt: *opt, cancel: None }) { base.insert((*src, *opt), (d, "a process of its own".into())); }
        }
    }
    for (i, e) in envs.iter().enumerate() {
        let mut s = spec.clone();
        s.env = e.clone();
        let r = rig.go(&s);
        v.take(&r);
        if i == 0 { plain = r.end.clone(); }
        if r.end != End::Done {
            if plain == End::Done && v.bad.is_none() && matches!(r.end, End::Hang | End::Deadlock | End::Signal(_) | End::Exit(_)) {
                v.bad = bad("outcome", format!("all of the work completes in environment 0, but in environment {} the process ends with {:?}", i, r.end));
            }
            continue;
        }
        for d in &r.done {
            if let Op::Draw { src, opt, .. } = op_at(&s, d) {
                let here = format!("environment {} operation {}", i, d.op);
                v.sig = v.sig.rotate_left(7) ^ tag_hash(d);
                match base.get(&(*src, *opt)) {
                    None => { base.insert((*src, *opt), (d.clone(), here)); }
                    Some((a, there)) => {
                        if v.bad.is_some() { continue; }
                        if a.tag != d.tag { v.bad = bad("outcome", format!("document {}: {} in {}, {} in {}", src, a.tag_name(), there, d.tag_name(), here)); }
                        else if d.tag == T_PANIC {}
                        else if a.calls != d.calls { v.bad = bad("calls", format!("document {}: the drawing calls in {} and in {} differ: {}", src, there, here, diff(&a.calls, &d.calls))); }
                        else if a.out != d.out { v.bad = bad("output", format!("document {}: the drawings in {} and in {} differ: {}", src, there, here, diff(&a.out, &d.out))); }
                    }
                }
                if d.tag == T_OK { v.nontrivial = true; }
            }
        }
    }
    for (i, c) in cli.iter().enumerate() {
        let r = rig.tool(c, None);
        v.take_cli(&r);
        if v.bad.is_some() { continue; }
        if r.end != End::Exit(0) {
            // The tool and the library agree on what is a document.
            if let Some((a, _)) = base.get(&(0, opt)) {
                if a.tag == T_OK { v.bad = bad("outcome", format!("the tool ends with {:?} in environment {}, the library draws the document", r.end, i)); }
            }
            continue;
        }
        let d = Done { task: 0, op: 0, tag: T_OK, msg: String::new(), out: r.file(out).unwrap_or(b"").to_vec(), calls: vec![], late: 0, trouble: 0, ncalls: 0, nlogs: 0 };
        let here = format!("run {} of the tool", i);
        match base.get(&(0, opt)) {
            None => { base.insert((0, opt), (d, here)); }
            Some((a, there)) => {
                if a.tag == T_OK && a.out != d.out { v.bad = bad("output", format!("the drawings in {} and in {} differ: {}", there, here, diff(&a.out, &d.out))); }
            }
        }
    }
}

// ------------------------------------------------------------------ C04, C05
/// The bytes a save was asked to store.
fn body_at<'a>(s: &'a Spec, task: u32, op: u32) -> Option<(&'a String, Vec<u8>)> {
    match strip(op_raw(s, task, op)) { Op::Save { path, body } => Some((path, body.bytes())), _ => None }
}
fn parent(p: &str) -> String { match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].to_string() } }
/// Could a save to this path succeed if the storage behaves?
fn writable(d: &Disk, p: &str, cleared: bool) -> bool {
    if let Some(Node::Dir { .. }) = d.get(p) { return false; }
    if let Some(Node::File { mode, .. }) = d.get(p) { if mode & 0o200 == 0 && !cleared { return false; } }
    let q = parent(p);
    if q == "/" { return true; }
    match d.get(&q) { Some(Node::Dir { mode }) => mode & 0o200 != 0 || cleared, _ => false }
}
/// Is what was reported as stored there?
/// (Operations inside callbacks are numbered from 2000.)
fn saves(spec: &Spec, r: &RunResult, strict: bool) -> Option<Bad> {
    let soft = spec.faults.iter().all(|f| f.transient());
    for d in &r.done {
        let (path, body) = match body_at(spec, d.task, d.op) { Some(x) => x, None => continue };
        let here = format!("task {} operation {}: saving {} bytes to {:?}", d.task, d.op, body.len(), path);
        let p = abs_path(path);
        let cleared = (1000..2000).contains(&d.op) && spec.epilogue[..d.op as usize - 1000].iter().any(|o| *o == Op::Clear);
        match d.tag {
            T_OK => if d.out != body {
                return bad("lost", format!("{} reports success, but the file holds something else: {}", here, diff(&d.out, &body)));
            },
            T_PANIC => if strict { return bad("panic", format!("{} panics: {}", here, d.msg)); },
            T_IOERR => {
                if writable(&spec.disk, &p, cleared) && (cleared || (spec.capacity.is_none() && (d.trouble == 0 || soft))) {
                    return bad("refused", format!("{} fails ({}) though {}", here, d.msg, if cleared { "the trouble is over" } else { "the storage is sound" }));
                }
            }
            _ => {}
        }
    }
    // Saves that reported success are still there at the end.
    if r.end == End::Done {
        let mut last: BTreeMap<String, (&Done, Vec<u8>)> = BTreeMap::new();
        for d in &r.done { if let Some((path, body)) = body_at(spec, d.task, d.op) { last.insert(abs_path(path), (d, body)); } }
        for (p, (d, body)) in last {
            let now = r.disk.get(&p).map(|x| x.2.clone()).unwrap_or_default();
            if d.tag == T_OK && now != body {
                return bad("lost", format!("the {} bytes saved to {} by task {} operation {} are no longer there at the end: {}", body.len(), p, d.task, d.op, diff(&now, &body)));
            }
        }
    }
    None
}
/// What does a failed or interrupted save leave behind?
fn leftovers(spec: &Spec, r: &RunResult, rig: &mut Rig) -> Option<Bad> {
    let fate = |old: Option<&[u8]>, now: Option<&[u8]>, new: &[u8]| -> Result<&'static str, String> {
        match (old, now) {
            (None, None) => Ok("absent as before"),
            (Some(_), None) => Err("the old file is gone".into()),
            (o, Some(n)) => {
                if o == Some(n) { return Ok("old"); }
                if n == new { return Ok("all of the new"); }
                if n.is_empty() { return Ok("empty"); }
                if new.starts_with(n) { return Ok("a prefix of the new"); }
                Err(match o { Some(o) => format!("compared with the new text: {}; with the old: {}", diff(n, new), diff(n, o)), None => format!("compared with the new text: {}", diff(n, new)) })
            }
        }
    };
    let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
    // Saves that returned.
    for (i, rec) in r.recs.iter().enumerate() {
        if rec.kind != R_START { continue; }
        let (path, body) = match body_at(spec, rec.task, rec.op) { Some(x) => x, None => continue };
        let old = rec.parts.first().map(|b| &b[..]);
        let end = r.recs[i..].iter().find(|e| e.kind == R_END && (e.task, e.op) == (rec.task, rec.op));
        let here = format!("task {} operation {} (saving {} bytes to {:?})", rec.task, rec.op, body.len(), path);
        let p = abs_path(path);
        match end {
            Some(e) => {
                let tag = e.parts[0][0];
                let exists = e.parts[8][0] == 1;
                if matches!(spec.disk.get(&p), Some(Node::Dir { .. })) { continue; }
                if tag == T_IOERR || tag == T_PANIC {
                    let now = if exists { Some(&e.parts[2][..]) } else { None };
                    match fate(old, now, &body) {
                        Ok(k) => *seen.entry(k).or_insert(0) += 1,
                        Err(x) => return bad("mixture", format!("after the failure of {} ({}) the file holds neither its old content nor a prefix of the new: {}", here, String::from_utf8_lossy(&e.parts[1]), x)),
                    }
                }
            }
            None => {
                if matches!(spec.disk.get(&p), Some(Node::Dir { .. })) { continue; }
                let now = r.disk.get(&p).map(|x| &x.2[..]);
                match fate(old, now, &body) {
                    Ok(k) => *seen.entry(k).or_insert(0) += 1,
                    Err(x) => return bad("mixture", format!("the process died in {}; the file holds neither its old content nor a prefix of the new: {}", here, x)),
                }
            }
        }
    }
    for (k, n) in seen { rig.ex.stats.probe_n(&format!("destination after a failed or interrupted save: {}", k), n); }
    let t = abs_targets(spec);
    for (p, n) in &spec.disk {
        if t.contains(p) { continue; }
        let (k, m, b) = match n { Node::Dir { mode } => (2, *mode, vec![]), Node::File { mode, body } => (1, *mode, body.bytes()) };
        match r.disk.get(p) {
            None => return bad("neighbour", format!("{} is gone, though nothing was saved to it", p)),
            Some(x) => {
                if x.2 != b || x.0 != k { return bad("neighbour", format!("{} was altered, though nothing was saved to it: {}", p, diff(&x.2, &b))); }
                if x.1 != m && !spec.epilogue.contains(&Op::Clear) { return bad("neighbour", format!("the mode of {} was changed from {:o} to {:o}", p, m, x.1)); }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C06, C07
pub fn file_of(d: &Disk, p: &str) -> Option<Vec<u8>> { match d.get(p) { Some(Node::File { body, .. }) => Some(body.bytes()), _ => None } }
fn quiet(c: &CliSpec) -> bool { c.vars.iter().any(|(k, v)| k == "RUST_LOG" && (v == "off" || !v.is_empty() && !v.contains("error") && !v.contains("warn") && !v.contains("info") && !v.contains("debug") && !v.contains("trace"))) }
fn tool(spec: &CliSpec, known: &Known, out: &str, rig: &mut Rig, v: &mut Verdict) {
    let b = rig.basis(spec);
    let disturbed = !spec.faults.is_empty() || spec.crash_step > 0 || spec.capacity.is_some();
    let r = rig.tool(spec, None);
    v.take_cli(&r);
    v.sig = r.ev_hash ^ r.steps;
    let hit: u64 = r.hits.iter().sum::<u64>() + r.full;
    v.nontrivial = hit > 0 || !disturbed;
    let cmd = format!("layout {}", spec.args.join(" "));
    let opt = |n: &str| spec.args.iter().any(|a| a == n);
    // The undisturbed run first.
    match known {
        Known::Model(m) => {
            if b.end == End::Exit(0) {
                let text = String::from_utf8_lossy(b.file(out).unwrap_or(b"")).to_string();
                if let Err(e) = model::check(&text, m, opt("-d") || opt("--debug"), !opt("--no-layout")) {
                    v.bad = bad("drawing", format!("{}: exit status 0, but {} does not hold the drawing of the input: {}", cmd, out, e));
                    return;
                }
            } else if can_write(&spec.disk, out) && file_of(&spec.disk, &in_path(spec)).is_some() && readable(&spec.disk, &in_path(spec)) {
                v.bad = bad("refused", format!("{}: a proper document without any disturbance ends with {:?}: {}", cmd, b.end, clip(&b.stderr, 0)));
                return;
            }
        }
        Known::Bad => if b.end == End::Exit(0) {
            v.bad = bad("accepted", format!("{}: exit status 0 though the input can't be read, understood or written", cmd));
            return;
        },
        Known::Nothing => {}
    }
    let stderr_hit = spec.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && (f.cls == C_STDERR || f.cls == C_ALLOC));
    let died = r.end == End::Crashed;
    match &r.end {
        End::Exit(0) => {
            if b.end != End::Exit(0) {
                v.bad = bad("accepted", format!("{} exits with 0 under {:?}; undisturbed it ends with {:?}", cmd, faults(spec), b.end));
            } else if r.file(out) != b.file(out) {
                v.bad = bad("incomplete", format!("{} exits with 0 under {:?}, but {} differs from an undisturbed run's: {}", cmd, faults(spec), out,
                    diff(r.file(out).unwrap_or(b""), b.file(out).unwrap_or(b""))));
            }
        }
        End::Hang => v.bad = bad("hang", format!("{} under {:?} never ends", cmd, faults(spec))),
        End::Deadlock if !spec.faults.iter().any(|f| f.cls == C_ALLOC) => v.bad = bad("hang", format!("{} under {:?} waits for itself", cmd, faults(spec))),
        End::Exit(n) => {
            if r.stderr.is_empty() && !stderr_hit && !quiet(spec) {
                v.bad = bad("silent", format!("{} exits with {} and says nothing on standard error, under {:?}", cmd, n, faults(spec)));
            }
            let soft = spec.faults.iter().zip(&r.hits).all(|(f, h)| *h == 0 || f.transient()) && r.full == 0 && spec.capacity.is_none();
            if v.bad.is_none() && soft && b.end == End::Exit(0) && !died {
                v.bad = bad("transient", format!("{} exits with {} under transient trouble only ({:?}): {}", cmd, n, faults(spec), clip(&r.stderr, 0)));
            }
        }
        _ => {}
    }
    let st = &mut rig.cli().stats;
    st.probe(&format!("tool ended: {}", match &r.end { End::Exit(0) => "0".into(), End::Exit(n) => format!("{}", n), e => format!("{:?}", e) }));
    if disturbed && hit > 0 && r.end == End::Exit(0) { st.probe("succeeded in spite of faults"); }
}
fn faults(s: &CliSpec) -> Vec<String> {
    let mut v: Vec<String> = s.faults.iter().map(|f| f.describe()).collect();
    if s.crash_step > 0 { v.push(format!("killed at step {}", s.crash_step)); }
    if let Some(c) = s.capacity { v.push(format!("disk capacity {}", c)); }
    v
}
/// The input file: the last argument.
pub fn in_path(s: &CliSpec) -> String { abs_path(s.args.last().map(|x| x.as_str()).unwrap_or("")) }
fn can_write(d: &Disk, p: &str) -> bool { writable(d, p, false) }
fn readable(d: &Disk, p: &str) -> bool { matches!(d.get(p), Some(Node::File { mode, .. }) if mode & 0o400 != 0) }

fn touch(spec: &CliSpec, known: &Known, out: &str, rig: &mut Rig, v: &mut Verdict) {
    let b = rig.basis(spec);
    let drawn = b.end == End::Exit(0) && b.file(out).is_some();
    let nd = if drawn { cli::needle(b.file(out).unwrap()) } else { vec![] };
    let r = rig.tool(spec, Some((out, &nd)));
    v.take_cli(&r);
    v.sig = r.ev_hash ^ r.steps;
    let hit: u64 = r.hits.iter().sum::<u64>() + r.full;
    v.nontrivial = hit > 0 || r.end == End::Crashed || !drawn;
    let cmd = format!("layout {}", spec.args.join(" "));
    let old = file_of(&spec.disk, out);
    let how = format!("{:?}, {}", r.end, if r.end == End::Crashed { format!("at step {}", r.steps) } else { clip(&r.stderr, 0) });
    let _ = known;
    if r.touched && r.needle_found == 2 { die("the memory of the tool could not be searched"); }
    if r.touched && !drawn {
        v.bad = bad("touched", format!("{}: the output file {} is touched (by {}) though no drawing comes of this input ({})", cmd, out, CLASSES[r.touch_op as usize], how));
    } else if r.touched && !nd.is_empty() && r.needle_found != 1 {
        v.bad = bad("touched", format!("{}: the output file {} is touched (by {}) at step {}, before the drawing is complete ({})", cmd, out, CLASSES[r.touch_op as usize], r.touch_step, how));
    } else if !r.touched && r.file(out).map(|x| x.to_vec()) != old {
        v.bad = bad("touched", format!("{}: the output file {} has changed", cmd, out));
    }
    if v.bad.is_none() && !drawn && r.file(out).map(|x| x.to_vec()) != old {
        v.bad = bad("touched", format!("{}: the output file {} has changed though no drawing comes of this input ({})", cmd, out, how));
    }
    // Nothing else changes.
    if v.bad.is_none() {
        for (p, n) in &spec.disk {
            if p == out { continue; }
            let (k, m, body) = match n { Node::Dir { mode } => (2, *mode, vec![]), Node::File { mode, body } => (1, *mode, body.bytes()) };
            match r.disk.get(p) {
                None => { v.bad = bad("other_file", format!("{}: {} is gone ({})", cmd, p, how)); break; }
                Some(x) => if x.0 != k || x.1 != m || x.2 != body { v.bad = bad("other_file", format!("{}: {} was altered ({}): {}", cmd, p, how, diff(&x.2, &body))); break; },
            }
        }
        for p in r.disk.keys() {
            if p != out && !spec.disk.contains_key(p) && v.bad.is_none() { v.bad = bad("other_file", format!("{}: {} was created ({})", cmd, p, how)); }
        }
    }
    let st = &mut rig.cli().stats;
    st.probe(if !drawn { "no drawing comes of the input" } else if r.touched { "ended after the output was touched" } else { "ended before the output was touched" });
}

// ------------------------------------------------------------------ C23
fn together(disk: &Disk, procs: &[CliSpec], outs: &[String], turns: &[Turn], rig: &mut Rig, v: &mut Verdict) {
    let specs: Vec<CliSpec> = procs.iter().map(|p| CliSpec { disk: disk.clone(), ..p.clone() }).collect();
    let (res, life, end) = rig.together(&specs, turns);
    for r in &res { v.take_cli(r); v.sig = v.sig.rotate_left(9) ^ r.ev_hash ^ r.steps; }
    v.events = res.iter().enumerate().flat_map(|(i, r)| r.events.iter().map(move |e| format!("run {}: {}", i, e))).collect();
    let others: Vec<(usize, &Turn)> = turns.iter().enumerate().filter(|t| !matches!(t.1, Turn::Run { .. })).map(|t| (t.0 + 1, t.1)).collect();
    let during = |i: usize, at: usize| at > life[i].begun && at < life[i].ended;
    let together = (0..res.len()).any(|i| (0..res.len()).any(|j| i != j && during(i, life[j].begun)));
    v.nontrivial = together || others.iter().any(|o| (0..res.len()).any(|i| during(i, o.0)));
    let st = &mut rig.cli().stats;
    if together { st.probe("runs at the same time"); }
    st.probe_n("turns taken", life.iter().map(|l| l.switches).sum());
    let hard = |i: usize| specs[i].crash_step > 0 || specs[i].faults.iter().any(|f| !f.transient());
    for i in 0..res.len() {
        let (r, out) = (&res[i], &outs[i]);
        let cmd = format!("layout {} (run {} of {})", specs[i].args.join(" "), i, res.len());
        if r.end == End::Hang || r.end == End::Deadlock && !hard(i) { v.bad = bad("hang", format!("{} never ends", cmd)); return; }
        if hard(i) && r.end != End::Exit(0) { continue; }
        // The inputs it may have seen.
        let inp = in_path(&specs[i]);
        let mut all = vec![None];
        let mut first = 0;
        for (at, t) in &others {
            let b = match t { Turn::Replace { path, body } if *path == inp => Some(body.clone()), Turn::Remove { path } if *path == inp => None, _ => continue };
            if *at > life[i].ended { break; }
            all.push(Some(b));
            if *at < life[i].begun { first = all.len() - 1; }
        }
        let got = end.get(out).filter(|x| x.0 == 1).map(|x| &x.2[..]);
        let mut why = String::new();
        let mut fine = false;
        for b in all.drain(..).skip(first) {
            let mut s = specs[i].clone();
            match b { Some(Some(b)) => { s.disk.insert(inp.clone(), Node::File { mode: 0o644, body: b }); } Some(None) => { s.disk.remove(&inp); } None => {} }
            let b = rig.basis(&s);
            // Whoever is last leaves the output, when several write the same.
            let w = match (&r.end, &b.end) {
                (End::Exit(0), End::Exit(0)) if r.stdout != b.stdout => format!("standard output: {}", diff(&r.stdout, &b.stdout)),
                (End::Exit(0), End::Exit(0)) if got != b.file(out) => format!("{}: {}", out, diff(got.unwrap_or(b""), b.file(out).unwrap_or(b""))),
                (End::Exit(0), End::Exit(0)) => String::new(),
                (End::Exit(x), End::Exit(y)) if *x != 0 && *y != 0 => if got == b.file(out) { String::new() } else { format!("it fails and {} has changed", out) },
                (x, y) => format!("it ends with {:?} instead of {:?}: {}", x, y, clip(&r.stderr, 0)),
            };
            if w.is_empty() { fine = true; break; }
            if why.is_empty() || b.end == r.end { why = w; }
        }
        if !fine {
            v.bad = bad("disturbed", format!("{} does not give what it gives alone{}: {}", cmd, if others.is_empty() { "" } else { " with any version of its input" }, why));
            return;
        }
    }
    // Nothing else has changed.
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (p, n) in disk { want.insert(p.clone(), match n { Node::File { body, .. } => body.bytes(), _ => vec![] }); }
    for (_, t) in &others { match t { Turn::Replace { path, body } => { want.insert(path.clone(), body.bytes()); } Turn::Remove { path } => { want.remove(path); } _ => {} } }
    for (p, b) in &want {
        if outs.contains(p) { continue; }
        match end.get(p) {
            None => { v.bad = bad("other_file", format!("{} is gone after runs of layout at the same time", p)); return; }
            Some(x) => if x.2 != *b { v.bad = bad("other_file", format!("{} was altered by runs of layout at the same time: {}", p, diff(&x.2, b))); return; },
        }
    }
    for p in end.keys() { if !outs.contains(p) && !want.contains_key(p) { v.bad = bad("other_file", format!("{} was left behind by runs of layout at the same time", p)); return; } }
}

// ------------------------------------------------------------------ C24
fn hard_spec(f: &[Fault], crash_step: u64, capacity: Option<u64>) -> bool { crash_step > 0 || capacity.is_some() || f.iter().any(|f| !f.transient()) }
fn life(disk: &Disk, stages: &[Stage], rig: &mut Rig, v: &mut Verdict) {
    let mut cur = disk.clone();
    let mut before = 0;
    let (mut crashed, mut failed) = (0, 0);
    let mut mine: Vec<String> = vec![];
    let back = |m: &BTreeMap<String, (u32, u32, Vec<u8>)>| -> Disk { m.iter().map(|(p, x)| (p.clone(), if x.0 == 2 { Node::Dir { mode: x.1 } } else { Node::File { mode: x.1, body: Body::of(&x.2) } })).collect() };
    let mut trace = vec![];
    for (i, st) in stages.iter().enumerate() {
        // Whatever fills the disk is for other checks to report.
        if cur.len() > 36 { break; }
        match st {
            Stage::Put { path, body } => { mine.push(path.clone()); cur.insert(path.clone(), Node::File { mode: 0o644, body: body.clone() }); }
            Stage::Remove { path } => { mine.push(path.clone()); cur.remove(path); }
            Stage::Tool { spec, out } => {
                let inp = in_path(spec);
                mine.push(out.clone());
                // The same run on a disk with nothing on it but its input.
                let mut fresh: Disk = disk.iter().filter(|x| matches!(x.1, Node::Dir { .. })).map(|x| (x.0.clone(), x.1.clone())).collect();
                if let Some(n) = cur.get(&inp) { fresh.insert(inp.clone(), n.clone()); }
                let b = rig.basis(&CliSpec { disk: fresh, ..spec.clone() });
                let s = CliSpec { disk: cur.clone(), ..spec.clone() };
                let r = rig.tool(&s, None);
                v.take_cli(&r);
                trace.extend(r.events.iter().map(|e| format!("stage {}: {}", i, e)));
                v.sig = v.sig.rotate_left(9) ^ r.ev_hash ^ r.steps;
                let hard = hard_spec(&spec.faults, spec.crash_step, spec.capacity);
                let here = format!("stage {} of {}: layout {} under {:?}, after {} stages of which {} were killed and {} failed", i, stages.len(), spec.args.join(" "), faults(spec), before, crashed, failed);
                v.bad = match (&r.end, &b.end) {
                    (End::Hang, _) => bad("hang", format!("{} never ends", here)),
                    (End::Deadlock, _) if !hard => bad("hang", format!("{} waits for itself", here)),
                    (End::Exit(0), End::Exit(0)) if r.file(out) != b.file(out) => bad("stale", format!("{} exits with 0, but {} is not the drawing of its input as it is now: {}", here, out, diff(r.file(out).unwrap_or(b""), b.file(out).unwrap_or(b"")))),
                    (End::Exit(0), End::Exit(0)) if r.stdout != b.stdout => bad("stale", format!("{} prints something else than on a disk with nothing but its input: {}", here, diff(&r.stdout, &b.stdout))),
                    (End::Exit(0), End::Exit(0)) => None,
                    (End::Exit(0), e) => bad("stale", format!("{} exits with 0; on a disk with nothing but its input it ends with {:?}", here, e)),
                    (e, End::Exit(0)) if !hard => bad("stuck", format!("{} ends with {:?} ({}); on a disk with nothing but its input it succeeds", here, e, clip(&r.stderr, 0))),
                    _ => None,
                };
                if before > 0 { v.nontrivial = true; }
                before += 1;
                if r.end == End::Crashed { crashed += 1; } else if r.end != End::Exit(0) { failed += 1; }
                cur = back(&r.disk);
            }
            Stage::Lib { spec } => {
                mine.extend(abs_targets(spec));
                let s = Spec { disk: cur.clone(), ..spec.clone() };
                let r = rig.go(&s);
                v.take(&r);
                trace.extend(r.events.iter().map(|e| format!("stage {}: {}", i, e)));
                v.sig = v.sig.rotate_left(9) ^ r.ev_hash ^ r.steps;
                v.bad = saves(&s, &r, true).map(|b| Bad { kind: if b.kind == "refused" { "stuck".into() } else { b.kind }, msg: format!("stage {} of {}, after {} stages of which {} were killed and {} failed: {}", i, stages.len(), before, crashed, failed, b.msg) });
                if v.bad.is_none() && r.end != End::Crashed { v.bad = end_bad(&r); }
                if before > 0 { v.nontrivial = true; }
                before += 1;
                if r.end == End::Crashed { crashed += 1; } else if r.done.iter().any(|d| d.tag == T_IOERR) { failed += 1; }
                cur = back(&r.disk);
            }
        }
        if v.bad.is_some() { break; }
    }
    v.events = trace;
    if v.bad.is_none() {
        for (p, n) in disk {
            if mine.contains(p) { continue; }
            if cur.get(p).map(|x| match (x, n) { (Node::File { body: a, mode: k }, Node::File { body: b, mode: l }) => k == l && a.bytes() == b.bytes(), (a, b) => a == b }) != Some(true) {
                v.bad = bad("other_file", format!("{} is gone or altered after {} stages, though nothing was stored there", p, before));
                break;
            }
        }
    }
    let st = &mut rig.ex.stats;
    st.probe_n("processes killed", crashed);
    st.probe_n("processes that failed", failed);
    st.probe_n("processes", before);
}

// ------------------------------------------------------------------ C08
fn cut_docs(text: &str, brace: usize, cuts: &[(usize, usize)], rig: &mut Rig, v: &mut Verdict) {
    let mut s = Spec::new();
    s.srcs.push(Src::Dot(text.to_string()));
    let mut ops = vec![Op::Parse { src: 0 }];
    for (i, (at, z)) in cuts.iter().enumerate() {
        assert!(*at <= brace);
        let mut t = text[..*at].to_string();
        for _ in 0..*z { t.push('\0'); }
        s.srcs.push(Src::Dot(t));
        ops.push(Op::Parse { src: i + 1 });
    }
    s.tasks = vec![ops];
    let r = rig.go(&s);
    v.take(&r);
    v.evals = cuts.len() as u64;
    let full = r.done.first().map(|d| d.tag == T_OK).unwrap_or(false);
    v.nontrivial = full && !cuts.is_empty();
    rig.ex.stats.probe(if full { "whole document accepted" } else { "whole document rejected" });
    v.sig = gen::hash(text.as_bytes()) ^ cuts.iter().fold(0, |h, c| (h ^ c.0 as u64 ^ (c.1 as u64) << 32).wrapping_mul(0x100000001b3));
    for d in &r.done {
        if d.op == 0 { continue; }
        let (at, z) = cuts[d.op as usize - 1];
        if d.tag != T_REJECTED {
            let kept = &text[..at];
            let tail: String = kept.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect();
            v.bad = bad(if d.tag == T_OK { "accepted" } else { "panic" },
                format!("a document of {} bytes cut off after {} bytes{} (before its closing brace at {}) gives {}: ...{:?} {}", text.len(), at,
                    if z > 0 { format!(" with {} zero bytes after them", z) } else { String::new() }, brace, d.tag_name(), tail, d.msg));
            return;
        }
    }
    if v.bad.is_none() { v.bad = end_bad(&r); }
}

// ------------------------------------------------------------------ C21
/// The words of the round: as long as the ones they stand for.
pub fn varied(text: &str, vary: &[String], round: usize) -> String {
    let mut t = text.to_string();
    for (i, w) in vary.iter().enumerate() {
        if w.len() < 3 || !w.is_ascii() { continue; }
        let mut k = (round * 7 + i) % 4096;
        let mut d = vec![0u8; 3];
        for x in d.iter_mut().rev() { *x = b"abcdef0123456789"[k % 16]; k /= 16; }
        t = t.replace(w.as_str(), &format!("{}{}", &w[..w.len() - 3], String::from_utf8_lossy(&d)));
    }
    t
}
fn rounds(spec: &Spec, vary: &[String], n: usize) -> Spec {
    let mut s = spec.clone();
    s.lean = true;
    let ops = s.tasks[0].clone();
    let k = s.srcs.len();
    s.tasks = vec![vec![]];
    if !vary.is_empty() { s.srcs.clear(); }
    for r in 0..n {
        if !vary.is_empty() {
            for x in &spec.srcs { s.srcs.push(match x { Src::Dot(t) => Src::Dot(varied(t, vary, r)), x => x.clone() }); }
        }
        for o in &ops {
            let mut o = o.clone();
            if !vary.is_empty() {
                match &mut o {
                    Op::Draw { src, .. } | Op::Parse { src } | Op::Print { src } | Op::Stream { src, .. } | Op::Final { src, .. } => *src += r * k,
                    Op::Save { body: Body::Gen { seed, .. }, .. } => *seed += r as u64,
                    _ => {}
                }
            }
            s.tasks[0].push(o);
        }
    }
    if s.chunk > 0 { s.chunk = ops.len(); }
    s
}
const USED: [&str; 6] = ["allocated bytes", "allocations", "open files", "files", "threads", "execution steps of a round"];
/// What is in use after the n-th round (steps: of the n-th round).
fn in_use(r: &RunResult, per: usize, round: usize) -> Option<[i64; 6]> {
    let get = |x: &Rec| -> [i64; 6] { let mut v = [0i64; 6]; for (i, y) in v.iter_mut().enumerate() { *y = i64::from_le_bytes(x.parts[0][i * 8..i * 8 + 8].try_into().unwrap()); } v };
    let l: Vec<&Rec> = r.recs.iter().filter(|x| x.kind == R_LIVE).collect();
    if l.len() < (round + 1) * per { return None; }
    let mut v = get(l[(round + 1) * per - 1]);
    v[5] = l[round * per..(round + 1) * per].iter().map(|x| get(x)[5]).sum();
    Some(v)
}
/// What grows from each of these rounds to the next one, and by at least
/// half a unit a round in the end?
fn growing(r: &RunResult, per: usize, at: &[usize], vary: bool) -> Vec<(usize, String)> {
    let mut v: Vec<[i64; 6]> = vec![];
    for a in at {
        // The least of four rounds: what is set aside now and then does not count.
        let mut m: Option<[i64; 6]> = None;
        for k in 0..4 {
            match (in_use(r, per, *a + k), &mut m) { (None, _) => return vec![], (Some(x), None) => m = Some(x), (Some(x), Some(y)) => for i in 0..6 { y[i] = y[i].min(x[i]); } }
        }
        v.push(m.unwrap());
    }
    let n = at.len();
    let span = (at[n - 1] - at[n - 2]) as i64;
    (0..6).filter(|i| *i < 5 || !vary).filter(|i| v.windows(2).all(|w| w[1][*i] > w[0][*i]) && ((v[n - 1][*i] - v[n - 2][*i]) * 2 >= span || matches!(*i, 2 | 4)))
        .map(|i| (i, v.iter().zip(at).map(|(x, a)| format!("{} after round {}", x[i], a + 4)).collect::<Vec<_>>().join(", "))).collect()
}
fn leak(spec: &Spec, vary: &[String], rig: &mut Rig, v: &mut Verdict) {
    let per = spec.tasks[0].len();
    if per == 0 { return; }
    let s = rounds(spec, vary, 26);
    let r = rig.go(&s);
    v.take(&r);
    v.sig = r.ev_hash ^ r.steps;
    let n = |t: u8| r.done.iter().filter(|d| d.tag == t).count() as u64;
    for (t, k) in ["operations completed", "operations rejected", "operations that panicked", "operations cancelled", "saves reported as failed"].iter().enumerate() { rig.ex.stats.probe_n(k, n(t as u8)); }
    v.nontrivial = r.done.len() == 26 * per;
    if r.end != End::Done {
        // The same round once: does it end?
        let one = rig.go(&rounds(spec, vary, 1));
        if one.end == End::Done { v.bad = bad("piled_up", format!("a round of {} operations that ends can't be repeated: the process ended with {:?} in round {}", per, r.end, r.done.len() / per)); }
        return;
    }
    // Files that nobody asked for.
    let tidy = !spec.faults.iter().any(|f| matches!(f.cls, C_UNLINK | C_RENAME | C_META));
    let want = abs_targets(spec);
    if tidy {
        for p in r.disk.keys() {
            if !spec.disk.contains_key(p) && !want.contains(p) { v.bad = bad("stray", format!("after {} rounds of work there is a file {} that nobody asked for", 26, p)); return; }
        }
    }
    let g = growing(&r, per, &[4, 9, 22], !vary.is_empty());
    let g: Vec<usize> = g.iter().map(|x| x.0).filter(|i| tidy || *i != 3).collect();
    if g.is_empty() { return; }
    for i in &g { rig.ex.stats.probe(&format!("looked into with many rounds: {}", USED[*i])); }
    // Many more rounds: what is bounded has stopped by then.
    let mut many = (6_000_000_000 / r.steps.max(1) * 26).clamp(100, 600) as usize;
    // There are not that many descriptors.
    if g.contains(&2) { if let (Some(a), Some(b)) = (in_use(&r, per, 4), in_use(&r, per, 24)) { many = many.min(16_000 / (b[2] - a[2]).max(1) as usize).max(60); } }
    let at = [many / 30, many / 15, many / 7, many / 4, many / 2, many - 5];
    let mut s = rounds(spec, vary, many);
    s.budget = 0;
    let s = Spec { budget: (r.steps / 26 + 1) * many as u64 * 6 + 1_000_000_000, ..s };
    let r = rig.go(&s);
    v.take(&r);
    if r.end != End::Done { v.bad = bad("piled_up", format!("a round of {} operations that ends can't be repeated: the process ended with {:?} in round {}", per, r.end, r.done.len() / per)); return; }
    for (i, how) in growing(&r, per, &at, !vary.is_empty()) {
        if !tidy && i == 3 { continue; }
        v.bad = bad("grows", format!("{} grow with every round of the same {} operations ({}): {}", USED[i], per, s.tasks[0][..per].iter().map(|o| brief(o)).collect::<Vec<_>>().join("; "), how));
        return;
    }
}
