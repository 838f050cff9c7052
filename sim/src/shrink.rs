//! Minimises a failing case: fewer context switches, faults, tasks,
//! operations and files, and less text, as long as the same kind of
//! violation shows.
use crate::case::*;
use crate::cli::{CliSpec, Turn};
use crate::exec::*;
use crate::gen;
use crate::world::*;
use std::time::Instant;

pub struct Shrinker<'a> { pub rig: &'a mut Rig, pub kind: String, pub until: Instant, pub tries: u64, pub cur: Case, pub known: &'a dyn Fn(&Bad) -> bool }

fn spec_of(c: &mut Case) -> Option<&mut Spec> {
    match c {
        Case::Same { spec, .. } | Case::Conc { spec } | Case::Hist { spec } | Case::Save { spec } | Case::Crash { spec }
        | Case::Damaged { spec } | Case::Writer { spec } | Case::Leak { spec, .. } | Case::Nested { spec } => Some(spec),
        _ => None,
    }
}
fn cli_of(c: &mut Case) -> Option<&mut CliSpec> {
    match c { Case::Tool { spec, .. } | Case::Touch { spec, .. } | Case::ToolCut { spec, .. } => Some(spec), _ => None }
}

impl<'a> Shrinker<'a> {
    fn test(&mut self, c: Case) -> bool {
        if Instant::now() > self.until || c == self.cur { return false; }
        self.tries += 1;
        let v = eval(&c, self.rig);
        match v.bad {
            Some(b) if b.kind == self.kind && !(self.known)(&b) => { self.cur = c; true }
            _ => false,
        }
    }
    fn edit(&mut self, f: &dyn Fn(&mut Case)) -> bool {
        let mut c = self.cur.clone();
        f(&mut c);
        self.test(c)
    }
    /// Drops as much of a list as possible.
    fn list<T: Clone>(&mut self, get: &dyn Fn(&mut Case) -> Option<&mut Vec<T>>, least: usize) {
        let mut c = self.cur.clone();
        let mut n = match get(&mut c) { Some(v) => v.len(), None => return };
        let mut step = n;
        while step >= 1 {
            let mut at = 0;
            while at < n && Instant::now() < self.until {
                let k = step.min(n - at);
                let mut c = self.cur.clone();
                let mut ok = false;
                if n - k >= least {
                    get(&mut c).unwrap().drain(at..at + k);
                    ok = self.test(c);
                }
                if ok { n -= k; } else { at += k; }
            }
            if step == 1 { break; }
            step = (step / 2).max(1);
        }
    }
    fn text(&mut self, get: &dyn Fn(&mut Case) -> Option<&mut String>) {
        let mut c = self.cur.clone();
        let t = match get(&mut c) { Some(t) => t.clone(), None => return };
        if t.is_empty() { return; }
        let mut v: Vec<char> = t.chars().collect();
        let mut step = v.len();
        let start = Instant::now();
        while step >= 1 {
            let mut at = 0;
            while at < v.len() && Instant::now() < self.until && start.elapsed().as_secs() < 20 {
                let k = step.min(v.len() - at);
                let mut w = v.clone();
                w.drain(at..at + k);
                let mut c = self.cur.clone();
                *get(&mut c).unwrap() = w.iter().collect();
                if self.test(c) { v = w; } else { at += k; }
            }
            if step == 1 { break; }
            step /= 2;
        }
    }
    fn schedule(&mut self) {
        let mut c = self.cur.clone();
        let mode = match spec_of(&mut c) { Some(s) => s.sched.mode, None => return };
        if mode != 0 {
            // The switches that were made, one by one.
            let v = eval(&c, self.rig);
            if v.sched.len() < MAX_SCHED {
                let l = v.sched.clone();
                self.edit(&|c| { let s = spec_of(c).unwrap(); s.sched = Sched { list: l.clone(), ..Sched::none() }; });
            }
            self.edit(&|c| { spec_of(c).unwrap().sched = Sched::none(); });
        }
        self.list(&|c| spec_of(c).map(|s| &mut s.sched.list), 0);
    }
    fn specs(&mut self) {
        let mut c = self.cur.clone();
        if spec_of(&mut c).is_none() { return; }
        self.schedule();
        self.list(&|c| spec_of(c).map(|s| &mut s.faults), 0);
        if let Case::Same { .. } = self.cur {
            self.list(&|c| match c { Case::Same { cli, .. } => Some(cli), _ => None }, 0);
            self.list(&|c| match c { Case::Same { envs, .. } => Some(envs), _ => None }, 0);
        }
        // Tasks keep their numbers while a list of switches names them.
        let nt = spec_of(&mut c).unwrap().tasks.len();
        for t in (0..nt).rev() {
            let ok = self.edit(&|c| { let s = spec_of(c).unwrap(); if s.tasks.len() > 1 && s.sched.list.is_empty() { s.tasks.remove(t); } else { s.tasks[t].clear(); } });
            if !ok { self.list(&|c| spec_of(c).and_then(|s| s.tasks.get_mut(t)), 0); }
        }
        self.list(&|c| spec_of(c).map(|s| &mut s.nested), 0);
        let nn = spec_of(&mut self.cur.clone()).unwrap().nested.len();
        for i in 0..nn {
            for k in 0..5 {
                self.edit(&|c| { let n = &mut spec_of(c).unwrap().nested[i]; match (k, &mut n.op) {
                    (0, _) => n.thread = false,
                    (1, _) => n.at = 1,
                    (2, Op::Draw { opt, .. }) => *opt = Opt { debug: false, noopt: false, nolayout: false },
                    (3, Op::Draw { cancel, .. }) => *cancel = None,
                    (4, Op::Draw { how, .. }) => *how = How::Fresh,
                    _ => {}
                } });
            }
        }
        if !matches!(self.cur, Case::Save { .. }) { self.list(&|c| spec_of(c).map(|s| &mut s.epilogue), 0); }
        else { let n = spec_of(&mut self.cur.clone()).unwrap().epilogue.len(); for i in (1..n).rev() { self.edit(&|c| { let s = spec_of(c).unwrap(); if i < s.epilogue.len() { s.epilogue.remove(i); } }); } }
        self.edit(&|c| { spec_of(c).unwrap().env = Env::plain(); });
        for k in 0..8 {
            self.edit(&|c| { let p = Env::plain(); let e = &mut spec_of(c).unwrap().env; match k { 0 => e.rnd = p.rnd, 1 => e.scatter = 0, 2 => e.clock_real = p.clock_real,
                3 => { e.clock_mono = p.clock_mono; e.tick = p.tick; } 4 => { e.pid = p.pid; e.ncpu = p.ncpu; } 5 => e.spurious = 0, 6 => e.log = 0, _ => { e.vars.clear(); e.idle_threads = 0; } } });
        }
        if let Case::Same { envs, .. } = self.cur.clone() {
            for i in 0..envs.len() {
                for k in 0..9 {
                    self.edit(&|c| if let Case::Same { envs, .. } = c { let p = Env::plain(); let e = &mut envs[i]; match k { 0 => e.rnd = p.rnd, 1 => e.scatter = 0, 2 => e.clock_real = p.clock_real,
                        3 => { e.clock_mono = p.clock_mono; e.tick = p.tick; } 4 => { e.pid = p.pid; e.ncpu = p.ncpu; } 5 => e.spurious = 0, 6 => e.log = 0, 7 => e.main = false, _ => { e.vars.clear(); e.idle_threads = 0; } } });
                }
            }
        }
        self.edit(&|c| { spec_of(c).unwrap().capacity = None; });
        let files: Vec<String> = spec_of(&mut self.cur.clone()).unwrap().disk.keys().cloned().collect();
        for p in files.iter().rev() { if p.as_str() != "/" { self.edit(&|c| { spec_of(c).unwrap().disk.remove(p); }); } }
        // Simpler operations.
        let nt = spec_of(&mut self.cur.clone()).unwrap().tasks.len();
        for t in 0..nt {
            let no = spec_of(&mut self.cur.clone()).unwrap().tasks[t].len();
            for o in 0..no {
                for k in 0..9 {
                    let mut again = true;
                    while again && Instant::now() < self.until {
                        again = self.edit(&|c| {
                            let op = &mut spec_of(c).unwrap().tasks[t][o];
                            match (k, op) {
                                (0, Op::Repeat { n, .. }) => *n = (*n / 2).max(1),
                                (1, Op::Repeat { n, .. }) => *n = (*n - 1).max(1),
                                (2, x @ Op::Repeat { .. }) => { if let Op::Repeat { op, .. } = x.clone() { *x = *op; } }
                                (3, Op::Draw { opt, .. } | Op::Stream { opt, .. }) => opt.debug = false,
                                (4, Op::Draw { opt, .. } | Op::Stream { opt, .. }) => { opt.noopt = false; opt.nolayout = false; }
                                (5, Op::Draw { cancel, .. } | Op::Stream { cancel, .. }) => *cancel = None,
                                (6, Op::Draw { how, .. } | Op::Stream { how, .. }) => *how = How::Fresh,
                                (7, Op::Save { body: Body::Gen { len, .. }, .. }) => *len /= 2,
                                (8, Op::Save { body: Body::Gen { len, flavour, .. }, .. }) => { *len = len.saturating_sub(1); *flavour = 0; }
                                _ => {}
                            }
                        }) && (k == 0 || k == 7);
                    }
                }
                self.list(&|c| match spec_of(c).and_then(|s| s.tasks.get_mut(t)).and_then(|t| t.get_mut(o)) { Some(Op::Calls { calls }) => Some(calls), _ => None }, 0);
            }
        }
        let ns = spec_of(&mut self.cur.clone()).unwrap().srcs.len();
        for i in 0..ns {
            if !self.edit(&|c| { spec_of(c).unwrap().srcs[i] = Src::Dot("digraph{}".into()); }) {
                self.text(&|c| match spec_of(c).map(|s| &mut s.srcs[i]) { Some(Src::Dot(t)) => Some(t), _ => None });
                self.list(&|c| match spec_of(c).map(|s| &mut s.srcs[i]) { Some(Src::Api(g)) => Some(&mut g.edges), _ => None }, 0);
                let n = match &spec_of(&mut self.cur.clone()).unwrap().srcs[i] { Src::Api(g) => g.nodes.len(), _ => 0 };
                for k in (0..n).rev() {
                    self.edit(&|c| if let Src::Api(g) = &mut spec_of(c).unwrap().srcs[i] {
                        if g.nodes.len() > 1 {
                            g.nodes.remove(k);
                            g.edges.retain(|e| e.from != k && e.to != k);
                            for e in g.edges.iter_mut() { if e.from > k { e.from -= 1; } if e.to > k { e.to -= 1; } }
                        }
                    });
                }
            }
        }
        self.schedule();
    }
    fn tools(&mut self) {
        let mut c = self.cur.clone();
        if cli_of(&mut c).is_none() { return; }
        self.list(&|c| cli_of(c).map(|s| &mut s.faults), 0);
        self.edit(&|c| { cli_of(c).unwrap().capacity = None; });
        self.edit(&|c| { cli_of(c).unwrap().crash_step = 0; });
        let nf = cli_of(&mut self.cur.clone()).unwrap().faults.len();
        for i in 0..nf { self.edit(&|c| { cli_of(c).unwrap().faults[i].repeat = 1; }); }
        self.list(&|c| cli_of(c).map(|s| &mut s.vars), 0);
        for a in ["-d", "--debug", "--no-layout", "--no-optz", "-a", "--ast"] { self.edit(&|c| { cli_of(c).unwrap().args.retain(|x| x != a); }); }
        self.edit(&|c| { let p = CliSpec::new(); let s = cli_of(c).unwrap(); s.rnd = p.rnd; s.clock_real = p.clock_real; s.clock_mono = p.clock_mono; s.tick = p.tick; s.pid = p.pid; s.ncpu = p.ncpu; });
        let inp = in_path(cli_of(&mut self.cur.clone()).unwrap());
        let files: Vec<String> = cli_of(&mut self.cur.clone()).unwrap().disk.keys().cloned().collect();
        for p in files.iter().rev() { if p.as_str() != "/" && *p != inp { self.edit(&|c| { cli_of(c).unwrap().disk.remove(p); }); } }
        let free = match &self.cur { Case::Tool { known, .. } | Case::Touch { known, .. } => *known == Known::Nothing, _ => false };
        if free { self.text(&|c| match cli_of(c).unwrap().disk.get_mut(&inp) { Some(Node::File { body: Body::Text(t), .. }) => Some(t), _ => None }); }
    }
    fn together(&mut self) {
        if !matches!(self.cur, Case::Together { .. }) { return; }
        let n = |c: &Case| match c { Case::Together { procs, .. } => procs.len(), _ => 0 };
        for i in (0..n(&self.cur)).rev() {
            self.edit(&|c| if let Case::Together { procs, outs, turns, .. } = c { if procs.len() > 1 {
                procs.remove(i); outs.remove(i);
                turns.retain(|t| !matches!(t, Turn::Run { who, .. } if *who == i));
                for t in turns.iter_mut() { if let Turn::Run { who, .. } = t { if *who > i { *who -= 1; } } }
            } });
        }
        self.list(&|c| match c { Case::Together { turns, .. } => Some(turns), _ => None }, 0);
        for i in 0..n(&self.cur) {
            self.list(&|c| match c { Case::Together { procs, .. } => Some(&mut procs[i].faults), _ => None }, 0);
            self.list(&|c| match c { Case::Together { procs, .. } => Some(&mut procs[i].vars), _ => None }, 0);
            self.edit(&|c| if let Case::Together { procs, .. } = c { procs[i].crash_step = 0; });
            for a in ["-d", "--no-layout", "--no-optz", "-a"] { self.edit(&|c| if let Case::Together { procs, .. } = c { procs[i].args.retain(|x| x != a); }); }
            self.edit(&|c| if let Case::Together { procs, .. } = c { let p = CliSpec::new(); let s = &mut procs[i]; s.rnd = p.rnd; s.clock_real = p.clock_real; s.tick = p.tick; });
        }
        let files: Vec<String> = match &self.cur { Case::Together { disk, .. } => disk.keys().cloned().collect(), _ => vec![] };
        for p in files.iter().rev() {
            if p == "/" { continue; }
            if !self.edit(&|c| if let Case::Together { disk, .. } = c { disk.remove(p); }) {
                self.edit(&|c| if let Case::Together { disk, .. } = c { if let Some(Node::File { body, .. }) = disk.get_mut(p) { *body = Body::Text("digraph{a}".into()); } });
            }
        }
    }
    fn life(&mut self) {
        if !matches!(self.cur, Case::Life { .. }) { return; }
        self.list(&|c| match c { Case::Life { stages, .. } => Some(stages), _ => None }, 1);
        let n = match &self.cur { Case::Life { stages, .. } => stages.len(), _ => 0 };
        for i in 0..n {
            let tool = |c: &mut Case| -> Option<*mut CliSpec> { match c { Case::Life { stages, .. } => match &mut stages[i] { Stage::Tool { spec, .. } => Some(spec as *mut _), _ => None }, _ => None } };
            let lib = |c: &mut Case| -> Option<*mut Spec> { match c { Case::Life { stages, .. } => match &mut stages[i] { Stage::Lib { spec } => Some(spec as *mut _), _ => None }, _ => None } };
            let mut c = self.cur.clone();
            unsafe {
                if tool(&mut c).is_some() {
                    self.list(&|c| tool(c).map(|s| &mut (*s).faults), 0);
                    self.list(&|c| tool(c).map(|s| &mut (*s).vars), 0);
                    self.edit(&|c| { (*tool(c).unwrap()).crash_step = 0; });
                    self.edit(&|c| { (*tool(c).unwrap()).capacity = None; });
                    for a in ["-d", "--no-layout", "--no-optz", "-a"] { self.edit(&|c| (*tool(c).unwrap()).args.retain(|x| x != a)); }
                    self.edit(&|c| { let p = CliSpec::new(); let s = &mut *tool(c).unwrap(); s.rnd = p.rnd; s.clock_real = p.clock_real; s.pid = p.pid; });
                }
                if lib(&mut c).is_some() {
                    self.list(&|c| lib(c).map(|s| &mut (*s).faults), 0);
                    self.list(&|c| lib(c).map(|s| &mut (&mut (*s).tasks)[0]), 1);
                    self.edit(&|c| { (*lib(c).unwrap()).crash_step = 0; });
                    self.edit(&|c| { (*lib(c).unwrap()).env = Env::plain(); });
                    self.edit(&|c| { for o in (&mut (*lib(c).unwrap()).tasks)[0].iter_mut() { if let Op::Save { body, .. } = o { *body = Body::Text("new".into()); } } });
                }
                self.edit(&|c| if let Case::Life { stages, .. } = c { if let Stage::Put { body, .. } = &mut stages[i] { *body = Body::Text("digraph{a}".into()); } });
            }
        }
        let files: Vec<String> = match &self.cur { Case::Life { disk, .. } => disk.keys().cloned().collect(), _ => vec![] };
        for p in files.iter().rev() {
            if p == "/" { continue; }
            if !self.edit(&|c| if let Case::Life { disk, .. } = c { disk.remove(p); }) {
                self.edit(&|c| if let Case::Life { disk, .. } = c { if let Some(Node::File { body, .. }) = disk.get_mut(p) { *body = Body::Text("digraph{a}".into()); } });
            }
        }
    }
    pub fn run(&mut self) {
        for _ in 0..3 {
            let before = serde_json::to_string(&self.cur).unwrap();
            self.specs();
            self.tools();
            self.together();
            self.life();
            self.list(&|c| match c { Case::Cuts { cuts, .. } => Some(cuts), _ => None }, 1);
            if serde_json::to_string(&self.cur).unwrap() == before || Instant::now() > self.until { break; }
        }
        let _ = gen::hash(b"");
    }
}
