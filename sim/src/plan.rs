//! Seeded planning of cases: workload, environment, schedule and faults.
use crate::case::*;
use crate::cli::{CliSpec, Turn};
use crate::exec::*;
use crate::gen::{self, Damage, Rng};
use crate::model;
use crate::world::*;

pub fn dirs(d: &mut Disk) {
    for p in ["/", "/work", "/tmp", "/data"] { d.insert(p.into(), Node::Dir { mode: 0o755 }); }
}
pub fn env(r: &mut Rng, one_task: bool) -> Env {
    let mut e = Env::plain();
    e.rnd = r.next();
    e.scatter = if r.one(2) { 0 } else { r.next() | 1 };
    e.clock_real = match r.u(4) { 0 => 0, 1 => 1_700_000_000_000_000_000, 2 => r.u(1 << 60) as i64, _ => 4_102_444_799_000_000_000 };
    e.clock_mono = r.u(1 << 50) as i64;
    e.tick = r.of(&[0i64, 1, 1000, 1_000_000_000]);
    e.pid = 2 + r.u(4_000_000) as u32;
    e.ncpu = r.of(&[1u32, 2, 4, 8, 64]);
    e.spurious = if r.one(3) { 2 + r.u(5) as u32 } else { 0 };
    e.log = r.of(&[0u8, 0, 1, 3, 5]);
    e.main = one_task && r.one(3);
    e.idle_threads = r.of(&[0u8, 0, 1, 3]);
    if r.one(2) { e.vars = vars(r); }
    e.pad = r.of(&[0u32, 0, 1, 7, 50, 200]);
    e
}
fn vars(r: &mut Rng) -> Vec<(String, String)> {
    let all = [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("COLUMNS", "20"), ("HOME", "/nowhere"), ("USER", "nobody"),
        ("TMPDIR", "/data"), ("PWD", "/data"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("RUST_BACKTRACE", "1"), ("DEBUG", "1"), ("HOSTNAME", "h"),
        ("SOURCE_DATE_EPOCH", "1"), ("RUST_MIN_STACK", "4194304"), ("PATH", "/bin")];
    let mut v = vec![];
    for (k, x) in all { if r.one(4) { v.push((k.to_string(), x.to_string())); } }
    v
}
fn opt(r: &mut Rng) -> Opt { Opt { debug: r.one(5), noopt: r.one(4), nolayout: r.one(5) } }
fn text_of(r: &mut Rng, scale: usize) -> String {
    let scale = if scale == 20 && r.one(25) { 20 + r.z(40) } else { scale };
    match r.u(10) {
        0 => match r.u(8) { 0..=3 => gen::corpus_doc(r, 1500), 4 => gen::mazes(r, 2 + 3 * scale), _ => gen::layers(r, scale) },
        1..=4 => model::model_doc(r, scale).0,
        _ => gen::any_doc(r, scale).text,
    }
}
fn src(r: &mut Rng, scale: usize) -> Src {
    if r.one(4) { Src::Api(gen::api_graph(r, scale)) } else { Src::Dot(text_of(r, scale)) }
}
/// A graph that has nearly everything in common with another one.
fn akin_src(r: &mut Rng, x: &Src) -> Src {
    match x {
        Src::Dot(t) => {
            let mut t = t.clone();
            for _ in 0..1 + r.z(2) {
                t = match r.u(8) {
                    // Another word of the same length.
                    0 | 1 => { let w = words(&t); if w.is_empty() { t } else { let k = w[r.z(w.len())].clone(); varied(&t, &[k], 1 + r.z(30)) } }
                    // Another number.
                    2 | 3 => {
                        let d: Vec<usize> = t.bytes().enumerate().filter(|(i, c)| c.is_ascii_digit() && *i > 0 && matches!(t.as_bytes()[i - 1], b'=' | b'"' | b' ' | b'1' | b'2')).map(|x| x.0).collect();
                        if d.is_empty() { t } else { let i = d[r.z(d.len())]; let mut b = t.into_bytes(); b[i] = b'1' + (b[i] - b'0' + r.u(8) as u8) % 9; String::from_utf8(b).unwrap() }
                    }
                    // Another shape, colour, style or direction.
                    4 | 5 => {
                        let all = [("=box", "=circle"), ("=circle", "=doublecircle"), ("=Mrecord", "=record"), ("=record", "=Mrecord"), ("=ellipse", "=box"), ("=red", "=blue"), ("=blue", "=green"),
                            ("rankdir=LR", "rankdir=TB"), ("=dashed", "=solid"), ("=filled", "=rounded"), ("->", "--"), ("--", "->"), ("{\n", "{\nrankdir=LR;\n"), ("{", "{ node [fontsize=20]; "), ("{", "{ edge [label=x]; ")];
                        let c: Vec<&(&str, &str)> = all.iter().filter(|a| t.contains(a.0)).collect();
                        if c.is_empty() { t } else { let (a, b) = c[r.z(c.len())]; if r.one(2) { t.replace(a, b) } else { t.replacen(a, b, 1) } }
                    }
                    // A line less, or twice.
                    6 => { let l: Vec<&str> = t.lines().collect(); let i = r.z(l.len().max(1)); l.iter().enumerate().filter(|x| x.0 != i || x.1.contains('{') || x.1.contains('}')).map(|x| format!("{}\n", x.1)).collect() }
                    _ => { let l: Vec<&str> = t.lines().collect(); let i = r.z(l.len().max(1)); l.iter().enumerate().map(|x| if x.0 == i && !x.1.contains('{') && !x.1.contains('}') { format!("{}\n{}\n", x.1, x.1) } else { format!("{}\n", x.1) }).collect() }
                };
            }
            Src::Dot(t)
        }
        Src::Api(g) => {
            let mut g = g.clone();
            for _ in 0..1 + r.z(2) {
                let i = r.z(g.nodes.len().max(1));
                match r.u(6) {
                    0 => g.lr = !g.lr,
                    1 if !g.nodes.is_empty() => g.nodes[i].look = gen::look(r),
                    2 if !g.nodes.is_empty() => { let h = g.nodes[i].h; g.nodes[i].h = g.nodes[i].w; g.nodes[i].w = h; }
                    3 if !g.edges.is_empty() => { let j = r.z(g.edges.len()); g.edges[j].look = gen::look(r); }
                    4 if !g.edges.is_empty() => { let j = r.z(g.edges.len()); g.edges.remove(j); }
                    5 if !g.edges.is_empty() => { let j = r.z(g.edges.len()); let t = g.edges[j].to; g.edges[j].to = g.edges[j].from; g.edges[j].from = t; }
                    _ => {}
                }
            }
            Src::Api(g)
        }
    }
}
/// Like an earlier one, at times.
fn next_src(r: &mut Rng, have: &[Src], scale: usize) -> Src {
    if !have.is_empty() && r.one(3) { let i = r.z(have.len()); akin_src(r, &have[i].clone()) } else { src(r, scale) }
}
/// A document that is rejected.
fn bad_text(r: &mut Rng, scale: usize) -> String {
    let mut t = text_of(r, scale);
    match r.u(6) {
        0 => { let mut i = r.z(gen::last_brace(&t) + 1); while !t.is_char_boundary(i) { i -= 1; } t.truncate(i); }
        1 => t = format!("digraph {{ {} ] }}", "a [label=\"x\"]; ".repeat(r.z(5))),
        2 => t = format!("digraph {{ {} a -> ; }}", "subgraph s { ".repeat(1 + r.z(6))),
        3 => t = format!("digraph {{ {} }}", "{ ".repeat(257 + r.z(40))),
        4 => t = format!("digraph {{ a; b [label=\"{}; }}", "x".repeat(r.z(60))),
        _ => t = r.pick(&["", "digraph", "digraph G {", "graph { a -- }", "x", "digraph { a [", "/*", "digraph { \"", "digraph { a; } }", "{ }"]).to_string(),
    }
    t
}

// ------------------------------------------------------------------ C01
fn same(r: &mut Rng, rig: &mut Rig, n: u64) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[3, 6, 12, 20]);
    let k = 1 + r.z(2) + if r.one(4) { 1 + r.z(2) } else { 0 };
    for _ in 0..k { let x = next_src(r, &s.srcs, scale); s.srcs.push(x); }
    let opts: Vec<Opt> = (0..k).map(|_| opt(r)).collect();
    let mut ops = vec![];
    let reps = 1 + r.z(4);
    for _ in 0..reps {
        let i = r.z(k);
        let how = if matches!(s.srcs[i], Src::Api(_)) { r.of(&[How::Fresh, How::Made]) } else { r.of(&[How::Fresh, How::Ast, How::Builder, How::Made]) };
        ops.push(Op::Draw { src: i, how, opt: opts[i], cancel: None });
    }
    for i in 0..k { ops.push(Op::Draw { src: i, how: How::Fresh, opt: opts[i], cancel: None }); }
    if r.one(10) { let i = r.z(k); ops.push(Op::Repeat { n: 20 + r.z(60), op: Box::new(Op::Draw { src: i, how: How::Fresh, opt: opts[i], cancel: None }) }); }
    s.tasks = vec![ops];
    dirs(&mut s.disk);
    let mut envs = vec![Env::plain()];
    for _ in 0..4 + r.z(3) {
        let mut e = env(r, true);
        if r.one(2) { e.env_seed = r.next() | 1; }
        if r.one(2) { e.cwd = Some(r.pick(&["/", "/data", "/tmp", "/work"]).into()); }
        envs.push(e);
    }
    // Files that the work looks for in vain are there in some environments.
    s.budget = 2_000_000_000;
    let b = rig.go(&s);
    s.budget = b.steps * 8 + 200_000_000;
    for p in &b.rpaths {
        for e in envs.iter_mut().skip(1) {
            if r.one(2) { let n = r.of(&[0usize, 1, 10, 300]); let b = body(r, n); e.files.push((p.clone(), b)); }
        }
    }
    let mut cli = vec![];
    let out = "/work/out.svg".to_string();
    if n % 8 == 0 {
        if let Src::Dot(t) = &s.srcs[0] {
            for _ in 0..3 {
                let mut c = CliSpec::new();
                c.rnd = r.next(); c.pid = 2 + r.u(100_000) as u32; c.ncpu = r.of(&[1u32, 4, 32]); c.clock_real = r.u(1 << 60) as i64;
                c.vars = vars(r);
                if r.one(2) { c.env_seed = r.next() | 1; }
                if r.one(2) { c.vars.push(("RUST_LOG".into(), r.pick(&["off", "info", "trace", "layout=debug"]).into())); }
                dirs(&mut c.disk);
                c.disk.insert("/work/in.dot".into(), Node::File { mode: 0o644, body: Body::Text(t.clone()) });
                if opts[0].debug { c.args.push("-d".into()); }
                if opts[0].noopt { c.args.push("--no-optz".into()); }
                if opts[0].nolayout { c.args.push("--no-layout".into()); }
                if r.one(3) { c.args.push("-a".into()); }
                c.args.push("-o".into());
                c.args.push(r.pick(&["out.svg", "/work/out.svg", "./out.svg"]).into());
                c.args.push(r.pick(&["in.dot", "/work/in.dot"]).into());
                cli.push(c);
            }
            let b = rig.basis(&cli[0]);
            for p in &b.rpaths {
                for c in cli.iter_mut().skip(1) {
                    if r.one(2) && !c.disk.contains_key(p) { let n = r.of(&[0usize, 1, 10, 300]); let b = body(r, n); c.disk.insert(p.clone(), Node::File { mode: 0o644, body: b }); }
                }
            }
        }
    }
    Case::Same { spec: s, envs, cli, out, opt: opts[0] }
}

// ------------------------------------------------------------------ C02
fn schedule(r: &mut Rng, len: u64, guards: &[u32]) -> Sched {
    let mut s = Sched::none();
    s.seed = r.next();
    s.len = len.max(50);
    match r.u(10) {
        0 | 1 => { s.mode = 1; s.p = r.of(&[2u64, 7, 30, 150, 1000, 5000, 20000]).min(s.len / 4 + 1); }
        2 | 3 => { s.mode = 2; s.p = 1 + r.u(8); }
        4..=6 => { s.mode = 3; s.p = r.u(4); s.p2 = r.of(&[10u64, 50, 200, 500, 900]); }
        7 => { s.mode = 4; s.p = r.of(&[20u64, 100, 400]); s.p2 = r.of(&[0u64, 100, 600]); }
        _ => {
            s.mode = 5; s.p = r.u(4); s.p2 = r.of(&[30u64, 200, 500, 1000]);
            if guards.is_empty() { s.mode = 2; s.p = 3; } else { s.guard = guards[r.z(guards.len())] as u64; }
        }
    }
    s
}
fn conc(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[2, 3, 5, 8]);
    let k = 1 + r.z(3);
    for _ in 0..k {
        let have = s.srcs.clone();
        s.srcs.push(match r.u(8) { 0 => Src::Dot(bad_text(r, 3)), _ => next_src(r, &have, scale) });
    }
    let nt = r.of(&[2usize, 2, 2, 3, 3, 4, 6]);
    let same_everywhere = r.one(3);
    let o0 = opt(r);
    dirs(&mut s.disk);
    let mut fin = 0;
    for t in 0..nt {
        let mut ops = vec![];
        for j in 0..1 + r.z(3) {
            let i = if same_everywhere { 0 } else { r.z(k) };
            let api = matches!(s.srcs[i], Src::Api(_));
            let o = if same_everywhere || r.one(2) { o0 } else { opt(r) };
            ops.push(match r.u(14) {
                0 | 1 if !api => Op::Parse { src: i },
                2 if !api => Op::Print { src: i },
                3 | 4 if fin < 4 => { fin += 1; Op::Final { src: i, opt: o } }
                5 => { let body = Body::Gen { len: r.of(&[0, 1, 300, 5000]), seed: r.next(), flavour: r.u(4) as u32 }; Op::Save { path: format!("/work/t{}_{}.svg", t, j), body } }
                _ => Op::Draw { src: i, how: if api { r.of(&[How::Fresh, How::Made]) } else { r.of(&[How::Fresh, How::Fresh, How::Ast, How::Builder, How::Builder, How::Made]) }, opt: o, cancel: None },
            });
        }
        s.tasks.push(ops);
    }
    s.env = env(r, false);
    s.env.log = r.of(&[0u8, 0, 0, 5]);
    s.env.idle_threads = 0;
    // One run without preemption shows how long the work is.
    let b = rig.go(&s);
    let work: u64 = b.task_steps.iter().skip(1).sum();
    s.budget = b.steps * 4 + 20_000_000;
    s.sched = schedule(r, work, &b.guards);
    // Half of the preemptions must fall while several tasks live; the
    // preparations of the main thread come first.
    if s.sched.mode != 1 { s.sched.len = b.steps; }
    Case::Conc { spec: s }
}

// ------------------------------------------------------------------ C03
fn hist(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[3, 5, 9, 14]);
    let k = 1 + r.z(3);
    for _ in 0..k { let x = next_src(r, &s.srcs, scale); s.srcs.push(x); }
    let nb = r.z(3);
    for _ in 0..nb { s.srcs.push(Src::Dot(bad_text(r, scale))); }
    let opts: Vec<Opt> = (0..k + nb).map(|_| opt(r)).collect();
    s.env = env(r, true);
    if r.one(3) { s.env.log = r.of(&[3, 5]); }
    let two = !s.env.main && r.one(3);
    // How many calls and log records are there?
    let mut calls = vec![(0u64, 0u64); k];
    let once;
    {
        let mut b = Spec::new();
        b.srcs = s.srcs.clone();
        b.env.log = s.env.log;
        b.tasks = vec![(0..k).map(|i| Op::Draw { src: i, how: How::Fresh, opt: opts[i], cancel: None }).collect()];
        let x = rig.go(&b);
        for d in &x.done { calls[d.op as usize] = (d.ncalls, d.nlogs); }
        once = x.steps;
    }
    let how = |r: &mut Rng, s: &Spec, i: usize| if matches!(s.srcs[i], Src::Api(_)) { r.of(&[How::Fresh, How::Fresh, How::Made]) } else { r.of(&[How::Fresh, How::Ast, How::Builder, How::Builder, How::Made]) };
    let mut ops = vec![];
    for _ in 0..1 + r.z(6) {
        let i = r.z(k);
        let h = how(r, &s, i);
        let o = match r.u(10) {
            0..=4 => {
                let (nc, nl) = calls[i];
                let log = nl > 0 && r.one(3);
                let m = if log { nl } else { nc }.max(1);
                let at = match r.u(4) { 0 => 1 + r.u(3.min(m)), 1 => m - r.u(3.min(m)), _ => 1 + r.u(m) };
                Op::Draw { src: i, how: h, opt: opts[i], cancel: Some(Cancel { log, at: at as usize, before: r.one(2) }) }
            }
            5 | 6 if nb > 0 => {
                let j = k + r.z(nb);
                if r.one(2) { Op::Parse { src: j } } else { Op::Draw { src: j, how: how(r, &s, j), opt: opts[j], cancel: None } }
            }
            7 if nb > 0 => Op::Print { src: k + r.z(nb) },
            _ => Op::Draw { src: i, how: h, opt: opts[i], cancel: None },
        };
        let small = once < 5_000_000 && calls.iter().all(|c| c.0 < 120);
        let heavy = r.one(12) && small;
        ops.push(if heavy { Op::Repeat { n: r.of(&[17, 65, 257, 300]), op: Box::new(o) } } else if r.one(8) { Op::Repeat { n: 2 + r.z(6), op: Box::new(o) } } else { o });
    }
    for i in 0..k {
        let h = how(r, &s, i);
        ops.push(Op::Draw { src: i, how: h, opt: opts[i], cancel: None });
        if r.one(2) { ops.push(Op::Draw { src: i, how: How::Fresh, opt: opts[i], cancel: None }); }
    }
    for j in 0..nb { if r.one(2) { ops.push(Op::Parse { src: k + j }); } }
    s.tasks = vec![ops];
    if two {
        // A second thread, after the first.
        let i = r.z(k);
        let h = how(r, &s, i);
        s.tasks.push(vec![Op::Draw { src: i, how: h, opt: opts[i], cancel: None }]);
    }
    // All documents in every operation, twice over.
    s.budget = 1_000_000_000 + once * 2 * count_ops(&s) as u64;
    Case::Hist { spec: s }
}

// ------------------------------------------------------------------ C04, C05
const SIZES: [usize; 22] = [0, 1, 2, 100, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000, 32768, 65535, 65536, 65537, 131072, 131073, 300_000, 1_050_000];
fn size(r: &mut Rng) -> usize { match r.u(5) { 0 | 1 => r.z(400), 2 => r.z(20_000), _ => { let k = if r.one(6) { SIZES.len() } else { 18 }; SIZES[r.z(k)] } } }
fn body(r: &mut Rng, n: usize) -> Body { Body::Gen { len: n, seed: r.u(1 << 32), flavour: r.of(&[0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7]) } }
/// A text that has much in common with another one.
fn akin(r: &mut Rng, b: &Body) -> Body {
    let l = b.len();
    let at = match r.u(6) { 0 => 0, 1 => l, 2 => l.saturating_sub(1 + r.z(9)), 3 => r.z(300), _ => r.z(l + 1) };
    Body::Near { base: Box::new(b.clone()), at, how: r.of(&[0, 1, 1, 1, 2, 3, 4, 4, 5]) }
}
const TARGETS: [&str; 12] = ["/work/out.svg", "out.svg", "./out.svg", "/data/a b.svg", "/work/é漢.svg", "noext", ".hidden", "/tmp/out.svg", "sub/../out.svg", "/work/sub/x.dot.svg", "/work//double.svg", "/out.svg"];
fn near(r: &mut Rng, p: &str) -> String {
    let dir = match p.rfind('/') { Some(i) => &p[..i + 1], None => "/" };
    let name = &p[dir.len()..];
    let stem = name.rsplit_once('.').map(|x| x.0).unwrap_or(name);
    let stem = if stem.is_empty() { "x" } else { stem };
    match r.u(12) {
        0 => format!("{}.tmp", p), 1 => format!("{}.bak", p), 2 => format!("{}~", p), 3 => format!("{}.old", p), 4 => format!("{}.new", p),
        5 => format!("{}.part", p), 6 => format!("{}.{}.tmp", dir, name), 7 => format!("{}{}.tmp", dir, stem), 8 => format!("{}{}", dir, stem),
        9 => format!("{}{}.dot", dir, stem), 10 => format!("{}.{}.swp", dir, name), _ => format!("{}tmp", dir),
    }
}
fn io_fault(r: &mut Rng, cnt: &[u64; C_N], nbytes: usize) -> Option<Fault> {
    let cls: Vec<u32> = [C_OPEN_W, C_OPEN_R, C_READ, C_WRITE, C_WRITE, C_WRITE, C_WRITE, C_CLOSE, C_STAT, C_SEEK, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META]
        .iter().copied().filter(|c| cnt[*c as usize] > 0).collect();
    if cls.is_empty() { return None; }
    let c = r.of(&cls);
    let n = cnt[c as usize];
    let nth = if c == C_WRITE { 1 + r.u(n + 2) } else { 1 + r.u(n) };
    let kind = match c {
        C_WRITE => r.of(&[F_ERR, F_ERR, F_SHORT, F_SHORT, F_SHORT, F_EINTR, F_EINTR, F_ZERO, F_DELAY]),
        C_READ => r.of(&[F_ERR, F_SHORT, F_SHORT, F_EINTR, F_DELAY]),
        C_OPEN_W | C_OPEN_R => r.of(&[F_ERR, F_ERR, F_EINTR, F_DELAY]),
        C_STAT => r.of(&[F_ERR, F_DELAY]),
        _ => r.of(&[F_ERR, F_ERR, F_DELAY]),
    };
    let arg = match kind {
        F_ERR => (match c {
            C_WRITE => r.of(&[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPERM, libc::ESTALE, libc::ETIMEDOUT, libc::ENXIO, libc::ENOMEM, libc::EAGAIN, libc::EPIPE, libc::ENODEV, libc::EACCES, libc::EINVAL]),
            C_OPEN_W => r.of(&[libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EIO, libc::EROFS, libc::ENOENT, libc::EPERM, libc::ENFILE, libc::ETXTBSY, libc::EEXIST, libc::ENOMEM, libc::ELOOP, libc::EAGAIN, libc::EBUSY, libc::ENXIO]),
            C_OPEN_R => r.of(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::EPERM]),
            C_READ => r.of(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EAGAIN, libc::ETIMEDOUT, libc::EPERM]),
            _ => r.of(&[libc::EIO, libc::EIO, libc::EPERM, libc::ENOSPC, libc::ENOTSUP, libc::EINVAL, libc::EACCES]),
        }) as i64,
        F_SHORT => match r.u(5) { 0 => 1, 1 => 1 + r.u(16) as i64, 2 => nbytes.saturating_sub(1).max(1) as i64, _ => 1 + r.u(nbytes as u64 + 1) as i64 },
        F_DELAY => 1_000_000_000 * r.u(100) as i64,
        _ => 0,
    };
    // A short transfer of one byte at a time may take long.
    let rep = match kind {
        F_SHORT => { let m = 4000u64; r.of(&[1, 2, 5, 50, m]) }
        F_EINTR => r.of(&[1, 2, 9]),
        F_ERR => r.of(&[1, 1, 3, 1000]),
        _ => 1,
    };
    Some(Fault { cls: c, kind, nth, repeat: rep, arg })
}
fn saves(r: &mut Rng, crash: bool) -> Spec {
    let mut s = Spec::new();
    dirs(&mut s.disk);
    if r.one(2) { s.disk.insert("/work/sub".into(), Node::Dir { mode: 0o755 }); }
    s.env = env(r, true);
    s.env.idle_threads = 0;
    let nt = if s.env.main { 1 } else { r.of(&[1usize, 1, 1, 2, 3]) };
    let mut used: Vec<String> = vec![];
    for t in 0..nt {
        let mut ops = vec![];
        let mut mine: Vec<String> = vec![];
        let m = r.of(&[1, 1, 2, 3]);
        let mut last_len = 0;
        let mut last: Option<Body> = None;
        for j in 0..m {
            let path = if j > 0 && r.one(2) && !mine.is_empty() { mine[r.z(mine.len())].clone() } else {
                let mut p = if nt > 1 { format!("/work/{}{}", r.pick(&["a", "b.svg", "out.svg"]), t) } else { r.pick(&TARGETS).to_string() };
                if r.one(25) { p = "/nodir/x.svg".into(); }
                if r.one(25) { p = "/data".into(); }
                p
            };
            let a = abs_path(&path);
            if used.contains(&a) && !mine.iter().any(|x| abs_path(x) == a) { continue; }
            used.push(a.clone());
            mine.push(path.clone());
            let n = match r.u(4) { 0 if last_len > 0 => r.z(last_len), 1 => last_len, _ => size(r) };
            let new = match &last { Some(b) if r.one(3) => akin(r, b), _ => body(r, n) };
            let n = new.len();
            last_len = n;
            last = Some(new.clone());
            if !s.disk.contains_key(&a) && j == 0 && !r.one(3) {
                let ol = match r.u(6) { 0 => 0, 1 => n, 2 => n + 1 + r.z(500), 3 => n + r.z(70_000), 4 => r.z(n + 1), _ => size(r) };
                let b = if r.one(3) { akin(r, &new) } else { body(r, ol) };
                if a != "/nodir/x.svg" { s.disk.insert(a.clone(), Node::File { mode: if r.one(20) { 0o444 } else { 0o644 }, body: b }); }
            }
            ops.push(Op::Save { path, body: new });
        }
        if ops.is_empty() { let p = format!("/work/only{}", t); used.push(p.clone()); let n = size(r); ops.push(Op::Save { path: p, body: body(r, n) }); }
        s.tasks.push(ops);
    }
    // Files next to the targets.
    for _ in 0..r.z(6) {
        let u = used[r.z(used.len())].clone();
        let p = near(r, &u);
        if used.contains(&p) || s.disk.contains_key(&p) || p.len() > 150 || p.starts_with("/nodir") || p.starts_with("/data/.") && !s.disk.contains_key("/data") { continue; }
        if used.iter().any(|u| p.starts_with(&format!("{}/", u))) { continue; }
        let n = r.z(300);
        s.disk.insert(p, Node::File { mode: r.of(&[0o644, 0o644, 0o600, 0o444]), body: body(r, n) });
    }
    if !s.disk.contains_key("/work/sub") { s.disk.retain(|p, _| !p.starts_with("/work/sub/")); }
    let _ = crash;
    s
}
fn total_bytes(s: &Spec) -> usize { s.tasks.iter().flatten().map(|o| match o { Op::Save { body, .. } => body.len(), _ => 0 }).max().unwrap_or(0) }
/// Puts files where the save function itself writes, beside its target.
fn adapt(r: &mut Rng, s: &mut Spec, wpaths: &[String]) {
    let t: Vec<String> = s.tasks.iter().flatten().filter_map(|o| match o { Op::Save { path, .. } => Some(abs_path(path)), _ => None }).collect();
    for p in wpaths {
        if t.contains(p) || s.disk.contains_key(p) || !r.one(2) { continue; }
        let par = match p.rfind('/') { Some(0) | None => "/".to_string(), Some(i) => p[..i].to_string() };
        if !matches!(s.disk.get(&par), Some(Node::Dir { .. })) { continue; }
        let n = r.z(2000);
        s.disk.insert(p.clone(), Node::File { mode: 0o644, body: body(r, n) });
    }
}
fn save_case(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = saves(r, false);
    let b = rig.go(&s);
    let n = total_bytes(&s);
    if s.tasks.len() > 1 { s.sched = schedule(r, b.steps, &b.guards); }
    match r.u(6) {
        0 => {}
        1 => { s.capacity = Some(disk_use(&s) + r.u(2 * n as u64 + 10)); }
        2 => { let k = 1 + r.z(3); for _ in 0..k { if let Some(f) = io_fault(r, &b.cnt, n) { if f.transient() { s.faults.push(f); } } } }
        _ => { let k = 1 + r.z(4); for _ in 0..k { if let Some(f) = io_fault(r, &b.cnt, n) { s.faults.push(f); } } }
    }
    s.epilogue.push(Op::Clear);
    for t in s.tasks.clone() { for o in t { if let Op::Save { path, .. } = o { if r.one(2) || s.epilogue.len() < 2 { let n = size(r); s.epilogue.push(Op::Save { path, body: body(r, n) }); } } } }
    s.budget = 0;
    Case::Save { spec: s }
}
fn disk_use(s: &Spec) -> u64 { s.disk.values().map(|n| match n { Node::File { body, .. } => body.len() as u64, _ => 0 }).sum() }
fn crash_case(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = saves(r, true);
    let b = rig.go(&s);
    adapt(r, &mut s, &b.wpaths);
    let n = total_bytes(&s);
    if s.tasks.len() > 1 { s.sched = schedule(r, b.steps, &b.guards); }
    // Trouble first, at times, then death.
    if r.one(3) { let k = 1 + r.z(3); for _ in 0..k { if let Some(f) = io_fault(r, &b.cnt, n) { s.faults.push(f); } } }
    if r.one(8) { s.capacity = Some(disk_use(&s) + r.u(2 * n as u64 + 10)); }
    let cls: Vec<u32> = [C_OPEN_W, C_OPEN_R, C_READ, C_WRITE, C_WRITE, C_WRITE, C_CLOSE, C_STAT, C_SEEK, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META]
        .iter().copied().filter(|c| b.cnt[*c as usize] > 0).collect();
    match r.u(8) {
        0 => {}
        1 | 2 => s.crash_step = 1 + r.u(b.steps.max(1)),
        3 if b.cnt[C_ALLOC as usize] > 0 => { let nth = 1 + r.u(b.cnt[C_ALLOC as usize]); s.faults.push(Fault { cls: C_ALLOC, kind: F_CRASH_BEFORE, nth, repeat: 1, arg: 0 }) }
        _ if !cls.is_empty() => {
            let c = r.of(&cls);
            let kind = if c == C_WRITE { r.of(&[F_CRASH_BEFORE, F_CRASH_MID, F_CRASH_MID, F_CRASH_MID, F_CRASH_AFTER]) } else { r.of(&[F_CRASH_BEFORE, F_CRASH_AFTER]) };
            let arg = match r.u(4) { 0 => r.u(n as u64 + 1), 1 => (n as u64).saturating_sub(r.u(5)), 2 => r.u(5), _ => r.u(n as u64 + 1) / 4096 * 4096 } as i64;
            let extra = if s.faults.iter().any(|f| f.cls == c) { 3 } else { 0 };
            s.faults.insert(0, Fault { cls: c, kind, nth: 1 + r.u(b.cnt[c as usize] + extra), repeat: 1, arg });
        }
        _ => {}
    }
    s.epilogue.clear();
    Case::Crash { spec: s }
}

// ------------------------------------------------------------------ C06, C07
fn pad(r: &mut Rng, t: String) -> String {
    // Comments that make the file cross the sizes of buffers.
    let goal = match r.u(6) { 0..=2 => return t, 3 => r.of(&[4095, 4096, 8191, 8192, 8193, 16384, 32768]), 4 => r.of(&[65535, 65536, 65537, 131072, 131073]), _ => 1000 + r.z(60_000) };
    if t.len() + 8 >= goal { return t; }
    let fill: String = gen::filler(goal - t.len() - 5, r.next(), 2 + r.u(1) as u32);
    if r.one(2) { format!("/*{}*/\n{}", fill, t) } else {
        let i = t.find('{').map(|i| i + 1).unwrap_or(0);
        format!("{}/*{}*/\n{}", &t[..i], fill, &t[i..])
    }
}
fn tool_args(r: &mut Rng, c: &mut CliSpec) -> String {
    if r.one(6) { c.args.push(r.pick(&["-d", "--debug"]).into()); }
    if r.one(6) { c.args.push("--no-layout".into()); }
    if r.one(6) { c.args.push("--no-optz".into()); }
    if r.one(4) { c.args.push(r.pick(&["-a", "--ast"]).into()); }
    let out;
    if r.one(5) { out = "/tmp/out.svg".to_string(); } else {
        let p = r.pick(&["out.svg", "/work/out.svg", "./x/../out.svg", "/data/o.svg", "/work/é.svg", "o", "/tmp/out.svg", "/data/in.svg", "/work/a b.svg", "o.svgz", "/work/o.png", "out.pdf", "out.SVG", "out.html", "out.", "/tmp/x.svg.gz", "drawing.dot.svg", "out.txt", ".svg", "/out.svg", "out.xml", "sub.d/../o.svg", "none/out.svg", "/data/no/such/o.svg"]);
        out = abs_path(p);
        match r.u(3) { 0 => { c.args.push("-o".into()); c.args.push(p.into()); } 1 => { c.args.push("--output".into()); c.args.push(p.into()); } _ => c.args.push(format!("--output={}", p)) }
    }
    c.args.push(r.pick(&["in.dot", "/work/in.dot", "./in.dot", "/data/in.dot", "/work/in.gv", "/data/in"]).into());
    c.rnd = r.next(); c.pid = 2 + r.u(1 << 20) as u32; c.ncpu = r.of(&[1u32, 4, 64]);
    c.clock_real = r.of(&[0i64, 1_700_000_000_000_000_000, 4_102_444_799_000_000_000]);
    c.tick = r.of(&[0i64, 1000, 1_000_000_000]);
    if r.one(2) { c.vars.push(("RUST_LOG".into(), r.pick(&["error", "info", "trace", "layout=info", "debug", "layout=trace,info"]).into())); }
    if r.one(8) { c.vars.push(("HOME".into(), "/nowhere".into())); }
    out
}
fn has_parent(c: &CliSpec, p: &str) -> bool { c.disk.contains_key(match p.rfind('/') { Some(0) | None => "/", Some(i) => &p[..i] }) }
fn around(r: &mut Rng, c: &mut CliSpec, out: &str) {
    dirs(&mut c.disk);
    let inp = in_path(c);
    if has_parent(c, out) && !r.one(3) { let n = match r.u(4) { 0 => r.z(20), 1 => size(r), _ => r.z(60_000) }; c.disk.insert(out.into(), Node::File { mode: 0o644, body: body(r, n) }); }
    for _ in 0..r.z(5) {
        let p = if r.one(3) { near(r, &inp) } else { near(r, out) };
        if p == out || p == inp || c.disk.contains_key(&p) || !has_parent(c, &p) { continue; }
        let n = r.z(200);
        c.disk.insert(p, Node::File { mode: r.of(&[0o644, 0o600, 0o444]), body: body(r, n) });
    }
}
fn tool_fault(r: &mut Rng, cnt: &[u64; C_N], hist: bool) -> Option<Fault> {
    let cls: Vec<u32> = [C_OPEN_R, C_OPEN_W, C_READ, C_READ, C_READ, C_STAT, C_WRITE, C_WRITE, C_WRITE, C_WRITE, C_CLOSE, C_SEEK, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META, C_STDOUT, C_STDERR, C_ALLOC, C_CLOCK]
        .iter().copied().filter(|c| cnt[*c as usize] > 0).collect();
    if cls.is_empty() { return None; }
    let c = r.of(&cls);
    let n = cnt[c as usize];
    let nth = 1 + r.u(n + if c == C_WRITE || c == C_READ { 2 } else { 0 });
    let kind = match c {
        C_WRITE => r.of(&[F_ERR, F_SHORT, F_SHORT, F_SHORT, F_EINTR, F_EINTR, F_ZERO, F_DELAY]),
        C_READ => r.of(&[F_ERR, F_SHORT, F_SHORT, F_SHORT, F_EINTR, F_EINTR, F_DELAY]),
        C_OPEN_R | C_OPEN_W => r.of(&[F_ERR, F_ERR, F_EINTR, F_DELAY]),
        C_STAT => r.of(&[F_ERR, F_SIZE_LIE, F_SIZE_LIE, F_SIZE_LIE, F_DELAY]),
        C_STDOUT | C_STDERR => r.of(&[F_ERR, F_SHORT, F_EINTR]),
        C_CLOCK => r.of(&[F_JUMP, F_DELAY]),
        C_ALLOC => F_ERR,
        _ => r.of(&[F_ERR, F_DELAY]),
    };
    let _ = hist;
    let arg = match kind {
        F_ERR => (match c {
            C_WRITE => r.of(&[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPERM, libc::ESTALE, libc::ETIMEDOUT, libc::ENXIO, libc::ENOMEM, libc::EAGAIN, libc::EPIPE, libc::ENODEV, libc::EACCES, libc::EINVAL]),
            C_OPEN_W => r.of(&[libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EIO, libc::EROFS, libc::EPERM, libc::ENFILE, libc::ETXTBSY, libc::ENOENT, libc::EAGAIN, libc::EBUSY]),
            C_OPEN_R => r.of(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::EPERM, libc::ELOOP, libc::ESTALE, libc::ENOMEM]),
            C_STDOUT | C_STDERR => r.of(&[libc::EPIPE, libc::ENOSPC, libc::EIO]),
            C_READ => r.of(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EAGAIN, libc::ETIMEDOUT, libc::EPERM]),
            _ => r.of(&[libc::EIO, libc::EIO, libc::EPERM, libc::ENOSPC, libc::ENOTSUP, libc::EINVAL, libc::EACCES]),
        }) as i64,
        F_SHORT => r.of(&[1i64, 2, 3, 7, 100, 1000, 4096]),
        F_SIZE_LIE => r.of(&[-1i64, -10, -1_000_000, 1, 100, 10_000, 500_000]),
        F_DELAY => 1_000_000_000 * r.u(1000) as i64,
        F_JUMP => -1_000_000_000 * r.u(1_000_000) as i64,
        _ => 0,
    };
    let rep = match kind { F_SHORT => if arg < 100 { r.of(&[1, 3, 40]) } else { r.of(&[1, 3, 5000]) }, F_EINTR => r.of(&[1, 2, 9]), F_ERR if c != C_ALLOC => r.of(&[1, 1, 1000]), F_SIZE_LIE => r.of(&[1, 100]), _ => 1 };
    Some(Fault { cls: c, kind, nth, repeat: rep, arg })
}
fn tool_spec(r: &mut Rng) -> (CliSpec, Known, String) {
    let mut c = CliSpec::new();
    let out = tool_args(r, &mut c);
    around(r, &mut c, &out);
    let scale = r.of(&[3usize, 6, 12, 25]);
    let (t, m) = model::model_doc(r, scale);
    let inp = in_path(&c);
    let mut known = Known::Model(m);
    let mut b = Body::Text(pad(r, t.clone()));
    match r.u(16) {
        0 => { // Torn input.
            let mut i = r.z(gen::last_brace(&t) + 1);
            while !t.is_char_boundary(i) { i -= 1; }
            b = Body::Text(t[..i].to_string());
            known = Known::Bad;
        }
        1 => {
            let mut x = t.clone().into_bytes();
            let i = r.z(x.len() + 1);
            x.splice(i..i, r.of(&[vec![0xffu8], vec![0xc3], vec![0xed, 0xa0, 0x80], vec![0x80]]));
            if std::str::from_utf8(&x).is_err() { b = Body::Bytes(x); known = Known::Bad; }
        }
        2 => { b = Body::Text(r.pick(&["", "digraph", "digraph {", "digraph { a -> }", "digraph { a [ }", "garbage", "digraph { a; } extra }"]).into()); known = Known::Bad; if b == Body::Text("digraph { a; } extra }".into()) { known = Known::Nothing; } }
        _ => {}
    }
    c.disk.insert(inp.clone(), Node::File { mode: 0o644, body: b });
    match r.u(24) {
        0 => { c.disk.remove(&inp); known = Known::Bad; }
        1 => { c.disk.insert(inp.clone(), Node::Dir { mode: 0o755 }); known = Known::Bad; }
        2 => { if let Some(Node::File { mode, .. }) = c.disk.get_mut(&inp) { *mode = 0o200; } known = Known::Bad; }
        _ if !has_parent(&c, &out) => known = Known::Bad,
        3 => { let body = body(r, 20); c.disk.insert(out.clone(), Node::File { mode: 0o444, body }); known = Known::Bad; }
        4 => { c.disk.insert(out.clone(), Node::Dir { mode: 0o755 }); known = Known::Bad; }
        // A command that can't be understood.
        5 => { let at = r.z(c.args.len()); let at = if at > 0 && (c.args[at - 1] == "-o" || c.args[at - 1] == "--output") { 0 } else { at }; c.args.insert(at, r.pick(&["--frobnicate", "other.dot", "-x", "--no-layouts", "--outputs=x.svg", "-Tsvg"]).into()); known = Known::Bad; }
        _ => {}
    }
    (c, known, out)
}
fn tool_case(r: &mut Rng, rig: &mut Rig) -> Case {
    let (mut c, known, out) = tool_spec(r);
    let b = rig.basis(&c);
    match r.u(8) {
        0 => {}
        1 => { let used: u64 = c.disk.values().map(|n| match n { Node::File { body, .. } => body.len() as u64, _ => 0 }).sum();
            let o = b.file(&out).map(|x| x.len()).unwrap_or(100) as u64; c.capacity = Some((used + r.u(o + 2)).saturating_sub(r.u(3) * 50)); }
        2 | 3 => { for _ in 0..1 + r.z(4) { if let Some(f) = tool_fault(r, &b.cnt, true) { if f.transient() { c.faults.push(f); } } } }
        4 => { let nth = 1 + r.u(b.cnt[C_ALLOC as usize].max(1)); c.faults.push(Fault { cls: C_ALLOC, kind: F_ERR, nth, repeat: r.of(&[1, 1, 100000]), arg: 0 }); }
        _ => { for _ in 0..1 + r.z(3) { if let Some(f) = tool_fault(r, &b.cnt, true) { c.faults.push(f); } } }
    }
    Case::Tool { spec: c, known, out }
}
fn touch_case(r: &mut Rng, rig: &mut Rig) -> Case {
    let (mut c, known, out) = tool_spec(r);
    if r.one(5) {
        // Damaged input.
        let inp = in_path(&c);
        if let Some(Node::File { body, .. }) = c.disk.get_mut(&inp) {
            let mut x = body.bytes();
            for _ in 0..1 + r.z(4) { let d = gen::damage(r, x.len(), "digraph { a -> b; }"); d.apply(&mut x); if x.len() > 100_000 { x.truncate(100_000); } }
            *body = Body::of(&x);
        }
    }
    let b = rig.basis(&c);
    // Where the tool itself writes, beside its output.
    for p in &b.wpaths {
        if *p == out || c.disk.contains_key(p) || !r.one(2) { continue; }
        let n = r.z(500);
        let body = body(r, n);
        c.disk.insert(p.clone(), Node::File { mode: 0o644, body });
    }
    match r.u(9) {
        0 => {}
        1..=3 => c.crash_step = 1 + r.u(b.steps.max(1)),
        4 => { let nth = 1 + r.u(b.cnt[C_ALLOC as usize].max(1)); c.faults.push(Fault { cls: C_ALLOC, kind: r.of(&[F_ERR, F_CRASH_BEFORE]), nth, repeat: r.of(&[1, 100000]), arg: 0 }); }
        5 | 6 => {
            let cls: Vec<u32> = [C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_STAT, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META, C_STDOUT, C_STDERR].iter().copied().filter(|k| b.cnt[*k as usize] > 0).collect();
            if !cls.is_empty() { let k = r.of(&cls); c.faults.push(Fault { cls: k, kind: r.of(&[F_CRASH_BEFORE, F_CRASH_AFTER]), nth: 1 + r.u(b.cnt[k as usize]), repeat: 1, arg: 0 }); }
        }
        _ => { for _ in 0..1 + r.z(3) { if let Some(f) = tool_fault(r, &b.cnt, true) { c.faults.push(f); } } }
    }
    Case::Touch { spec: c, known, out }
}

// ------------------------------------------------------------------ C23
const INS: [&str; 6] = ["/work/in.dot", "/data/in.dot", "/work/in.gv", "/data/in", "/work/a.dot", "/tmp/in.dot"];
const OUTS: [&str; 16] = ["/work/out.svg", "/work/out.pdf", "/work/out", "/tmp/out.svg", "/data/out.svg", "/work/a.svg", "/work/b.svg", "/data/o.svg", "/work/in.svg", "/data/in.svg", "/tmp/b.svg", "/work/out.svg.svg", "/work/é.svg", "/work/sub.d/out.svg", "/work/in.dot.svg", "/out.svg"];
fn together(r: &mut Rng, rig: &mut Rig) -> Case {
    let n = r.of(&[1usize, 2, 2, 2, 2, 3]);
    let mut disk = Disk::new();
    dirs(&mut disk);
    let ins: Vec<&str> = if r.one(3) { vec![INS[r.z(INS.len())]] } else { (0..n).map(|_| INS[r.z(INS.len())]).collect() };
    for p in &ins {
        let sc = r.of(&[3usize, 6, 12]);
        let t = model::model_doc(r, sc).0;
        let b = if r.one(2) { t } else { pad(r, t) };
        disk.insert(p.to_string(), Node::File { mode: 0o644, body: Body::Text(b) });
    }
    // The very same command several times, or outputs of their own.
    let same = n > 1 && r.one(6);
    let mut procs: Vec<CliSpec> = vec![];
    let mut outs: Vec<String> = vec![];
    for i in 0..n {
        if same && i > 0 { let mut c = procs[0].clone(); c.pid += i as u32; procs.push(c); outs.push(outs[0].clone()); continue; }
        let mut c = CliSpec::new();
        if r.one(6) { c.args.push("-d".into()); }
        if r.one(6) { c.args.push("--no-layout".into()); }
        if r.one(6) { c.args.push("--no-optz".into()); }
        if r.one(2) { c.args.push("-a".into()); }
        let free: Vec<&str> = OUTS.iter().copied().filter(|p| !outs.iter().any(|o| o == p) && matches!(disk.get(*p), None) && (*p != "/work/sub.d/out.svg" || disk.contains_key("/work/sub.d"))).collect();
        let o = if r.one(4) && free.contains(&"/tmp/out.svg") { "/tmp/out.svg" } else { let o = free[r.z(free.len())]; c.args.push("-o".into()); c.args.push(match o.strip_prefix("/work/") { Some(x) if r.one(2) => x.to_string(), _ => o.to_string() }); o };
        outs.push(o.to_string());
        c.args.push(ins[i % ins.len()].to_string());
        c.pid = 2 + r.u(1 << 20) as u32 + i as u32;
        // Started at the same moment on one machine, or not.
        c.clock_real = 1_700_000_000_000_000_000;
        if i > 0 && r.one(2) { c.clock_real += r.u(5_000_000_000) as i64; }
        c.tick = r.of(&[0i64, 1000]);
        c.rnd = if r.one(2) { 7 } else { r.next() };
        if r.one(4) { c.vars.push(("RUST_LOG".into(), r.pick(&["error", "info", "trace"]).into())); }
        procs.push(c);
    }
    for o in &outs { if r.one(2) && !disk.contains_key(o) { let k = r.z(3000); disk.insert(o.clone(), Node::File { mode: 0o644, body: body(r, k) }); } }
    for _ in 0..r.z(3) {
        let o = outs[r.z(n)].clone();
        let p = near(r, &o);
        if !disk.contains_key(&p) && !outs.contains(&p) { let k = r.z(200); disk.insert(p, Node::File { mode: 0o644, body: body(r, k) }); }
    }
    let full = |c: &CliSpec, d: &Disk| CliSpec { disk: d.clone(), ..c.clone() };
    let bases: Vec<_> = procs.iter().map(|c| rig.basis(&full(c, &disk))).collect();
    let calls: Vec<u64> = bases.iter().map(|b| b.cnt[..=C_UNLINK as usize].iter().sum::<u64>() + b.cnt[C_META as usize]).collect();
    // Trouble for some.
    if !same {
        for i in 0..n {
            let b = &bases[i];
            match r.u(8) {
                0 => procs[i].crash_step = 1 + r.u(b.steps.max(1)),
                1 => {
                    let cls: Vec<u32> = [C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_STAT, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META].iter().copied().filter(|k| b.cnt[*k as usize] > 0).collect();
                    if !cls.is_empty() { let k = r.of(&cls); procs[i].faults.push(Fault { cls: k, kind: r.of(&[F_CRASH_BEFORE, F_CRASH_AFTER]), nth: 1 + r.u(b.cnt[k as usize]), repeat: 1, arg: 0 }); }
                }
                2 | 3 => { for _ in 0..1 + r.z(3) { if let Some(f) = tool_fault(r, &b.cnt, true) { procs[i].faults.push(f); } } }
                4 => { for _ in 0..1 + r.z(3) { if let Some(f) = tool_fault(r, &b.cnt, true) { if f.transient() { procs[i].faults.push(f); } } } }
                _ => {}
            }
        }
    }
    let mut turns = vec![];
    let run = |who: usize, calls: u64| Turn::Run { who, calls };
    match r.u(3) {
        // One stops somewhere, the others go on.
        0 => {
            let a = r.z(n);
            turns.push(run(a, r.u(calls[a] + 1)));
            for d in 1..n { let b = (a + d) % n; turns.push(run(b, if r.one(3) { 100_000 } else { 1 + r.u(calls[b] + 1) })); }
            if r.one(2) { turns.push(run(a, 1 + r.u(calls[a] + 1))); }
        }
        1 => { for _ in 0..calls.iter().sum::<u64>().min(150) { turns.push(run(r.z(n), 1)); } }
        _ => { for _ in 0..2 + r.z(12) { let a = r.z(n); turns.push(run(a, 1 + r.u(calls[a] / 2 + 1))); } }
    }
    // Somebody else on the same disk.
    if !same && (n == 1 || r.one(3)) {
        let inp = ins[r.z(ins.len())].to_string();
        for _ in 0..1 + r.z(3) {
            let at = r.z(turns.len() + 1);
            let t = match r.u(8) {
                0 => Turn::Remove { path: inp.clone() },
                1 | 2 => {
                    // Where a run writes or looks, or close by.
                    let mut c: Vec<String> = bases.iter().flat_map(|b| b.wpaths.iter().chain(&b.rpaths)).cloned().collect();
                    c.push(near(r, &outs[0].clone()));
                    let p = c[r.z(c.len())].clone();
                    if outs.contains(&p) || ins.contains(&p.as_str()) || disk.contains_key(&p) { continue; }
                    let k = r.z(300);
                    Turn::Replace { path: p, body: body(r, k) }
                }
                3 => Turn::Replace { path: inp.clone(), body: Body::Near { base: Box::new(match disk.get(&inp) { Some(Node::File { body, .. }) => body.clone(), _ => continue }), at: r.z(2000), how: 1 + r.u(5) as u32 } },
                _ => { let sc = r.of(&[3usize, 6, 12]); let t = model::model_doc(r, sc).0; Turn::Replace { path: inp.clone(), body: Body::Text(if r.one(2) { t } else { pad(r, t) }) } }
            };
            turns.insert(at, t);
        }
    }
    Case::Together { disk, procs, outs, turns }
}

// ------------------------------------------------------------------ C24
fn life(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut disk = Disk::new();
    dirs(&mut disk);
    let ni = 1 + r.z(2);
    // The inputs and what else they may hold.
    let mut ins: Vec<(String, Vec<String>)> = vec![];
    for _ in 0..ni {
        let p = INS[r.z(INS.len())].to_string();
        if ins.iter().any(|x| x.0 == p) { continue; }
        let mut t = vec![];
        for _ in 0..1 + r.z(3) { let sc = r.of(&[2usize, 4, 8, 14]); let x = model::model_doc(r, sc).0; t.push(if r.one(3) { pad(r, x) } else { x }); }
        // The same size, another word.
        let w = words(&t[0]);
        if !w.is_empty() && r.one(2) { let k = w[r.z(w.len())].clone(); let y = varied(&t[0], &[k], 1 + r.z(20)); t.push(y); }
        if r.one(3) { t.push(bad_text(r, 4)); }
        disk.insert(p.clone(), Node::File { mode: 0o644, body: Body::Text(t[0].clone()) });
        ins.push((p, t));
    }
    let mut pairs: Vec<(usize, String)> = vec![];
    for _ in 0..1 + r.z(2) {
        let o = OUTS[r.z(OUTS.len())];
        if disk.contains_key(o) || o.contains("/sub.d/") && !r.one(3) { continue; }
        pairs.push((r.z(ins.len()), o.to_string()));
    }
    if pairs.is_empty() { pairs.push((0, "/tmp/out.svg".into())); }
    if pairs.iter().any(|p| p.1.contains("/sub.d/")) { disk.insert("/work/sub.d".into(), Node::Dir { mode: 0o755 }); }
    for (_, o) in &pairs { if r.one(4) { let n = size(r); disk.insert(o.clone(), Node::File { mode: 0o644, body: body(r, n) }); } }
    for _ in 0..r.z(4) {
        let o = pairs[r.z(pairs.len())].1.clone();
        let p = near(r, &o);
        if !disk.contains_key(&p) && !pairs.iter().any(|x| x.1 == p) { let k = r.z(200); disk.insert(p, Node::File { mode: 0o644, body: body(r, k) }); }
    }
    let mut tool = |r: &mut Rng, pair: usize| -> CliSpec {
        let mut c = CliSpec::new();
        if r.one(8) { c.args.push("-d".into()); }
        if r.one(8) { c.args.push("--no-layout".into()); }
        if r.one(8) { c.args.push("--no-optz".into()); }
        if r.one(4) { c.args.push("-a".into()); }
        let o = &pairs[pair].1;
        if o != "/tmp/out.svg" || r.one(2) { c.args.push("-o".into()); c.args.push(match o.strip_prefix("/work/") { Some(x) if r.one(2) => x.to_string(), _ => o.clone() }); }
        c.args.push(ins[pairs[pair].0].0.clone());
        c.pid = if r.one(3) { 4242 } else { 2 + r.u(1 << 20) as u32 };
        // The clock may have been set back in between.
        c.clock_real = match r.u(4) { 0 => 1_700_000_000_000_000_000, 1 => 0, 2 => 1_700_000_000_000_000_000 + r.u(1 << 45) as i64, _ => r.u(1 << 60) as i64 };
        c.rnd = if r.one(3) { 1 } else { r.next() };
        if r.one(4) { c.vars.push(("RUST_LOG".into(), r.pick(&["error", "info", "trace"]).into())); }
        c
    };
    let mut stages = vec![];
    let n = 1 + r.z(4);
    for _ in 0..n {
        let k = r.z(pairs.len());
        let mut c = tool(r, k);
        if r.one(4) {
            // The library saves something in its place, or beside it.
            let mut s = Spec::new();
            s.env = env(r, true);
            s.env.idle_threads = 0;
            let path = if r.one(4) { "/data/saved".to_string() } else { pairs[k].1.clone() };
            let mut ops = vec![];
            for _ in 0..1 + r.z(2) { let n = size(r); ops.push(Op::Save { path: path.clone(), body: body(r, n) }); }
            s.tasks = vec![ops];
            let b = rig.go(&Spec { disk: disk.clone(), ..s.clone() });
            let nb = total_bytes(&s);
            match r.u(4) {
                0 => {}
                1 => s.crash_step = 1 + r.u(b.steps.max(1)),
                2 => {
                    let cls: Vec<u32> = [C_OPEN_W, C_OPEN_R, C_READ, C_WRITE, C_WRITE, C_CLOSE, C_STAT, C_SEEK, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META].iter().copied().filter(|c| b.cnt[*c as usize] > 0).collect();
                    if !cls.is_empty() { let c = r.of(&cls); let kind = if c == C_WRITE { r.of(&[F_CRASH_BEFORE, F_CRASH_MID, F_CRASH_MID, F_CRASH_AFTER]) } else { r.of(&[F_CRASH_BEFORE, F_CRASH_AFTER]) };
                        s.faults.push(Fault { cls: c, kind, nth: 1 + r.u(b.cnt[c as usize]), repeat: 1, arg: r.u(nb as u64 + 1) as i64 }); }
                }
                _ => { for _ in 0..1 + r.z(3) { if let Some(f) = io_fault(r, &b.cnt, nb) { s.faults.push(f); } } }
            }
            stages.push(Stage::Lib { spec: s.clone() });
            // Later, somebody saves there again.
            if r.one(2) { s.faults.clear(); s.crash_step = 0; s.env = env(r, true); s.env.idle_threads = 0; stages.push(Stage::Lib { spec: s }); }
            continue;
        }
        let b = rig.basis(&CliSpec { disk: disk.clone(), ..c.clone() });
        match r.u(10) {
            0 | 1 => c.crash_step = 1 + r.u(b.steps.max(1)),
            2..=5 => {
                let cls: Vec<u32> = [C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_WRITE, C_WRITE, C_CLOSE, C_STAT, C_SYNC, C_RENAME, C_TRUNC, C_UNLINK, C_META].iter().copied().filter(|k| b.cnt[*k as usize] > 0).collect();
                if !cls.is_empty() {
                    let k = r.of(&cls);
                    let kind = if k == C_WRITE { r.of(&[F_CRASH_BEFORE, F_CRASH_MID, F_CRASH_MID, F_CRASH_AFTER]) } else { r.of(&[F_CRASH_BEFORE, F_CRASH_AFTER]) };
                    c.faults.push(Fault { cls: k, kind, nth: 1 + r.u(b.cnt[k as usize]), repeat: 1, arg: r.u(20_000) as i64 });
                }
            }
            6 | 7 => { for _ in 0..1 + r.z(3) { if let Some(f) = tool_fault(r, &b.cnt, true) { c.faults.push(f); } } }
            8 => c.capacity = Some(disk.values().map(|n| match n { Node::File { body, .. } => body.len() as u64, _ => 0 }).sum::<u64>() + r.u(5000)),
            _ => {}
        }
        stages.push(Stage::Tool { spec: c, out: pairs[k].1.clone() });
        // What others do to the files in between.
        if r.one(2) {
            let i = r.z(ins.len());
            let (p, t) = &ins[i];
            stages.push(match r.u(8) {
                0 => Stage::Remove { path: pairs[k].1.clone() },
                1 => Stage::Remove { path: p.clone() },
                2 => { let n = size(r); Stage::Put { path: pairs[k].1.clone(), body: body(r, n) } }
                _ => Stage::Put { path: p.clone(), body: Body::Text(t[r.z(t.len())].clone()) },
            });
        }
    }
    // And then all is well.
    for k in 0..pairs.len() {
        if r.one(3) { let (p, t) = &ins[pairs[k].0]; stages.push(Stage::Put { path: p.clone(), body: Body::Text(t[r.z(t.len())].clone()) }); }
        let c = tool(r, k);
        stages.push(Stage::Tool { spec: c, out: pairs[k].1.clone() });
    }
    Case::Life { disk, stages }
}

// ------------------------------------------------------------------ C08
fn cuts(r: &mut Rng, n: u64) -> Case {
    let (text, brace) = match r.u(10) {
        0 => { let t = gen::corpus_doc(r, 4000); let b = gen::last_brace(&t); (t, b) }
        1..=3 => { let sc = r.of(&[2, 5, 10]); let t = model::model_doc(r, sc).0; let b = gen::last_brace(&t); (t, b) }
        _ => { let sc = r.of(&[1, 2, 4, 8]); let d = gen::any_doc(r, sc); (d.text, d.brace) }
    };
    if n % 12 == 11 {
        let mut c = CliSpec::new();
        dirs(&mut c.disk);
        let out = "/work/out.svg".to_string();
        if r.one(2) { let n = r.z(2000); c.disk.insert(out.clone(), Node::File { mode: 0o644, body: body(r, n) }); }
        let mut b = text.as_bytes()[..r.z(brace + 1)].to_vec();
        if r.one(2) { let z = if r.one(2) { text.len() - b.len() } else { r.z(4096) }; b.extend(std::iter::repeat(0u8).take(z)); }
        c.disk.insert("/work/in.dot".into(), Node::File { mode: 0o644, body: Body::of(&b) });
        if r.one(3) { c.args.push("-a".into()); }
        c.args.extend(["-o".to_string(), "out.svg".into(), "in.dot".into()]);
        return Case::ToolCut { spec: c, out };
    }
    let pos: Vec<usize> = (0..=brace).filter(|i| text.is_char_boundary(*i)).collect();
    let mut v = vec![];
    if pos.len() <= 700 { for p in &pos { v.push((*p, 0)); } } else {
        // Near anything that opens or closes, and anywhere.
        let hot: Vec<usize> = pos.iter().copied().filter(|i| { let b = text.as_bytes(); (*i > 0 && b"{}[]\"/*;\\".contains(&b[*i - 1])) || (*i < b.len() && b"{}[]\"/*;\\".contains(&b[*i])) }).collect();
        for _ in 0..400 { if !hot.is_empty() { v.push((hot[r.z(hot.len())], 0)); } v.push((pos[r.z(pos.len())], 0)); }
    }
    for _ in 0..120 { let p = pos[r.z(pos.len())]; let z = match r.u(4) { 0 => 1, 1 => r.z(600), _ => text.len() - p }; v.push((p, z)); }
    Case::Cuts { text, brace, cuts: v }
}

// ------------------------------------------------------------------ C09
fn damaged_text(r: &mut Rng, scale: usize) -> (String, Vec<&'static str>) {
    let base = match r.u(16) { 0 | 1 => gen::corpus_doc(r, 3000), 2 => gen::mazes(r, 112), 3..=7 => model::model_doc(r, scale).0, _ => gen::any_doc(r, scale).text };
    let other = model::model_doc(r, 3).0;
    let mut x = base.into_bytes();
    let mut kinds = vec![];
    for _ in 0..r.of(&[0usize, 0, 1, 1, 1, 1, 2, 2, 3, 6, 12]) {
        let hot = if r.one(2) { gen::hot_spots(&x) } else { vec![] };
        let d: Damage = if hot.is_empty() { gen::damage(r, x.len(), &other) } else { let i = hot[r.z(hot.len())]; gen::damage_at(r, i, x.len(), &other) };
        kinds.push(d.kind());
        d.apply(&mut x);
        if x.len() > 12_000 { x.truncate(12_000); }
    }
    // The work grows with the cube of the edges: 120 of them take a hundredth
    // of the budget.
    let ends: Vec<usize> = x.windows(2).enumerate().filter(|(_, w)| *w == b"->" || *w == b"--").map(|w| w.0).collect();
    if ends.len() > 120 { x.truncate(ends[120]); }
    // The rest of what was torn off may be made up, so that it parses.
    let mut s = String::from_utf8_lossy(&x).to_string();
    if r.one(3) { let k = 1 + r.z(3); s.push_str(r.pick(&["\"", "*/", "]", "\n"])); for _ in 0..k { s.push('}'); } }
    (s, kinds)
}
fn damaged(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[2, 5, 10, 18]);
    let k = 3;
    let mut t = vec![];
    for i in 0..k {
        let (x, kinds) = damaged_text(r, scale);
        for d in kinds { rig.ex.stats.probe(&format!("damage: {}", d)); }
        s.srcs.push(Src::Dot(x));
        if r.one(2) { t.push(Op::Print { src: i }); }
        for _ in 0..1 + r.z(2) { t.push(Op::Draw { src: i, how: r.of(&[How::Fresh, How::Fresh, How::Ast, How::Builder]), opt: opt(r), cancel: None }); }
    }
    s.tasks = vec![t];
    s.env = env(r, true);
    // The main thread has another stack.
    s.env.main = false;
    s.budget = 2_000_000_000;
    Case::Damaged { spec: s }
}

// ------------------------------------------------------------------ C10
fn writer(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[2, 4, 7]);
    let k = 1 + r.z(3);
    for _ in 0..k { s.srcs.push(if r.one(4) { Src::Dot(damaged_text(r, scale).0) } else { src(r, scale) }); }
    let nt = r.of(&[1usize, 1, 2, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..1 + r.z(4) {
            let i = r.z(k);
            let how = if matches!(s.srcs[i], Src::Api(_)) { How::Fresh } else { r.of(&[How::Fresh, How::Ast, How::Builder]) };
            let cancel = if r.one(4) { Some(Cancel { log: false, at: 1 + r.z(40), before: r.one(2) }) } else { None };
            match r.u(10) {
                0..=3 => ops.push(Op::Stream { src: i, how, opt: opt(r), cancel }),
                4 | 5 => { let n = 1 + r.z(12); ops.push(Op::Calls { calls: (0..n).map(|_| gen::call(r)).collect() }) }
                6 => ops.push(Op::Draw { src: i, how, opt: opt(r), cancel }),
                _ => {}
            }
            if r.one(2) { ops.push(Op::Take); }
        }
        s.tasks.push(ops);
    }
    // A thread that takes the document again and again.
    if r.one(2) { s.tasks.push(vec![Op::Take; 1 + r.z(6)]); }
    s.tasks.retain(|t| !t.is_empty());
    if s.tasks.is_empty() { s.tasks.push(vec![Op::Stream { src: 0, how: How::Fresh, opt: opt(r), cancel: None }, Op::Take]); }
    s.env = env(r, s.tasks.len() == 1);
    s.env.idle_threads = 0;
    s.budget = 3_000_000_000;
    if s.tasks.len() > 1 {
        let b = rig.go(&s);
        s.sched = schedule(r, b.steps, &b.guards);
    }
    Case::Writer { spec: s }
}

// ------------------------------------------------------------------ C21
const KEYWORDS: [&str; 6] = ["digraph", "graph", "subgraph", "node", "edge", "strict"];
fn words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for w in t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
        if w.len() >= 3 && w.len() < 40 && !KEYWORDS.contains(&w) && !v.iter().any(|x| x == w) { v.push(w.to_string()); }
    }
    v
}
fn leak(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[1, 2, 4, 6]);
    let k = 1 + r.z(2);
    for _ in 0..k { s.srcs.push(if r.one(5) { Src::Api(gen::api_graph(r, scale)) } else { Src::Dot(if r.one(2) { model::model_doc(r, scale).0 } else { gen::any_doc(r, scale).text }) }); }
    let nb = r.z(2);
    for _ in 0..nb { s.srcs.push(Src::Dot(match r.u(3) { 0 => damaged_text(r, 3).0, _ => bad_text(r, scale) })); }
    let opts: Vec<Opt> = (0..k + nb).map(|_| opt(r)).collect();
    s.env = env(r, true);
    s.env.pad = 0;
    s.env.idle_threads = 0;
    if !s.env.main && r.one(3) { s.chunk = 1; }
    dirs(&mut s.disk);
    // How many calls and log records are there?
    let mut b = Spec::new();
    b.srcs = s.srcs.clone();
    b.env.log = s.env.log;
    b.tasks = vec![(0..k + nb).map(|i| Op::Draw { src: i, how: How::Fresh, opt: opts[i], cancel: None }).collect()];
    b.budget = 400_000_000;
    let x = rig.go(&b);
    let mut calls = vec![(0u64, 0u64); k + nb];
    for d in &x.done { calls[d.op as usize] = (d.ncalls, d.nlogs); }
    let mut ops = vec![];
    for j in 0..1 + r.z(4) {
        let i = r.z(k + nb);
        let how = if matches!(s.srcs[i], Src::Api(_)) { How::Fresh } else { r.of(&[How::Fresh, How::Fresh, How::Ast, How::Builder]) };
        ops.push(match r.u(12) {
            0..=4 => {
                let (nc, nl) = calls[i];
                let log = nl > 0 && r.one(3);
                let m = if log { nl } else { nc }.max(1);
                let at = match r.u(4) { 0 => 1 + r.u(3.min(m)), 1 => m - r.u(3.min(m)), _ => 1 + r.u(m) };
                Op::Draw { src: i, how, opt: opts[i], cancel: Some(Cancel { log, at: at as usize, before: r.one(2) }) }
            }
            5 | 6 => { if nb > 0 && r.one(2) { Op::Parse { src: k + r.z(nb) } } else { Op::Parse { src: i } } }
            7 if s.env.log < 9 => Op::Print { src: i },
            8 | 9 => { let n = if r.one(2) { r.z(300) } else { r.of(&[0usize, 1000, 8192, 20_000, 70_000]) }; Op::Save { path: r.pick(&["/work/out.svg", "out.svg", "/data/x.svg", "/tmp/y", "/nodir/z.svg", "/data"]).to_string(), body: Body::Gen { len: n, seed: r.u(1 << 20), flavour: j as u32 % 4 } } }
            _ => Op::Draw { src: i, how, opt: opts[i], cancel: None },
        });
    }
    if ops.iter().any(|o| matches!(o, Op::Save { .. })) {
        if r.one(2) { let n = r.z(5000); s.disk.insert("/work/out.svg".into(), Node::File { mode: r.of(&[0o644, 0o644, 0o444]), body: body(r, n) }); }
        // Trouble that lasts.
        let lasting = |cls, kind, arg| Fault { cls, kind, nth: 1, repeat: 1 << 40, arg };
        match r.u(8) {
            0 => s.faults.push(lasting(C_WRITE, F_ERR, r.of(&[libc::ENOSPC, libc::EIO]) as i64)),
            1 => s.faults.push(lasting(C_OPEN_W, F_ERR, r.of(&[libc::EACCES, libc::EMFILE, libc::ENOSPC]) as i64)),
            2 => { let c = r.of(&[C_CLOSE, C_SYNC, C_STAT, C_SEEK, C_TRUNC, C_RENAME, C_META, C_OPEN_R, C_READ]); s.faults.push(lasting(c, F_ERR, libc::EIO as i64)) }
            3 => s.capacity = Some(disk_use(&s) + r.u(2000)),
            4 => s.faults.push(lasting(C_WRITE, F_SHORT, r.of(&[1000i64, 4096]))),
            5 => { let nth = 2 + r.u(30); s.faults.push(Fault { cls: C_WRITE, kind: F_ERR, nth, repeat: 1 << 40, arg: libc::EIO as i64 }) }
            _ => {}
        }
    }
    s.tasks = vec![ops];
    let mut vary = vec![];
    if r.one(2) {
        let mut all: Vec<String> = s.srcs.iter().filter_map(|x| match x { Src::Dot(t) => Some(words(t)), _ => None }).flatten().collect();
        for _ in 0..r.of(&[1usize, 2, 4, 10]) { if !all.is_empty() { let i = r.z(all.len()); vary.push(all.swap_remove(i)); } }
    }
    s.budget = 8_000_000_000;
    Case::Leak { spec: s, vary }
}

// ------------------------------------------------------------------ C22
fn nested(r: &mut Rng, rig: &mut Rig) -> Case {
    let mut s = Spec::new();
    let scale = r.of(&[2, 3, 5, 9]);
    let k = 1 + r.z(3);
    for _ in 0..k { let x = next_src(r, &s.srcs, scale); s.srcs.push(x); }
    let nb = r.z(2);
    for _ in 0..nb { s.srcs.push(Src::Dot(bad_text(r, scale))); }
    let opts: Vec<Opt> = (0..k + nb).map(|_| opt(r)).collect();
    s.env = env(r, true);
    s.env.idle_threads = 0;
    if r.one(2) { s.env.log = 5; }
    dirs(&mut s.disk);
    let how = |r: &mut Rng, s: &Spec, i: usize| if matches!(s.srcs[i], Src::Api(_)) { r.of(&[How::Fresh, How::Fresh, How::Made]) } else { r.of(&[How::Fresh, How::Ast, How::Builder, How::Builder, How::Made]) };
    let nt = if s.env.main { 1 } else { r.of(&[1usize, 1, 1, 2]) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..1 + r.z(3) { let i = r.z(k); let h = how(r, &s, i); let cancel = if r.one(8) { Some(Cancel { log: r.one(3), at: 1 + r.z(20), before: r.one(2) }) } else { None }; ops.push(Op::Draw { src: i, how: h, opt: opts[i], cancel }); }
        s.tasks.push(ops);
    }
    if nb > 0 && r.one(2) { s.tasks[0].push(Op::Print { src: k }); }
    // How many calls and log records are there?
    s.budget = 2_000_000_000;
    let x = rig.go(&s);
    let (nc, nl) = x.done.iter().fold((0, 0), |a, d| (a.0 + d.ncalls, a.1 + d.nlogs));
    let same = r.one(3);
    let mut saved = 0;
    for j in 0..1 + r.z(5) {
        let log = nl > 0 && r.one(2);
        let m = if log { nl } else { nc }.max(1);
        let at = match r.u(4) { 0 => 1 + r.u(4.min(m)), 1 => m - r.u(4.min(m)), _ => 1 + r.u(m) };
        let i = if same { match &s.tasks[0][0] { Op::Draw { src, .. } => *src, _ => 0 } } else { r.z(k + nb) };
        let h = how(r, &s, i);
        let cancel = if r.one(6) { Some(Cancel { log: r.one(3), at: 1 + r.z(20), before: r.one(2) }) } else { None };
        let depth = if j > 0 && r.one(5) { 1 } else { 0 };
        let op = match r.u(10) {
            0 | 1 => Op::Parse { src: i },
            2 => Op::Print { src: i },
            3 => { saved += 1; let n = r.z(9000); Op::Save { path: format!("/work/n{}.svg", saved), body: body(r, n) } }
            4 if !s.env.main => Op::Final { src: i, opt: opts[i] },
            _ => Op::Draw { src: i, how: h, opt: if r.one(4) { opt(r) } else { opts[i] }, cancel },
        };
        s.nested.push(Nest { depth, log, at: if depth == 1 { 1 + r.u(30) } else { at }, thread: !s.env.main && r.one(3), op });
    }
    if r.one(4) {
        // A drawing in a drawing in a drawing, and so on.
        for d in 1..2 + r.z(6) {
            let i = r.z(k);
            let h = how(r, &s, i);
            if d == 1 && !s.nested.iter().any(|n| n.depth == 0 && matches!(n.op, Op::Draw { cancel: None, .. })) {
                s.nested.insert(0, Nest { depth: 0, log: false, at: 1 + r.u(4), thread: false, op: Op::Draw { src: r.z(k), how: How::Fresh, opt: opts[0], cancel: None } });
            }
            s.nested.push(Nest { depth: d, log: false, at: 1 + r.u(3), thread: !s.env.main && r.one(8), op: Op::Draw { src: i, how: h, opt: opts[i], cancel: None } });
        }
    }
    s.budget = x.steps * 20 + 200_000_000;
    if s.nested.iter().any(|n| n.thread) || nt > 1 { let g = x.guards.clone(); s.sched = schedule(r, x.steps * 2, &g); }
    Case::Nested { spec: s }
}

pub fn plan(prop: &str, seed: u64, n: u64, rig: &mut Rig) -> Case {
    let mut r = Rng::new(gen::hash(format!("{}/{}/{}", prop, seed, n).as_bytes()));
    match prop {
        "C01" => same(&mut r, rig, n),
        "C02" => conc(&mut r, rig),
        "C03" => hist(&mut r, rig),
        "C04" => save_case(&mut r, rig),
        "C05" => crash_case(&mut r, rig),
        "C06" => tool_case(&mut r, rig),
        "C07" => touch_case(&mut r, rig),
        "C08" => cuts(&mut r, n),
        "C09" => damaged(&mut r, rig),
        "C10" => writer(&mut r, rig),
        "C21" => leak(&mut r, rig),
        "C22" => nested(&mut r, rig),
        "C23" => together(&mut r, rig),
        "C24" => life(&mut r, rig),
        _ => die("no such property"),
    }
}
