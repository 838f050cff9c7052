/// Prints a line without std's standard output, which belongs to the code under
/// test: simulated processes are forks of this one.
macro_rules! say { ($($x:tt)*) => { say_(&format!($($x)*)) } }
fn say_(t: &str) {
    let t = format!("{}\n", t);
    let mut b = t.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr() as *const _, b.len()) };
        if n <= 0 { break; }
        b = &b[n as usize..];
    }
}
mod alloc; mod case; mod cli; mod exec; mod gen; mod model; mod plan; mod shrink; mod world; mod xml;
use case::*;
use exec::Stats;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
struct Replay { property: String, kind: String, message: String, seed: u64, index: u64, found_kind: String, minimise_runs: u64, case: Case, fingerprint: u64, trace: Vec<String>, #[serde(default)] note: String }
#[derive(Serialize, Deserialize, Default)]
struct Report {
    fails: Vec<(u64, String, String)>,
    known: Vec<(u64, String, String)>,
    odd: Vec<(u64, String, String)>,
    stats: Stats,
    cases: u64, evals: u64, nontrivial: u64,
    sigs: BTreeSet<u64>,
    prints: Vec<(u64, u64)>,
    samples: Vec<(u64, String)>,
    capped: bool,
}

struct Tier { cases: u64, wall: u64 }
fn tier(prop: &str, thorough: bool) -> Tier {
    let (q, t) = match prop {
        "C01" => (1800, 50_000), "C02" => (14_000, 400_000), "C03" => (7000, 200_000), "C04" => (70_000, 3_000_000), "C05" => (90_000, 4_000_000),
        "C06" => (30_000, 1_000_000), "C07" => (40_000, 1_500_000), "C08" => (28_000, 700_000), "C09" => (90_000, 2_500_000), "C10" => (35_000, 1_000_000),
        "C21" => (10_000, 250_000), "C22" => (60_000, 2_000_000), "C23" => (24_000, 700_000), "C24" => (14_000, 400_000),
        _ => die("no such property"),
    };
    if thorough { Tier { cases: t, wall: 1500 } } else { Tier { cases: q, wall: 420 } }
}

/// Known findings: lines `finding: property=<id> kind=<kind> needle=<text> -- <what fails>`.
struct KnownFinding { property: String, kind: String, needle: String, what: String }
fn findings() -> Vec<KnownFinding> {
    let p = format!("{}/KNOWN_FINDINGS.txt", home());
    let t = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(l) = l.strip_prefix("finding: ") {
            let (head, what) = l.split_once(" -- ").unwrap_or((l, ""));
            let part = |k: &str| -> String {
                match head.find(&format!("{}=", k)) {
                    Some(i) => { let r = &head[i + k.len() + 1..]; let e = [" kind=", " needle="].iter().filter_map(|m| r.find(m)).min().unwrap_or(r.len()); r[..e].trim().to_string() }
                    None => String::new(),
                }
            };
            v.push(KnownFinding { property: part("property"), kind: part("kind"), needle: part("needle"), what: what.to_string() });
        }
    }
    v
}
fn is_known(prop: &str, b: &Bad, f: &[KnownFinding]) -> bool {
    f.iter().any(|k| k.property == prop && k.kind == b.kind && !k.needle.is_empty() && b.msg.contains(&k.needle))
}

fn home() -> String { std::env::var("VERIF_HOME").unwrap_or("/verif".into()) }
fn cli_bin() -> Option<String> { std::env::var("SIM_CLI").ok().filter(|p| std::path::Path::new(p).exists()) }
fn needs_cli(prop: &str) -> bool { matches!(prop, "C01" | "C06" | "C07" | "C08" | "C23" | "C24") }
fn rig(prop: &str) -> Rig { Rig::new(if needs_cli(prop) { cli_bin() } else { None }) }

struct Shared { next: AtomicU64, fail: AtomicU64 }
fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let s = &*(p as *const Shared);
        s.fail.store(u64::MAX, SeqCst);
        s
    }
}

fn work(prop: &str, seed: u64, first: u64, n: u64, until: Instant, sh: &Shared, keep: bool) -> Report {
    let mut g = rig(prop);
    let mut rep = Report::default();
    let kf = findings();
    loop {
        let i = first + sh.next.fetch_add(1, SeqCst);
        if i >= first + n || i > sh.fail.load(SeqCst) { break; }
        if Instant::now() > until { rep.capped = true; break; }
        let c = plan::plan(prop, seed, i, &mut g);
        let v = eval(&c, &mut g);
        rep.cases += 1;
        rep.evals += v.evals;
        if v.nontrivial { rep.nontrivial += 1; rep.sigs.insert(v.sig); }
        if keep { rep.prints.push((i, v.print ^ v.sig)); }
        if i < first + 2000 && v.nontrivial && rep.samples.len() < 2 {
            let mut s = serde_json::to_string(&c).unwrap();
            if s.len() > 1500 { s = s.chars().take(1500).collect::<String>() + "..."; }
            rep.samples.push((i, s));
        }
        if let Some(b) = v.bad {
            if is_known(prop, &b, &kf) { rep.known.push((i, b.kind, b.msg)); continue; }
            // The same again, or something escapes the simulator's control.
            let again = (0..8).any(|_| eval(&c, &mut g).bad.map(|x| x.kind == b.kind).unwrap_or(false));
            if !again && prop != "C01" { rep.odd.push((i, b.kind, b.msg)); continue; }
            rep.fails.push((i, b.kind, b.msg));
            sh.fail.fetch_min(i, SeqCst);
            break;
        }
    }
    rep.stats = g.stats();
    rep
}

/// Runs the cases on several worker processes.
fn search(prop: &str, seed: u64, first: u64, n: u64, workers: usize, wall: u64, keep: bool) -> Report {
    let sh = shared();
    let until = Instant::now() + Duration::from_secs(wall);
    let mut kids = vec![];
    for _ in 0..workers {
        unsafe {
            let mut fd = [0i32; 2];
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fd[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let r = work(prop, seed, first, n, until, sh, keep);
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let _ = f.write_all(serde_json::to_string(&r).unwrap().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, std::fs::File::from_raw_fd(fd[0])));
        }
    }
    let mut all = Report::default();
    let mut err = false;
    for (pid, mut f) in kids {
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
        match serde_json::from_str::<Report>(&s) {
            Ok(r) => {
                all.fails.extend(r.fails); all.known.extend(r.known); all.odd.extend(r.odd); all.stats.merge(&r.stats);
                all.cases += r.cases; all.evals += r.evals; all.nontrivial += r.nontrivial; all.sigs.extend(r.sigs);
                all.prints.extend(r.prints); all.samples.extend(r.samples); all.capped |= r.capped;
            }
            Err(_) => { eprintln!("HARNESS ERROR: a worker ended with status {:x}", st); err = true; }
        }
    }
    all.fails.sort(); all.known.sort(); all.prints.sort(); all.samples.sort();
    if err && all.fails.is_empty() { std::process::exit(3); }
    all
}

fn check(prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t = tier(prop, thorough);
    let n = std::env::var("SIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(t.cases);
    let wall = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(t.wall);
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let kf = findings();
    for k in kf.iter().filter(|k| k.property == prop) { say!("KNOWN-FINDING: property={} {}", prop, k.what); }
    let rep = search(prop, seed, 0, n, workers, wall, false);
    let searched = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((i, kind, msg)) = rep.fails.first() {
        code = 1;
        say!("case {} of seed {}: {}: {}", i, seed, kind, msg);
        // In a process of its own: whatever happens there, the violation is reported.
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["minimise", prop, &seed.to_string(), &i.to_string()]).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        let path = match out.lines().find_map(|l| l.strip_prefix("REPLAY ")) {
            Some(p) => { for l in out.lines().filter(|l| !l.starts_with("REPLAY ")) { say!("{}", l); } p.to_string() }
            None => {
                let mut g = rig(prop);
                let case = plan::plan(prop, seed, *i, &mut g);
                write_replay(&Replay { property: prop.into(), kind: kind.clone(), message: msg.clone(), seed, index: *i, found_kind: kind.clone(), minimise_runs: 0, case, fingerprint: 0, trace: vec![], note: "as found: it could not be minimised".into() })
            }
        };
        say!("VIOLATION property={} replay={}", prop, path);
    }
    for (i, kind, msg) in &rep.odd { say!("case {} of seed {} did not show again: {}: {}", i, seed, kind, msg); }
    if code == 0 && !rep.odd.is_empty() { code = 3; }
    evidence(prop, thorough, seed, &rep, searched, t0.elapsed().as_secs_f64(), n);
    say!("{}: {} cases, {} simulated executions, {} steps (at most {} in one), {:.1} s{}", prop, rep.cases, rep.stats.runs, rep.stats.steps, rep.stats.max_steps, t0.elapsed().as_secs_f64(),
        if rep.capped { " (stopped by the time limit)" } else { "" });
    code
}

fn write_replay(r: &Replay) -> String {
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-seed{}-{}.json", dir, r.property, r.seed, r.index);
    std::fs::write(&p, serde_json::to_string_pretty(r).unwrap()).unwrap();
    p
}
/// In a fresh process: minimise, write the replay file, replay it.
fn minimise(prop: &str, seed: u64, i: u64, kf: &[KnownFinding]) -> String {
    let limit: u64 = std::env::var("SIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut g = rig(prop);
    let case = plan::plan(prop, seed, i, &mut g);
    // What the code under test takes from outside the simulated world may
    // show only now and then.
    let b = match (0..40).find_map(|_| eval(&case, &mut g).bad) { Some(b) => b, None => die("the violation does not show again") };
    let known = |b: &Bad| is_known(prop, b, kf);
    let (small, tries) = {
        let mut s = shrink::Shrinker { rig: &mut g, kind: b.kind.clone(), until: Instant::now() + Duration::from_secs(limit), tries: 0, cur: case.clone(), known: &known };
        s.run();
        (s.cur.clone(), s.tries)
    };
    let mut make = |c: &Case| -> Option<Replay> {
        g.keep_events(true);
        let v = eval(c, &mut g);
        v.bad.map(|b2| Replay { property: prop.into(), kind: b2.kind, message: b2.msg, seed, index: i, found_kind: b.kind.clone(), minimise_runs: tries, case: c.clone(),
            fingerprint: v.print, trace: v.events, note: String::new() })
    };
    let mut inexact = None;
    for round in 0..6 {
        for c in [&small, &case] {
            if let Some(r) = make(c) {
                let p = write_replay(&r);
                let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &p]).stdout(std::process::Stdio::null()).status();
                match st.ok().and_then(|s| s.code()) {
                    Some(1) => { say!("minimised in {} runs: {}: {}", tries, r.kind, r.message); return p; }
                    Some(4) => inexact = inexact.or(Some(r)),
                    _ => {}
                }
            }
        }
        if inexact.is_some() && round > 1 { break; }
    }
    match inexact.or_else(|| make(&small)).or_else(|| make(&case)) {
        Some(mut r) => {
            r.note = "the code under test takes something from outside the simulated world: a replay shows the violation, but not always in the same execution".into();
            say!("minimised in {} runs: {}: {} ({})", tries, r.kind, r.message, r.note);
            write_replay(&r)
        }
        None => die("the replay file does not reproduce the violation"),
    }
}
fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => die(&format!("{}: {}", path, e)) };
    let r: Replay = match serde_json::from_str(&t) { Ok(r) => r, Err(e) => die(&format!("{}: {}", path, e)) };
    let mut g = rig(&r.property);
    let mut v = eval(&r.case, &mut g);
    if !r.note.is_empty() { for _ in 0..40 { if v.bad.is_some() { break; } v = eval(&r.case, &mut g); } }
    match v.bad {
        Some(b) => {
            say!("{}: {}", b.kind, b.msg);
            say!("{}", if v.print == r.fingerprint && b.msg == r.message { "reproduced exactly" } else { "a violation, but not the recorded execution" });
            say!("VIOLATION property={} replay={}", r.property, path);
            if v.print == r.fingerprint && b.msg == r.message { 1 } else { 4 }
        }
        None => { say!("no violation"); 0 }
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "A case is one or two seeded documents or API graphs with options, drawn several times (fresh, from a shared tree, from a shared builder) in 5 to 7 simulated processes that differ in hash seed, allocation addresses, clocks, pid, environment, log level, thread and history; every eighth case adds three runs of the command line tool. Non-trivial: a drawing was completed. Distinct: by the drawings and their number.",
        "C02" => "A case is one simulated process with 2 to 6 caller threads working on shared documents, trees, builders and writers under one seeded schedule (random walk, PCT, focused on recently contended cells, stalls, or around one basic block). Non-trivial: at least two threads ran and they were switched more often than their number. Distinct: by the sequence of context switches and of simulated system calls.",
        "C03" => "A case is one history on one or two threads: drawings, drawings cancelled by a panic of the backend or log sink at a chosen call, rejected documents, retries from the same tree or builder. Every result is compared with a fresh process. Non-trivial: something was rejected or cancelled and something completed. Distinct: by the outcomes and outputs in order.",
        "C04" => "A case is a sequence of saves by one to three threads under storage faults, followed by saves once the trouble is over. Non-trivial: a fault fired or a save failed or threads were switched. Distinct: by the trace of system calls with arguments, results and faults.",
        "C05" => "A case is a sequence of saves with a process crash (before, in the middle of or after a system call, or at any execution step) or storage errors, with files beside the target. Non-trivial: the process died or a save failed. Distinct: by the trace of system calls and the step of the crash.",
        "C06" => "A case is one run of the command line tool under faults and its undisturbed twin, with a document whose content the generator knows. Non-trivial: a fault fired, or no fault was planned. Distinct: by the trace of system calls and the number of steps.",
        "C07" => "A case is one run of the command line tool that is killed at a step, system call or allocation, or suffers faults or a damaged input; every other file is compared and the first change to the output is located. Non-trivial: the fault fired, the tool was killed, or no drawing can come of the input. Distinct: by the trace of system calls and the number of steps.",
        "C08" => "A case is one document and up to 920 torn versions of it: cut at every character (or at a sample, when it is long) before its last closing brace, with nothing or zero bytes after the cut; every twelfth case is a torn file read by the command line tool. evaluations counts torn documents. Non-trivial: the whole document is accepted. Distinct: by document and cuts.",
        "C09" => "A case is one simulated process that parses, prints and draws three documents damaged by 0 to 12 seeded storage faults each. Non-trivial: always. Distinct: by outcomes, outputs and steps.",
        "C21" => "A case is one round of parsing, drawing, cancelled drawing, saving and failing saves on one or more threads, repeated with the same or with new words in it (26 rounds, up to 600 where something seems to grow). What the process holds is measured after every round. Non-trivial: all rounds were completed and something was done in them. Distinct: by what is held and the outcomes.",
        "C22" => "A case is one piece of work whose drawing backend or log sink uses the library at chosen calls, on the same thread or on one it waits for, up to eight deep. Non-trivial: a nested operation was completed. Distinct: by schedule, outcomes and outputs.",
        "C23" => "A case is one to three runs of the command line tool that take turns on one disk, stopped before chosen system calls, some killed or failing, while somebody else replaces or removes inputs. Non-trivial: two runs were under way at once, or a file was replaced during a run. Distinct: by the traces of system calls of all runs.",
        "C24" => "A case is a sequence of processes on one disk, one after the other: runs of the command line tool and processes that save with the library, killed at a step or system call, failing or undisturbed, with clocks that jump, while others replace, restore or remove files in between; at the end every output is drawn once more undisturbed. Non-trivial: a process ran on what another one left. Distinct: by the traces of system calls of all processes.",
        _ => "A case is one SVG writer shared by one to four threads that draw whole graphs (some cut short), make single drawing calls and take the document at points between calls. Non-trivial: the document was taken and something was drawn. Distinct: by schedule and documents.",
    }
}
fn evidence(prop: &str, thorough: bool, seed: u64, rep: &Report, searched: f64, wall: f64, planned: u64) {
    let s = &rep.stats;
    let cnt: std::collections::BTreeMap<&str, u64> = world::CLASSES.iter().zip(&s.cnt).filter(|c| *c.1 > 0).map(|c| (*c.0, *c.1)).collect();
    let samples: Vec<serde_json::Value> = rep.samples.iter().take(4).map(|(i, c)| serde_json::json!({ "index": i, "case": c })).collect();
    let cli = needs_cli(prop);
    let hours = searched / 3600.0;
    let v = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": rep.evals, "distinct_nontrivial": rep.sigs.len(), "rule": rule(prop), "samples": samples,
            "cases_planned": planned, "cases_run": rep.cases, "nontrivial_cases": rep.nontrivial, "stopped_by_time_limit": rep.capped,
            "simulated_executions": s.runs, "simulated_executions_per_hour": (s.runs as f64 / hours) as u64, "seeds_per_hour": (rep.cases as f64 / hours) as u64,
            "simulated_time_s": s.sim_ns as f64 / 1e9, "simulated_steps": s.steps,
            "faults_fired": s.fired, "simulated_calls_by_class": cnt, "ends_of_executions": s.ends,
            "context_switches": s.switches, "blocked_waits": s.blocked, "scheduling_points_at_contended_cells": s.hot,
            "distinct_interleavings": s.scheds.len(), "distinct_interleavings_measure": "hash of the sequence of (task, next task, step) of a run",
            "distinct_histories": s.histories.len(), "distinct_histories_measure": "hash of the trace of simulated system calls and the number of steps of a run",
            "library_blocks_reached": s.guards.len(), "tool_blocks_reached": s.cli_guards.len(),
            "probes": s.probes,
            "real_components": if cli { vec!["layout-rs library, instrumented", "layout command line tool with clap, env_logger and std, instrumented", "std's file, thread, lock and hash map code"] } else { vec!["layout-rs library, instrumented", "std's file, thread, lock and hash map code"] },
            "stub_components": ["disk, file descriptors and system calls on them (simos.c)", "scheduler, futexes, threads' start and end", "clocks, getrandom, pid, processor count", "allocator placement and failure", "drawing backend and log sink of the caller"],
        },
        "assumptions": ["interleaving is sequentially consistent; switches happen at basic blocks, loads, stores, locks, system calls, allocations and calls to backend and log sink of /repo's crates",
            "a crash loses the process, not what system calls have already stored", "seeded sampling: what no seed reaches is not shown"],
        "wall_s": wall, "violations": rep.fails.len().min(1),
    });
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn selfcheck(props: &[String], n: u64) -> i32 {
    let mut code = 0;
    for p in props {
        let a = search(p, 1, 0, n, 8, 3000, true);
        let b = search(p, 1, 0, n, 3, 3000, true);
        let same = a.prints == b.prints && a.fails == b.fails;
        say!("{}: {} cases, twice, on 8 and on 3 workers: {}", p, a.prints.len(), if same { "identical" } else { "DIFFERENT" });
        if !same {
            code = 1;
            for (x, y) in a.prints.iter().zip(&b.prints) { if x != y { say!("  first difference: case {} / {}", x.0, y.0); break; } }
        }
    }
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        // The same addresses in every run, as far as the system lets us.
        let old = libc::personality(0xffffffff);
        if old >= 0 && old & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("SIM_REEXEC").is_err() && libc::personality((old | libc::ADDR_NO_RANDOMIZE) as _) >= 0 {
            std::env::set_var("SIM_REEXEC", "1");
            let e = std::os::unix::process::CommandExt::exec(std::process::Command::new("/proc/self/exe").args(&a[1..]));
            eprintln!("exec: {}", e);
        }
    }
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => check(&a[2], a.get(3).map(|t| t == "thorough").unwrap_or(false)),
        Some("minimise") if a.len() == 5 => { say!("REPLAY {}", minimise(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &findings())); 0 }
        Some("replay") if a.len() == 3 => replay(&a[2]),
        Some("selfcheck") => {
            let n = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
            let props: Vec<String> = if a.len() > 3 { a[3..].to_vec() } else { (1..=10).chain(21..=24).map(|i| format!("C{:02}", i)).collect() };
            selfcheck(&props, n)
        }
        Some("case") if a.len() == 5 => {
            let mut g = rig(&a[2]);
            let c = plan::plan(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &mut g);
            let v = eval(&c, &mut g);
            say!("{}\nbad: {:?} nontrivial: {} steps: {}", serde_json::to_string(&c).unwrap(), v.bad, v.nontrivial, g.stats().steps);
            0
        }
        _ => { eprintln!("usage: simcheck check ID quick|thorough | replay FILE | selfcheck [N] [ID...] | case ID SEED INDEX"); 2 }
    };
    std::process::exit(code);
}
