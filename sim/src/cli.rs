//! Runs the shipped command line tool as one simulated process.
use crate::exec::{End, Stats};
use crate::gen;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct CliSpec {
    pub args: Vec<String>,
    pub vars: Vec<(String, String)>,
    pub rnd: u64, pub clock_real: i64, pub clock_mono: i64, pub tick: i64, pub pid: u32, pub ncpu: u32,
    pub disk: Disk,
    pub faults: Vec<Fault>,
    pub crash_step: u64,
    pub budget: u64,
    pub capacity: Option<u64>,
    #[serde(default)]
    pub env_seed: u64,
}
impl CliSpec {
    pub fn new() -> CliSpec {
        CliSpec { args: vec![], vars: vec![], rnd: 1, clock_real: 1_700_000_000_000_000_000, clock_mono: 1_000_000_000_000, tick: 1000,
            pid: 4242, ncpu: 4, disk: Disk::new(), faults: vec![], crash_step: 0, budget: 4_000_000_000, capacity: None, env_seed: 0 }
    }
}
pub struct CliResult {
    pub end: End,
    pub disk: BTreeMap<String, (u32, u32, Vec<u8>)>,
    pub stdout: Vec<u8>, pub stderr: Vec<u8>,
    pub touched: bool, pub needle_found: u32, pub touch_op: u64, pub touch_step: u64,
    pub steps: u64, pub cnt: [u64; C_N], pub hits: Vec<u64>, pub full: u64,
    pub wpaths: Vec<String>, pub rpaths: Vec<String>, pub ev_hash: u64, pub harness_err: u32, pub events: Vec<String>,
}
impl CliResult {
    pub fn fingerprint(&self) -> u64 {
        let mut h = gen::hash(format!("{:?}", self.end).as_bytes()) ^ self.ev_hash.rotate_left(7) ^ self.steps;
        for (p, (_, _, b)) in &self.disk { h = h.rotate_left(3) ^ gen::hash(p.as_bytes()) ^ gen::hash(b); }
        h ^ gen::hash(&self.stdout).rotate_left(1) ^ gen::hash(&self.stderr).rotate_left(2)
    }
    pub fn file(&self, p: &str) -> Option<&[u8]> { self.disk.get(p).filter(|x| x.0 == 1).map(|x| &x.2[..]) }
}

pub struct Cli { w: &'static mut World, fd: i32, null: i32, bin: CString, pub stats: Stats, pub keep_events: bool }

impl Cli {
    pub fn new(bin: &str) -> Cli {
        unsafe {
            let fd = libc::memfd_create(b"simworld\0".as_ptr() as *const _, 0);
            assert!(fd >= 0 && libc::ftruncate(fd, std::mem::size_of::<World>() as i64) == 0);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            assert!(null >= 0);
            Cli { w: World::map(fd), fd, null, bin: CString::new(bin).unwrap(), stats: Stats::default(), keep_events: false }
        }
    }
    /// `watch`: the output file and a piece of the finished drawing.
    pub fn run(&mut self, s: &CliSpec, watch: Option<(&str, &[u8])>) -> CliResult {
        self.prepare(s, watch);
        let pid = self.spawn(s);
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
        self.finish(s, st)
    }
    fn prepare(&mut self, s: &CliSpec, watch: Option<(&str, &[u8])>) {
        let w = &mut *self.w;
        w.reset();
        w.rnd_seed = s.rnd; w.clock_real = s.clock_real; w.clock_mono = s.clock_mono; w.clock_tick = s.tick; w.pid = s.pid; w.ncpu = s.ncpu; w.env_seed = s.env_seed;
        w.budget = s.budget; w.crash_step = s.crash_step; w.kill_real = 1;
        if let Some(c) = s.capacity { w.capacity = c; }
        w.set_faults(&s.faults);
        w.set_disk(&s.disk);
        if let Some((p, n)) = watch { w.set_watch(p, n); }
    }
    fn spawn(&mut self, s: &CliSpec) -> i32 {
        let mut args = vec![CString::new("layout").unwrap()];
        for a in &s.args { args.push(CString::new(a.as_str()).unwrap()); }
        let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        // The simulated system calls come before those of libc.
        let lib = std::path::Path::new(self.bin.to_str().unwrap()).ancestors().nth(3).unwrap().join("libsimos.so");
        let mut env = vec![CString::new(format!("SIMOS_FD={}", self.fd)).unwrap(), CString::new(format!("LD_PRELOAD={}", lib.display())).unwrap()];
        for (k, v) in &s.vars { env.push(CString::new(format!("{}={}", k, v)).unwrap()); }
        let mut envp: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).collect();
        envp.push(std::ptr::null());
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::dup2(self.null, 0); libc::dup2(self.null, 1); libc::dup2(self.null, 2);
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                let lim = libc::rlimit { rlim_cur: 60, rlim_max: 70 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                libc::alarm(300);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::execve(self.bin.as_ptr(), argv.as_ptr(), envp.as_ptr());
                libc::_exit(97);
            }
            pid
        }
    }
    fn finish(&mut self, s: &CliSpec, st: i32) -> CliResult {
        let w = &mut *self.w;
        let end = if libc::WIFEXITED(st) {
            match (libc::WEXITSTATUS(st), w.status) {
                (103, ST_HANG) => End::Hang,
                (104, ST_DEADLOCK) => End::Deadlock,
                (n, _) => End::Exit(n),
            }
        } else {
            match libc::WTERMSIG(st) {
                libc::SIGKILL if w.status == ST_CRASHED => End::Crashed,
                libc::SIGXCPU => End::Hang,
                libc::SIGALRM => End::Wall,
                s => End::Signal(s),
            }
        };
        let mut err = w.harness_err;
        if matches!(end, End::Exit(97..=99)) || end == End::Exit(127) && w.total_steps == 0 { err = 90; }
        // A process that ended itself reported no step count.
        self.stats.add_world(w, &format!("{:?}", end), s.clock_mono, true);
        CliResult {
            end, disk: w.snapshot(),
            stdout: w.out[0][..w.stdout_len as usize].to_vec(), stderr: w.out[1][..w.stderr_len as usize].to_vec(),
            touched: w.touched != 0, needle_found: w.touch_needle, touch_op: w.touch_op, touch_step: w.touch_step,
            steps: w.total_steps, cnt: w.cnt, hits: w.fault[..s.faults.len()].iter().map(|f| f.fired).collect(),
            full: w.fired[C_WRITE as usize][F_FULL as usize],
            wpaths: w.wpaths(), rpaths: w.rpaths(), ev_hash: w.ev_hash, harness_err: err, events: if self.keep_events { w.events() } else { vec![] },
        }
    }
}

/// What happens next when several processes share the disk.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Turn {
    /// This process goes on until it has made so many calls on the disk.
    Run { who: usize, calls: u64 },
    /// Somebody else puts a new file in the place of another, at one stroke.
    Replace { path: String, body: Body },
    Remove { path: String },
}
#[derive(Clone, Default)]
pub struct Life { pub begun: usize, pub ended: usize, pub switches: u64 }

/// Runs the tools in turns on one disk. Time is counted in turns.
pub fn play(seats: &mut [Cli], specs: &[CliSpec], turns: &[Turn]) -> (Vec<CliResult>, Vec<Life>, BTreeMap<String, (u32, u32, Vec<u8>)>) {
    let n = specs.len();
    let mut pid = vec![0i32; n];
    let mut out: Vec<Option<CliResult>> = (0..n).map(|_| None).collect();
    let mut life = vec![Life::default(); n];
    for i in 0..n { seats[i].prepare(&specs[i], None); seats[i].w.gate_on = 1; }
    // Who has the disk as it is now.
    let mut last = 0;
    let mut now = 0;
    let mut stops = 0u64;
    let mut k = 0;
    loop {
        now += 1;
        let t = if k < turns.len() { k += 1; turns[k - 1].clone() } else {
            // The rest: in short turns, so that nobody waits for ever.
            match (1..=n).map(|d| (last + d) % n).find(|i| out[*i].is_none()) { Some(who) => Turn::Run { who, calls: 40 }, None => break }
        };
        let (who, calls) = match t {
            Turn::Run { who, calls } => (who, calls),
            Turn::Replace { path, body } => { seats[last].w.put(&path, Some(&body.bytes())); continue; }
            Turn::Remove { path } => { seats[last].w.put(&path, None); continue; }
        };
        if who >= n || out[who].is_some() { continue; }
        if who != last {
            let (a, b) = if last < who { let (x, y) = seats.split_at_mut(who); (&x[last], &mut y[0]) } else { let (x, y) = seats.split_at_mut(last); (&y[0], &mut x[who]) };
            b.w.disk_from(a.w);
            life[who].switches += 1;
            last = who;
        }
        let s = &mut seats[who];
        s.w.gate_left = calls.max(1);
        stops += 1;
        let state = &raw mut s.w.gate_state;
        let mut ended = false;
        unsafe {
            std::ptr::write_volatile(state, 0);
            if pid[who] == 0 {
                life[who].begun = now;
                // It stops before the call after these.
                s.w.gate_left += 1;
                pid[who] = s.spawn(&specs[who]);
            } else {
                libc::syscall(libc::SYS_futex, state, libc::FUTEX_WAKE, 1);
            }
            let mut st = 0;
            loop {
                match std::ptr::read_volatile(state) {
                    0 => {
                        let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
                        libc::syscall(libc::SYS_futex, state, libc::FUTEX_WAIT, 0, &ts);
                        if std::ptr::read_volatile(state) == 0 && libc::waitpid(pid[who], &mut st, libc::WNOHANG) == pid[who] { ended = true; break; }
                    }
                    1 if stops < 2000 => break,
                    1 => { libc::kill(pid[who], libc::SIGKILL); s.w.status = ST_HANG; while libc::waitpid(pid[who], &mut st, 0) != pid[who] {} ended = true; break; }
                    _ => { while libc::waitpid(pid[who], &mut st, 0) != pid[who] {} ended = true; break; }
                }
            }
            if ended {
                s.w.close_all();
                let mut r = s.finish(&specs[who], st);
                if s.w.status == ST_HANG { r.end = End::Hang; }
                life[who].ended = now;
                out[who] = Some(r);
            }
        }
    }
    let d = seats[last].w.snapshot();
    (out.into_iter().map(|r| r.unwrap()).collect(), life, d)
}

/// A piece of the finished drawing that is in memory only once it has been
/// drawn: the last opening tag with coordinates.
pub fn needle(svg: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(svg).to_string();
    let mut best = None;
    for tag in ["<text ", "<path ", "<rect ", "<ellipse ", "<line "] {
        if let Some(i) = s.rfind(tag) { if best.map(|b| i > b).unwrap_or(true) { best = Some(i); } }
    }
    match best {
        Some(i) => {
            let e = s[i..].find('>').map(|k| i + k + 1).unwrap_or(s.len());
            s.as_bytes()[i..e.min(i + 250)].to_vec()
        }
        None => vec![],
    }
}
