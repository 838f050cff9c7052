//! The Rust side of the simulated operating system (simos.h).
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const W_MAGIC: u64 = 0x53494d4f53313031;
pub const MAX_INO: usize = 48;
pub const MAX_DIRENT: usize = 64;
pub const MAX_FD: usize = 1024;
pub const PATH_LEN: usize = 192;
pub const MAX_FAULT: usize = 48;
pub const MAX_EV: usize = 768;
pub const MAX_SCHED: usize = 16384;
pub const MAX_TASK: usize = 24;
pub const MAX_GUARD: usize = 65536;
pub const NEEDLE_LEN: usize = 256;
pub const MAX_WPATH: usize = 16;
pub const OUT_SZ: usize = 1 << 18;
pub const DATA_SZ: usize = 16 << 20;
pub const BB_SZ: usize = 32 << 20;
pub const C_N: usize = 21;
pub const F_N: usize = 12;

pub const CLASSES: [&str; C_N] = [
    "open_read", "open_write", "read", "write", "close", "stat", "seek", "sync", "rename", "truncate", "unlink",
    "stdout", "stderr", "alloc", "clock", "random", "futex", "sleep", "call", "meta", "step",
];
pub const KINDS: [&str; F_N] = [
    "none", "error", "short", "eintr", "zero", "crash_before", "crash_after", "crash_mid", "size_lie", "delay", "clock_jump",
    "disk_full",
];
pub const C_OPEN_R: u32 = 0;
pub const C_OPEN_W: u32 = 1;
pub const C_READ: u32 = 2;
pub const C_WRITE: u32 = 3;
pub const C_CLOSE: u32 = 4;
pub const C_STAT: u32 = 5;
pub const C_SEEK: u32 = 6;
pub const C_SYNC: u32 = 7;
pub const C_RENAME: u32 = 8;
pub const C_TRUNC: u32 = 9;
pub const C_UNLINK: u32 = 10;
pub const C_STDOUT: u32 = 11;
pub const C_STDERR: u32 = 12;
pub const C_ALLOC: u32 = 13;
pub const C_CLOCK: u32 = 14;
pub const C_META: u32 = 19;
pub const F_ERR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_EINTR: u32 = 3;
pub const F_ZERO: u32 = 4;
pub const F_CRASH_BEFORE: u32 = 5;
pub const F_CRASH_AFTER: u32 = 6;
pub const F_CRASH_MID: u32 = 7;
pub const F_SIZE_LIE: u32 = 8;
pub const F_DELAY: u32 = 9;
pub const F_JUMP: u32 = 10;
pub const F_FULL: u32 = 11;

pub const ST_DONE: u32 = 1;
pub const ST_CRASHED: u32 = 2;
pub const ST_HANG: u32 = 3;
pub const ST_DEADLOCK: u32 = 4;
pub const ST_LIMIT: u32 = 5;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Inode {
    pub used: u32, pub kind: u32, pub mode: u32, pub nopen: u32, pub nlink: u32, pub pad: u32,
    pub off: u64, pub len: u64, pub cap: u64, pub mtime: i64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dirent { pub used: u32, pub ino: u32, pub path: [u8; PATH_LEN] }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fd { pub used: u32, pub ino: u32, pub flags: u32, pub std: u32, pub pos: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct FaultW { pub cls: u32, pub kind: u32, pub nth: u64, pub repeat: u64, pub arg: i64, pub fired: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev { pub op: u16, pub task: u16, pub ino: i32, pub a: i64, pub r: i64, pub fault: u32, pub pad: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Sw { pub task: u32, pub next: u32, pub step: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct TaskW {
    pub state: u32, pub arena: u32, pub woken: u32, pub pad: u32,
    pub steps: u64, pub wait_addr: u64, pub wake_ns: u64, pub join_of: u64,
}
#[repr(C)]
pub struct World {
    pub magic: u64, pub size: u64,
    pub sched_on: u32, pub sched_mode: u32, pub sched_seed: u64, pub sched_p: u64, pub sched_len: u64,
    pub sched_p2: u64, pub sched_guard: u64,
    pub budget: u64, pub crash_step: u64, pub capacity: u64, pub rnd_seed: u64,
    pub clock_real: i64, pub clock_mono: i64, pub clock_tick: i64,
    pub pid: u32, pub ncpu: u32, pub spurious: u32, pub nfault: u32, pub kill_real: u32, pub watch_on: u32,
    pub watch: [u8; PATH_LEN],
    pub needle_len: u32, pub pad1: u32,
    pub needle: [u8; NEEDLE_LEN],
    pub cwd: [u8; PATH_LEN],
    pub fault: [FaultW; MAX_FAULT],
    pub nsched_in: u32, pub pad2: u32,
    pub env_seed: u64,
    pub gate_on: u32, pub gate_state: u32, pub gate_left: u64,
    pub status: u32, pub exit_code: i32,
    pub total_steps: u64,
    pub cnt: [u64; C_N],
    pub fired: [[u64; F_N]; C_N],
    pub ev_n: u64, pub ev_hash: u64,
    pub nswitch: u64, pub ninteresting: u64, pub sw_hash: u64, pub nblocked: u64, pub nguards: u64,
    pub touch_step: u64, pub touch_op: u64, pub touched: u32, pub touch_needle: u32,
    pub stdout_len: u64, pub stderr_len: u64, pub stdout_tot: u64, pub stderr_tot: u64,
    pub bb_len: u64,
    pub rnd_n: u64, pub data_used: u64, pub disk_used: u64,
    pub ntask: u32, pub cur: u32, pub nsched_out: u32, pub harness_err: u32,
    pub user: [u64; 32],
    pub nwpath: u32, pub pad3: u32,
    pub wpath: [[u8; PATH_LEN]; MAX_WPATH],
    pub nrpath: u32, pub nenv: u32,
    pub rpath: [[u8; PATH_LEN]; MAX_WPATH],
    pub task: [TaskW; MAX_TASK],
    pub ino: [Inode; MAX_INO],
    pub dir: [Dirent; MAX_DIRENT],
    pub fd: [Fd; MAX_FD],
    pub ev: [Ev; MAX_EV],
    pub gmap: [u8; MAX_GUARD / 8],
    pub sched_in: [Sw; MAX_SCHED],
    pub sched_out: [Sw; MAX_SCHED],
    pub out: [[u8; OUT_SZ]; 2],
    pub data: [u8; DATA_SZ],
    pub bb: [u8; BB_SZ],
}

extern "C" {
    pub fn sim_world_size() -> u64;
    pub fn sim_attach(w: *mut World);
    pub fn sim_start();
    pub fn sim_stop();
    pub fn sim_pause(on: i32);
    pub fn sim_task() -> i32;
    pub fn sim_call_point(id: u32);
    pub fn sim_alloc_point() -> i32;
    pub fn sim_steps() -> u64;
}

/// A file or directory of the simulated disk.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Node {
    Dir { mode: u32 },
    File { mode: u32, body: Body },
}
/// Bytes, written compactly: text when it is text.
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Body {
    Text(String),
    Bytes(Vec<u8>),
    /// Seeded filler.
    Gen { len: usize, seed: u64, flavour: u32 },
    /// Like another text: 0 the same, 1 one character changed, 2 longer, 3 a
    /// prefix, 4 changed from there on at the same length, 5 changed up to there.
    Near { base: Box<Body>, at: usize, how: u32 },
}
impl Body {
    fn near(b: &str, at: usize, how: u32) -> String {
        let mut i = at.min(b.len());
        while !b.is_char_boundary(i) { i -= 1; }
        let fill = |n: usize| crate::gen::filler(n, at as u64 ^ 0x77, 2);
        match how {
            1 => {
                let mut v = b.as_bytes().to_vec();
                let k = v[i..].iter().position(|c| c.is_ascii()).map(|k| k + i).or_else(|| v.iter().position(|c| c.is_ascii()));
                if let Some(k) = k { v[k] = if v[k] == b'7' { b'8' } else { b'7' }; }
                String::from_utf8(v).unwrap()
            }
            2 => format!("{}{}", b, fill(1 + at % 5000)),
            3 => b[..i].to_string(),
            4 => format!("{}{}", &b[..i], fill(b.len() - i)),
            5 => format!("{}{}", fill(i), &b[i..]),
            _ => b.to_string(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Body::Text(s) => s.as_bytes().to_vec(),
            Body::Bytes(b) => b.clone(),
            Body::Gen { len, seed, flavour } => crate::gen::filler(*len, *seed, *flavour).into_bytes(),
            Body::Near { base, at, how } => Body::near(&String::from_utf8_lossy(&base.bytes()), *at, *how).into_bytes(),
        }
    }
    pub fn of(b: &[u8]) -> Body {
        match std::str::from_utf8(b) {
            Ok(s) => Body::Text(s.to_string()),
            Err(_) => Body::Bytes(b.to_vec()),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Body::Text(s) => s.len(),
            Body::Bytes(b) => b.len(),
            _ => self.bytes().len(),
        }
    }
}
pub type Disk = BTreeMap<String, Node>;

#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub struct Fault { pub cls: u32, pub kind: u32, pub nth: u64, pub repeat: u64, pub arg: i64 }
impl Fault {
    pub fn describe(&self) -> String {
        format!("{}#{}{}:{}({})", CLASSES[self.cls as usize], self.nth,
            if self.repeat > 1 { format!("x{}", self.repeat) } else { String::new() }, KINDS[self.kind as usize], self.arg)
    }
    /// True if the trouble is one that a retry gets over.
    pub fn transient(&self) -> bool {
        matches!(self.kind, F_SHORT | F_EINTR | F_SIZE_LIE | F_DELAY | F_JUMP)
    }
    pub fn crash(&self) -> bool { matches!(self.kind, F_CRASH_BEFORE | F_CRASH_AFTER | F_CRASH_MID) }
}

fn put_path(dst: &mut [u8; PATH_LEN], s: &str) {
    assert!(s.len() < PATH_LEN, "path too long for the simulated disk");
    dst.fill(0);
    dst[..s.len()].copy_from_slice(s.as_bytes());
}
fn get_path(b: &[u8; PATH_LEN]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(PATH_LEN);
    String::from_utf8_lossy(&b[..n]).to_string()
}

impl World {
    /// Maps a world; fd is the memory file to use, or -1.
    pub fn map(fd: i32) -> &'static mut World {
        unsafe {
            assert_eq!(sim_world_size() as usize, std::mem::size_of::<World>(), "simos.h and world.rs disagree");
            let flags = if fd < 0 { libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE } else { libc::MAP_SHARED };
            let hint = if fd < 0 { 0x520000000000usize } else { 0x530000000000usize };
            let p = libc::mmap(hint as *mut _, std::mem::size_of::<World>(), libc::PROT_READ | libc::PROT_WRITE, flags, fd, 0);
            assert!(p != libc::MAP_FAILED, "can't map the world");
            &mut *(p as *mut World)
        }
    }
    pub fn reset(&mut self) {
        unsafe {
            let p = self as *mut World as *mut u8;
            let n = &self.sched_in as *const _ as usize - p as usize;
            std::ptr::write_bytes(p, 0, n);
        }
        self.magic = W_MAGIC;
        self.size = std::mem::size_of::<World>() as u64;
        self.budget = 2_000_000_000;
        self.capacity = 1 << 40;
        self.pid = 4242;
        self.ncpu = 4;
        self.clock_real = 1_700_000_000_000_000_000;
        self.clock_mono = 1_000_000_000_000;
        self.clock_tick = 1000;
        put_path(&mut self.cwd, "/work");
    }
    pub fn set_faults(&mut self, f: &[Fault]) {
        assert!(f.len() <= MAX_FAULT);
        for (i, f) in f.iter().enumerate() {
            self.fault[i] = FaultW { cls: f.cls, kind: f.kind, nth: f.nth, repeat: f.repeat.max(1), arg: f.arg, fired: 0 };
        }
        self.nfault = f.len() as u32;
    }
    pub fn set_cwd(&mut self, p: &str) { put_path(&mut self.cwd, p) }
    /// Open files that nobody has closed.
    pub fn open_files(&self) -> usize { self.fd.iter().filter(|f| f.used != 0).count() }
    pub fn set_watch(&mut self, path: &str, needle: &[u8]) {
        put_path(&mut self.watch, path);
        self.watch_on = 1;
        let n = needle.len().min(NEEDLE_LEN);
        self.needle[..n].copy_from_slice(&needle[..n]);
        self.needle_len = n as u32;
    }
    pub fn set_disk(&mut self, d: &Disk) {
        assert!(d.len() + 8 < MAX_INO, "too many files");
        for (i, (p, n)) in d.iter().enumerate() {
            put_path(&mut self.dir[i].path, p);
            self.dir[i].used = 1;
            self.dir[i].ino = (i + 1) as u32;
            let ino = &mut self.ino[i + 1];
            ino.used = 1;
            ino.nlink = 1;
            // Long ago, a moment ago, at the moment, later.
            let h = crate::gen::hash(p.as_bytes()) ^ self.rnd_seed;
            ino.mtime = self.clock_real.saturating_add(match h % 5 { 0 => 0, 1 => -(((h >> 8) % 3_000_000_000) as i64), 2 => ((h >> 8) % 100_000_000_000_000) as i64, _ => -(((h >> 8) % 10_000_000_000_000_000) as i64) }).max(0);
            match n {
                Node::Dir { mode } => { ino.kind = 2; ino.mode = *mode; }
                Node::File { mode, body } => {
                    let b = body.bytes();
                    ino.kind = 1;
                    ino.mode = *mode;
                    ino.off = self.data_used;
                    ino.len = b.len() as u64;
                    ino.cap = ((b.len() + 15) & !15) as u64;
                    let o = ino.off as usize;
                    self.data[o..o + b.len()].copy_from_slice(&b);
                    self.data_used += ino.cap;
                    self.disk_used += ino.len;
                }
            }
        }
    }
    /// Takes over the disk of another world.
    pub fn disk_from(&mut self, o: &World) {
        self.ino = o.ino;
        self.dir = o.dir;
        self.data_used = o.data_used;
        self.disk_used = o.disk_used;
        let n = o.data_used as usize;
        self.data[..n].copy_from_slice(&o.data[..n]);
    }
    fn let_go(&mut self, i: usize) {
        let n = &mut self.ino[i];
        if n.nlink == 0 && n.nopen == 0 { self.disk_used -= n.len; n.len = 0; n.used = 0; }
    }
    /// The end of a process closes its files.
    pub fn close_all(&mut self) {
        for k in 0..MAX_FD {
            if self.fd[k].used == 0 { continue; }
            self.fd[k].used = 0;
            let i = self.fd[k].ino as usize;
            self.ino[i].nopen -= 1;
            self.let_go(i);
        }
    }
    /// Somebody else replaces a file (by a new one) or removes it.
    pub fn put(&mut self, path: &str, body: Option<&[u8]>) {
        let old = self.dir.iter().position(|d| d.used != 0 && get_path(&d.path) == path);
        if let Some(k) = old {
            let i = self.dir[k].ino as usize;
            if self.ino[i].kind != 1 { return; }
            self.ino[i].nlink -= 1;
            self.dir[k].used = 0;
            self.let_go(i);
        }
        if let Some(b) = body {
            let i = (1..MAX_INO).find(|i| self.ino[*i].used == 0);
            let k = self.dir.iter().position(|d| d.used == 0);
            let (i, k) = match (i, k) { (Some(i), Some(k)) => (i, k), _ => { self.harness_err = 2; return; } };
            let off = self.data_used;
            if off as usize + b.len() + 16 > DATA_SZ { self.harness_err = 1; return; }
            self.data[off as usize..off as usize + b.len()].copy_from_slice(b);
            let cap = ((b.len() + 15) & !15) as u64;
            self.data_used += cap;
            self.disk_used += b.len() as u64;
            self.ino[i] = Inode { used: 1, kind: 1, mode: 0o644, nopen: 0, nlink: 1, pad: 0, off, len: b.len() as u64, cap, mtime: self.clock_real };
            self.dir[k].used = 1;
            self.dir[k].ino = i as u32;
            put_path(&mut self.dir[k].path, path);
        }
    }
    pub fn file(&self, path: &str) -> Option<&[u8]> {
        for d in self.dir.iter() {
            if d.used != 0 && get_path(&d.path) == path {
                let i = &self.ino[d.ino as usize];
                if i.kind != 1 { return None; }
                return Some(&self.data[i.off as usize..(i.off + i.len) as usize]);
            }
        }
        None
    }
    pub fn snapshot(&self) -> BTreeMap<String, (u32, u32, Vec<u8>)> {
        let mut m = BTreeMap::new();
        for d in self.dir.iter() {
            if d.used == 0 { continue; }
            let i = &self.ino[d.ino as usize];
            let b = if i.kind == 1 { self.data[i.off as usize..(i.off + i.len) as usize].to_vec() } else { vec![] };
            m.insert(get_path(&d.path), (i.kind, i.mode, b));
        }
        m
    }
    /// Appends a record to the journal, which survives the death of the run.
    pub fn journal(&mut self, kind: u32, task: u32, op: u32, parts: &[&[u8]]) {
        let tot: usize = parts.iter().map(|p| p.len() + 8).sum();
        let at = self.bb_len as usize;
        if at + tot + 32 > BB_SZ { self.harness_err = 4; return; }
        let mut o = at;
        let put = |o: &mut usize, bb: &mut [u8; BB_SZ], b: &[u8]| { bb[*o..*o + b.len()].copy_from_slice(b); *o += b.len(); };
        put(&mut o, &mut self.bb, &kind.to_le_bytes());
        put(&mut o, &mut self.bb, &task.to_le_bytes());
        put(&mut o, &mut self.bb, &op.to_le_bytes());
        put(&mut o, &mut self.bb, &(parts.len() as u32).to_le_bytes());
        for p in parts {
            put(&mut o, &mut self.bb, &(p.len() as u64).to_le_bytes());
            put(&mut o, &mut self.bb, p);
        }
        self.bb_len = o as u64;
    }
    pub fn read_journal(&self) -> Vec<Rec> {
        let mut v = vec![];
        let mut o = 0usize;
        let n = self.bb_len as usize;
        let u32_at = |o: usize| u32::from_le_bytes(self.bb[o..o + 4].try_into().unwrap());
        while o + 16 <= n {
            let (kind, task, op, np) = (u32_at(o), u32_at(o + 4), u32_at(o + 8), u32_at(o + 12));
            o += 16;
            let mut parts = vec![];
            for _ in 0..np {
                let l = u64::from_le_bytes(self.bb[o..o + 8].try_into().unwrap()) as usize;
                o += 8;
                parts.push(self.bb[o..o + l].to_vec());
                o += l;
            }
            v.push(Rec { kind, task, op, parts });
        }
        v
    }
    pub fn rpaths(&self) -> Vec<String> { self.rpath[..(self.nrpath as usize).min(MAX_WPATH)].iter().map(get_path).collect() }
    pub fn wpaths(&self) -> Vec<String> { self.wpath[..(self.nwpath as usize).min(MAX_WPATH)].iter().map(get_path).collect() }
    pub fn events(&self) -> Vec<String> {
        let n = (self.ev_n as usize).min(MAX_EV);
        self.ev[..n].iter().map(|e| format!("t{} {} ino={} a={:x} r={}{}", e.task,
            CLASSES.get(e.op as usize).unwrap_or(&"?"), e.ino, e.a, e.r,
            if e.fault > 0 { format!(" FAULT {}", KINDS[(e.fault - 1) as usize]) } else { String::new() })).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec { pub kind: u32, pub task: u32, pub op: u32, pub parts: Vec<Vec<u8>> }
pub const R_START: u32 = 1;
pub const R_END: u32 = 2;
pub const R_TAKE: u32 = 3;
pub const R_NOTE: u32 = 4;
/// What is in use: bytes, pieces, open files, files, threads, steps of the operation.
pub const R_LIVE: u32 = 5;
