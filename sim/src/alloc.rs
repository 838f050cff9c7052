//! The allocator: inside a simulated run every task allocates from its own
//! arena at a fixed address, so that addresses are a function of the seed.
use crate::world::{sim_alloc_point, sim_task, MAX_TASK};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const BASE: usize = 0x6000_0000_0000;
const SHIFT: usize = 32;
const REGIONS: usize = 8;
const REGION: usize = 192 << 20;
const NCLASS: usize = 64 + 24;

struct Arena {
    mapped: bool,
    bump: [usize; REGIONS],
    free: [usize; NCLASS],
    rng: u64,
}
pub struct SimAlloc;
struct State { arena: [Arena; MAX_TASK], scatter: u64 }
struct Cell(UnsafeCell<State>);
unsafe impl Sync for Cell {}
const A0: Arena = Arena { mapped: false, bump: [0; REGIONS], free: [0; NCLASS], rng: 0 };
static STATE: Cell = Cell(UnsafeCell::new(State { arena: [A0; MAX_TASK], scatter: 0 }));

static mut LIVE: (i64, i64) = (0, 0);
/// Bytes and pieces that simulated tasks have allocated and not given back.
pub fn live() -> (i64, i64) { unsafe { *std::ptr::addr_of!(LIVE) } }
unsafe fn count(bytes: i64, n: i64) {
    let p = std::ptr::addr_of_mut!(LIVE);
    (*p).0 += bytes;
    (*p).1 += n;
}
/// Seeds the placement of allocations (0: plain).
pub fn set_scatter(seed: u64) {
    unsafe { (*STATE.0.get()).scatter = seed; }
}
fn class(n: usize) -> (usize, usize) {
    if n <= 1024 {
        let c = (n.max(1) + 15) / 16;
        (c - 1, c * 16)
    } else {
        let p = n.next_power_of_two();
        let c = p.trailing_zeros() as usize - 11;
        (64 + c, p)
    }
}
unsafe fn split(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 29)
}
unsafe fn arena_alloc(t: usize, l: Layout) -> *mut u8 {
    let st = &mut *STATE.0.get();
    let scatter = st.scatter;
    let a = &mut st.arena[t];
    if !a.mapped {
        let p = libc::mmap((BASE + (t << SHIFT)) as *mut _, REGIONS * REGION, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != BASE + (t << SHIFT) { return std::ptr::null_mut(); }
        a.mapped = true;
        a.rng = scatter ^ (t as u64) << 7;
        for r in 0..REGIONS {
            a.bump[r] = BASE + (t << SHIFT) + r * REGION + 64;
            if scatter != 0 { a.bump[r] += (split(&mut a.rng) % 4096) as usize * 16; }
        }
    }
    count(l.size() as i64, 1);
    let big = l.align() > 16;
    let (c, sz) = class(l.size());
    if c >= NCLASS { libc::_exit(105); }
    let skip = scatter != 0 && split(&mut a.rng) % 4 == 0;
    if !big && !skip && a.free[c] != 0 {
        let p = a.free[c] as *mut u8;
        a.free[c] = *(p as *const usize);
        return p;
    }
    let r = if scatter != 0 { (split(&mut a.rng) % REGIONS as u64) as usize } else { 0 };
    for k in 0..REGIONS {
        let r = (r + k) % REGIONS;
        let end = BASE + (t << SHIFT) + (r + 1) * REGION;
        let p = (a.bump[r] + l.align().max(16) - 1) & !(l.align().max(16) - 1);
        if p + sz <= end { a.bump[r] = p + sz; return p as *mut u8; }
    }
    // The run has used up its memory.
    libc::_exit(105);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = sim_task();
        if t < 0 { return System.alloc(l); }
        if sim_alloc_point_active() != 0 { return std::ptr::null_mut(); }
        arena_alloc(t as usize, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >> 40 != BASE >> 40 { return System.dealloc(p, l); }
        count(-(l.size() as i64), -1);
        let t = (a - BASE) >> SHIFT;
        let st = &mut *STATE.0.get();
        let (c, _) = class(l.size());
        if l.align() <= 16 {
            *(p as *mut usize) = st.arena[t].free[c];
            st.arena[t].free[c] = a;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        if a >> 40 == BASE >> 40 {
            if l.align() <= 16 && class(l.size()).1 == class(n).1 { count(n as i64 - l.size() as i64, 0); return p; }
        } else if sim_task() < 0 {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[inline]
unsafe fn sim_alloc_point_active() -> i32 {
    extern "C" { fn sim_active() -> i32; }
    if sim_active() != 0 { sim_alloc_point() } else { 0 }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
