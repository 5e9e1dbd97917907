//! The simulated system allocator.
//!
//! Code under test allocates from an arena at a fixed address, so that addresses are a function
//! of the run. The simulator decides about placement and reuse, can fail any request, and checks
//! every release. The harness itself allocates from the system allocator.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicBool, Ordering},
};

pub struct SimAlloc;

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// blocks of a size class are reused, last released first
    Reuse,
    /// ascending addresses, no reuse, red zones, poison
    Up,
    /// descending addresses, no reuse, red zones, poison
    Down,
    /// every block ends at an inaccessible page, released blocks become inaccessible
    Guard,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub mode: Mode,
    /// gaps between blocks
    pub seed: u64,
    /// the request that fails (counted from 0)
    pub fail_at: u64,
    /// all later requests fail, too
    pub fail_on: bool,
    pub cap: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            mode: Mode::Reuse,
            seed: 0,
            fail_at: u64::MAX,
            fail_on: false,
            cap: 64 << 20,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrKind {
    None,
    DoubleFree,
    InvalidFree,
    LayoutMismatch,
    Overrun,
    WriteAfterFree,
    Exhausted,
}

#[derive(Clone, Copy, Debug)]
pub struct MemErr {
    pub kind: ErrKind,
    pub size: usize,
    pub align: usize,
    pub seq: u32,
}

#[derive(Clone, Copy)]
struct Blk {
    addr: usize,
    size: usize,
    align: usize,
    live: bool,
    /// room before and after the block, which has to stay untouched
    front: u32,
    back: u32,
    mode: Mode,
}

const BASE: usize = 0x1000_0000_0000;
const ARENA: usize = 1 << 29;
const GRANULE: usize = 16;
const MAX_BLK: usize = 1 << 21;
const PAGE: usize = 4096;
const ZONE: u8 = 0xFA;
const POISON: u8 = 0xDD;
const FRESH: u8 = 0xA5;
const CLASSES: usize = 40;

struct State {
    cfg: Cfg,
    ready: bool,
    index: *mut u32,
    blk: *mut Blk,
    n: usize,
    up: usize,
    down: usize,
    rng: u64,
    free: [[u32; 64]; CLASSES],
    free_n: [usize; CLASSES],
    live_bytes: usize,
    live_blocks: usize,
    peak: usize,
    requests: u64,
    failed: u64,
    moved: u64,
    err: [MemErr; 8],
    err_n: usize,
}

static LOCK: AtomicBool = AtomicBool::new(false);

static mut STATE: State = State {
    cfg: Cfg {
        mode: Mode::Reuse,
        seed: 0,
        fail_at: u64::MAX,
        fail_on: false,
        cap: 0,
    },
    ready: false,
    index: std::ptr::null_mut(),
    blk: std::ptr::null_mut(),
    n: 0,
    up: 0,
    down: 0,
    rng: 0,
    free: [[0; 64]; CLASSES],
    free_n: [0; CLASSES],
    live_bytes: 0,
    live_blocks: 0,
    peak: 0,
    requests: 0,
    failed: 0,
    moved: 0,
    err: [MemErr {
        kind: ErrKind::None,
        size: 0,
        align: 0,
        seq: 0,
    }; 8],
    err_n: 0,
};

fn locked<R>(f: impl FnOnce(&mut State) -> R) -> R {
    crate::preempt::quiet(|| {
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        #[allow(static_mut_refs)]
        let r = f(unsafe { &mut STATE });
        LOCK.store(false, Ordering::Release);
        r
    })
}

unsafe fn map(addr: usize, len: usize, prot: i32) -> *mut u8 {
    let flags = libc::MAP_PRIVATE
        | libc::MAP_ANONYMOUS
        | libc::MAP_NORESERVE
        | if addr != 0 { libc::MAP_FIXED_NOREPLACE } else { 0 };
    let p = libc::mmap(addr as *mut _, len, prot, flags, -1, 0);
    assert!(p != libc::MAP_FAILED, "mmap");
    assert!(addr == 0 || p as usize == addr, "mmap address");
    p as *mut u8
}

/// Reserves the arena. It has to be called once, before anything else.
pub fn init() {
    locked(|s| unsafe {
        map(BASE, ARENA, libc::PROT_READ | libc::PROT_WRITE);
        s.index = map(
            0,
            ARENA / GRANULE * 4,
            libc::PROT_READ | libc::PROT_WRITE,
        ) as *mut u32;
        s.blk = map(
            0,
            MAX_BLK * std::mem::size_of::<Blk>(),
            libc::PROT_READ | libc::PROT_WRITE,
        ) as *mut Blk;
        s.ready = true;
        s.up = BASE + PAGE;
        s.down = BASE + ARENA - PAGE;
    })
}

/// Forgets all blocks and starts with an empty arena.
pub fn reset(cfg: Cfg) {
    locked(|s| unsafe {
        assert!(s.ready);
        for i in 0..s.n {
            let b = &*s.blk.add(i);
            s.index.add((b.addr - BASE) / GRANULE).write(0);
        }
        if s.cfg.mode == Mode::Guard {
            libc::mprotect(
                BASE as *mut _,
                ARENA,
                libc::PROT_READ | libc::PROT_WRITE,
            );
        }
        s.n = 0;
        s.up = BASE + PAGE;
        s.down = BASE + ARENA - PAGE;
        s.rng = cfg.seed;
        s.free_n = [0; CLASSES];
        s.live_bytes = 0;
        s.live_blocks = 0;
        s.peak = 0;
        s.requests = 0;
        s.failed = 0;
        s.err_n = 0;
        s.cfg = cfg;
    })
}

/// Changes the failing request; the count of requests restarts.
pub fn fail_at(n: u64, on: bool) {
    locked(|s| {
        s.requests = 0;
        s.cfg.fail_at = n;
        s.cfg.fail_on = on;
    })
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Info {
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub peak: usize,
    pub requests: u64,
    pub failed: u64,
}

pub fn info() -> Info {
    locked(|s| Info {
        live_bytes: s.live_bytes,
        live_blocks: s.live_blocks,
        peak: s.peak,
        requests: s.requests,
        failed: s.failed,
    })
}

pub fn is_on() -> bool {
    ON.with(|x| x.get())
}

struct Restore(bool);

impl Drop for Restore {
    fn drop(&mut self) {
        ON.with(|x| x.set(self.0));
    }
}

/// Runs code under test: its allocations are simulated.
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(ON.with(|x| x.replace(true)));
    f()
}

/// Runs harness code.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _q = crate::preempt::Quiet::new();
    let _r = Restore(ON.with(|x| x.replace(false)));
    f()
}

fn in_arena(p: usize) -> bool {
    (BASE..BASE + ARENA).contains(&p)
}

impl State {
    fn error(&mut self, kind: ErrKind, size: usize, align: usize, seq: u32) {
        if self.err_n < self.err.len() {
            self.err[self.err_n] = MemErr {
                kind,
                size,
                align,
                seq,
            };
            self.err_n += 1;
        }
    }
    fn next(&mut self) -> usize {
        let mut r = crate::choices::Rng::new(self.rng);
        let v = r.next();
        self.rng = v;
        v as usize
    }
    fn class(size: usize, align: usize) -> usize {
        let n = size.max(align).max(GRANULE);
        (usize::BITS - (n - 1).leading_zeros()) as usize
    }
    unsafe fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        let request = self.requests;
        self.requests += 1;
        if request == self.cfg.fail_at || (self.cfg.fail_on && request > self.cfg.fail_at) {
            self.failed += 1;
            return std::ptr::null_mut();
        }
        if self.live_bytes + size > self.cfg.cap || self.n >= MAX_BLK {
            self.error(ErrKind::Exhausted, size, align, request as u32);
            return std::ptr::null_mut();
        }
        let gap = if self.cfg.seed == 0 {
            0
        } else {
            (self.next() % 8) * GRANULE
        };
        let up = |x: usize, a: usize| (x + a - 1) & !(a - 1);
        let mut front = 0;
        let mut back = 0;
        let mut reused = None;
        // the kernel limits the number of mappings, and the arena its size
        let mode = match self.cfg.mode {
            Mode::Guard if self.n > 10_000 => Mode::Up,
            m => m,
        };
        let mode = match mode {
            Mode::Up | Mode::Down if self.down - self.up < ARENA / 4 => Mode::Reuse,
            m => m,
        };
        let addr = match mode {
            Mode::Reuse => {
                let c = Self::class(size, align);
                let fits = c < CLASSES && self.free_n[c] > 0 && {
                    let id = self.free[c][self.free_n[c] - 1];
                    (*self.blk.add(id as usize)).addr % align == 0
                };
                if fits {
                    self.free_n[c] -= 1;
                    let id = self.free[c][self.free_n[c]];
                    reused = Some(id);
                    (*self.blk.add(id as usize)).addr
                } else {
                    let n = 1usize << c;
                    let a = up(self.up + gap, align.max(GRANULE));
                    self.up = a + n;
                    a
                }
            }
            Mode::Up => {
                let a = up(self.up + GRANULE + gap, align.max(GRANULE));
                front = (a - self.up).min(64);
                back = up(size, GRANULE) + GRANULE - size;
                self.up = a + size + back;
                a
            }
            Mode::Down => {
                back = up(size, GRANULE) + GRANULE - size;
                let a = (self.down - back - size - gap) & !(align.max(GRANULE) - 1);
                back = (self.down - a - size).min(64 + GRANULE);
                front = GRANULE;
                self.down = a - front;
                a
            }
            Mode::Guard => {
                let pages = up(size.max(1), PAGE);
                let start = up(self.up, PAGE) + PAGE;
                self.up = start + pages + PAGE;
                // as near to the page as the alignment permits
                let a = (start + pages - size.max(1)) & !(align - 1);
                libc::mprotect((start - PAGE) as *mut _, PAGE, libc::PROT_NONE);
                libc::mprotect((start + pages) as *mut _, PAGE, libc::PROT_NONE);
                back = start + pages - a - size;
                front = (a - start).min(64);
                a
            }
        };
        if self.up + PAGE > self.down {
            self.error(ErrKind::Exhausted, size, align, request as u32);
            return std::ptr::null_mut();
        }
        let p = addr as *mut u8;
        if front > 0 {
            p.sub(front).write_bytes(ZONE, front);
        }
        if back > 0 {
            p.add(size).write_bytes(ZONE, back);
        }
        p.write_bytes(FRESH, size);
        let id = match reused {
            Some(id) => id as usize,
            None => {
                self.n += 1;
                self.n - 1
            }
        };
        self.blk.add(id).write(Blk {
            addr,
            size,
            align,
            live: true,
            front: front as u32,
            back: back as u32,
            mode,
        });
        self.index
            .add((addr - BASE) / GRANULE)
            .write(id as u32 + 1);
        self.live_bytes += size;
        self.live_blocks += 1;
        self.peak = self.peak.max(self.live_bytes);
        p
    }
    unsafe fn zones_ok(b: &Blk) -> bool {
        let p = b.addr as *const u8;
        (0..b.front as usize).all(|i| *p.sub(i + 1) == ZONE)
            && (0..b.back as usize).all(|i| *p.add(b.size + i) == ZONE)
    }
    unsafe fn free(&mut self, p: usize, size: usize, align: usize) {
        let id = *self.index.add((p - BASE) / GRANULE);
        if id == 0 || (*self.blk.add(id as usize - 1)).addr != p {
            self.error(ErrKind::InvalidFree, size, align, 0);
            return;
        }
        let id = id - 1;
        let b = &mut *self.blk.add(id as usize);
        if !b.live {
            self.error(ErrKind::DoubleFree, size, align, id);
            return;
        }
        if b.size != size || b.align != align {
            self.error(ErrKind::LayoutMismatch, b.size, size, id);
        }
        let b = &mut *self.blk.add(id as usize);
        if !Self::zones_ok(b) {
            let (s, a) = (b.size, b.align);
            self.error(ErrKind::Overrun, s, a, id);
        }
        let b = &mut *self.blk.add(id as usize);
        b.live = false;
        self.live_bytes -= b.size;
        self.live_blocks -= 1;
        (p as *mut u8).write_bytes(POISON, b.size);
        match b.mode {
            Mode::Reuse => {
                let c = Self::class(b.size, b.align);
                if c < CLASSES && self.free_n[c] < 64 {
                    self.free[c][self.free_n[c]] = id;
                    self.free_n[c] += 1;
                }
            }
            Mode::Guard => {
                let start = p & !(PAGE - 1);
                let end = (p + b.size.max(1) + PAGE - 1) & !(PAGE - 1);
                libc::mprotect(start as *mut _, end - start, libc::PROT_NONE);
            }
            _ => {}
        }
    }
    unsafe fn check(&mut self) {
        for i in 0..self.n {
            let b = *self.blk.add(i);
            if b.live {
                if !Self::zones_ok(&b) {
                    self.error(ErrKind::Overrun, b.size, b.align, i as u32);
                    (*self.blk.add(i)).front = 0;
                    (*self.blk.add(i)).back = 0;
                }
            } else if matches!(b.mode, Mode::Up | Mode::Down) {
                let p = b.addr as *const u8;
                if !(0..b.size).all(|k| *p.add(k) == POISON) {
                    self.error(ErrKind::WriteAfterFree, b.size, b.align, i as u32);
                    (b.addr as *mut u8).write_bytes(POISON, b.size);
                }
            }
        }
    }
}

/// Checks all blocks and takes the errors found so far.
pub fn take_errors() -> Vec<MemErr> {
    let mut buf = [None; 8];
    let n = locked(|s| {
        unsafe { s.check() };
        for i in 0..s.err_n {
            buf[i] = Some(s.err[i]);
        }
        let n = s.err_n;
        s.err_n = 0;
        n
    });
    off(|| buf[..n].iter().map(|x| x.unwrap()).collect())
}

/// Sizes of the live blocks, in the order of allocation.
pub fn live_sizes() -> Vec<usize> {
    off(|| {
        let mut r = Vec::with_capacity(1024);
        locked(|s| {
            for i in 0..s.n {
                let b = unsafe { &*s.blk.add(i) };
                if b.live && r.len() < 1024 {
                    r.push(b.size);
                }
            }
        });
        r
    })
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if is_on() {
            crate::preempt::allocator();
            locked(|s| s.alloc(l.size(), l.align()))
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if is_on() {
            crate::preempt::allocator();
            let p = locked(|s| s.alloc(l.size(), l.align()));
            if !p.is_null() {
                crate::preempt::quiet(|| p.write_bytes(0, l.size()));
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            crate::preempt::allocator();
            locked(|s| s.free(p as usize, l.size(), l.align()))
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) {
            crate::preempt::allocator();
            locked(|s| {
                let q = s.alloc(n, l.align());
                if !q.is_null() {
                    q.copy_from_nonoverlapping(p, l.size().min(n));
                    s.free(p as usize, l.size(), l.align());
                    s.moved += 1;
                }
                q
            })
        } else {
            System.realloc(p, l, n)
        }
    }
}
