//! Threads of a simulated process that can be interrupted at every instruction.
//!
//! The threads are real, and exactly one of them runs; which one is decided by the simulator
//! (see `sched`). Code under test runs with the trap flag of the processor set, so that the
//! simulator gets control after every instruction of the program, counts it, and parks the
//! thread when its time is up. The simulator itself and the allocator are not interrupted.
use crate::{alloc, sched::Gate};
use std::{
    cell::Cell,
    sync::{
        atomic::{AtomicPtr, AtomicU64, Ordering},
        Arc, Once,
    },
};

/// No interruption before the next boundary.
pub const FOREVER: u64 = u64::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

const MAX_THREADS: usize = 8;
/// calls of the allocator of each thread
static PROGRESS: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];

static GATE: AtomicPtr<Gate> = AtomicPtr::new(std::ptr::null_mut());
/// instructions until the running thread is interrupted
static BUDGET: AtomicU64 = AtomicU64::new(FOREVER);
/// calls of the allocator until the instructions are counted
static CALLS: AtomicU64 = AtomicU64::new(FOREVER);
static AFTER: AtomicU64 = AtomicU64::new(FOREVER);
static INSTRUCTIONS: AtomicU64 = AtomicU64::new(0);
static INTERRUPTIONS: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

const TF: i64 = 0x100;

#[cfg(target_arch = "x86_64")]
#[inline(always)]
fn set_trap_flag() {
    // SAFETY: the handler is installed
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}

#[cfg(target_arch = "x86_64")]
extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    unsafe {
        let c = &mut *(c as *mut libc::ucontext_t);
        let budget = BUDGET.load(Ordering::Relaxed);
        if !ARMED.get() || budget == FOREVER {
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
            return;
        }
        let ip = c.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if ip < &__executable_start as *const u8 as usize || ip >= &etext as *const u8 as usize {
            return;
        }
        INSTRUCTIONS.fetch_add(1, Ordering::Relaxed);
        if budget > 0 {
            BUDGET.store(budget - 1, Ordering::Relaxed);
            return;
        }
        INTERRUPTIONS.fetch_add(1, Ordering::Relaxed);
        ARMED.set(false);
        let e = *libc::__errno_location();
        (*GATE.load(Ordering::Relaxed)).pause(ME.get());
        *libc::__errno_location() = e;
        ARMED.set(true);
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    });
}

/// While it exists, the thread is not interrupted.
pub struct Quiet(bool);

impl Quiet {
    #[inline(always)]
    pub fn new() -> Quiet {
        Quiet(ARMED.replace(false))
    }
}

impl Drop for Quiet {
    #[inline(always)]
    fn drop(&mut self) {
        if self.0 {
            rearm();
        }
    }
}

/// Runs a part of the simulator, which is not interrupted.
#[inline(always)]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::new();
    f()
}

#[inline(never)]
fn rearm() {
    ARMED.set(true);
    if BUDGET.load(Ordering::Relaxed) != FOREVER {
        set_trap_flag();
    }
}

struct Disarm;

impl Drop for Disarm {
    fn drop(&mut self) {
        ARMED.set(false);
    }
}

/// Runs code under test; in a simulated thread it may be interrupted.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    alloc::on(|| {
        let _d = Disarm;
        if ME.get() != usize::MAX {
            rearm();
        }
        f()
    })
}

/// The running thread gets so many instructions.
pub fn slice(n: u64) {
    CALLS.store(FOREVER, Ordering::Relaxed);
    BUDGET.store(n, Ordering::Relaxed);
}

/// The running thread gets so many calls of the allocator, and then so many instructions.
pub fn deep_slice(calls: u64, n: u64) {
    BUDGET.store(FOREVER, Ordering::Relaxed);
    AFTER.store(n, Ordering::Relaxed);
    CALLS.store(calls, Ordering::Relaxed);
}

/// The code under test calls the allocator.
#[inline(always)]
pub fn allocator() {
    if ARMED.get() {
        PROGRESS[ME.get() % MAX_THREADS].fetch_add(1, Ordering::Relaxed);
        let n = CALLS.load(Ordering::Relaxed);
        if n == 0 {
            CALLS.store(FOREVER, Ordering::Relaxed);
            BUDGET.store(AFTER.load(Ordering::Relaxed), Ordering::Relaxed);
        } else if n != FOREVER {
            CALLS.store(n - 1, Ordering::Relaxed);
        }
    }
}

pub struct Counts {
    pub instructions: u64,
    pub interruptions: u64,
    pub blocked: u64,
}

pub fn reset() {
    slice(FOREVER);
    INSTRUCTIONS.store(0, Ordering::Relaxed);
    INTERRUPTIONS.store(0, Ordering::Relaxed);
    BLOCKED.store(0, Ordering::Relaxed);
    for p in &PROGRESS {
        p.store(0, Ordering::Relaxed);
    }
}

/// The number of calls of the allocator a thread made.
pub fn progress(thread: usize) -> u64 {
    PROGRESS[thread % MAX_THREADS].load(Ordering::Relaxed)
}

pub fn counts() -> Counts {
    Counts {
        instructions: INSTRUCTIONS.load(Ordering::Relaxed),
        interruptions: INTERRUPTIONS.load(Ordering::Relaxed),
        blocked: BLOCKED.load(Ordering::Relaxed),
    }
}

/// Makes the calling thread a simulated thread.
pub fn enter(gate: &Arc<Gate>, me: usize) {
    install();
    GATE.store(Arc::as_ptr(gate) as *mut Gate, Ordering::Relaxed);
    ME.set(me);
    gate.pause(me);
}

pub fn leave(gate: &Arc<Gate>, me: usize) {
    ARMED.set(false);
    ME.set(usize::MAX);
    gate.finish(me);
}

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _);
    r
}

/// Replaces the function of libc: `std` waits for locks here. A simulated thread that has to
/// wait lets another one run.
///
/// # Safety
/// as `syscall(2)`
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const WAIT: i64 = 0;
    const WAIT_BITSET: i64 = 9;
    if n == libc::SYS_futex && ARMED.get() && matches!(b & 0x7F, WAIT | WAIT_BITSET) {
        ARMED.set(false);
        BLOCKED.fetch_add(1, Ordering::Relaxed);
        (*GATE.load(Ordering::Relaxed)).blocked(ME.get());
        rearm();
        return 0;
    }
    let r = raw(n, [a, b, c, d, e, f]);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
