//! Deterministic runtime: interposes the libc entry points used by std, parking_lot and candystore so that exactly
//! one thread runs at a time, the choice being data; enumerates file effects and stores to mapped headers as crash
//! points; tracks what has been synced; injects faults. Active only inside a forked case child.
#![allow(static_mut_refs)]
use libc::{c_char, c_int, c_long, c_void, off64_t, off_t, size_t, ssize_t, timespec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
         in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}

// ---------------------------------------------------------------- state
pub const MAXT: usize = 128;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Finished,
}
#[derive(Clone, Copy)]
pub struct Th {
    pub st: St,
    addr: usize,
    bitset: u32,
    deadline: u64,
    seq: u64,
    timed_out: bool,
    baton: u32,
    pth: libc::pthread_t,
    detached: bool,
    nopre: i32,
    start: usize,
    arg: usize,
    pub harness: bool,
    pub op: u64, // opaque id of the operation in progress, for messages
}
const TH0: Th = Th {
    st: St::Free, addr: 0, bitset: 0, deadline: u64::MAX, seq: 0, timed_out: false, baton: 0, pth: 0, detached: false,
    nopre: 0, start: 0, arg: 0, harness: false, op: 0,
};
#[derive(Clone, Copy, Debug)]
pub struct Pre {
    pub gap: u32,
    pub tgt: u32,
    pub step: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Write,
    Resize,
    Create,
    Trunc,
    Rename,
    Unlink,
    Sync,
    Header,
    Map,
    Read,
    Dir,
    Stat,
}
pub struct Sim {
    pub on: bool,
    pub th: [Th; MAXT],
    cur: usize,
    seq: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub vtime: u64,
    pub sched: Vec<Pre>,
    pub spos: usize,
    gap: u32,
    pub policy: u32,
    /// directory entries don't tell the type of their file
    pub no_dtype: bool,
    /// traffic so far
    pub rd_bytes: u64,
    pub rd_ops: u64,
    pub wr_bytes: u64,
    /// renames that replaced another file
    pub replacing: u64,
    /// pages of zeros are not really written, so that files of gigabytes take little memory
    pub sparse: bool,
    pub policy_ctr: u64,
    pub switches: u64,
    // single stepping
    step: u32,
    step_total: u32,
    step_tgt: u32,
    // header trapping
    pub trap: bool,
    maps: [(usize, usize, u64); 128], // addr, len, ino
    open_pages: [usize; 4],
    nopen: usize,
    // events
    pub dev: u64,
    pub evn: u64,
    pub ev_hdr: u64,
    pub on_ev: Option<fn(Ev)>,
    pub on_sync: Option<fn(c_int, u64)>,
    pub on_hdr_dirty: Option<fn(u64)>,
    pub on_create: Option<fn(u64)>,
    pub fault_tid: i32, // only this thread's calls fail (-1: any)
    // faults
    pub fault_mask: u32,
    pub fault_at: i64,
    pub fault_len: i64,
    pub fault_errno: c_int,
    /// reads and writes that fail do so after having been done in part, which is what they return first
    pub fault_short: bool,
    was_short: bool,
    pub fault_seen: i64,
    pub fault_fired: u64,
    pub fault_last: Ev,
    pub panics: u32,
}
pub static mut S: Sim = Sim {
    on: false, th: [TH0; MAXT], cur: 0, seq: 0, steps: 0, max_steps: u64::MAX, vtime: 1_000_000_000, sched: Vec::new(), spos: 0, gap: 0, policy: 0, no_dtype: false, rd_bytes: 0, rd_ops: 0, wr_bytes: 0, replacing: 0, sparse: false,
    policy_ctr: 0, switches: 0, step: 0, step_total: 0, step_tgt: 0, trap: false, maps: [(0, 0, 0); 128], open_pages: [0; 4], nopen: 0,
    dev: 0, evn: 0, ev_hdr: 0, on_ev: None, on_sync: None, on_hdr_dirty: None, on_create: None, fault_tid: -1, fault_mask: 0, fault_at: -1, fault_len: 1, fault_errno: 0,
    fault_short: false, was_short: false, fault_seen: 0, fault_fired: 0, fault_last: Ev::Write, panics: 0,
};
#[thread_local]
static TID: Cell<i32> = Cell::new(-1);
#[thread_local]
static NOPRE: Cell<i32> = Cell::new(1);

/// depth of runtime code on this thread: single stepping does not count or preempt there
#[thread_local]
static INRT: Cell<i32> = Cell::new(0);
struct InRt;
impl InRt {
    #[inline]
    fn new() -> InRt {
        INRT.set(INRT.get() + 1);
        InRt
    }
}
impl Drop for InRt {
    #[inline]
    fn drop(&mut self) {
        INRT.set(INRT.get() - 1);
    }
}

pub fn tid() -> i32 {
    TID.get()
}
#[inline]
fn in_sim() -> bool {
    unsafe { S.on && TID.get() >= 0 }
}
/// candystore code is running on this thread inside a simulation
#[inline]
fn active() -> bool {
    unsafe { S.on && TID.get() >= 0 && NOPRE.get() <= 0 }
}
/// Run candystore code: preemptible, observed, fault-injectable.
pub fn api<T>(op: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let t = TID.get();
    if t >= 0 {
        unsafe { S.th[t as usize].op = op };
    }
    let old = NOPRE.replace(0);
    yp();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    NOPRE.set(old);
    if t >= 0 {
        unsafe { S.th[t as usize].op = 0 };
    }
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
/// Leave candystore mode temporarily (callbacks)
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = NOPRE.get();
    NOPRE.set(old.max(0) + 1);
    let r = f();
    NOPRE.set(old);
    r
}

// ---------------------------------------------------------------- scheduler
unsafe fn wait_baton(me: usize) {
    let p = &raw mut S.th[me].baton;
    loop {
        if std::ptr::read_volatile(p) == 1 {
            std::ptr::write_volatile(p, 0);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            return;
        }
        raw(libc::SYS_futex, p as usize, 128, 0, 0, 0, 0);
    }
}
unsafe fn give_baton(n: usize) {
    S.cur = n;
    let p = &raw mut S.th[n].baton;
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
    std::ptr::write_volatile(p, 1);
    raw(libc::SYS_futex, p as usize, 129, 1, 0, 0, 0);
}
unsafe fn switch_to(n: usize) {
    let me = TID.get() as usize;
    if n == me {
        return;
    }
    S.switches += 1;
    // the step-trap and header page state belong to the running thread; close it before handing over
    close_pages();
    give_baton(n);
    wait_baton(me);
}
unsafe fn nth_runnable(k: u32, excl: usize, timed: bool) -> Option<usize> {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..MAXT {
        if i == excl {
            continue;
        }
        let t = &S.th[i];
        if t.st == St::Runnable || (timed && (t.st == St::Futex || t.st == St::Sleep) && t.deadline != u64::MAX) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some(c[k as usize % n])
    }
}
unsafe fn expire(i: usize) {
    let t = &mut S.th[i];
    if t.deadline > S.vtime {
        S.vtime = t.deadline;
    }
    t.timed_out = true;
    t.deadline = u64::MAX;
    t.st = St::Runnable;
}
unsafe fn preempt(tgt: u32) {
    let me = TID.get() as usize;
    let Some(n) = nth_runnable(tgt, me, true) else { return };
    if S.th[n].st != St::Runnable {
        expire(n);
    }
    switch_to(n);
}
unsafe fn policy_pick(me: usize) -> Option<usize> {
    S.policy_ctr += 1;
    match S.policy % 4 {
        0 => nth_runnable(0, usize::MAX, false),
        1 => {
            for d in 1..=MAXT {
                let i = (me + d) % MAXT;
                if S.th[i].st == St::Runnable {
                    return Some(i);
                }
            }
            None
        }
        2 => {
            for i in (0..MAXT).rev() {
                if S.th[i].st == St::Runnable {
                    return Some(i);
                }
            }
            None
        }
        _ => {
            let h = mix(S.policy as u64 ^ S.policy_ctr.wrapping_mul(0x9E3779B97F4A7C15));
            nth_runnable((h >> 33) as u32, usize::MAX, false)
        }
    }
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
/// current thread is no longer runnable: pick someone else
unsafe fn block() {
    let me = TID.get() as usize;
    // a blocked thread may also be picked by the preemption list at this point
    let n = match policy_pick(me) {
        Some(n) => n,
        None => {
            let mut best: Option<usize> = None;
            for i in 0..MAXT {
                let t = &S.th[i];
                if (t.st == St::Futex || t.st == St::Sleep) && t.deadline != u64::MAX {
                    if best.is_none() || t.deadline < S.th[best.unwrap()].deadline {
                        best = Some(i);
                    }
                }
            }
            match best {
                Some(b) => {
                    expire(b);
                    b
                }
                None => {
                    let mut v = String::from("deadlock: every thread is blocked;");
                    for i in 0..MAXT {
                        let t = &S.th[i];
                        if t.st != St::Free && t.st != St::Finished && (t.harness || t.op != 0) {
                            v.push_str(&format!(" thread {} blocked ({:?}) in {};", i, t.st, crate::engine::op_name(t.op)));
                        }
                    }
                    crate::engine::die_fail("deadlock", &v);
                }
            }
        }
    };
    if n != me {
        switch_to(n);
    }
}
#[inline]
pub fn yp() {
    if !active() {
        return;
    }
    let _g = InRt::new();
    unsafe {
        S.steps += 1;
        S.vtime += 20;
        if S.steps > S.max_steps {
            NOPRE.set(1);
            crate::engine::die_fail("livelock", &format!("no completion within {} scheduler steps", S.max_steps));
        }
        if S.step > 0 {
            S.step = 0;
            preempt(S.step_tgt);
            return;
        }
        if S.spos < S.sched.len() {
            if S.gap > 0 {
                S.gap -= 1;
            } else {
                let e = S.sched[S.spos];
                S.spos += 1;
                S.gap = if S.spos < S.sched.len() { S.sched[S.spos].gap } else { 0 };
                if e.step > 0 {
                    S.step = e.step;
                    S.step_total = 3000;
                    S.step_tgt = e.tgt;
                    asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
                } else {
                    preempt(e.tgt);
                }
            }
        }
    }
}
pub fn set_sched(v: Vec<Pre>, policy: u32) {
    unsafe {
        S.gap = v.first().map_or(0, |p| p.gap);
        S.sched = v;
        S.spos = 0;
        S.policy = policy;
        S.policy_ctr = 0;
    }
}
/// stop generated preemption (verification phases)
pub fn end_sched() {
    unsafe {
        S.spos = S.sched.len();
        S.step = 0;
    }
}
/// Let every other runnable thread run until it blocks (used to quiesce background threads)
pub fn drain() {
    unsafe {
        let me = TID.get() as usize;
        for _ in 0..100000 {
            let Some(n) = nth_runnable(0, me, false) else { return };
            switch_to(n);
        }
        crate::engine::die_fail("livelock", "background threads never become idle");
    }
}
/// block the calling harness thread until all other harness client threads are finished
pub fn start() {
    unsafe {
        install_signals();
        S.on = true;
        TID.set(0);
        NOPRE.set(1);
        S.th[0] = TH0;
        S.th[0].st = St::Runnable;
        S.th[0].harness = true;
        S.th[0].pth = libc::pthread_self();
        S.cur = 0;
    }
}

// ---------------------------------------------------------------- header trapping
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
unsafe fn close_pages() {
    for i in 0..S.nopen {
        raw(libc::SYS_mprotect, S.open_pages[i], 4096, libc::PROT_READ as usize, 0, 0, 0);
    }
    S.nopen = 0;
}
unsafe extern "C" fn on_segv(_sig: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let addr = (*info).si_addr() as usize;
    let ctx = &mut *(ctx as *mut libc::ucontext_t);
    if S.on {
        for i in 0..S.maps.len() {
            let (a, l, ino) = S.maps[i];
            if l != 0 && addr >= a && addr < a + l {
                let page = addr & !4095;
                if active() {
                    S.ev_hdr += 1;
                    event(Ev::Header);
                    yp();
                }
                if let Some(f) = S.on_hdr_dirty {
                    f(ino);
                }
                raw(libc::SYS_mprotect, page, 4096, (libc::PROT_READ | libc::PROT_WRITE) as usize, 0, 0, 0);
                if S.nopen < 4 {
                    S.open_pages[S.nopen] = page;
                    S.nopen += 1;
                }
                ctx.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
                return;
            }
        }
    }
    let msg = format!("memory fault (signal {}) at address {:#x}, code at {:#x}", _sig, addr, ctx.uc_mcontext.gregs[libc::REG_RIP as usize]);
    NOPRE.set(1);
    crate::engine::die_fail("signal", &msg);
}
unsafe extern "C" fn on_trap(_sig: c_int, _info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let ctx = &mut *(ctx as *mut libc::ucontext_t);
    if S.nopen > 0 {
        close_pages();
    }
    let rip = ctx.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let efl = &mut ctx.uc_mcontext.gregs[libc::REG_EFL as usize];
    if S.step > 0 && active() {
        S.step_total = S.step_total.saturating_sub(1);
        if S.step_total == 0 {
            S.step = 0;
            *efl &= !0x100;
            return;
        }
        if INRT.get() == 0 && rip >= &raw const __executable_start as usize && rip < &raw const etext as usize {
            S.step -= 1;
            if S.step == 0 {
                *efl &= !0x100;
                preempt(S.step_tgt);
                return;
            }
        }
        *efl |= 0x100;
    } else {
        *efl &= !0x100;
    }
}
unsafe fn install_signals() {
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
    sa.sa_sigaction = on_segv as usize;
    libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    sa.sa_sigaction = on_trap as usize;
    libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
}

// ---------------------------------------------------------------- events and faults
unsafe fn event(e: Ev) {
    S.evn += 1;
    if let Some(f) = S.on_ev {
        quiet(|| f(e));
    }
}
/// returns true if this operation has to fail
unsafe fn fault(e: Ev) -> bool {
    if S.fault_mask & (1 << e as u32) == 0 || S.fault_at < 0 {
        return false;
    }
    if S.fault_tid >= 0 && S.fault_tid != TID.get() {
        return false;
    }
    let n = S.fault_seen;
    S.fault_seen += 1;
    if n >= S.fault_at && n < S.fault_at + S.fault_len {
        S.fault_fired += 1;
        S.fault_last = e;
        true
    } else {
        false
    }
}
unsafe fn fd_ino(fd: c_int) -> Option<u64> {
    let mut st: libc::stat = std::mem::zeroed();
    if raw(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) < 0 {
        return None;
    }
    if st.st_dev == S.dev && (st.st_mode & libc::S_IFMT) == libc::S_IFREG {
        Some(st.st_ino)
    } else {
        None
    }
}
/// common prologue of mutating file calls: yield, crash point, fault. None = not an observed call
macro_rules! pre {
    ($ev:expr) => {{
        event($ev);
        yp();
        if fault($ev) {
            return fail(S.fault_errno) as _;
        }
    }};
}

unsafe fn is_our_dir(fd: c_int, path: *const c_char) -> bool {
    let mut st: libc::stat = std::mem::zeroed();
    let r = if path.is_null() {
        raw(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0)
    } else {
        raw(libc::SYS_newfstatat, fd as usize, path as usize, &mut st as *mut _ as usize, 0, 0, 0)
    };
    r >= 0 && st.st_dev == S.dev && (st.st_mode & libc::S_IFMT) == libc::S_IFDIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let _g = InRt::new();
    if active() && S.fault_mask != 0 && is_our_dir(libc::AT_FDCWD, path) && fault(Ev::Dir) {
        fail(S.fault_errno);
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(real_dir(c"opendir", &raw mut REAL_OPENDIR));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let _g = InRt::new();
    if active() && S.fault_mask != 0 && is_our_dir(libc::dirfd(d), std::ptr::null()) && fault(Ev::Dir) {
        fail(S.fault_errno);
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(real_dir(c"readdir64", &raw mut REAL_READDIR));
    let e = f(d);
    if !e.is_null() && active() && S.no_dtype && is_our_dir(libc::dirfd(d), std::ptr::null()) {
        // some file systems don't tell
        (*e).d_type = libc::DT_UNKNOWN;
    }
    e
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let _g = InRt::new();
    if active() && S.fault_mask & (1 << Ev::Stat as u32) != 0 && !path.is_null() && (*path != 0 || fd_ino(dfd).is_some()) && fault(Ev::Stat) {
        return fail(S.fault_errno) as c_int;
    }
    ret(raw(libc::SYS_statx, dfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}
static mut REAL_OPENDIR: usize = 0;
static mut REAL_READDIR: usize = 0;
unsafe fn real_dir(n: &std::ffi::CStr, at: *mut usize) -> usize {
    if *at == 0 {
        *at = libc::dlsym(libc::RTLD_NEXT, n.as_ptr()) as usize;
    }
    *at
}
/// a write that leaves holes for what is zero and lies beyond what was written before
unsafe fn sparse_write(fd: c_int, buf: *const u8, n: usize, off: u64) -> isize {
    let mut p = 0;
    while p < n {
        let len = (n - p).min(4096);
        let c = std::slice::from_raw_parts(buf.add(p), len);
        if c.iter().any(|b| *b != 0) {
            let mut done = 0;
            while done < len {
                let r = raw(libc::SYS_pwrite64, fd as usize, buf as usize + p + done, len - done, off as usize + p + done, 0, 0);
                if r <= 0 {
                    return r;
                }
                done += r as usize;
            }
        }
        p += len;
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let r = raw(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0);
    if r < 0 {
        return r;
    }
    if (st.st_size as u64) < off + n as u64 {
        let r = raw(libc::SYS_ftruncate, fd as usize, off as usize + n, 0, 0, 0, 0);
        if r < 0 {
            return r;
        }
    }
    S.wr_bytes += n as u64;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        event(Ev::Write);
        yp();
        if fault(Ev::Write) {
            if n > 1 && S.fault_short && !S.was_short {
                S.was_short = true;
                let r = raw(libc::SYS_pwrite64, fd as usize, buf as usize, n / 2, off as usize, 0, 0);
                if r > 0 {
                    S.wr_bytes += r as u64;
                }
                return ret(r);
            }
            S.was_short = false;
            // a failing write may have written a prefix
            if n > 1 && S.fault_errno == libc::ENOSPC {
                raw(libc::SYS_pwrite64, fd as usize, buf as usize, n / 2, off as usize, 0, 0);
            }
            return fail(S.fault_errno);
        }
        if n > 1 && S.on_ev.is_some() {
            // a kill may interrupt the write half way
            raw(libc::SYS_pwrite64, fd as usize, buf as usize, n / 2, off as usize, 0, 0);
            event(Ev::Write);
        }
    }
    if S.sparse && n > 8192 && off >= 0 && active() && fd_ino(fd).is_some() {
        return ret(sparse_write(fd, buf as *const u8, n, off as u64));
    }
    let r = ret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0));
    if r > 0 && active() && fd_ino(fd).is_some() {
        S.wr_bytes += r as u64;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    let _g = InRt::new();
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        pre!(Ev::Write);
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        pre!(Ev::Write);
    }
    ret(raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const libc::iovec, n: c_int, off: off_t) -> ssize_t {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        pre!(Ev::Write);
    }
    ret(raw(libc::SYS_pwritev, fd as usize, iov as usize, n as usize, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let _g = InRt::new();
    if active() {
        yp();
        if fd_ino(fd).is_some() && fault(Ev::Read) {
            if n > 1 && S.fault_short && !S.was_short {
                S.was_short = true;
                return ret(raw(libc::SYS_pread64, fd as usize, buf as usize, n / 2, off as usize, 0, 0));
            }
            S.was_short = false;
            return fail(S.fault_errno);
        }
    }
    let r = ret(raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0));
    if r > 0 && active() && fd_ino(fd).is_some() {
        S.rd_bytes += r as u64;
        S.rd_ops += 1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    let _g = InRt::new();
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _g = InRt::new();
    if active() {
        yp();
        if fd_ino(fd).is_some() && fault(Ev::Read) {
            return fail(S.fault_errno);
        }
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        pre!(Ev::Resize);
    }
    ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    let _g = InRt::new();
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    let _g = InRt::new();
    if active() && fd_ino(fd).is_some() {
        pre!(Ev::Resize);
    }
    ret(raw(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off_t, len: off_t) -> c_int {
    let _g = InRt::new();
    fallocate64(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    let _g = InRt::new();
    // never fault-injected: its failure is documented as ignored
    if active() && fd_ino(fd).is_some() {
        event(Ev::Resize);
        yp();
    }
    let r = raw(libc::SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0);
    (-r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off_t, len: off_t) -> c_int {
    let _g = InRt::new();
    posix_fallocate64(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let _g = InRt::new();
    let mut exists = true;
    if active() && flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && flags & libc::O_PATH == 0 {
        let mut st: libc::stat = std::mem::zeroed();
        exists = raw(libc::SYS_newfstatat, dfd as usize, path as usize, &mut st as *mut _ as usize, 0, 0, 0) >= 0;
        if exists && flags & libc::O_TRUNC != 0 && st.st_size > 0 {
            pre!(Ev::Trunc);
        } else if !exists && flags & libc::O_CREAT != 0 {
            pre!(Ev::Create);
        } else {
            yp();
            if fault(Ev::Create) {
                return fail(S.fault_errno) as c_int;
            }
        }
    }
    if active() && flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_PATH) == 0 && S.fault_mask != 0 {
        let mut st: libc::stat = std::mem::zeroed();
        if raw(libc::SYS_newfstatat, dfd as usize, path as usize, &mut st as *mut _ as usize, 0, 0, 0) >= 0
            && st.st_dev == S.dev
            && (st.st_mode & libc::S_IFMT) == libc::S_IFREG
            && fault(Ev::Create)
        {
            return fail(S.fault_errno) as c_int;
        }
    }
    let r = ret(raw(libc::SYS_openat, dfd as usize, path as usize, flags as usize | libc::O_LARGEFILE as usize, mode as usize, 0, 0)) as c_int;
    if !exists && r >= 0 {
        if let (Some(i), Some(f)) = (fd_ino(r), S.on_create) {
            quiet(|| f(i));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let _g = InRt::new();
    openat64(dfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let _g = InRt::new();
    openat64(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let _g = InRt::new();
    openat64(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(od: c_int, op: *const c_char, nd: c_int, np: *const c_char, fl: u32) -> c_int {
    let _g = InRt::new();
    if active() {
        pre!(Ev::Rename);
        let exists = raw(libc::SYS_faccessat, nd as usize, np as usize, libc::F_OK as usize, 0, 0, 0) == 0;
        let r = ret(raw(libc::SYS_renameat2, od as usize, op as usize, nd as usize, np as usize, fl as usize, 0)) as c_int;
        if r == 0 && exists {
            S.replacing += 1;
        }
        return r;
    }
    ret(raw(libc::SYS_renameat2, od as usize, op as usize, nd as usize, np as usize, fl as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, op: *const c_char, nd: c_int, np: *const c_char) -> c_int {
    let _g = InRt::new();
    renameat2(od, op, nd, np, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(op: *const c_char, np: *const c_char) -> c_int {
    let _g = InRt::new();
    renameat2(libc::AT_FDCWD, op, libc::AT_FDCWD, np, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    let _g = InRt::new();
    if active() {
        pre!(Ev::Unlink);
    }
    ret(raw(libc::SYS_unlinkat, d as usize, p as usize, fl as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let _g = InRt::new();
    unlinkat(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, op: *const c_char, nd: c_int, np: *const c_char, fl: c_int) -> c_int {
    let _g = InRt::new();
    if active() {
        pre!(Ev::Rename);
    }
    ret(raw(libc::SYS_linkat, od as usize, op as usize, nd as usize, np as usize, fl as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(op: *const c_char, np: *const c_char) -> c_int {
    let _g = InRt::new();
    linkat(libc::AT_FDCWD, op, libc::AT_FDCWD, np, 0)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, oi: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: u32) -> ssize_t {
    let _g = InRt::new();
    if active() {
        pre!(Ev::Write);
    }
    ret(raw(libc::SYS_copy_file_range, i as usize, oi as usize, o as usize, oo as usize, n, fl as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    let _g = InRt::new();
    if active() {
        pre!(Ev::Write);
    }
    ret(raw(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    let _g = InRt::new();
    sendfile64(o, i, off, n)
}
unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    let mut ino = None;
    if active() {
        ino = fd_ino(fd);
        if ino.is_some() {
            yp();
            if fault(Ev::Sync) {
                return fail(S.fault_errno) as c_int;
            }
        }
    }
    let r = ret(raw(nr, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    if let (Some(i), Some(f), 0) = (ino, S.on_sync, r) {
        quiet(|| f(fd, i));
        yp();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let _g = InRt::new();
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let _g = InRt::new();
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    let _g = InRt::new();
    if active() {
        yp();
        if let Some(f) = S.on_sync {
            quiet(|| f(-1, 0));
        }
    }
    ret(raw(libc::SYS_syncfs, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    let _g = InRt::new();
    if active() {
        yp();
        if let Some(f) = S.on_sync {
            quiet(|| f(-1, 0));
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let _g = InRt::new();
    yp();
    ret(raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    let _g = InRt::new();
    let mut p = prot;
    let mut ino = 0;
    if in_sim() && fd >= 0 && flags & libc::MAP_SHARED != 0 && prot & libc::PROT_WRITE != 0 {
        if active() {
            yp();
            if fault(Ev::Map) {
                return fail(S.fault_errno) as *mut c_void;
            }
        }
        if S.trap {
            if let Some(i) = fd_ino(fd) {
                ino = i;
                p = libc::PROT_READ;
            }
        }
    }
    let r = raw(libc::SYS_mmap, a as usize, len, p as usize, flags as usize, fd as usize, off as usize);
    if p != prot && r > 0 {
        let mut ok = false;
        for m in S.maps.iter_mut() {
            if m.1 == 0 {
                *m = (r as usize, (len + 4095) & !4095, ino);
                ok = true;
                break;
            }
        }
        if !ok {
            raw(libc::SYS_mprotect, r as usize, len, prot as usize, 0, 0, 0);
        }
    }
    ret(r) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    let _g = InRt::new();
    mmap64(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
    let _g = InRt::new();
    if S.on {
        for m in S.maps.iter_mut() {
            if m.1 != 0 && m.0 == a as usize {
                *m = (0, 0, 0);
            }
        }
    }
    ret(raw(libc::SYS_munmap, a as usize, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn msync(a: *mut c_void, len: size_t, fl: c_int) -> c_int {
    let _g = InRt::new();
    if active() {
        yp();
        if fault(Ev::Sync) {
            return fail(S.fault_errno) as c_int;
        }
    }
    let r = ret(raw(libc::SYS_msync, a as usize, len, fl as usize, 0, 0, 0)) as c_int;
    if r == 0 && active() && fl & libc::MS_SYNC != 0 {
        for m in S.maps.iter() {
            if m.1 != 0 && a as usize >= m.0 && (a as usize) < m.0 + m.1 {
                let ino = m.2;
                if let Some(f) = S.on_sync {
                    quiet(|| f(-2, ino)); // header only
                }
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn mlock(a: *const c_void, len: size_t) -> c_int {
    let _g = InRt::new();
    // never really lock memory: the sandbox's limits are not the subject
    let _ = (a, len);
    yp();
    0
}

// ---------------------------------------------------------------- threads, futex, time
unsafe fn ts_ns(t: *const timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}
unsafe fn futex_wait(addr: *const u32, val: u32, bitset: u32, deadline: u64) -> c_long {
    yp();
    if std::ptr::read_volatile(addr) != val {
        return fail(libc::EAGAIN) as c_long;
    }
    let me = TID.get() as usize;
    S.seq += 1;
    let t = &mut S.th[me];
    t.st = St::Futex;
    t.addr = addr as usize;
    t.bitset = bitset;
    t.deadline = deadline;
    t.timed_out = false;
    t.seq = S.seq;
    block();
    let t = &mut S.th[me];
    t.deadline = u64::MAX;
    if t.timed_out {
        t.timed_out = false;
        return fail(libc::ETIMEDOUT) as c_long;
    }
    0
}
unsafe fn futex_wake(addr: usize, n: u32, bitset: u32) -> c_long {
    let mut done = 0;
    while done < n {
        let mut best: Option<usize> = None;
        for i in 0..MAXT {
            let t = &S.th[i];
            if t.st == St::Futex && t.addr == addr && t.bitset & bitset != 0 && (best.is_none() || t.seq < S.th[best.unwrap()].seq) {
                best = Some(i);
            }
        }
        let Some(b) = best else { break };
        S.th[b].st = St::Runnable;
        S.th[b].deadline = u64::MAX;
        done += 1;
    }
    if done > 0 {
        yp();
    }
    done as c_long
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let _g = InRt::new();
    if n == libc::SYS_futex && in_sim() {
        let op = b as c_int;
        let cmd = op & 0x7f;
        match cmd {
            0 => {
                let dl = if d == 0 { u64::MAX } else { S.vtime.saturating_add(ts_ns(d as *const timespec)) };
                return futex_wait(a as *const u32, c as u32, !0, dl);
            }
            9 => {
                let dl = if d == 0 { u64::MAX } else { ts_ns(d as *const timespec) };
                return futex_wait(a as *const u32, c as u32, f as u32, dl);
            }
            1 => return futex_wake(a, c as u32, !0),
            10 => return futex_wake(a, c as u32, f as u32),
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _g = InRt::new();
    if in_sim() {
        S.steps += 1;
        S.vtime += 1000;
        if S.steps > S.max_steps {
            NOPRE.set(1);
            crate::engine::die_fail("livelock", &format!("no completion within {} scheduler steps", S.max_steps));
        }
        let me = TID.get() as usize;
        for d in 1..MAXT {
            let i = (me + d) % MAXT;
            if S.th[i].st == St::Runnable {
                switch_to(i);
                break;
            }
        }
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
unsafe fn vsleep(deadline: u64) {
    let me = TID.get() as usize;
    yp();
    let t = &mut S.th[me];
    t.st = St::Sleep;
    t.deadline = deadline;
    block();
    S.th[me].deadline = u64::MAX;
    S.th[me].timed_out = false;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, m: *mut timespec) -> c_int {
    let _g = InRt::new();
    if in_sim() {
        vsleep(S.vtime.saturating_add(ts_ns(r)));
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, r as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, fl: c_int, r: *const timespec, m: *mut timespec) -> c_int {
    let _g = InRt::new();
    if in_sim() {
        let t = ts_ns(r);
        vsleep(if fl & 1 != 0 { t } else { S.vtime.saturating_add(t) });
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, clk as usize, fl as usize, r as usize, m as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    let _g = InRt::new();
    if in_sim() {
        S.vtime += 100;
        (*ts).tv_sec = (S.vtime / 1_000_000_000) as _;
        (*ts).tv_nsec = (S.vtime % 1_000_000_000) as _;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
type DetachFn = unsafe extern "C" fn(libc::pthread_t) -> c_int;
static mut REAL: (usize, usize, usize) = (0, 0, 0);
unsafe fn real() -> (usize, usize, usize) {
    if REAL.0 == 0 {
        REAL = (
            libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize,
            libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize,
            libc::dlsym(libc::RTLD_NEXT, c"pthread_detach".as_ptr()) as usize,
        );
    }
    REAL
}
extern "C" fn trampoline(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let me = arg as usize;
        TID.set(me as i32);
        NOPRE.set(1);
        wait_baton(me);
        let t = S.th[me];
        NOPRE.set(t.nopre);
        let f: StartFn = std::mem::transmute(t.start);
        let r = f(t.arg as *mut c_void);
        NOPRE.set(1);
        S.step = 0;
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        for i in 0..MAXT {
            if S.th[i].st == St::Join && S.th[i].addr == me {
                S.th[i].st = St::Runnable;
            }
        }
        S.th[me].st = if S.th[me].detached { St::Free } else { St::Finished };
        close_pages();
        let n = match policy_pick(me) {
            Some(n) => n,
            None => {
                // nobody runnable: use block()'s logic for timeouts / deadlock
                let mut best: Option<usize> = None;
                for i in 0..MAXT {
                    let t = &S.th[i];
                    if (t.st == St::Futex || t.st == St::Sleep) && t.deadline != u64::MAX && (best.is_none() || t.deadline < S.th[best.unwrap()].deadline) {
                        best = Some(i);
                    }
                }
                match best {
                    Some(b) => {
                        expire(b);
                        b
                    }
                    None => {
                        let mut v = String::from("deadlock: every thread is blocked;");
                        for i in 0..MAXT {
                            let t = &S.th[i];
                            if t.st != St::Free && t.st != St::Finished && (t.harness || t.op != 0) {
                                v.push_str(&format!(" thread {} blocked ({:?}) in {};", i, t.st, crate::engine::op_name(t.op)));
                            }
                        }
                        crate::engine::die_fail("deadlock", &v);
                    }
                }
            }
        };
        TID.set(-1);
        give_baton(n);
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let _g = InRt::new();
    let rc: CreateFn = std::mem::transmute(real().0);
    if !in_sim() {
        return rc(th, attr, f, arg);
    }
    yp();
    let mut slot = MAXT;
    for i in 1..MAXT {
        if S.th[i].st == St::Free {
            slot = i;
            break;
        }
    }
    if slot == MAXT {
        return libc::EAGAIN;
    }
    S.th[slot] = TH0;
    S.th[slot].st = St::Runnable;
    S.th[slot].start = f as usize;
    S.th[slot].arg = arg as usize;
    S.th[slot].nopre = if NOPRE.get() > 0 { 1 } else { 0 };
    S.th[slot].harness = NOPRE.get() > 0;
    // glibc blocks all signals in here; a trap would kill the process
    S.step = 0;
    asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    let r = rc(th, attr, trampoline, slot as *mut c_void);
    if r != 0 {
        S.th[slot].st = St::Free;
        return r;
    }
    S.th[slot].pth = *th;
    yp();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let _g = InRt::new();
    let rj: JoinFn = std::mem::transmute(real().1);
    if in_sim() {
        for i in 0..MAXT {
            if S.th[i].st != St::Free && S.th[i].pth == th && !S.th[i].detached {
                let me = TID.get() as usize;
                yp();
                while S.th[i].st != St::Finished {
                    S.th[me].st = St::Join;
                    S.th[me].addr = i;
                    block();
                }
                S.th[i].st = St::Free;
                break;
            }
        }
    }
    rj(th, out)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: libc::pthread_t) -> c_int {
    let _g = InRt::new();
    let rd: DetachFn = std::mem::transmute(real().2);
    if in_sim() {
        for i in 0..MAXT {
            if S.th[i].st != St::Free && S.th[i].pth == th && !S.th[i].detached {
                if S.th[i].st == St::Finished {
                    S.th[i].st = St::Free;
                } else {
                    S.th[i].detached = true;
                }
                break;
            }
        }
    }
    rd(th)
}

// ---------------------------------------------------------------- allocator
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        yp();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        yp();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        yp();
        System.realloc(p, l, n)
    }
}
