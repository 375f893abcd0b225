//! Property-based testing engine: recorded choice sequences, fork-per-case execution, parallel workers, shrinking,
//! replay files and evidence.
#![allow(static_mut_refs)]
use crate::rt::{self, mix};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;

// ---------------------------------------------------------------- choice source
#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub kind: u8,
    pub vals: Vec<u64>,
}
pub const CFG: u8 = 0;
pub const SCHED: u8 = 1;
pub const OP: u8 = 2;
pub const EXTRA: u8 = 3;

/// Generator of one case. Every draw is logged in shared memory, so that a case can be replayed and shrunk.
pub struct G {
    replay: Option<Vec<Frame>>,
    seed: u64,
    cur: (u8, u32),
    rng: u64,
    pos: usize,
}
impl G {
    fn log(&self, tag: u64, v: u64) {
        unsafe {
            let s = &mut *SH;
            if (s.nlog as usize) + 1 < LOGN {
                s.log[s.nlog as usize] = (tag, v);
                s.nlog += 1;
            }
        }
    }
    /// number of frames of a kind; drawn by `gen` when generating
    pub fn count(&mut self, kind: u8, gen: usize) -> usize {
        match &self.replay {
            Some(f) => f.iter().filter(|f| f.kind == kind).count(),
            None => gen,
        }
    }
    pub fn select(&mut self, kind: u8, idx: usize) {
        self.cur = (kind, idx as u32);
        self.pos = 0;
        self.rng = mix(self.seed ^ mix(((kind as u64) << 40) ^ idx as u64 ^ 0x51ed));
        self.log(1 << 63 | (kind as u64) << 32 | idx as u64, 0);
    }
    pub fn cfg(&mut self) {
        self.select(CFG, 0)
    }
    /// uniform in 0..bound
    pub fn n(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let v = match &self.replay {
            Some(f) => {
                let fr = f.iter().filter(|f| f.kind == self.cur.0).nth(self.cur.1 as usize);
                fr.and_then(|f| f.vals.get(self.pos)).copied().unwrap_or(0) % bound
            }
            None => {
                self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = self.rng;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^= z >> 31;
                ((z as u128 * bound as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.log((self.cur.0 as u64) << 32 | self.cur.1 as u64, v);
        v
    }
    pub fn us(&mut self, bound: usize) -> usize {
        self.n(bound as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // "true" is the non-zero, i.e. less simple, choice
        self.n(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.n(tot as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        0
    }
    /// the preemption list of the case
    pub fn sched(&mut self, max: usize) -> (Vec<rt::Pre>, u32) {
        self.cfg();
        self.pos = 1000;
        // drawn from its own frame so that shrinking operations leaves it alone
        self.select(EXTRA, 0);
        let n = match self.n(8) {
            0 => 0,
            1..=4 => self.n((max as u64 / 3).max(1)) as usize + 1,
            _ => self.n(max as u64 + 1) as usize,
        };
        let mean = *self.pick(&[8u64, 2, 4, 15, 40, 120, 500]);
        let policy = self.n(64) as u32;
        let stepping = self.chance(1, 3);
        let cnt = self.count(SCHED, n);
        let mut v = vec![];
        for i in 0..cnt {
            self.select(SCHED, i);
            let gap = self.n(mean * 2) as u32;
            let tgt = self.n(8) as u32;
            let step = if self.n(4) == 3 && stepping { self.n(80) as u32 } else { 0 };
            v.push(rt::Pre { gap, tgt, step });
        }
        (v, policy)
    }
}

// ---------------------------------------------------------------- shared result area
const LOGN: usize = 400_000;
const TRN: usize = 1 << 20;
#[repr(C)]
pub struct Shared {
    status: u32, // 0 running, 1 ok, 2 fail, 3 discard
    nontrivial: u32,
    sig_len: u32,
    msg_len: u32,
    trace_len: u32,
    nlog: u32,
    nlab: u32,
    evals: u64,
    hash: u64,
    sig: [u8; 256],
    msg: [u8; 1 << 16],
    labs: [(usize, usize, u64); 128],
    trace: [u8; TRN],
    log: [(u64, u64); LOGN],
}
pub static mut SH: *mut Shared = std::ptr::null_mut();
fn new_shared<T>() -> *mut T {
    unsafe {
        let p = rt::raw(libc::SYS_mmap, 0, std::mem::size_of::<T>(), 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
        assert!(p > 0);
        p as *mut T
    }
}
fn cut<'a>(s: &'a str, n: usize) -> &'a [u8] {
    &s.as_bytes()[..s.len().min(n)]
}
static mut FROZEN: bool = false;
pub fn tr(s: impl AsRef<str>) {
    let s = s.as_ref();
    unsafe {
        let sh = &mut *SH;
        let n = sh.trace_len as usize;
        for b in s.bytes().chain(std::iter::once(b'\n')) {
            sh.hash = (sh.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let b = cut(s, TRN - 2 - n.min(TRN - 2));
        sh.trace[n..n + b.len()].copy_from_slice(b);
        if n + b.len() < TRN - 1 {
            sh.trace[n + b.len()] = b'\n';
            sh.trace_len = (n + b.len() + 1) as u32;
        }
    }
}
#[macro_export]
macro_rules! trace { ($($a:tt)*) => { $crate::engine::tr(format!($($a)*)) } }
pub fn label(name: &'static str) {
    label_n(name, 1)
}
pub fn label_n(name: &'static str, k: u64) {
    if k == 0 {
        return;
    }
    unsafe {
        let sh = &mut *SH;
        for i in 0..sh.nlab as usize {
            if sh.labs[i].0 == name.as_ptr() as usize && sh.labs[i].1 == name.len() {
                sh.labs[i].2 += k;
                return;
            }
        }
        if (sh.nlab as usize) < sh.labs.len() {
            sh.labs[sh.nlab as usize] = (name.as_ptr() as usize, name.len(), k);
            sh.nlab += 1;
        }
    }
}
pub fn has_label(name: &str) -> bool {
    unsafe {
        let sh = &*SH;
        (0..sh.nlab as usize).any(|i| std::str::from_utf8(std::slice::from_raw_parts(sh.labs[i].0 as *const u8, sh.labs[i].1)).unwrap() == name)
    }
}
pub fn nontrivial() {
    unsafe { (*SH).nontrivial = 1 }
}
/// additional executions (crash images, reopened stores ...) examined by this case
pub fn evals(n: u64) {
    unsafe { (*SH).evals += n }
}
pub fn die_fail(sig: &str, msg: &str) -> ! {
    unsafe {
        let sh = &mut *SH;
        if sh.status == 0 && !FROZEN {
            let b = cut(sig, 250);
            sh.sig[..b.len()].copy_from_slice(b);
            sh.sig_len = b.len() as u32;
            let b = cut(msg, 65000);
            sh.msg[..b.len()].copy_from_slice(b);
            sh.msg_len = b.len() as u32;
            sh.status = 2;
        }
        rt::raw(libc::SYS_exit_group, 1, 0, 0, 0, 0, 0);
        loop {}
    }
}
pub fn die_ok() -> ! {
    unsafe {
        let sh = &mut *SH;
        if sh.status == 0 {
            sh.status = 1;
        }
        rt::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        loop {}
    }
}
/// a failed check
#[macro_export]
macro_rules! bad { ($sig:expr, $($a:tt)*) => { $crate::engine::die_fail($sig, &format!($($a)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { $crate::engine::die_fail($sig, &format!($($a)*)) } } }

pub static mut OPNAMES: Vec<String> = Vec::new();
pub fn op_id(s: String) -> u64 {
    unsafe {
        OPNAMES.push(s);
        OPNAMES.len() as u64
    }
}
pub fn op_name(id: u64) -> String {
    unsafe {
        if id == 0 || id as usize > OPNAMES.len() {
            "(no call)".into()
        } else {
            OPNAMES[id as usize - 1].clone()
        }
    }
}
pub static mut PANICS: Vec<String> = Vec::new();

// ---------------------------------------------------------------- properties
pub struct Ctx {
    pub dir: std::path::PathBuf,
    pub thorough: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (name, cases in quick, cases in thorough, function)
    pub parts: &'static [(&'static str, u64, u64, fn(&mut G, &Ctx))],
    /// labels that must occur in a healthy run: (label, minimum share of cases in percent * 100)
    pub expect: &'static [&'static str],
}

fn scratch_root() -> std::path::PathBuf {
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) && {
        let t = format!("/dev/shm/candyver-probe-{}", std::process::id());
        let ok = std::fs::write(&t, b"x").is_ok();
        let _ = std::fs::remove_file(&t);
        ok
    } {
        "/dev/shm".to_string()
    } else {
        std::env::var("TMPDIR").unwrap_or("/tmp".into())
    };
    format!("{base}/candyver-{}", std::process::id()).into()
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Fail { sig: String, msg: String },
    Error(String),
}

unsafe fn reset_shared() {
    let sh = &mut *SH;
    sh.status = 0;
    sh.nontrivial = 0;
    sh.sig_len = 0;
    sh.msg_len = 0;
    sh.trace_len = 0;
    sh.nlog = 0;
    sh.nlab = 0;
    sh.evals = 1;
    sh.hash = 0xcbf29ce484222325;
}
fn rmtree(p: &std::path::Path) {
    let _ = std::fs::remove_dir_all(p);
}
const CPU_LIMIT: u64 = 40;

/// run one case in a forked child
fn run_case(f: fn(&mut G, &Ctx), seed: u64, replay: Option<Vec<Frame>>, dir: &std::path::Path, thorough: bool) -> Out {
    unsafe {
        reset_shared();
        rmtree(dir);
        std::fs::create_dir_all(dir).unwrap();
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 {
            return Out::Error("fork failed".into());
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let rl = libc::rlimit { rlim_cur: 700, rlim_max: 700 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
            libc::alarm(100);
            let hook_on = std::env::var("CANDY_SHOW_PANICS").is_ok();
            std::panic::set_hook(Box::new(move |i| {
                rt::quiet(|| {
                    let s = format!("{} @ {}", i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default(), i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line())));
                    if hook_on {
                        eprintln!("PANIC[{}]: {s}\n{}", rt::tid(), std::backtrace::Backtrace::force_capture());
                    }
                    PANICS.push(s);
                });
            }));
            let mut st: libc::stat = std::mem::zeroed();
            let c = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
            libc::stat(c.as_ptr(), &mut st);
            rt::S.dev = st.st_dev;
            let mut g = G { replay, seed, cur: (0, 0), rng: 0, pos: 0 };
            let ctx = Ctx { dir: dir.to_path_buf(), thorough };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g, &ctx)));
            if r.is_err() {
                // a panic of the harness itself
                let sh = &mut *SH;
                if sh.status == 0 {
                    let m = format!("harness panic: {}", PANICS.last().cloned().unwrap_or_default());
                    let b = cut(&m, 60000);
                    sh.msg[..b.len()].copy_from_slice(b);
                    sh.msg_len = b.len() as u32;
                    sh.status = 4;
                }
                rt::raw(libc::SYS_exit_group, 9, 0, 0, 0, 0, 0);
            }
            die_ok();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        rmtree(dir);
        let sh = &*SH;
        match sh.status {
            1 => Out::Ok,
            2 => Out::Fail {
                sig: String::from_utf8_lossy(&sh.sig[..sh.sig_len as usize]).into(),
                msg: String::from_utf8_lossy(&sh.msg[..sh.msg_len as usize]).into(),
            },
            4 => Out::Error(String::from_utf8_lossy(&sh.msg[..sh.msg_len as usize]).into()),
            _ => {
                if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    if s == libc::SIGXCPU || s == libc::SIGABRT || s == libc::SIGILL || s == libc::SIGFPE {
                        let what = if s == libc::SIGXCPU { format!("a case did not finish within {CPU_LIMIT} s of CPU time") } else { format!("process died with signal {s}") };
                        Out::Fail { sig: if s == libc::SIGXCPU { "hang".into() } else { "signal".into() }, msg: what }
                    } else {
                        Out::Error(format!("case process ended by signal {s}"))
                    }
                } else {
                    // exit() called by the code under test
                    Out::Fail { sig: "exit".into(), msg: format!("the code under test ended the process (status {:#x})", st) }
                }
            }
        }
    }
}
fn frames_of_log() -> Vec<Frame> {
    unsafe {
        let sh = &*SH;
        let mut m: BTreeMap<(u8, u32), Vec<u64>> = BTreeMap::new();
        for &(t, v) in &sh.log[..sh.nlog as usize] {
            let kind = ((t >> 32) & 0xff) as u8;
            let idx = t as u32;
            let e = m.entry((kind, idx)).or_default();
            if t >> 63 == 0 {
                e.push(v);
            }
        }
        m.into_iter().map(|((kind, _), vals)| Frame { kind, vals }).collect()
    }
}
fn trace_text() -> String {
    unsafe {
        let sh = &*SH;
        String::from_utf8_lossy(&sh.trace[..sh.trace_len as usize]).into()
    }
}

// ---------------------------------------------------------------- known findings
pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
pub fn known_findings() -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut prop = String::new();
        let mut sig = String::new();
        let mut text = vec![];
        for w in r.split_whitespace() {
            if let Some(x) = w.strip_prefix("property=") {
                prop = x.into();
            } else if let Some(x) = w.strip_prefix("sig=") {
                sig = x.into();
            } else {
                text.push(w);
            }
        }
        v.push(Known { property: prop, sig, text: text.join(" ") });
    }
    v
}
pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("CANDY_VERIF_DIR").unwrap_or("/verif".into()).into()
}

// ---------------------------------------------------------------- worker aggregate
const HN: usize = 1 << 21;
#[repr(C)]
struct Agg {
    cases: u64,
    evals: u64,
    nhash: u64,
    fail_case: u64, // u64::MAX none
    fail_part: u64,
    err_len: u64,
    known_hits: u64,
    nlab: u64,
    nsample: u64,
    done: u64,
    unrepro: u64,
    labs: [(usize, usize, u64); 160],
    err: [u8; 4096],
    known_sigs: [[u8; 64]; 16],
    samples: [[u8; 6000]; 3],
    sample_len: [u64; 3],
    hashes: [u64; HN],
}
unsafe fn accumulate(a: &mut Agg) {
    let sh = &*SH;
    a.cases += 1;
    a.evals += sh.evals;
    for i in 0..sh.nlab as usize {
        let l = sh.labs[i];
        let mut found = false;
        for j in 0..a.nlab as usize {
            if a.labs[j].0 == l.0 && a.labs[j].1 == l.1 {
                a.labs[j].2 += l.2;
                found = true;
                break;
            }
        }
        if !found && (a.nlab as usize) < a.labs.len() {
            a.labs[a.nlab as usize] = l;
            a.nlab += 1;
        }
    }
    if sh.nontrivial != 0 {
        if (a.nhash as usize) < HN {
            a.hashes[a.nhash as usize] = sh.hash;
            a.nhash += 1;
        }
        if a.nsample < 3 && (a.cases % 7 == 3 || a.cases > 40) {
            let i = a.nsample as usize;
            let n = (sh.trace_len as usize).min(6000);
            a.samples[i][..n].copy_from_slice(&sh.trace[..n]);
            a.sample_len[i] = n as u64;
            a.nsample += 1;
        }
    }
}

fn case_seed(prop: &str, part: usize, seed: u64, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ mix(seed.wrapping_mul(1000003) ^ ((part as u64) << 56) ^ idx))
}

pub fn run_check(p: &Prop, seed: u64, thorough: bool, scale: f64, only_part: Option<&str>) -> i32 {
    let t0 = std::time::Instant::now();
    let root = scratch_root();
    std::fs::create_dir_all(&root).unwrap();
    let nw: usize = std::env::var("CANDY_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap = std::time::Duration::from_secs(std::env::var("CANDY_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 420 }));
    // round-robin list of (part, case)
    let mut plan: Vec<(usize, u64)> = vec![];
    for (pi, part) in p.parts.iter().enumerate() {
        if only_part.is_some_and(|o| o != part.0) {
            continue;
        }
        let n = ((if thorough { part.2 } else { part.1 }) as f64 * scale).ceil() as u64;
        for i in 0..n {
            plan.push((pi, i));
        }
    }
    // interleave parts deterministically so that every worker sees every part
    plan.sort_by_key(|&(pi, i)| (mix(i.wrapping_mul(31) ^ ((pi as u64) << 50)), pi, i));
    let plan_len = plan.len() as u64;
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == p.id).collect();
    let mut aggs: Vec<*mut Agg> = (0..nw).map(|_| new_shared::<Agg>()).collect();
    let stop: *mut u64 = new_shared::<[u64; 512]>() as *mut u64; // lowest failing plan index + 1
    let next: *mut u64 = unsafe { stop.add(64) };
    let mut pids = vec![];
    for w in 0..nw {
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                SH = new_shared::<Shared>();
                let a = &mut *aggs[w];
                a.fail_case = u64::MAX;
                let dir = root.join(format!("w{w}"));
                loop {
                    let at = std::sync::atomic::AtomicU64::from_ptr(next);
                    let i = at.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= plan_len {
                        break;
                    }
                    let st = std::sync::atomic::AtomicU64::from_ptr(stop).load(std::sync::atomic::Ordering::SeqCst);
                    if (st != 0 && st <= i) || t0.elapsed() > cap {
                        break;
                    }
                    let (pi, ci) = plan[i as usize];
                    let part = &p.parts[pi];
                    let cs = case_seed(p.id, pi, seed, ci);
                    let mut out = run_case(part.3, cs, None, &dir, thorough);
                    // a failure must reproduce to be believed, an error must repeat to stop the run
                    let mut again = 0;
                    while again < 2 && !matches!(out, Out::Ok) {
                        again += 1;
                        if matches!(out, Out::Error(_)) {
                            libc::usleep(200_000);
                        }
                        let o2 = run_case(part.3, cs, None, &dir, thorough);
                        let conf = matches!((&out, &o2), (Out::Fail { .. }, Out::Fail { .. }));
                        if matches!(o2, Out::Ok) && matches!(out, Out::Fail { .. }) {
                            a.unrepro += 1;
                        }
                        out = o2;
                        if conf {
                            break;
                        }
                    }
                    match out {
                        Out::Ok => accumulate(a),
                        Out::Fail { sig, .. } => {
                            if known.iter().any(|k| k.sig == sig) {
                                if a.known_hits < 16 && !a.known_sigs[..a.known_hits as usize].iter().any(|s| s.starts_with(sig.as_bytes())) {
                                    let b = cut(&sig, 63);
                                    a.known_sigs[a.known_hits as usize][..b.len()].copy_from_slice(b);
                                    a.known_hits += 1;
                                }
                                a.cases += 1;
                                continue;
                            }
                            a.fail_case = i;
                            let m = i + 1;
                            let at = std::sync::atomic::AtomicU64::from_ptr(stop);
                            let _ = at.try_update(std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst, |c| if c == 0 || m < c { Some(m) } else { None });
                            break;
                        }
                        Out::Error(e) => {
                            let e = format!("part {} case {}: {}", part.0, ci, e);
                            let b = cut(&e, 4000);
                            a.err[..b.len()].copy_from_slice(b);
                            a.err_len = b.len() as u64;
                            break;
                        }
                    }
                }
                a.done = 1;
                libc::_exit(0);
            }
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    }
    // merge
    let mut cases = 0;
    let mut unrepro = 0;
    let mut ev = 0;
    let mut set = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut first_fail = u64::MAX;
    let mut errs = vec![];
    let mut known_hit: Vec<String> = vec![];
    for &a in &aggs {
        let a = unsafe { &*a };
        cases += a.cases;
        ev += a.evals;
        unrepro += a.unrepro;
        for i in 0..a.nhash as usize {
            set.insert(a.hashes[i]);
        }
        for i in 0..a.nlab as usize {
            let (p, l, c) = a.labs[i];
            let s = unsafe { std::str::from_utf8(std::slice::from_raw_parts(p as *const u8, l)).unwrap() };
            *labels.entry(s.to_string()).or_default() += c;
        }
        for i in 0..a.nsample as usize {
            if samples.len() < 3 {
                samples.push(String::from_utf8_lossy(&a.samples[i][..a.sample_len[i] as usize]).to_string());
            }
        }
        if a.fail_case < first_fail {
            first_fail = a.fail_case;
        }
        if a.err_len > 0 {
            errs.push(String::from_utf8_lossy(&a.err[..a.err_len as usize]).to_string());
        }
        if a.done == 0 {
            errs.push("a worker died".into());
        }
        for k in 0..a.known_hits as usize {
            let s: Vec<u8> = a.known_sigs[k].iter().copied().take_while(|&b| b != 0).collect();
            let s = String::from_utf8_lossy(&s).to_string();
            if !known_hit.contains(&s) {
                known_hit.push(s);
            }
        }
    }
    // a property decided by two builds of the harness: the first leaves its counts for the second to report
    let mut plan_len = plan_len;
    if let Some(t) = std::env::var("CANDY_LOAD").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            let mut w = l.splitn(3, ' ');
            let (k, n, rest) = (w.next().unwrap(), w.next().unwrap().parse::<u64>().unwrap(), w.next().unwrap_or(""));
            match k {
                "cases" => cases += n,
                "evals" => ev += n,
                "plan" => plan_len += n,
                "unrepro" => unrepro += n,
                "hash" => {
                    set.insert(n);
                }
                "label" => *labels.entry(rest.to_string()).or_default() += n,
                _ => samples.push(rest.replace('\u{1}', "\n")),
            }
        }
    }
    if let Ok(p) = std::env::var("CANDY_DUMP") {
        let mut t = format!("cases {cases}\nevals {ev}\nplan {plan_len}\nunrepro {unrepro}\n");
        for h in &set {
            t.push_str(&format!("hash {h}\n"));
        }
        for (l, n) in &labels {
            t.push_str(&format!("label {n} {l}\n"));
        }
        for s in &samples {
            t.push_str(&format!("sample 0 {}\n", s.replace('\n', "\u{1}")));
        }
        let _ = std::fs::write(p, t);
    }
    let mut rc = 0;
    let mut violations = 0;
    let mut violation_line = None;
    if first_fail != u64::MAX {
        unsafe { SH = new_shared::<Shared>() };
        let (pi, ci) = plan[first_fail as usize];
        let part = &p.parts[pi];
        let dir = root.join("m");
        let first = run_case(part.3, case_seed(p.id, pi, seed, ci), None, &dir, thorough);
        match first {
            Out::Fail { sig, msg } => {
                let frames = frames_of_log();
                let (frames, sig, msg, tries) = shrink(part.3, frames, sig, msg, &dir, thorough, &known);
                // final run for the trace
                let _ = run_case(part.3, 0, Some(frames.clone()), &dir, thorough);
                let tracet = trace_text();
                let rp = verif_dir().join("evidence").join(format!("replay-{}.txt", p.id));
                let _ = std::fs::create_dir_all(rp.parent().unwrap());
                let mut s = String::new();
                s.push_str(&format!("property={} part={} seed={} case={} sig={}\n", p.id, part.0, seed, ci, sig));
                s.push_str(&format!("# replay: ./check.sh --replay {}\n", rp.display()));
                s.push_str(&format!("# what failed: {}\n", msg.replace('\n', "\n#   ")));
                for f in &frames {
                    s.push_str(&format!("frame {} {}\n", f.kind, f.vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")));
                }
                s.push_str(&format!("# shrunk in {} executions; readable trace of the minimal case:\n", tries));
                for l in tracet.lines() {
                    s.push_str(&format!("#   {l}\n"));
                }
                std::fs::write(&rp, s).unwrap();
                println!("{}: part {} case {} failed [{}]: {}", p.id, part.0, ci, sig, msg);
                for l in tracet.lines().take(60) {
                    println!("    {l}");
                }
                violation_line = Some(format!("VIOLATION property={} replay={}", p.id, rp.display()));
                violations = 1;
                rc = 1;
            }
            o => {
                // did not reproduce: try the recorded frames once more before giving up
                errs.push(format!("part {} case {} failed twice but not a third time ({:?})", part.0, ci, o));
            }
        }
    }
    for k in &known {
        if known_hit.contains(&k.sig) || true {
            println!("KNOWN-FINDING: property={} {}", p.id, k.text);
        }
    }
    let missing: Vec<_> = p.expect.iter().filter(|l| !labels.contains_key(**l)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let js = |s: &str| json_str(s);
    e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(p.id), js(if thorough { "thorough" } else { "quick" }), seed, js(p.level)));
    e.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"cases\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", ev, cases, set.len(), js(p.rule)));
    e.push_str(&format!("  \"unreproducible_failures\": {unrepro},\n  \"planned_cases\": {},\n  \"parts\": {},\n", plan_len, js(&p.parts.iter().map(|x| x.0).collect::<Vec<_>>().join(", "))));
    e.push_str("  \"classes\": {");
    e.push_str(&labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    e.push_str("},\n");
    e.push_str(&format!("  \"expected_classes_missing\": [{}],\n", missing.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ")));
    e.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations));
    let ep = verif_dir().join("evidence").join(format!("{}.json", p.id));
    let _ = std::fs::create_dir_all(ep.parent().unwrap());
    std::fs::write(&ep, e).unwrap();
    rmtree(&root);
    println!("{}: {} cases ({} planned), {} evaluations, {} distinct non-trivial, {:.1} s", p.id, cases, plan_len, ev, set.len(), wall);
    for (k, v) in &labels {
        println!("   {k}: {v}");
    }
    if !missing.is_empty() {
        println!("   note: expected classes not produced: {missing:?}");
    }
    if let Some(v) = violation_line {
        println!("{v}");
    } else if !errs.is_empty() {
        for e in errs {
            println!("ERROR (no verdict): {e}");
        }
        rc = 2;
    } else if cases == 0 && std::env::var("CANDY_DUMP").is_err() {
        println!("ERROR (no verdict): nothing was run");
        rc = 2;
    }
    rc
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(f: fn(&mut G, &Ctx), frames: Vec<Frame>, sig: String, msg: String, dir: &std::path::Path, thorough: bool, known: &[Known]) -> (Vec<Frame>, String, String, u32) {
    let t0 = std::time::Instant::now();
    let limit = std::time::Duration::from_secs(std::env::var("CANDY_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let mut tries = 0u32;
    let mut best = frames;
    let mut bsig = sig;
    let mut bmsg = msg;
    let maxtries = if bsig == "hang" { 3 } else { 2500 };
    let attempt = |c: Vec<Frame>, best: &mut Vec<Frame>, bsig: &mut String, bmsg: &mut String, tries: &mut u32| -> bool {
        if t0.elapsed() > limit || *tries > maxtries {
            return false;
        }
        *tries += 1;
        match run_case(f, 0, Some(c.clone()), dir, thorough) {
            Out::Fail { sig, msg } if !known.iter().any(|k| k.sig == sig) && sig.split(':').next() == bsig.split(':').next() => {
                *best = c;
                *bsig = sig;
                *bmsg = msg;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete runs of frames
        for kind in [OP, SCHED, EXTRA] {
            if kind == EXTRA {
                continue;
            }
            let mut size = best.iter().filter(|f| f.kind == kind).count();
            while size >= 1 {
                let mut i = 0;
                loop {
                    let idxs: Vec<usize> = best.iter().enumerate().filter(|(_, f)| f.kind == kind).map(|(i, _)| i).collect();
                    if i >= idxs.len() {
                        break;
                    }
                    let del: Vec<usize> = idxs[i..(i + size).min(idxs.len())].to_vec();
                    let c: Vec<Frame> = best.iter().enumerate().filter(|(j, _)| !del.contains(j)).map(|(_, f)| f.clone()).collect();
                    if !attempt(c, &mut best, &mut bsig, &mut bmsg, &mut tries) {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
        // minimise values
        let mut fi = 0;
        while fi < best.len() {
            let mut vi = 0;
            while fi < best.len() && vi < best[fi].vals.len() {
                let v = best[fi].vals[vi];
                for cand in [0, v / 2, v.saturating_sub(1)] {
                    if cand < best[fi].vals[vi] {
                        let mut c = best.clone();
                        c[fi].vals[vi] = cand;
                        if attempt(c, &mut best, &mut bsig, &mut bmsg, &mut tries) {
                            break;
                        }
                    }
                }
                vi += 1;
            }
            fi += 1;
        }
        if best == before || t0.elapsed() > limit || tries > maxtries {
            break;
        }
    }
    (best, bsig, bmsg, tries)
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let mut prop = "";
    let mut part = "";
    let mut frames = vec![];
    for l in txt.lines() {
        if l.starts_with("property=") {
            for w in l.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    prop = x;
                }
                if let Some(x) = w.strip_prefix("part=") {
                    part = x;
                }
            }
        } else if let Some(r) = l.strip_prefix("frame ") {
            let mut it = r.split_whitespace();
            let kind = it.next().unwrap().parse().unwrap();
            frames.push(Frame { kind, vals: it.map(|x| x.parse().unwrap()).collect() });
        }
    }
    let p = props.iter().find(|p| p.id == prop).expect("property");
    let pt = p.parts.iter().find(|x| x.0 == part).expect("part");
    let root = scratch_root();
    unsafe { SH = new_shared::<Shared>() };
    let o = run_case(pt.3, 0, Some(frames), &root.join("r"), false);
    println!("{}", trace_text());
    rmtree(&root);
    match o {
        Out::Fail { sig, msg } => {
            println!("FAILED [{sig}]: {msg}");
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        Out::Ok => {
            println!("holds");
            0
        }
        Out::Error(e) => {
            println!("ERROR: {e}");
            2
        }
    }
}

/// run one generated case verbosely (debugging)
pub fn run_one(p: &Prop, part: &str, seed: u64, idx: u64) -> i32 {
    let root = scratch_root();
    unsafe { SH = new_shared::<Shared>() };
    let pi = p.parts.iter().position(|x| x.0 == part).expect("part");
    let t = std::time::Instant::now();
    let o = run_case(p.parts[pi].3, case_seed(p.id, pi, seed, idx), None, &root.join("o"), false);
    println!("{}", trace_text());
    let fr = frames_of_log();
    println!("{:?} in {:?}, {} frames, hash {:x}", o, t.elapsed(), fr.len(), unsafe { (*SH).hash });
    rmtree(&root);
    0
}
