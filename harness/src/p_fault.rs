//! C24: failing file operations.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_ds::other_cfg;
use crate::p_kv::*;
use crate::rt::{self, Ev};
use crate::snap::*;
use candystore::{CandyStore, Config};
use std::sync::Arc;

// ---------------------------------------------------------------- faults
const KINDS: [Ev; 11] = [Ev::Write, Ev::Resize, Ev::Create, Ev::Trunc, Ev::Rename, Ev::Unlink, Ev::Sync, Ev::Map, Ev::Read, Ev::Dir, Ev::Stat];
static mut NO_DTYPE: bool = false;
fn m(e: Ev) -> u32 {
    1 << e as u32
}
#[derive(Clone, Copy)]
struct Fault {
    mask: u32,
    at: i64,
    len: i64,
    errno: i32,
    /// reads and writes are done in part first
    short: bool,
    /// only happens when the store's files are being replaced
    rare: bool,
}
impl Fault {
    fn gen(g: &mut G, far: u64) -> Fault {
        let restructure = m(Ev::Resize) | m(Ev::Create) | m(Ev::Trunc) | m(Ev::Rename) | m(Ev::Unlink) | m(Ev::Sync) | m(Ev::Map);
        let mask = match g.weighted(&[4, 3, 4, 2]) {
            0 => m(*g.pick(&KINDS)),
            1 => KINDS.iter().fold(0, |a, e| a | m(*e)),
            2 => restructure,
            _ => m(Ev::Create) | m(Ev::Trunc) | m(Ev::Resize) | m(Ev::Write) | m(Ev::Map),
        };
        let rare = mask & (m(Ev::Write) | m(Ev::Read) | m(Ev::Sync)) == 0;
        let r = 1 + g.n(if rare { far.min(4) } else { far });
        let at = g.n(r) as i64;
        let len = *g.pick(&[1i64, 1, 1, 2, 5, 1 << 40]);
        let errno = *g.pick(&[libc::EIO, libc::ENOSPC, libc::EMFILE]);
        let short = g.chance(1, 3);
        Fault { mask, at, len, errno, short, rare }
    }
    fn arm(&self) {
        unsafe {
            rt::S.fault_mask = self.mask;
            rt::S.fault_at = self.at;
            rt::S.fault_len = self.len;
            rt::S.fault_errno = self.errno;
            rt::S.fault_short = self.short;
            rt::S.fault_seen = 0;
            rt::S.fault_tid = -1;
        }
    }
}
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let k: Vec<String> = KINDS.iter().filter(|e| self.mask & m(**e) != 0).map(|e| format!("{e:?}").to_lowercase()).collect();
        let n = if self.len > 1000 { "all from".into() } else { format!("{} from", self.len) };
        let e = match self.errno {
            libc::EIO => "EIO",
            libc::ENOSPC => "ENOSPC",
            _ => "EMFILE",
        };
        let s = if self.short { " (reads and writes: are done in part before)" } else { "" };
        write!(f, "{n} #{} of [{}] fail with {e}{s}", self.at, k.join(" "))
    }
}
/// suspend (returning what to put back)
fn pause_faults() -> u32 {
    unsafe { std::mem::replace(&mut rt::S.fault_mask, 0) }
}
fn resume_faults(mask: u32) {
    unsafe { rt::S.fault_mask = mask }
}
fn fired() -> u64 {
    unsafe { rt::S.fault_fired }
}
fn fired_labels() {
    let e = unsafe { rt::S.fault_last };
    label(match e {
        Ev::Write => "failed: write",
        Ev::Resize => "failed: resize",
        Ev::Create | Ev::Trunc => "failed: create/open",
        Ev::Rename => "failed: rename",
        Ev::Unlink => "failed: unlink",
        Ev::Sync => "failed: sync",
        Ev::Map => "failed: map",
        Ev::Read => "failed: read",
        Ev::Dir => "failed: directory read",
        Ev::Stat => "failed: stat",
        Ev::Header => "failed: header",
    });
}

// ---------------------------------------------------------------- the oracle
/// the state `op` leads to from `before`; where the store picks an index, `o` tells which
fn predict(op: &Op, before: &Model, o: &Obs) -> Option<Model> {
    let mut a = before.clone();
    let r = match &op.k {
        K::QPushH(q, _) => Res::Num(o.queues.get(q)?.fwd.first()?.0),
        K::QPushT(q, _) => Res::Num(o.queues.get(q)?.fwd.last()?.0),
        K::QExtend(q, vs) => {
            let l = o.queues.get(q)?.fwd.last().map_or(0, |x| x.0 + 1);
            let f = l.checked_sub(vs.len() as u64)?;
            Res::Range(f, l)
        }
        _ => Res::Unit,
    };
    let e = a.apply(op, &r);
    if matches!(op.k, K::QPushH(..) | K::QPushT(..) | K::QExtend(..)) && e.is_err() {
        return None;
    }
    Some(a)
}
fn minus<T: PartialEq>(part: &[T], full: &[T]) -> bool {
    let mut i = 0;
    for x in full {
        if i < part.len() && part[i] == *x {
            i += 1;
        }
    }
    i == part.len()
}
/// operations that are documented as several steps, or as not crash-safe: their own object may be found in between
fn partial(op: &Op, before: &Model, o: &Obs) -> bool {
    let mut m = before.clone();
    match &op.k {
        K::LDiscard(l) => {
            let Some(lo) = o.lists.get(l) else { return false };
            if !minus(&lo.fwd, &m.lists.get(l).cloned().unwrap_or_default()) {
                return false;
            }
            m.lists.insert(l.clone(), lo.fwd.clone());
        }
        K::LPromote(l, i, _) => {
            if let Some(x) = m.lists.get_mut(l) {
                x.retain(|x| x.0 != *i);
            }
        }
        K::QDiscard(q) => {
            let Some(qo) = o.queues.get(q) else { return false };
            let full: Vec<(u64, B)> = m.queues.get(q).map_or(vec![], |m| m.iter().map(|(a, b)| (*a, b.clone())).collect());
            if !minus(&qo.fwd, &full) {
                return false;
            }
            m.queues.insert(q.clone(), qo.fwd.iter().cloned().collect());
        }
        K::BSet(b, _) | K::BRemove(b) => {
            match o.bigs.get(b).cloned().flatten() {
                Some(v) => m.bigs.insert(b.clone(), v),
                None => m.bigs.remove(b),
            };
        }
        _ => return false,
    }
    o.matches(&m).is_ok()
}
/// after an operation failed, its objects must be as before or as after it, and everything else as before
fn after_error(op: &Op, e: &str, before: &Model, o: &Obs, what: &str) -> Model {
    let e1 = match o.matches(before) {
        Ok(()) => return adopt(op, before, o),
        Err(e) => e,
    };
    let e2 = match predict(op, before, o) {
        Some(a) => match o.matches(&a) {
            Ok(()) => {
                label("failed operations in effect");
                return adopt(op, before, o);
            }
            Err(e) => e,
        },
        None => "no such state".into(),
    };
    if partial(op, before, o) {
        label("failed operations partly in effect");
        return adopt(op, before, o);
    }
    bad!("in-between", "{op} failed ({e}); {what}, the store is neither as before it ({e1}) nor as after it ({e2})");
}
/// what is observed becomes the model
fn adopt(op: &Op, before: &Model, o: &Obs) -> Model {
    let mut a = o.model();
    a.loose = before.loose.clone();
    if let K::BSet(b, _) | K::BRemove(b) = &op.k {
        a.loose.insert(b.clone());
    }
    a
}
fn look(st: &CandyStore, p: &Pools, what: &str) -> Obs {
    let o = match observe(st, p) {
        Ok(o) => o,
        Err(e) => bad!("unusable", "{what}: {e}"),
    };
    if let Err(e) = o.coherent() {
        bad!("incoherent", "{what}: {e}");
    }
    o
}
/// clear() failed: unless the store is usable as it is, clearing again or reopening gets it back
fn after_failed_clear(st: &CandyStore, e: &str, before: &Model, p: &Pools) -> Option<Model> {
    match observe(st, p) {
        Ok(o) => {
            if let Err(e) = o.coherent() {
                bad!("incoherent", "after a failed clear: {e}");
            }
            Some(after_error(&Op { k: K::Clear, alt: false }, e, before, &o, "afterwards"))
        }
        Err(x) => {
            check!(!x.contains("panicked"), "panic", "after a failed clear ({e}): {x}");
            label("failed clears that left the store unusable until cleared again or reopened");
            None
        }
    }
}

// ---------------------------------------------------------------- one client
fn all_pools(g: &mut G, cfg: &Config, n: usize) -> Vec<Pools> {
    let maxval = (*g.pick(&[60usize, 8, 150])).min(cfg.max_shard_size as usize - 120);
    let nk = *g.pick(&[8usize, 3, 20, 40, 80]);
    let ds = g.chance(1, 2);
    (0..n)
        .map(|i| Pools {
            keys: numbered(&format!("{}", (b'a' + i as u8) as char), nk),
            lists: if ds { numbered(&format!("L{i}."), 2) } else { vec![] },
            items: numbered("i", 4),
            queues: if ds { numbered(&format!("q{i}."), 2) } else { vec![] },
            bigs: if ds && cfg.max_shard_size >= 600 { numbered(&format!("b{i}."), 1) } else { vec![] },
            maxval,
            ctr: i as u32 * 100_000,
        })
        .collect()
}
#[derive(Clone, Copy, Default)]
struct How {
    /// nobody else uses the store
    alone: bool,
    armed: bool,
    clears: bool,
    /// mostly writes of large values
    grow: bool,
}
fn gen(g: &mut G, p: &mut Pools, mo: &Model, how: How) -> Op {
    let How { alone, armed, clears, grow } = how;
    if grow && !p.keys.is_empty() && g.chance(2, 3) {
        let k = g.pick(&p.keys).clone();
        p.ctr += 1;
        let mut v = format!("g{}.", p.ctr).into_bytes();
        v.resize(v.len().max(p.maxval), b'g');
        return Op { k: if g.chance(1, 5) { K::Remove(k) } else { K::Set(k, v) }, alt: g.chance(1, 4) };
    }
    let ds = !p.lists.is_empty();
    let b = !p.bigs.is_empty();
    let w = g.weighted(&[20, if ds { 8 } else { 0 }, if ds { 8 } else { 0 }, if b { 2 } else { 0 }, 1, 1, if alone { 3 } else { 1 }, if alone && clears { 1 } else { 0 }]);
    let mut op = match w {
        0 => gen_kv(g, p, mo),
        1 => gen_list(g, p, mo),
        2 => gen_queue(g, p, mo),
        3 => gen_big(g, p, 180),
        4 => Op { k: K::Flush, alt: false },
        5 => Op { k: K::Stats, alt: false },
        6 => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        _ => Op { k: K::Clear, alt: false },
    };
    if armed {
        if let K::LCompact(l, ..) = &op.k {
            // documented as not crash-safe: an interruption may scramble the list's order
            op.k = K::LPopH(l.clone());
        }
    }
    if !alone && matches!(op.k, K::Iter) {
        op.k = K::Flush;
    }
    op
}
fn open_ok(dir: &std::path::Path, cfg: &Config, what: &str) -> CandyStore {
    match try_open(dir, cfg) {
        Ok(s) => s,
        Err(e) => bad!("open", "{what}: the store cannot be opened: {e}; files: {:?}", dir_files(dir)),
    }
}
/// open with failing operations, a few times, then without
fn open_through(g: &mut G, dir: &std::path::Path, cfg: &Config, tries: u64) -> CandyStore {
    for _ in 0..g.n(tries + 1) {
        let f = Fault::gen(g, 40);
        let f0 = fired();
        f.arm();
        let r = try_open(dir, cfg);
        settle();
        pause_faults();
        match r {
            Ok(s) => {
                trace!("open while {f} -> ok ({} failed)", fired() - f0);
                if fired() > f0 {
                    label("opened in spite of a failure");
                }
                return s;
            }
            Err(e) => {
                trace!("open while {f} -> {e}");
                check!(!e.starts_with("PANIC"), "panic", "open while {f}: {e}");
                check!(fired() > f0, "open", "no file operation failed, yet opening failed: {e}; files: {:?}", dir_files(dir));
                label("failed opens");
                fired_labels();
                evals(1);
            }
        }
    }
    let s = open_ok(dir, cfg, "once nothing fails");
    trace!("open -> ok");
    s
}
fn panics() {
    if candy_panics() > 0 {
        bad!("panic", "a background thread panicked: {}", last_panic());
    }
}
fn c24_ops(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = tiny(g);
    let mut p = all_pools(g, &cfg, 1).pop().unwrap();
    let n = g.range(10, if c.thorough { 300 } else { 150 });
    let every = *g.pick(&[4u64, 8, 15]);
    let far = *g.pick(&[8u64, 3, 30, 100]);
    let clears = g.chance(1, 3);
    let grow = g.chance(1, 2);
    unsafe { NO_DTYPE = g.chance(1, 3) };
    let (sv, pol) = g.sched(40);
    let dir = c.dir.join("store");
    rt::start();
    unsafe { rt::S.no_dtype = NO_DTYPE };
    rt::set_sched(sv, pol);
    let min_max = cfg.max_shard_size;
    trace!("open new store: {}", show_cfg(&cfg));
    let mut st = open_through(g, &dir, &cfg, 1);
    let mut mo = Model::default();
    let tot = g.count(OP, n);
    let mut left = 0; // operations until the window closes
    let (mut wait, mut armed0) = (0, 0);
    let (mut splits, mut comps, mut nerr) = (0, 0, 0u64);
    for i in 0..tot {
        g.select(OP, i);
        if left == 0 && g.chance(1, every) {
            let f = Fault::gen(g, far);
            left = 1 + g.us(6);
            wait = if f.rare { 40 } else { 0 };
            trace!("from here: {f}");
            armed0 = fired();
            f.arm();
        }
        if g.chance(1, 30) {
            // close (maybe while things fail) and open again (likewise)
            trace!("close");
            close(st);
            settle();
            panics();
            pause_faults();
            left = 0;
            if g.chance(1, 3) {
                cfg = other_cfg(g, &cfg, min_max);
                trace!("configuration: {}", show_cfg(&cfg));
            }
            st = open_through(g, &dir, &cfg, 2);
            let o = look(&st, &p, "after reopening");
            if let Err(e) = o.matches(&mo) {
                bad!("lost", "after reopening: {e}");
            }
            continue;
        }
        let op = gen(g, &mut p, &mo, How { alone: true, armed: left > 0, clears, grow });
        let f0 = fired();
        let r = run_op(&st, &op);
        trace!("{op} -> {r}");
        panics();
        match &r {
            Res::Panic(e) => bad!("panic", "{op} panicked: {e}"),
            Res::Err(e) => {
                let e = &format!("{e:?}");
                check!(left > 0 && fired() > f0, "error", "{op}: no file operation failed, yet it returned {e}");
                fired_labels();
                evals(1);
                nerr += 1;
                label("failed operations");
                let f = pause_faults();
                if g.chance(1, 4) {
                    settle();
                }
                if matches!(op.k, K::Clear) {
                    match after_failed_clear(&st, e, &mo, &p) {
                        Some(x) => mo = x,
                        None => {
                            let fin = Model { loose: p.bigs.iter().cloned().collect(), ..Model::default() };
                            if g.chance(1, 2) {
                                let r = run_op(&st, &op);
                                trace!("{op} -> {r}");
                                check!(!r.is_err(), "unusable", "clear() failed ({e}), and failed again with nothing failing: {r}");
                            } else {
                                trace!("close");
                                close(st);
                                settle();
                                left = 0;
                                st = open_through(g, &dir, &cfg, 2);
                            }
                            let o = look(&st, &p, "after a failed clear");
                            if left == 0 && o.matches(&mo).is_ok() {
                                // it had failed before having any effect
                                continue;
                            }
                            if let Err(e) = o.matches(&fin) {
                                bad!("lost", "a failed clear and its repetition, or reopening: {e}");
                            }
                            mo = o.model();
                            mo.loose = fin.loose;
                        }
                    }
                } else {
                    let o = look(&st, &p, &format!("after {op} failed ({e})"));
                    mo = after_error(&op, e, &mo, &o, "afterwards");
                }
                if left > 0 {
                    resume_faults(f);
                }
            }
            _ => {
                if let Err(e) = mo.apply(&op, &r) {
                    bad!(sig_of(&op, &r), "{op}: {e}");
                }
            }
        }
        if left > 0 {
            if wait > 0 && fired() == armed0 {
                wait -= 1;
            } else {
                left -= 1;
            }
            if left == 0 {
                pause_faults();
                trace!("from here nothing fails");
                if g.chance(1, 2) {
                    let o = look(&st, &p, "after the failures");
                    if let Err(e) = o.matches(&mo) {
                        bad!("lost", "after the failures: {e}");
                    }
                }
            }
        }
    }
    pause_faults();
    if g.chance(1, 2) {
        settle();
        panics();
    }
    let o = look(&st, &p, "finally");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "finally: {e}");
    }
    match rt::api(op_id("stats".into()), || st.stats()) {
        Ok(s) => {
            splits += s.num_splits;
            comps += s.num_compactions;
        }
        Err(p) => bad!("panic", "stats() panicked: {p} ({})", last_panic()),
    }
    label_n("splits", splits as u64);
    label_n("compactions", comps as u64);
    close(st);
    settle();
    panics();
    trace!("reopen");
    let st = open_ok(&dir, &cfg, "finally");
    let o = look(&st, &p, "finally, reopened");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "finally, reopened: {e}");
    }
    // it is fully usable
    for j in 0..5 {
        g.select(EXTRA, 50 + j);
        let op = gen(g, &mut p, &mo, How { alone: true, clears: true, ..How::default() });
        let r = run_op(&st, &op);
        trace!("{op} -> {r}");
        if let Err(e) = mo.apply(&op, &r) {
            bad!(sig_of(&op, &r), "reopened, {op}: {e}");
        }
    }
    let o = look(&st, &p, "at the end");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "at the end: {e}");
    }
    close(st);
    settle();
    panics();
    if nerr > 0 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- concurrent clients
fn c24_conc(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = tiny(g);
    let n = *g.pick(&[2usize, 3]);
    let pools = all_pools(g, &cfg, n);
    let per = g.range(5, if c.thorough { 60 } else { 40 });
    let far = *g.pick(&[20u64, 60, 200]);
    let grow = g.chance(1, 2);
    let f = Fault::gen(g, far);
    unsafe { NO_DTYPE = g.chance(1, 3) };
    let (sv, pol) = g.sched(60);
    let dir = c.dir.join("store");
    rt::start();
    unsafe { rt::S.no_dtype = NO_DTYPE };
    trace!("open new store: {}; {f}", show_cfg(&cfg));
    let st = Arc::new(open_ok(&dir, &cfg, "new"));
    rt::set_sched(sv, pol);
    let tot = g.count(OP, per * n);
    let gp = g as *mut G as usize;
    f.arm();
    let hs: Vec<_> = pools
        .into_iter()
        .enumerate()
        .map(|(ci, mut p)| {
            let st = st.clone();
            std::thread::spawn(move || {
                let mut mo = Model::default();
                let mut failed = None;
                for i in 0..(tot + n - 1 - ci) / n {
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + ci);
                    let op = gen(g, &mut p, &mo, How { armed: true, grow, ..How::default() });
                    let r = run_op(&st, &op);
                    trace!("[{ci}] {op} -> {r}");
                    match r {
                        Res::Panic(e) => bad!("panic", "{op} panicked: {e}"),
                        Res::Err(e) => {
                            failed = Some((op, format!("{e:?}")));
                            break;
                        }
                        _ => {
                            if let Err(e) = mo.apply(&op, &r) {
                                bad!(sig_of(&op, &r), "[{ci}] {op}: {e}");
                            }
                        }
                    }
                }
                (p, mo, failed)
            })
        })
        .collect();
    let mut cl: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    pause_faults();
    let nf = fired();
    if g.chance(1, 2) {
        settle();
    }
    panics();
    let mut any = false;
    for (ci, (p, mo, failed)) in cl.iter_mut().enumerate() {
        let o = match observe(&st, p) {
            Ok(o) => o,
            Err(e) => bad!("unusable", "after the failures: {e}"),
        };
        let mut o2 = o.restrict(p);
        o2.iter = o2.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        if let Err(e) = o2.coherent() {
            bad!("incoherent", "after the failures: {e}");
        }
        match failed {
            Some((op, e)) => {
                check!(nf > 0, "error", "no file operation failed, yet [{ci}] {op} returned {e}");
                fired_labels();
                label("failed operations");
                evals(1);
                any = true;
                *mo = after_error(op, e, mo, &o2, "afterwards");
            }
            None => {
                if let Err(e) = o2.matches(mo) {
                    bad!("lost", "after the failures, client {ci}: {e}");
                }
            }
        }
    }
    // from here on nothing fails
    let step = |g: &mut G, st: &CandyStore, cl: &mut Vec<(Pools, Model, Option<(Op, String)>)>, base: usize| {
        for (ci, (p, mo, _)) in cl.iter_mut().enumerate() {
            for j in 0..4 {
                g.select(EXTRA, base + ci * 8 + j);
                let op = gen(g, p, mo, How::default());
                let r = run_op(st, &op);
                trace!("[{ci}] {op} -> {r}");
                if let Err(e) = mo.apply(&op, &r) {
                    bad!(sig_of(&op, &r), "after the failures, [{ci}] {op}: {e}");
                }
            }
        }
    };
    step(g, &st, &mut cl, 50);
    match rt::api(op_id("stats".into()), || st.stats()) {
        Ok(s) => {
            label_n("splits", s.num_splits as u64);
            label_n("compactions", s.num_compactions as u64);
        }
        Err(p) => bad!("panic", "stats() panicked: {p} ({})", last_panic()),
    }
    close(Arc::try_unwrap(st).ok().unwrap());
    settle();
    panics();
    trace!("reopen");
    let st = open_ok(&dir, &cfg, "after the failures");
    for (ci, (p, mo, _)) in cl.iter().enumerate() {
        let o = match observe(&st, p) {
            Ok(o) => o.restrict(p),
            Err(e) => bad!("unusable", "reopened: {e}"),
        };
        if let Err(e) = o.matches(mo) {
            bad!("lost", "reopened, client {ci}: {e}");
        }
    }
    step(g, &st, &mut cl, 100);
    close(st);
    settle();
    panics();
    if any {
        nontrivial();
    }
}

// ---------------------------------------------------------------- opening what a crash left
fn c24_open(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = tiny(g);
    let mut p = kv_pools(g, &cfg, 0, 1);
    p.items = numbered("i", 4);
    if g.chance(1, 4) {
        p.lists = numbered("L", 1);
        p.queues = numbered("q", 1);
        p.maxval = p.maxval.min(cfg.max_shard_size as usize - 120);
    }
    let per = g.range(8, if c.thorough { 100 } else { 60 });
    let gap = *g.pick(&[4u64, 12, 40]);
    let skip = g.n(per as u64 * 4 + 1);
    let salt = g.n(1 << 30);
    let tries = 1 + g.n(3);
    let creation = g.chance(1, 4);
    unsafe { NO_DTYPE = g.chance(1, 3) };
    let (sv, pol) = g.sched(40);
    let dir = c.dir.join("store");
    rt::start();
    unsafe { rt::S.no_dtype = NO_DTYPE };
    rt::set_sched(sv, pol);
    if creation {
        record(&dir, gap, 0, 25, 1, salt);
    }
    trace!("open new store: {}", show_cfg(&cfg));
    let st = open_ok(&dir, &cfg, "new");
    if !creation {
        record(&dir, gap, skip, 25, 1, salt);
    }
    let st = Arc::new(st);
    let cl = vec![Client { ops: vec![], models: vec![Model::default()], pools: p }];
    fn go(g: &mut G, p: &mut Pools, mo: &Model) -> Op {
        let ds = !p.lists.is_empty();
        match g.weighted(&[20, if ds { 8 } else { 0 }, if ds { 8 } else { 0 }, 1, 3]) {
            0 => gen_kv(g, p, mo),
            1 => {
                let mut op = gen_list(g, p, mo);
                if let K::LCompact(l, ..) | K::LPromote(l, ..) | K::LDiscard(l) = &op.k {
                    op.k = K::LPopH(l.clone());
                }
                op
            }
            2 => {
                let mut op = gen_queue(g, p, mo);
                if let K::QExtend(q, ..) | K::QDiscard(q) = &op.k {
                    op.k = K::QPopT(q.clone());
                }
                op
            }
            3 => Op { k: K::Flush, alt: false },
            _ => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        }
    }
    let cl = run_clients(g, &st, cl, per, go);
    close(Arc::try_unwrap(st).ok().unwrap());
    settle();
    snap_now(Ev::Create);
    let (imgs, _) = stop();
    rt::end_sched();
    panics();
    let v = Verify { cfg: &cfg, dir: &c.dir, all: union(&cl), clients: &cl, partial: no_partial, nested: 0, cont: 0, salt, gen: go, contlen: 0 };
    let d = c.dir.join("img");
    let f0 = fired();
    for (ix, im) in imgs.iter().enumerate() {
        g.select(EXTRA, 100 + ix);
        let at = where_(im, &v);
        trace!("{at}");
        put(&im.img, &d);
        let st = open_through(g, &d, &cfg, tries);
        evals(1);
        let at = format!("{at}; opened with failures, then without");
        let mo = judge(&v, &st, &im.prog, &at);
        // and what is there stays there
        close(st);
        settle();
        let st = open_ok(&d, &cfg, &at);
        let o = look(&st, &v.all, &at);
        if let Err(e) = o.matches(&mo) {
            bad!("lost", "{at}, reopened: {e}");
        }
        close(st);
        settle();
        panics();
        for (k, l) in [("compact_", "crash images holding a compaction"), ("bottom_", "crash images holding a split"), ("merge_", "crash images holding a merge"), ("reset", "crash images holding a reset")] {
            if im.img.files.keys().any(|f| f.starts_with(k)) {
                label(l);
            }
        }
    }
    if fired() > f0 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- failing for long
/// a full disk (say), while the application keeps trying
fn c24_long(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = tiny(g);
    cfg.max_shard_size = *g.pick(&[400_000u32, 1_000_000]);
    cfg.min_compaction_threashold = cfg.max_shard_size / 4;
    let vlen = *g.pick(&[65_000usize, 65_200, 30_000]);
    unsafe { libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 28) };
    let tries = *g.pick(&[3u64, 100, 3000, 66_300, 66_300, 70_000]);
    let stuck = g.chance(3, 4); // in the middle of a compaction
    let keys = numbered("k", 3);
    let nk = *g.pick(&[1usize, 2, 3]);
    let wait = g.chance(1, 2);
    let (sv, pol) = g.sched(10);
    let dir = c.dir.join("store");
    rt::start();
    rt::set_sched(sv, pol);
    trace!("open new store: {}", show_cfg(&cfg));
    let st = open_ok(&dir, &cfg, "new");
    let mut mo = Model::default();
    let p = Pools { keys: keys.clone(), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: vlen, ctr: 0 };
    let mut vn = 0;
    let set = |st: &CandyStore, mo: &mut Model, k: &B, v: B| {
        let op = Op { k: K::Set(k.clone(), v), alt: false };
        let r = run_op(st, &op);
        trace!("{op} -> {r}");
        if let Err(e) = mo.apply(&op, &r) {
            bad!(sig_of(&op, &r), "{op}: {e}");
        }
    };
    for k in &keys {
        set(&st, &mut mo, k, fill(vn, vlen));
        vn += 1;
    }
    if stuck {
        // enough to be reclaimed for the next operation to start a compaction
        let mut w = 0;
        while w < cfg.min_compaction_threashold as usize {
            set(&st, &mut mo, &keys[0], fill(vn, vlen));
            vn += 1;
            w += vlen;
        }
    }
    unsafe {
        rt::S.fault_mask = m(Ev::Write);
        rt::S.fault_at = 0;
        rt::S.fault_len = 1 << 40;
        rt::S.fault_errno = libc::EIO;
        rt::S.fault_seen = 0;
        rt::S.fault_tid = -1;
    }
    trace!("from here all writes fail");
    let op = Op { k: K::Goc(keys[0].clone(), b"x".to_vec()), alt: false };
    let r = run_op(&st, &op);
    trace!("{op} -> {r}");
    if let Err(e) = mo.apply(&op, &r) {
        bad!(sig_of(&op, &r), "{op}: {e}");
    }
    if wait {
        settle();
    }
    trace!("{:?}", dir_files(&dir));
    if dir_files(&dir).iter().any(|f| f.0.starts_with("compact_")) {
        label("failing in the middle of a compaction");
    }
    trace!("{tries} times: set one of {nk} keys to {vlen} bytes, which fails");
    let vals = [fill(1000, vlen), fill(1001, vlen)];
    for i in 0..tries {
        let op = Op { k: K::Set(keys[i as usize % nk].clone(), vals[i as usize % 2].clone()), alt: false };
        let r = run_op(&st, &op);
        match &r {
            Res::Panic(e) => bad!("panic", "attempt {i}: {op} panicked: {e}"),
            Res::Err(_) => {}
            _ => bad!("unreported", "attempt {i}: every write fails, yet {op} -> {r}"),
        }
    }
    label_n("failed operations", tries);
    if tries as usize * vlen > 1 << 32 {
        label("attempts to write more than 4 GB");
    }
    pause_faults();
    panics();
    trace!("from here nothing fails");
    let o = look(&st, &p, "after the failures");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "after the failures: {e}");
    }
    evals(1);
    for k in &keys {
        set(&st, &mut mo, k, fill(vn, vlen / 2 + vn as usize));
        vn += 1;
        evals(1);
    }
    let o = look(&st, &p, "having set everything again");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "having set everything again: {e}");
    }
    settle();
    panics();
    close(st);
    settle();
    trace!("reopen");
    let st = open_ok(&dir, &cfg, "reopened");
    let o = look(&st, &p, "reopened");
    if let Err(e) = o.matches(&mo) {
        bad!("lost", "reopened: {e}");
    }
    for k in &keys {
        set(&st, &mut mo, k, fill(vn, vlen / 2 + vn as usize));
        vn += 1;
    }
    close(st);
    settle();
    panics();
    // attempts leave nothing behind that takes space
    let sz: u64 = dir_files(&dir).iter().filter(|f| f.0.starts_with("shard_")).count() as u64;
    check!(sz <= 8, "shards", "{sz} shards for 3 entries");
    nontrivial();
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        level: "fault_enumeration",
        rule: "a case counts when a call returned an injected failure (opening: when a file operation failed while opening)",
        assumptions: &[
            "a failing file operation has no effect, except that a write failing for lack of space may have written a part",
            "preallocation (posix_fallocate, whose result is ignored by design) succeeds, so stores to the mapped header do not fault",
        ],
        parts: &[("ops", 2200, 80000, c24_ops), ("concurrent", 2500, 80000, c24_conc), ("open", 800, 30000, c24_open), ("long", 12, 150, c24_long)],
        expect: &["failed: write", "failed: resize", "failed: create/open", "failed: rename", "failed: unlink", "failed: sync", "failed: map", "failed: read", "failed: directory read", "failed: stat", "failed opens", "attempts to write more than 4 GB", "failing in the middle of a compaction", "splits", "compactions"],
    }]
}
