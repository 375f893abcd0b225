//! C21 (flush) and C22 (aggregated flush): what has been synced suffices.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_ds::*;
use crate::rt::{self, Ev};
use crate::snap::*;
use candystore::{CandyStore, Config};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::Arc;

/// the objects an operation may change
fn touches(op: &Op) -> Option<(u8, B)> {
    match &op.k {
        K::LSet(l, ..) | K::LPromote(l, ..) | K::LReplace(l, ..) | K::LGoc(l, ..) | K::LRemove(l, ..) | K::LDiscard(l) | K::LPopH(l) | K::LPopT(l) | K::LCompact(l, ..) => Some((1, l.clone())),
        K::QPushH(q, _) | K::QPushT(q, _) | K::QPopH(q) | K::QPopT(q) | K::QExtend(q, _) | K::QRemove(q, _) | K::QDiscard(q) => Some((2, q.clone())),
        K::BSet(b, _) | K::BRemove(b) => Some((3, b.clone())),
        K::Clear => Some((9, vec![])),
        _ => None,
    }
}
/// a store reopened from what had been synced holds everything up to the frontier
fn judge_durable(dir: &Path, cfg: &Config, clients: &[Client], im: &Image) {
    let d = dir.join("img");
    put(&im.img, &d);
    let mut at = format!("all that was not synced is lost before effect #{} ({:?})", im.n, im.ev);
    for (ci, c) in clients.iter().enumerate() {
        let (k, infl) = im.prog[ci];
        at.push_str(&format!("; client {ci}: {} operations covered by a flush, {k} done{}", im.front[ci], if infl && k < c.ops.len() { format!(", in [{}]", c.ops[k]) } else { String::new() }));
    }
    at.push_str(&format!("; left: {}", im.img.describe()));
    let st = match try_open(&d, cfg) {
        Ok(s) => s,
        Err(e) => bad!("flush-open", "{at}: the store cannot be opened: {e}"),
    };
    evals(1);
    // objects that may have changed since the flush are not looked at (keys excepted)
    let mut pools: Vec<Pools> = clients.iter().map(|c| c.pools.clone()).collect();
    for (ci, c) in clients.iter().enumerate() {
        let (k, infl) = im.prog[ci];
        let to = if infl { (k + 1).min(c.ops.len()) } else { k };
        let t: BTreeSet<(u8, B)> = c.ops[im.front[ci].min(to)..to].iter().filter_map(touches).collect();
        let p = &mut pools[ci];
        let all = t.contains(&(9, vec![]));
        p.lists.retain(|l| !all && !t.contains(&(1, l.clone())));
        p.queues.retain(|l| !all && !t.contains(&(2, l.clone())));
        p.bigs.retain(|l| !all && !t.contains(&(3, l.clone())));
        label_n("lists and queues compared", (p.lists.len() + p.queues.len()) as u64);
    }
    let pcl: Vec<Client> = pools.iter().map(|p| Client { ops: vec![], models: vec![], pools: p.clone() }).collect();
    let o = match observe(&st, &union(&pcl)) {
        Ok(o) => o,
        Err(e) => bad!("flush-read", "{at}: {e}"),
    };
    if let Err(e) = o.coherent() {
        bad!("flush-incoherent", "{at}: {e}");
    }
    for (ci, c) in clients.iter().enumerate() {
        let (k, infl) = im.prog[ci];
        let f = im.front[ci].min(k);
        let to = if infl { (k + 1).min(c.models.len() - 1) } else { k };
        for key in &c.pools.keys {
            let got = o.kv.get(key);
            if !(f..=to).any(|i| c.models[i].kv.get(key) == got) {
                bad!("flush-lost", "{at}: key {} reads {}, expected {} as of the flush or a later value", short(key), Res::Opt(got.cloned()), Res::Opt(c.models[f].kv.get(key).cloned()));
            }
        }
        let mut m = c.models[f].clone();
        let mut r = o.restrict(&pools[ci]);
        m.kv.clear();
        r.kv.clear();
        if let Err(e) = r.matches(&m) {
            bad!("flush-lost", "{at}: client {ci}: {e}");
        }
    }
    close(st);
    settle();
    if candy_panics() > 0 {
        bad!("panic", "{at}: a background thread panicked: {}", last_panic());
    }
    let f = &im.img.files;
    if f.keys().any(|k| k.starts_with("compact_")) {
        label("evaluated during a compaction");
    }
    if f.keys().any(|k| k.starts_with("bottom_") || k.starts_with("top_")) {
        label("evaluated during a split");
    }
    if f.keys().any(|k| k.starts_with("merge_")) {
        label("evaluated during a merge");
    }
}
fn gen(g: &mut G, p: &mut Pools, m: &Model, single: bool) -> Op {
    loop {
        let w = g.weighted(&[60, if p.lists.is_empty() { 0 } else { 15 }, if p.queues.is_empty() { 0 } else { 15 }, if p.bigs.is_empty() { 0 } else { 4 }, 2, if single { 1 } else { 0 }]);
        let op = match w {
            0 => gen_kv(g, p, m),
            1 => gen_list(g, p, m),
            2 => gen_queue(g, p, m),
            3 => gen_big(g, p, 180),
            4 => Op { k: K::Merge(490), alt: false },
            _ => Op { k: K::Clear, alt: false },
        };
        if !single && matches!(op.k, K::Iter) {
            continue;
        }
        return op;
    }
}
/// one client's share of the operations; `every`: each acknowledged operation is durable (C22)
fn client(s: &Arc<CandyStore>, ci: usize, n: usize, c: &mut Client, g: *mut G, count: usize, flush_in: u64, every: bool) {
    for i in 0..count {
        let g = unsafe { &mut *g };
        g.select(OP, i * n + ci);
        let m = c.models.last().unwrap().clone();
        let fl = flush_in > 0 && g.chance(1, flush_in);
        let op = if fl { Op { k: K::Flush, alt: false } } else { gen(g, &mut c.pools, &m, n == 1) };
        let snap = g.chance(1, 4);
        c.ops.push(op.clone());
        progress(ci, i, true);
        let before = acked();
        let r = run_op(s, &op);
        progress(ci, i + 1, false);
        trace!("[{ci}] {op} -> {r}");
        let mut m = m;
        if let Err(e) = m.apply(&op, &r) {
            bad!(sig_of(&op, &r), "{op}: {e}");
        }
        c.models.push(m);
        if every {
            let mut f = before.clone();
            f[ci] = i + 1;
            for (j, x) in f.iter_mut().enumerate() {
                if j != ci {
                    *x = 0; // the others look after themselves
                }
            }
            flushed(&f);
            if snap && !full() {
                snap_now(Ev::Sync);
            }
        } else if fl {
            flushed(&before);
            label("flushes");
            if !full() {
                snap_now(Ev::Sync);
            }
        }
    }
}
fn pools_for(g: &mut G, cfg: &Config, n: usize) -> Vec<Pools> {
    let maxval = (*g.pick(&[40usize, 8, 150])).min(cfg.max_shard_size as usize - 120);
    let nk = *g.pick(&[6usize, 12, 30, 60]);
    let ds = g.chance(1, 3);
    (0..n)
        .map(|i| Pools {
            keys: numbered(&format!("{}", (b'a' + i as u8) as char), nk),
            lists: if ds { numbered(&format!("L{i}."), 2) } else { vec![] },
            items: numbered("i", 4),
            queues: if ds { numbered(&format!("q{i}."), 2) } else { vec![] },
            bigs: if ds { numbered(&format!("b{i}."), 1) } else { vec![] },
            maxval,
            ctr: i as u32 * 100_000,
        })
        .collect()
}
fn durable_case(g: &mut G, c: &Ctx, cfg: Config, n: usize, per: usize, flush_in: u64, every: bool) {
    let pools = pools_for(g, &cfg, n);
    let (sv, pol) = g.sched(60);
    g.select(EXTRA, 1);
    let gap = *g.pick(&[2u64, 8, 25, 60]);
    let salt = g.n(1 << 30);
    let prefill = g.chance(1, 2);
    let dir = c.dir.join("store");
    rt::start();
    record(&dir, gap, 0, if c.thorough { 60 } else { 30 }, n, salt);
    pause(false);
    durable_mode();
    trace!("open new store: {}", show_cfg(&cfg));
    let st = match try_open(&dir, &cfg) {
        Ok(s) => s,
        Err(e) => bad!("open", "{e}"),
    };
    let mut cl: Vec<Client> = pools.into_iter().map(|p| Client { ops: vec![], models: vec![Model::default()], pools: p }).collect();
    if prefill {
        for c in cl.iter_mut() {
            for k in c.pools.keys.clone() {
                let op = Op { k: K::Set(k, fill(3, c.pools.maxval / 2)), alt: false };
                let r = run_op(&st, &op);
                if let Err(e) = c.models[0].apply(&op, &r) {
                    bad!(sig_of(&op, &r), "{op}: {e}");
                }
            }
        }
        if !every {
            // the frontier starts at operation 0, so what went before must be durable
            let r = run_op(&st, &Op { k: K::Flush, alt: false });
            check!(!r.is_err(), "error", "flush -> {r}");
        }
        trace!("every key set to {} bytes, flushed", cl[0].pools.maxval / 2);
    }
    pause(true);
    rt::set_sched(sv, pol);
    let st = Arc::new(st);
    let gp = g as *mut G as usize;
    let tot = g.count(OP, per * n);
    let cl: Vec<Client> = if n == 1 {
        let mut c = cl.pop().unwrap();
        client(&st, 0, 1, &mut c, gp as *mut G, tot, flush_in, every);
        vec![c]
    } else {
        let hs: Vec<_> = cl
            .into_iter()
            .enumerate()
            .map(|(ci, mut c)| {
                let s = st.clone();
                std::thread::spawn(move || {
                    client(&s, ci, n, &mut c, gp as *mut G, (tot + n - 1 - ci) / n, flush_in, every);
                    drop(s);
                    c
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    };
    if !every {
        let f = acked();
        let r = run_op(&st, &Op { k: K::Flush, alt: false });
        check!(!r.is_err(), "error", "flush -> {r}");
        flushed(&f);
        snap_now(Ev::Sync);
    }
    let stats = match rt::api(op_id("stats".into()), || st.stats()) {
        Ok(s) => s,
        Err(p) => bad!("panic", "stats() panicked: {p} ({})", last_panic()),
    };
    label_n("splits", stats.num_splits as u64);
    label_n("compactions", stats.num_compactions as u64);
    label_n("operations", tot as u64);
    label_n("syncs", unsafe { NSYNC });
    close(Arc::try_unwrap(st).ok().unwrap());
    settle();
    snap_now(Ev::Sync);
    let (imgs, _) = stop();
    unsafe {
        rt::S.on_sync = None;
        rt::S.on_create = None;
    }
    rt::end_sched();
    if candy_panics() > 0 {
        bad!("panic", "a background thread panicked: {}", last_panic());
    }
    for im in &imgs {
        judge_durable(&c.dir, &cfg, &cl, im);
    }
    if stats.num_splits + stats.num_compactions > 0 {
        nontrivial();
    }
}
fn small(g: &mut G) -> Config {
    let mut cfg = gen_cfg(g, &CfgGen { max: &[600, 300, 1200, 2500, 20_000], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    cfg
}
fn c21(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let per = g.range(5, if c.thorough { 120 } else { 60 }) / n + 1;
    let flush_in = *g.pick(&[6u64, 3, 15]);
    durable_case(g, c, cfg, n, per, flush_in, false);
}
/// a failing sync is reported, and the next flush makes up for it
fn c21_fault(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let p = pools_for(g, &cfg, 1).pop().unwrap();
    let per = g.range(3, 60);
    let (sv, pol) = g.sched(40);
    let dir = c.dir.join("store");
    rt::start();
    record(&dir, 0, 0, 0, 1, 0);
    pause(false);
    durable_mode();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    let x = Mix { kv: 100, list: if s.p.lists.is_empty() { 0 } else { 20 }, queue: if s.p.lists.is_empty() { 0 } else { 20 }, ..MIX0 };
    let nops = g.count(OP, per);
    let mut failed = 0;
    for i in 0..nops {
        g.select(OP, i);
        if g.chance(1, 6) {
            // let one sync call made by the flush fail
            let at = g.n(4) as i64;
            let errno = *g.pick(&[libc::EIO, libc::ENOSPC]);
            if g.chance(1, 2) {
                settle();
            }
            unsafe {
                rt::S.fault_mask = 1 << Ev::Sync as u32;
                rt::S.fault_at = at;
                rt::S.fault_len = 1;
                rt::S.fault_errno = errno;
                rt::S.fault_seen = 0;
                rt::S.fault_fired = 0;
                rt::S.fault_tid = rt::tid();
            }
            let r = run_op(s.st(), &Op { k: K::Flush, alt: false });
            let fired = unsafe {
                rt::S.fault_mask = 0;
                rt::S.fault_tid = -1;
                rt::S.fault_fired
            };
            trace!("flush, sync number {at} failing -> {r}");
            evals(1);
            if fired > 0 {
                failed += 1;
                label("flushes with a failing sync");
                if at > 0 {
                    label("the failing sync is not the first");
                }
                check!(matches!(r, Res::Err(_)), "unreported", "a sync failed during a flush, which returned {r}");
            } else {
                check!(!r.is_err(), "error", "no sync failed, yet flush returned {r}");
                label("flushes with fewer syncs");
            }
            if g.chance(1, 2) {
                let r = run_op(s.st(), &Op { k: K::Flush, alt: false });
                check!(!r.is_err(), "error", "flush after a failed one -> {r}");
                let img = durable(&s.dir);
                let cl = vec![Client { ops: vec![], models: vec![s.m.clone()], pools: s.p.clone() }];
                trace!("flush -> {r}; everything must be durable");
                let im = Image { img, ev: Ev::Sync, n: i as u64, prog: vec![(0, false)], front: vec![0] };
                let hold = unsafe { rt::S.on_sync.take() };
                judge_durable(&c.dir, &s.cfg, &cl, &im);
                unsafe { rt::S.on_sync = hold };
            }
        } else if let Step::Op(op) = gen_step(g, &mut s, &x, 0) {
            s.run(&op);
        }
    }
    s.verify("finally");
    s.label_restructuring();
    s.close();
    if failed > 0 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C22
#[cfg(feature = "flushagg")]
mod agg {
    use super::*;
    use crate::lin;
    use std::time::Duration;
    fn delay(g: &mut G) -> Option<Duration> {
        Some(*g.pick(&[Duration::from_millis(5), Duration::from_nanos(1), Duration::from_micros(50), Duration::from_millis(200)]))
    }
    pub fn synced(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = small(g);
        cfg.flush_aggregation_delay = delay(g);
        let n = *g.pick(&[3usize, 2, 4, 1]);
        let per = g.range(4, if c.thorough { 40 } else { 24 }) / n + 1;
        durable_case(g, c, cfg, n, per, 0, true);
        if unsafe { NSYNC } > 0 {
            label("cases");
        }
    }
    /// syncs fail now and then: what returned successfully is durable all the same
    pub fn faults(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = small(g);
        cfg.max_shard_size = cfg.max_shard_size.max(1200);
        cfg.flush_aggregation_delay = delay(g);
        let n = *g.pick(&[3usize, 2, 4]);
        let per = g.range(2, 8);
        let nk = *g.pick(&[2usize, 4]);
        let mut faults: Vec<(u64, u64)> = vec![];
        for _ in 0..g.range(1, 3) {
            faults.push((g.n(3 * n as u64 + 4), 1 + g.n(3)));
        }
        let (sv, pol) = g.sched(60);
        let dir = c.dir.join("store");
        rt::start();
        record(&dir, 0, 0, 0, n, 0);
        pause(false);
        durable_mode();
        trace!("open new store: {}", show_cfg(&cfg));
        let st = match try_open(&dir, &cfg) {
            Ok(s) => Arc::new(s),
            Err(e) => bad!("open", "{e}"),
        };
        rt::set_sched(sv, pol);
        let tot = g.count(OP, per * n);
        let gp = g as *mut G as usize;
        unsafe {
            rt::S.fault_mask = 1 << Ev::Sync as u32;
            rt::S.fault_at = faults[0].0 as i64;
            rt::S.fault_len = faults[0].1 as i64;
            rt::S.fault_errno = libc::EIO;
        }
        trace!("sync calls {} to {} fail", faults[0].0, faults[0].0 + faults[0].1 - 1);
        let imgs: Arc<std::sync::Mutex<Vec<(Img, usize, B, B)>>> = Default::default();
        let hs: Vec<_> = (0..n)
            .map(|ci| {
                let st = st.clone();
                let imgs = imgs.clone();
                std::thread::spawn(move || {
                    for i in 0..(tot + n - 1 - ci) / n {
                        let g = unsafe { &mut *(gp as *mut G) };
                        g.select(OP, i * n + ci);
                        let k = format!("{}{}", (b'a' + ci as u8) as char, g.us(nk)).into_bytes();
                        let v = format!("v{ci}.{i}").into_bytes();
                        let op = Op { k: K::Set(k.clone(), v.clone()), alt: false };
                        let r = run_op(&st, &op);
                        trace!("[{ci}] {op} -> {r}");
                        match r {
                            Res::Panic(p) => bad!("panic", "{op} panicked: {p}"),
                            Res::Err(_) => label("operations that reported the failure"),
                            _ => {
                                let im = rt::quiet(|| durable(&dir_of(&st)));
                                imgs.lock().unwrap().push((im, ci, k, v));
                            }
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let fired = unsafe {
            rt::S.fault_mask = 0;
            rt::S.fault_fired
        };
        close(Arc::try_unwrap(st).ok().unwrap());
        settle();
        unsafe {
            rt::S.on_sync = None;
            rt::S.on_create = None;
        }
        rt::end_sched();
        let imgs = std::mem::take(&mut *imgs.lock().unwrap());
        let d = c.dir.join("img");
        for (im, ci, k, v) in imgs {
            put(&im, &d);
            let st = match try_open(&d, &cfg) {
                Ok(s) => s,
                Err(e) => bad!("flush-open", "what was synced cannot be opened: {e}"),
            };
            evals(1);
            let r = run_op(&st, &Op { k: K::Get(k.clone()), alt: false });
            check!(r == Res::Opt(Some(v.clone())), "flush-lost", "when client {ci}'s set({}, {}) returned successfully, the synced contents had {r}", short(&k), short(&v));
            close(st);
            settle();
        }
        if fired > 0 {
            label("cases with failing syncs");
            nontrivial();
        }
    }
    static mut DIR: Option<std::path::PathBuf> = None;
    fn dir_of(_: &CandyStore) -> std::path::PathBuf {
        unsafe { DIR.clone().unwrap() }
    }
    pub fn faults_(g: &mut G, c: &Ctx) {
        unsafe { DIR = Some(c.dir.join("store")) };
        faults(g, c)
    }
    /// the map itself is the same with and without a delay
    pub fn map(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &SMALL);
        cfg.hash_seed = *SEED;
        cfg.flush_aggregation_delay = if g.chance(1, 2) { None } else { delay(g) };
        let ds = g.chance(1, 2);
        let maxval = (*g.pick(&[40usize, 8, 150])).min(cfg.max_shard_size as usize - 120);
        let p = Pools {
            keys: numbered("k", *g.pick(&[12usize, 40])),
            lists: if ds { numbered("L", 2) } else { vec![] },
            items: numbered("i", 5),
            queues: if ds { numbered("q", 2) } else { vec![] },
            bigs: vec![],
            maxval,
            ctr: 0,
        };
        let n = g.range(20, 150);
        let (sv, pol) = g.sched(40);
        rt::start();
        rt::set_sched(sv, pol);
        let min_max = cfg.max_shard_size;
        let none = cfg.flush_aggregation_delay.is_none();
        record(&c.dir.join("store"), 0, 0, 0, 1, 0);
        pause(false);
        durable_mode();
        let mut s = Sess::new(&c.dir, cfg, p);
        let x = Mix { kv: 200, list: if ds { 100 } else { 0 }, queue: if ds { 80 } else { 0 }, stats: 2, flush: 1, merge: 4, reopen: 3, check: 2, clear: 1, ..MIX0 };
        session(g, &mut s, n, &x, 0, min_max);
        label(if none { "histories without a delay" } else { "histories with a delay" });
        nontrivial();
    }
    pub fn conc(g: &mut G, c: &Ctx) {
        let (s, n, per) = lin::setup_c05_with(g, c, &[300, 600, 1200], |g, cfg| cfg.flush_aggregation_delay = if g.chance(1, 2) { None } else { delay(g) });
        let mut s = s;
        lin::concurrent(g, &mut s, n, per, lin::gen_c05);
        lin::finish(g, s);
    }
}

pub fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![Prop {
        id: "C21",
        level: "fault_enumeration",
        rule: "a case counts when shards were split or compacted, or a sync was made to fail",
        assumptions: &["creating, renaming and deleting files persists at once and in order; file contents persist only by a sync of that file"],
        parts: &[("durable", 1700, 80000, c21), ("failing", 1100, 50000, c21_fault)],
        expect: &["flushes", "evaluated during a compaction", "evaluated during a split", "flushes with a failing sync", "lists and queues compared"],
    }];
    #[cfg(feature = "flushagg")]
    v.push(Prop {
        id: "C22",
        level: "fault_enumeration",
        rule: "a case counts when shards restructured, syncs failed, or a whole history was compared with the model",
        assumptions: &["creating, renaming and deleting files persists at once and in order; file contents persist only by a sync of that file", "delays elapse in simulated time"],
        parts: &[("synced", 1600, 80000, agg::synced), ("failing", 1200, 60000, agg::faults_), ("map", 500, 30000, agg::map), ("concurrent", 600, 30000, agg::conc)],
        expect: &["operations that reported the failure", "histories without a delay", "histories with a delay", "compactions", "splits"],
    });
    v
}
