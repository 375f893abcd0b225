//! C23: no deadlock, no endless call, and closing waits for background work.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt;
use candystore::CandyStore;
use std::sync::Arc;

/// any public operation
fn any_op(g: &mut G, p: &mut Pools, m: &Model, heavy: bool) -> Op {
    match g.weighted(&[20, 14, 14, 4, if heavy { 6 } else { 2 }, 3, 3, if heavy { 4 } else { 1 }, 2]) {
        0 => gen_kv(g, p, m),
        1 => gen_list(g, p, m),
        2 => gen_queue(g, p, m),
        3 => gen_big(g, p, 180),
        4 => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        5 => Op { k: K::Flush, alt: false },
        6 => Op { k: K::Stats, alt: false },
        7 => Op { k: K::Clear, alt: false },
        _ => Op { k: K::Iter, alt: false },
    }
}
/// operations performed while iterators over the store, a list and a queue are being held
fn nested(g: &mut G, st: &CandyStore, ci: usize, p: &mut Pools, m: &Model, heavy: bool) {
    let l = p.lists[g.us(p.lists.len())].clone();
    let q = p.queues[g.us(p.queues.len())].clone();
    let mut ops = vec![];
    for _ in 0..6 {
        ops.push(any_op(g, p, m, heavy));
    }
    trace!("[{ci}] iterating, with operations in between");
    let r = rt::api(op_id("iteration with operations in between".into()), || {
        let mut it = st.iter();
        let mut li = st.iter_list(&l);
        let mut lb = st.iter_list_backwards(&l);
        let mut qi = st.iter_queue(&q);
        for op in &ops {
            let _ = it.next();
            let _ = li.next();
            let _ = lb.next();
            let _ = qi.next();
            exec(st, op);
        }
        drop(li);
        for _ in 0..50 {
            if it.next().is_none() {
                break;
            }
        }
    });
    if let Err(e) = r {
        bad!("panic", "iterating panicked: {e} ({})", last_panic());
    }
    label("iterations held across operations");
}
fn c23(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[600, 300, 1200, 2500], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000, 100_000], threads: 4 });
    cfg.hash_seed = *SEED;
    let n = g.range(1, 4);
    let per = g.range(2, if c.thorough { 60 } else { 30 });
    let heavy = g.chance(1, 2);
    let same = g.chance(1, 2);
    let no = *g.pick(&[2usize, 1, 6]);
    let p = Pools {
        keys: numbered("k", *g.pick(&[6usize, 2, 30])),
        lists: numbered("L", no),
        items: numbered("i", *g.pick(&[3usize, 6])),
        // a big value is a queue: keep them apart, as mixing them is the caller's mistake, or not
        queues: numbered("q", no),
        bigs: if same { numbered("q", no) } else { numbered("b", no) },
        maxval: (*g.pick(&[40usize, 120])).min(cfg.max_shard_size as usize - 160),
        ctr: 0,
    };
    let trap = g.chance(1, 4);
    let (sv, pol) = g.sched(80);
    rt::start();
    unsafe { rt::S.max_steps = 4_000_000 };
    let dir = c.dir.join("store");
    let st = match try_open(&dir, &cfg) {
        Ok(s) => Arc::new(s),
        Err(e) => bad!("open", "{e}"),
    };
    trace!("open new store: {}", show_cfg(&cfg));
    g.select(EXTRA, 5);
    // something to merge and to split
    let fill = *g.pick(&[0usize, 60, 20, 120]);
    for i in 0..fill {
        run_op(&st, &Op { k: K::Set(format!("f{i}").into_bytes(), vec![b'x'; 20]), alt: false });
    }
    let keep = g.us(fill + 1);
    for i in keep..fill {
        run_op(&st, &Op { k: K::Remove(format!("f{i}").into_bytes()), alt: false });
    }
    unsafe { rt::S.trap = trap };
    rt::set_sched(sv, pol);
    let tot = g.count(OP, per * n);
    let gp = g as *mut G as usize;
    let hs: Vec<_> = (0..n)
        .map(|ci| {
            let st = st.clone();
            let mut p = p.clone();
            p.ctr = (ci as u32 + 1) * 100_000;
            std::thread::spawn(move || {
                let m = Model::default();
                for i in 0..(tot + n - 1 - ci) / n {
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + ci);
                    if g.n(30) == 29 {
                        nested(g, &st, ci, &mut p, &m, heavy);
                        continue;
                    }
                    let mut op = any_op(g, &mut p, &m, heavy);
                    if let K::QRemove(_, i) = &mut op.k {
                        *i = (1u64 << 63).wrapping_add(g.n(9)).wrapping_sub(4);
                    }
                    let r = run_op(&st, &op);
                    trace!("[{ci}] {op} -> {r}");
                    if let Res::Panic(e) = &r {
                        bad!("panic", "{op} panicked: {e}");
                    }
                    if let Res::Err(Er::Other(e)) = &r {
                        bad!("error", "{op} failed: {e}");
                    }
                }
                // the last one closes the store, possibly while it is being compacted
                finish(st);
            })
        })
        .collect();
    let w = Arc::downgrade(&st);
    finish(st);
    for h in hs {
        h.join().unwrap();
    }
    check!(w.upgrade().is_none(), "harness", "the store is still referenced");
    // whatever was going on in the background is over
    let now = dir_files(&dir);
    settle();
    let later = dir_files(&dir);
    check!(now == later, "background", "files changed after the store was closed: {now:?}, then {later:?}");
    for (f, _) in &now {
        check!(
            !["compact_", "bottom_", "top_", "merge_", "reset_"].iter().any(|p| f.starts_with(p)),
            "leftover", "{f} is left after the store was closed"
        );
    }
    if candy_panics() > 0 {
        bad!("panic", "a thread panicked: {}", last_panic());
    }
    rt::end_sched();
    match try_open(&dir, &cfg) {
        Ok(s) => close(s),
        Err(e) => bad!("open", "reopening: {e}"),
    }
    if n > 1 && tot > 3 {
        nontrivial();
    }
}
fn finish(st: Arc<CandyStore>) {
    if let Some(s) = Arc::into_inner(st) {
        let files = dir_has_compaction(&s);
        close(s);
        if files {
            label("closed during a compaction");
        }
    }
}
static mut DIR: Option<std::path::PathBuf> = None;
fn dir_has_compaction(_: &CandyStore) -> bool {
    unsafe { DIR.as_ref().is_some_and(|d| dir_files(d).iter().any(|f| f.0.starts_with("compact_"))) }
}
fn c23_all(g: &mut G, c: &Ctx) {
    unsafe { DIR = Some(c.dir.join("store")) };
    c23(g, c)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        level: "exploration",
        rule: "a case counts when two or more threads performed more than three operations together",
        assumptions: &["fair scheduling: every runnable thread runs eventually", "sequentially consistent memory"],
        parts: &[("all", 5000, 100000, c23_all)],
        expect: &["closed during a compaction", "iterations held across operations"],
    }]
}
