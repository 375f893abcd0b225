//! Model-based properties over histories of one client: C02 C06 C07 C09 C13 C15 C17 C18 C26.
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt;
use candystore::Config;
use std::collections::BTreeMap;

/// relative frequencies of what a step of a session does
#[derive(Clone, Copy)]
pub struct Mix {
    pub kv: u32,
    pub list: u32,
    pub queue: u32,
    pub big: u32,
    pub reopen: u32,
    pub merge: u32,
    pub clear: u32,
    pub stats: u32,
    pub flush: u32,
    pub check: u32,
}
pub const MIX0: Mix = Mix { kv: 0, list: 0, queue: 0, big: 0, reopen: 0, merge: 0, clear: 0, stats: 0, flush: 0, check: 0 };

pub enum Step {
    Op(Op),
    Reopen(bool),
    Check,
}
pub fn gen_step(g: &mut G, s: &mut Sess, x: &Mix, maxbig: usize) -> Step {
    let w = g.weighted(&[x.kv, x.list, x.queue, x.big, x.stats, x.flush, x.merge, x.reopen, x.check, x.clear]);
    Step::Op(match w {
        0 => gen_kv(g, &mut s.p, &s.m),
        1 => gen_list(g, &mut s.p, &s.m),
        2 => gen_queue(g, &mut s.p, &s.m),
        3 => gen_big(g, &mut s.p, maxbig),
        4 => Op { k: K::Stats, alt: false },
        5 => Op { k: K::Flush, alt: false },
        6 => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        7 => return Step::Reopen(g.chance(1, 2)),
        8 => return Step::Check,
        _ => Op { k: K::Clear, alt: false },
    })
}
/// a different configuration with the same seed
pub fn other_cfg(g: &mut G, cfg: &Config, min_max: u32) -> Config {
    let mut k = gen_cfg(g, &CfgGen { max: &[1200, 600, 2500, 5000, 300, 20000, 1_000_000], thr_div: &[4, 2, 8, 16, 3], expected: &[0, 0, 40_000, 100_000], threads: 4 });
    if k.max_shard_size < min_max {
        k.max_shard_size = min_max;
        k.min_compaction_threashold = k.min_compaction_threashold.min(min_max / 2);
    }
    k.hash_seed = cfg.hash_seed;
    k
}
fn compacted(r: &Res, op: &Op) {
    if matches!(op.k, K::LCompact(..)) && *r == Res::Bool(true) {
        label("lists compacted");
    }
    if matches!(op.k, K::Merge(..)) && *r == Res::Bool(true) {
        label("merges that changed the shards");
    }
}
pub fn session(g: &mut G, s: &mut Sess, n: usize, x: &Mix, maxbig: usize, min_max: u32) {
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        match gen_step(g, s, x, maxbig) {
            Step::Op(op) => {
                let r = s.run(&op);
                compacted(&r, &op);
            }
            Step::Reopen(other) => {
                let c = if other { Some(other_cfg(g, &s.cfg, min_max)) } else { None };
                label("reopened");
                s.reopen(c);
                s.verify("after reopening");
            }
            Step::Check => {
                trace!("check everything");
                s.verify("check");
            }
        }
    }
    trace!("final check");
    s.verify("final contents");
    s.label_restructuring();
    s.verify("contents after background work");
    trace!("reopen");
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    settle();
}
fn small(g: &mut G) -> Config {
    let mut cfg = gen_cfg(g, &SMALL);
    cfg.hash_seed = *SEED;
    cfg
}
fn sched(g: &mut G) {
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
}
fn counted(s: &str) -> bool {
    has_label(s)
}

// ---------------------------------------------------------------- C07 lists
fn list_pools(g: &mut G, cfg: &Config) -> Pools {
    let nl = *g.pick(&[1usize, 2, 3, 8]);
    let ni = *g.pick(&[6usize, 2, 12, 40]);
    let maxval = (*g.pick(&[40usize, 8, 120])).min(cfg.max_shard_size as usize - 90);
    let mut lists = numbered("L", nl);
    let mut items = numbered("i", ni);
    if g.chance(1, 4) {
        lists.push(vec![]);
        items.push(vec![]);
        items.push(vec![0; 9]);
        items.push(lists[0].clone());
    }
    Pools { keys: numbered("k", 4), lists, items, queues: vec![], bigs: vec![], maxval, ctr: 0 }
}
fn c07(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let p = list_pools(g, &cfg);
    let n = g.range(20, if c.thorough { 400 } else { 200 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    session(g, &mut s, n, &Mix { kv: 8, list: 140, reopen: 1, merge: 1, stats: 1, check: 4, ..MIX0 }, 0, 300);
    if counted("lists compacted") && (counted("cases-with-splits") || counted("cases-with-compactions")) {
        nontrivial();
    }
}
/// one list, few items, iterated while it is being modified: iterators must stay sane
fn c07_iter(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let mut p = list_pools(g, &cfg);
    p.lists.truncate(1);
    let n = g.range(4, 40);
    let l = p.lists[0].clone();
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        if g.chance(1, 6) {
            // the hints of partially consumed iterators
            let back = g.chance(1, 2);
            let st = s.arc();
            let want: Vec<(B, B)> = {
                let mut v = s.m.lists.get(&l).cloned().unwrap_or_default();
                if back {
                    v.reverse();
                }
                v
            };
            let l2 = l.clone();
            let r = rt::api(op_id("iterate list".into()), move || {
                let mut it = if back { st.iter_list_backwards(&l2) } else { st.iter_list(&l2) };
                let mut out = vec![];
                loop {
                    let h = it.size_hint();
                    match it.next() {
                        None => {
                            out.push((h, None));
                            break;
                        }
                        Some(r) => out.push((h, Some(r.map_err(|e| e.to_string())))),
                    }
                    if out.len() > 5000 {
                        break;
                    }
                }
                out
            });
            let r = match r {
                Ok(r) => r,
                Err(p) => bad!("panic", "iterating a list panicked: {p} ({})", last_panic()),
            };
            trace!("iterate list {} back={back}: {} items", short(&l), r.len() - 1);
            check!(r.len() == want.len() + 1, "iter_list", "iterating (back={back}) gave {} items, expected {}", r.len() - 1, want.len());
            for (j, (h, x)) in r.iter().enumerate() {
                let left = want.len() - j;
                check!(h.0 <= left && h.1.is_none_or(|u| u >= left), "size_hint", "size_hint {h:?} with {left} items left");
                match x {
                    None => {}
                    Some(Ok(kv)) => check!(*kv == want[j], "iter_list", "item {j} is {}={}, expected {}={}", short(&kv.0), short(&kv.1), short(&want[j].0), short(&want[j].1)),
                    Some(Err(e)) => bad!("error", "iterating failed: {e}"),
                }
            }
            label("iterators stepped");
        } else {
            let op = gen_list(g, &mut s.p, &s.m);
            s.run(&op);
        }
    }
    s.verify("final contents");
    s.close();
    if counted("iterators stepped") && n > 8 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C09 queues
fn queue_pools(g: &mut G, cfg: &Config) -> Pools {
    let nq = *g.pick(&[1usize, 2, 3]);
    let maxval = (*g.pick(&[40usize, 8, 120])).min(cfg.max_shard_size as usize - 90);
    let mut queues = numbered("q", nq);
    if g.chance(1, 4) {
        queues.push(vec![]);
        let mut k = queues[0].clone();
        k.extend_from_slice(&(1u64 << 63).to_le_bytes());
        queues.push(k);
    }
    Pools { keys: numbered("k", 4), lists: vec![], items: vec![], queues, bigs: vec![], maxval, ctr: 0 }
}
fn c09(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let p = queue_pools(g, &cfg);
    let n = g.range(20, if c.thorough { 400 } else { 200 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    // phases: growing, shrinking, mixed
    for i in 0..nops {
        g.select(OP, i);
        let w = g.weighted(&[100, 2, 1, 1, 4, 2]);
        match w {
            0 => {
                let op = gen_queue(g, &mut s.p, &s.m);
                s.run(&op);
            }
            1 => {
                let op = gen_kv(g, &mut s.p, &s.m);
                s.run(&op);
            }
            2 => {
                s.k(K::Merge(400));
            }
            3 => {
                label("reopened");
                s.reopen(None);
                s.verify("after reopening");
            }
            4 => s.verify("check"),
            _ => {
                // step an iterator, looking at its hints
                let q = g.pick(&s.p.queues).clone();
                let back = g.chance(1, 2);
                let mut want: Vec<(u64, B)> = s.m.queues.get(&q).map_or(vec![], |m| m.iter().map(|(a, b)| (*a, b.clone())).collect());
                if back {
                    want.reverse();
                }
                let st = s.arc();
                let r = rt::api(op_id("iterate queue".into()), move || {
                    let mut it = if back { st.iter_queue_backwards(&q) } else { st.iter_queue(&q) };
                    let mut out = vec![];
                    loop {
                        let h = it.size_hint();
                        match it.next() {
                            None => {
                                out.push((h, None));
                                break;
                            }
                            Some(r) => out.push((h, Some(r.map_err(|e| e.to_string())))),
                        }
                        if out.len() > 5000 {
                            break;
                        }
                    }
                    out
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => bad!("panic", "iterating a queue panicked: {p} ({})", last_panic()),
                };
                check!(r.len() == want.len() + 1, "iter_queue", "iterating (back={back}) gave {} elements, expected {}", r.len() - 1, want.len());
                for (j, (h, x)) in r.iter().enumerate() {
                    let left = want.len() - j;
                    check!(h.0 <= left && h.1.is_none_or(|u| u >= left), "size_hint", "size_hint {h:?} with {left} elements left");
                    match x {
                        None => {}
                        Some(Ok((i, v))) => check!(*i as u64 == want[j].0 && *v == want[j].1, "iter_queue", "element {j} is {}:{}, expected {}:{}", qi(*i as u64), short(v), qi(want[j].0), short(&want[j].1)),
                        Some(Err(e)) => bad!("error", "iterating failed: {e}"),
                    }
                }
                label("iterators stepped");
            }
        }
    }
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    if counted("cases-with-splits") || counted("cases-with-compactions") {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C02 reopening
const FOREIGN: &[&str] = &["notes.txt", ".hidden", "shard-0000-4000", "shardx_0000-10000", "0000-10000", "Shard_0000-10000", "mycompact_0000-10000", "backup_shard_0000-10000", "tops_x", "merged", "bottom", "shard_", "lock", "shard_abc", "shard_0000-10000.bak", "shard_0000-8000~", "shard_0-10000", "shard_00000-10000", "shard_+000-8000",
    "shard_0000-8000-old", "shard_8000_10000", "shard_notes-old.txt", "shard_8000-FFFF", "shard_-", "shard_0000-", "top_secret.txt", "bottom_line", "merge_notes-2024", "compact_0-10000",
    "compact_0000-10000.bak", "top_0000-8000.orig", "bottom_0-8000", "reset", "reset_in_progress.txt"];
fn put_foreign(g: &mut G, dir: &std::path::Path, have: &mut BTreeMap<String, Vec<u8>>) {
    let n = g.us(6);
    for _ in 0..n {
        let f = *g.pick(FOREIGN);
        let data = fill(g.n(1000), g.us(300));
        std::fs::write(dir.join(f), &data).unwrap();
        have.insert(f.into(), data);
    }
    if g.chance(1, 4) {
        let _ = std::fs::create_dir_all(dir.join("subdir"));
        std::fs::write(dir.join("subdir").join("shard_0000-10000"), b"x").unwrap();
        have.insert("subdir/shard_0000-10000".into(), b"x".to_vec());
    }
}
fn check_foreign(dir: &std::path::Path, have: &BTreeMap<String, Vec<u8>>) {
    for (f, d) in have {
        match std::fs::read(dir.join(f)) {
            Ok(x) => check!(x == *d, "foreign-file", "the foreign file {f} was modified"),
            Err(e) => bad!("foreign-file", "the foreign file {f} is gone: {e}"),
        }
    }
    if !have.is_empty() {
        label("foreign files kept");
    }
}
fn c02(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let maxval = 60.min(cfg.max_shard_size as usize - 90);
    let p = Pools {
        keys: numbered("k", *g.pick(&[12, 40, 3])),
        lists: numbered("l", 2),
        items: numbered("i", *g.pick(&[6, 20])),
        queues: numbered("q", 2),
        bigs: numbered("b", 2),
        maxval,
        ctr: 0,
    };
    // big values of up to 250 bytes fit any configuration used here
    let clears = g.chance(1, 4);
    let n = g.range(20, if c.thorough { 300 } else { 150 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let mut foreign = BTreeMap::new();
    let nops = g.count(OP, n);
    let mut reopens = 0;
    for i in 0..nops {
        g.select(OP, i);
        let x = Mix { kv: 30, list: 20, queue: 20, big: 4, reopen: 5, merge: 1, flush: 1, clear: if clears { 1 } else { 0 }, ..MIX0 };
        match gen_step(g, &mut s, &x, 150) {
            Step::Op(op) => {
                s.run(&op);
            }
            Step::Reopen(other) => {
                s.close();
                if g.chance(1, 4) {
                    settle();
                    put_foreign(g, &s.dir, &mut foreign);
                }
                if other {
                    s.cfg = other_cfg(g, &s.cfg, 300);
                    label("reopened with another configuration");
                }
                trace!("reopen: {}", show_cfg(&s.cfg));
                s.open();
                s.verify("after reopening");
                check_foreign(&s.dir, &foreign);
                reopens += 1;
                label("reopened");
                if g.chance(1, 3) {
                    trace!("reopen again at once");
                    s.close();
                    s.open();
                    s.verify("after reopening twice");
                }
            }
            Step::Check => s.verify("check"),
        }
    }
    trace!("final check");
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    check_foreign(&s.dir, &foreign);
    if reopens > 1 && (counted("cases-with-splits") || counted("cases-with-compactions")) {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C06 merging
fn spans(dir: &std::path::Path) -> Vec<String> {
    dir_files(dir).into_iter().map(|f| f.0).filter(|f| f.starts_with("shard_")).collect()
}
fn c06(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[600, 300, 1200, 2500], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 40_000, 100_000, 200_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let maxval = 60.min(cfg.max_shard_size as usize - 90);
    let p = Pools {
        keys: numbered("k", *g.pick(&[12, 40, 3, 100])),
        lists: numbered("l", 1),
        items: numbered("i", 10),
        queues: numbered("q", 1),
        bigs: vec![],
        maxval,
        ctr: 0,
    };
    let n = g.range(20, if c.thorough { 300 } else { 150 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let x = Mix { kv: 60, list: 8, queue: 8, reopen: 1, merge: 6, ..MIX0 };
        match gen_step(g, &mut s, &x, 0) {
            Step::Op(op) => {
                if let K::Merge(_) = op.k {
                    match g.weighted(&[8, 2, 1]) {
                        0 => merge_checked(g, &mut s, false),
                        1 => merge_rejected(g, &mut s),
                        _ => {
                            // without looking at statistics first (which would wait for compactions)
                            let r = s.run(&op);
                            compacted(&r, &op);
                            s.verify("after merging");
                        }
                    }
                } else {
                    s.run(&op);
                }
            }
            Step::Reopen(_) => {
                // change the expected number of keys: the tree may become larger than needed
                let mut k = copy_cfg(&s.cfg);
                k.expected_number_of_keys = *g.pick(&[0usize, 40_000, 100_000, 0, 40_000, usize::MAX]);
                s.reopen(Some(k));
                s.verify("after reopening");
            }
            Step::Check => {}
        }
    }
    merge_checked(g, &mut s, true);
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    if counted("merges that changed the shards") {
        nontrivial();
    }
}
/// shards that are nearly empty except for one row, which may be too full to be merged
fn c06_rows(g: &mut G, c: &Ctx) {
    rows(g, c, false)
}
/// the same, but only the files left are looked at
fn c26_rows(g: &mut G, c: &Ctx) {
    rows(g, c, true)
}
fn rows(g: &mut G, c: &Ctx, files_only: bool) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[200_000, 60_000, 1_000_000], thr_div: &[4, 8, 2], expected: &[0, 0, 40_000, 100_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let nkeys = *g.pick(&[620usize, 540, 800, 1200]);
    let mut p = Pools { keys: vec![], lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: 20, ctr: 0 };
    p.keys = same_row(nkeys, g.n(64) as u32, *g.pick(&[0u32, 1]), g.n(100));
    let rounds = g.range(1, if c.thorough { 12 } else { 5 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    let mut refused = 0;
    for r in 0..g.count(OP, rounds) {
        g.select(OP, r);
        // bring the number of keys to about what one row can hold
        let goal = match if r == 0 { 1 } else { g.weighted(&[3, 2, 1, 1]) } {
            0 => 505 + g.us(20),
            1 => s.p.keys.len(),
            2 => 512,
            _ => g.us(512),
        };
        let from = g.us(nkeys);
        let mut j = 0;
        while s.m.kv.len() != goal.min(nkeys) && j < nkeys {
            let k = s.p.keys[(from + j) % nkeys].clone();
            let grow = s.m.kv.len() < goal;
            if grow && !s.m.kv.contains_key(&k) {
                s.k(K::Set(k, b"0123456789".to_vec()));
            } else if !grow && s.m.kv.contains_key(&k) {
                s.k(K::Remove(k));
            }
            j += 1;
        }
        trace!("keys set or removed until {} of {nkeys} are there", s.m.kv.len());
        let before = s.stats().num_shards;
        if files_only {
            s.k(K::Merge(499));
        } else {
            merge_checked(g, &mut s, true);
        }
        if before > 1 && s.stats().num_shards == before {
            refused += 1;
        }
        settle();
        let left: Vec<_> = dir_files(&s.dir).into_iter().filter(|f| f.0.contains("merge_")).collect();
        check!(left.is_empty(), "merge-files", "after merging, the directory holds {left:?}");
        let (sp, now) = (spans(&s.dir), s.stats().num_shards);
        check!(sp.len() == now, "merge-files", "{now} shards, but the directory has {sp:?}");
    }
    s.label_restructuring();
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    label_n("merges of too full rows refused", refused);
    if refused > 0 || counted("merges that changed the shards") {
        nontrivial();
    }
}
/// as many as it takes to fill none of them beyond 90% on average
fn required_shards(keys: usize) -> usize {
    keys.div_ceil(29_491).max(1).next_power_of_two().min(65536)
}
/// the advice given by statistics, and what is expected of new stores and merging, agree
fn c06_advice(g: &mut G, c: &Ctx) {
    g.cfg();
    let number = |g: &mut G| -> usize {
        match g.weighted(&[3, 3, 1, 1]) {
            0 => g.us(100_000),
            1 => (1usize << g.n(17)) * 29_491 + g.us(3000) - 1500,
            2 => g.n(0x8000_0000) as usize,
            _ => 0x8000_0000 - g.us(200_000_000),
        }
    };
    let advice = |n: usize, removed: usize, shards: usize| {
        let mut t = candystore::Stats::default();
        t.num_inserts = n + removed;
        t.num_removals = removed;
        t.num_shards = shards;
        (t.required_num_shards(), t.should_merge_small_shards())
    };
    let (a, b) = (number(g), number(g));
    let removed = *g.pick(&[0usize, 1, 1_000_000]);
    let shards = g.us(300);
    trace!("{a} and {b} entries, {removed} removed, {shards} shards");
    let ((ra, ma), (rb, _)) = (advice(a, removed, shards), advice(b, 0, 1));
    check!(ra.is_power_of_two() && ra <= 65536 && ra * 32768 >= a, "advice", "{ra} shards required for {a} entries");
    check!(ra == 1 || a > ra / 2 * 16384, "advice", "{ra} shards required for just {a} entries");
    check!((a <= b) == (ra <= rb) || ra == rb, "advice", "{ra} shards required for {a} entries, but {rb} for {b}");
    check!(ma == (shards > 2 * ra), "advice", "merging {shards} shards is advised: {ma}; required are {ra}");
    if !g.chance(1, 8) {
        label("advice compared");
        return;
    }
    // the same numbers govern new stores and merging
    let expected = *g.pick(&[0usize, 1, 29_000, 30_000, 58_000, 60_000, 117_000, 130_000]);
    let later = *g.pick(&[0usize, 29_000, 30_000, 60_000, 130_000, 1 << 31, 3 << 30, 1 << 40, usize::MAX]);
    let mut cfg = Config::default();
    cfg.hash_seed = *SEED;
    cfg.max_shard_size = 10_000;
    cfg.min_compaction_threashold = 2_000;
    cfg.truncate_up = false;
    cfg.expected_number_of_keys = expected;
    let n = g.us(60);
    let p = Pools { keys: numbered("k", n), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: 20, ctr: 0 };
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let first = s.stats().num_shards;
    check!(first == advice(expected, 0, 0).0, "advice", "a new store for {expected} keys has {first} shards, but {} are required", advice(expected, 0, 0).0);
    for i in 0..n {
        let k = s.p.keys[i].clone();
        s.k(K::Set(k, b"0123456789".to_vec()));
    }
    let mut cfg = copy_cfg(&s.cfg);
    cfg.expected_number_of_keys = later;
    s.reopen(Some(cfg));
    check!(s.stats().num_shards == first, "advice", "reopening changed the number of shards");
    merge_checked(g, &mut s, true);
    s.verify("final contents");
    s.close();
    if first > 1 {
        label("merged after reopening with another expectation");
        nontrivial();
    }
}
fn merge_checked(g: &mut G, s: &mut Sess, last: bool) {
    let f = if last { 499 } else { 1 + g.n(499) as u32 };
    let before = s.stats().num_shards;
    let st = s.arc();
    let entries = count_raw(&st);
    drop(st);
    let r = s.k(K::Merge(f));
    let after = s.stats().num_shards;
    check!(after <= before, "merge-grows", "merging increased the number of shards from {before} to {after}");
    check!(r == Res::Bool(after != before), "merge-result", "merging returned {r}, but the number of shards went from {before} to {after}");
    // a shard cannot hold more than 64 rows of 512 entries
    let need = entries.max(s.cfg.expected_number_of_keys).div_ceil(64 * 512).max(1);
    check!(after >= need.min(before), "merge-too-far", "merging left {after} shards (from {before}), but {need} are needed for {entries} entries and {} expected keys", s.cfg.expected_number_of_keys);
    // whatever is small enough is merged, as long as there are more shards than required
    if entries <= 512 && f as usize * 29_491 / 1000 > entries {
        let want = required_shards(entries.max(s.cfg.expected_number_of_keys)).min(before);
        check!(after == want, "merge-progress", "merging left {after} shards (from {before}) with {entries} entries at fill level {f}/1000 and {} expected keys, but {want} would do", s.cfg.expected_number_of_keys);
    }
    settle();
    let sp = spans(&s.dir);
    check!(sp.len() == after, "merge-files", "{after} shards, but the directory has {sp:?}");
    if after != before {
        label("merges that changed the shards");
    } else if before > 1 {
        label("merges that changed nothing");
    }
    s.verify("after merging");
    if g.chance(1, 4) {
        trace!("reopen");
        s.close();
        s.open();
        s.verify("after merging and reopening");
        check!(s.stats().num_shards == after, "merge-reopen", "{after} shards after merging but {} after reopening", s.stats().num_shards);
    }
}
fn merge_rejected(g: &mut G, s: &mut Sess) {
    let f = *g.pick(&[0.0f32, 0.5, -0.1, 1.0, f32::NAN, f32::INFINITY, 0.500001, -0.0, 7.5]);
    let before = s.stats().num_shards;
    let st = s.arc();
    let r = rt::api(op_id(format!("merge_small_shards({f})")), move || st.merge_small_shards(f).map_err(|e| e.to_string()));
    trace!("merge_small_shards({f}) -> {r:?}");
    match r {
        Ok(Err(_)) => {}
        r => bad!("merge-range", "merge_small_shards({f}) was not rejected: {r:?}"),
    }
    check!(s.stats().num_shards == before, "merge-range", "a rejected merge changed the number of shards");
    s.verify("after a rejected merge");
    label("rejected fill levels");
}
pub fn raw_entries(st: &candystore::CandyStore) -> Vec<(B, B)> {
    match rt::api(op_id("iter_raw".into()), || {
        let mut v = vec![];
        for r in st.iter_raw() {
            v.push(r?);
        }
        anyhow::Ok(v)
    }) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => bad!("error", "iter_raw failed: {e:#}"),
        Err(p) => bad!("panic", "iter_raw panicked: {p} ({})", last_panic()),
    }
}
fn count_raw(st: &candystore::CandyStore) -> usize {
    raw_entries(st).len()
}

// ---------------------------------------------------------------- C13 big values
/// a value that differs from the previous one only a little
fn vary(g: &mut G, mut v: B, maxlen: usize) -> B {
    let c = candystore::MAX_VALUE_SIZE;
    match g.weighted(&[6, 1, 2, 2]) {
        // the same length, but for one byte of some chunk
        0 if !v.is_empty() => {
            let chunk = g.us((v.len() + c - 1) / c);
            let r = chunk * c..v.len().min(chunk * c + c);
            let i = match g.n(3) {
                0 => r.end - 1,
                1 => r.start,
                _ => r.start + g.us(r.len()),
            };
            v[i] ^= 1 << g.n(8);
        }
        1 => {}
        2 => v.truncate(v.len().saturating_sub(*g.pick(&[1usize, c, 2, c - 1, 100]))),
        _ => {
            let n = *g.pick(&[1usize, c, 2, c - 1, 100]);
            if v.len() + n <= maxlen {
                v.extend(fill(g.n(1 << 30), n));
            }
        }
    }
    v
}
fn c13(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[200_000, 70_000, 140_000, 1_000_000], thr_div: &[4, 2, 8], expected: &[0, 0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let maxbig = if c.thorough { 400_000 } else { 200_000 };
    let p = Pools { keys: numbered("k", 3), lists: vec![], items: vec![], queues: vec![], bigs: vec![b"big".to_vec(), b"k0".to_vec(), vec![]], maxval: 40, ctr: 0 };
    let n = g.range(4, 30);
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let x = Mix { kv: 6, big: 30, reopen: 2, merge: 1, check: 1, ..MIX0 };
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        match gen_step(g, &mut s, &x, maxbig) {
            Step::Op(mut op) => {
                if let K::BSet(b, v) = &mut op.k {
                    if let Some(old) = s.m.bigs.get(b).cloned() {
                        if g.chance(1, 3) {
                            *v = vary(g, old, maxbig);
                            label("big values similar to the previous one");
                        }
                    }
                }
                s.run(&op);
                if let K::BSet(_, v) = &op.k {
                    if v.is_empty() {
                        label("empty big values");
                    } else if v.len() % candystore::MAX_VALUE_SIZE == 0 {
                        label("big values of whole chunks");
                    }
                    if v.len() > candystore::MAX_VALUE_SIZE {
                        label("big values of several chunks");
                        nontrivial();
                    }
                }
            }
            Step::Reopen(_) => {
                s.reopen(None);
                s.verify("after reopening");
            }
            Step::Check => s.verify("check"),
        }
    }
    s.verify("final contents");
    s.label_restructuring();
    // nothing of removed values may be left behind
    for b in s.p.bigs.clone() {
        s.k(K::BRemove(b));
    }
    let raw = raw_entries(s.st());
    let total: usize = raw.iter().map(|(k, v)| k.len() + v.len()).sum();
    let kvb: usize = s.m.kv.iter().map(|(k, v)| k.len() + v.len() + 1).sum();
    check!(raw.len() == s.m.kv.len() && total <= kvb + 64, "big-leftovers", "after removing every big value, {} entries of {} bytes remain, but only {} plain keys exist", raw.len(), total, s.m.kv.len());
    s.verify("after removing the big values");
    s.close();
}

// ---------------------------------------------------------------- C15 name spaces
fn adversarial(g: &mut G) -> Vec<B> {
    let base: B = match g.n(5) {
        0 => b"x".to_vec(),
        1 => vec![],
        2 => vec![3],
        3 => vec![0, 1, 2, 3, 4, 5, 6, 7],
        _ => b"k".to_vec(),
    };
    let mut v = vec![base.clone()];
    let mut v2 = vec![];
    let mut ext = |s: &[u8]| {
        let mut k = base.clone();
        k.extend_from_slice(s);
        v.push(k);
    };
    for ns in 1u8..=8 {
        ext(&[ns]);
    }
    let idx = 1u64 << 63;
    for d in [idx, idx.wrapping_sub(1), idx + 1, 0] {
        ext(&d.to_le_bytes());
        ext(&d.to_be_bytes());
        let mut t = d.to_le_bytes().to_vec();
        t.push(7);
        ext(&t);
    }
    // keys that contain the hashes lists use internally
    let mut lk = base.clone();
    lk.push(3);
    let h = H::of(&lk).0;
    for b in [h.to_le_bytes(), h.to_be_bytes()] {
        ext(&b);
        for ns in [1u8, 2, 4, 5] {
            let mut t = b.to_vec();
            t.push(ns);
            ext(&t);
        }
        let mut chain = b.to_vec();
        chain.extend_from_slice(&idx.to_le_bytes());
        v2.push(chain.clone());
        chain.push(5);
        v2.push(chain);
        let mut pre = b.to_vec();
        pre.extend_from_slice(&base);
        v2.push(pre);
    }
    v.extend(v2);
    v.sort();
    v.dedup();
    v
}
fn c15(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[2500, 1200, 600, 20000], thr_div: &[4, 2, 8], expected: &[0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let adv = adversarial(g);
    let mut pick = |n: usize| {
        let mut v: Vec<B> = (0..n).map(|_| g.pick(&adv).clone()).collect();
        v.push(adv[g.us(3)].clone());
        v.sort();
        v.dedup();
        v
    };
    let keys = pick(12);
    let lists = pick(4);
    let items = pick(6);
    let queues = pick(4);
    // a big value and the queue of the same key are one object
    let bigs: Vec<B> = pick(4).into_iter().filter(|b| !queues.contains(b)).collect();
    let p = Pools { keys, lists, items, queues, bigs, maxval: 40, ctr: 0 };
    let n = g.range(20, if c.thorough { 200 } else { 80 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let x = Mix { kv: 30, list: 30, queue: 30, big: if s.p.bigs.is_empty() { 0 } else { 6 }, reopen: 1, ..MIX0 };
        match gen_step(g, &mut s, &x, 200) {
            Step::Op(op) => {
                s.run(&op);
                if i % 4 == 3 || matches!(op.k, K::LDiscard(_) | K::QDiscard(_) | K::BRemove(_) | K::LCompact(..)) {
                    s.verify(&format!("after {op}"));
                }
            }
            Step::Reopen(_) => s.reopen(None),
            Step::Check => {}
        }
    }
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    if !s.m.kv.is_empty() && !s.m.lists.is_empty() && !s.m.queues.is_empty() {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C17 size limits
const TOTK: usize = 0x3fff;
const TOTV: usize = 0xffff;
/// what the result of a write with these sizes must be: Some(true) accepted, Some(false) refused, None either
fn expect_fit(kind: u8, klen: usize, vlen: usize, max: usize) -> (Option<bool>, &'static str) {
    let (over_k, over_v) = match kind {
        0 => (1, 0),
        1 => (9, 8),  // list item
        2 => (9, 0),  // queue element
        _ => (1, 20), // list / queue record
    };
    if kind == 0 {
        // plain calls document exact limits
        if klen > candystore::MAX_KEY_SIZE {
            return (Some(false), "key");
        }
        if vlen > candystore::MAX_VALUE_SIZE {
            return (Some(false), "value");
        }
    } else {
        if klen > TOTK {
            return (Some(false), "key");
        }
        if vlen > TOTV {
            return (Some(false), "value");
        }
        if klen > candystore::MAX_KEY_SIZE || vlen > candystore::MAX_VALUE_SIZE {
            return (None, "");
        }
    }
    if klen + vlen > max {
        return (Some(false), "entry");
    }
    // the key of a plain entry is stored with a byte in front; how much the others take is not specified
    if if kind == 0 { klen + 1 + vlen > max } else { klen + vlen + over_k + over_v + 32 > max } {
        return (None, "");
    }
    (Some(true), "")
}
fn c17(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[100_000, 300, 5000, 17_000, 66_000, 82_000, 600], thr_div: &[2, 4, 8], expected: &[0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let max = cfg.max_shard_size as usize;
    let n = g.range(6, 30);
    sched(g);
    let p = Pools { keys: numbered("k", 3), lists: numbered("l", 2), items: numbered("i", 3), queues: numbered("q", 2), bigs: numbered("b", 1), maxval: 40, ctr: 0 };
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        if g.chance(1, 3) {
            let x = Mix { kv: 10, list: 10, queue: 10, big: 2, reopen: 1, ..MIX0 };
            match gen_step(g, &mut s, &x, 100) {
                Step::Op(op) => {
                    s.run(&op);
                }
                Step::Reopen(_) => s.reopen(None),
                Step::Check => {}
            }
            continue;
        }
        // a write around one of the limits
        let around = |g: &mut G, at: &[usize]| -> usize {
            let b = *g.pick(at);
            match g.weighted(&[3, 2, 2, 2, 1, 1]) {
                0 => b,
                1 => b + 1,
                2 => b.saturating_sub(1),
                3 => b.saturating_sub(g.us(40)),
                4 => b + g.us(40),
                _ => b + g.us(300),
            }
        };
        let shape = g.n(6);
        let mk = candystore::MAX_KEY_SIZE;
        let mv = candystore::MAX_VALUE_SIZE;
        let (kl, vl) = match shape {
            0 | 1 => (1 + g.us(12), around(g, &[mv, TOTV, TOTV - 8])),
            2 => (around(g, &[mk, TOTK, TOTK - 9, TOTK - 17]), g.us(20)),
            3 => {
                let k = 1 + g.us(40);
                (k, around(g, &[max.saturating_sub(k)]))
            }
            4 => {
                let k = around(g, &[max.min(mk)]);
                (k, around(g, &[max.saturating_sub(k)]))
            }
            _ => (around(g, &[mk, TOTK]), around(g, &[mv, TOTV])),
        };
        let kl = kl.min(70_000);
        let vl = vl.min(140_000);
        let key = fill(7 + kl as u64, kl);
        let val = fill(g.n(5) + 11, vl);
        let small = g.pick(&s.p.lists).clone();
        let q = g.pick(&s.p.queues).clone();
        let it = g.pick(&s.p.items).clone();
        let k0 = g.pick(&s.p.keys).clone();
        let what = g.n(15);
        // (operation, kind, key length, value length) of the entry that may be too large
        let (k, kind, kl, vl) = match what {
            0 => (K::Set(key, val), 0, kl, vl),
            1 => (K::Goc(key, val), 0, kl, vl),
            2 => (K::Set(k0.clone(), val), 0, k0.len(), vl),
            3 => {
                let e = s.m.kv.get(&k0).cloned();
                (K::Replace(k0.clone(), val, e), 0, k0.len(), vl)
            }
            4 => (K::LSet(small, key, val), 1, kl, vl),
            5 => (K::LSet(small, it.clone(), val), 1, it.len(), vl),
            6 => (K::LPromote(small, it.clone(), val), 1, it.len(), vl),
            7 => (K::LGoc(small, key, val), 1, kl, vl),
            8 => (K::LSet(key, it, b"v".to_vec()), 3, kl, 0),
            9 => (K::QPushT(q.clone(), val), 2, q.len(), vl),
            10 => (K::QPushH(q.clone(), val), 2, q.len(), vl),
            11 => (K::QPushT(key, b"v".to_vec()), 3, kl, 0),
            12 => (K::QExtend(q.clone(), vec![b"a".to_vec(), val, b"c".to_vec()]), 2, q.len(), vl),
            13 => (K::BSet(key.iter().map(|b| !b).collect(), b"small".to_vec()), 3, kl, 0), // not the key of a queue
            _ => (K::LReplace(small, it.clone(), val, None), 1, it.len(), vl),
        };
        let op = Op { k, alt: false };
        let (mut want, limit) = expect_fit(kind, kl, vl, max);
        // replacing what does not exist writes nothing, and get-or-create of what exists neither
        match &op.k {
            K::Replace(k, ..) if !s.m.kv.contains_key(k) => want = None,
            K::LReplace(l, i, ..) if !s.m.lists.get(l).is_some_and(|v| v.iter().any(|x| x.0 == *i)) => want = None,
            K::Goc(k, _) if s.m.kv.contains_key(k) => want = None,
            K::LGoc(l, i, _) if s.m.lists.get(l).is_some_and(|v| v.iter().any(|x| x.0 == *i)) => want = None,
            _ => {}
        }
        let mut before = raw_entries(s.st());
        let r = run_op(s.st(), &op);
        trace!("{op} (key {kl}, value {vl}) -> {r}");
        match (&r, want) {
            (Res::Panic(p), _) => bad!("panic", "{op}: panicked: {p}"),
            (Res::Err(e), Some(true)) => bad!("refused", "{op} with a key of {kl} and a value of {vl} bytes was refused: {e:?}"),
            (Res::Err(e), w) => {
                let named = match e {
                    Er::KeyTooLong => "key",
                    Er::ValueTooLong => "value",
                    Er::EntryCannotFit => "entry",
                    Er::Other(x) => bad!("wrong-error", "{op} failed with {x}, which names no limit"),
                };
                // if several limits are exceeded, any of them may be named
                let exceeds_v = vl > if kind == 0 { mv } else { TOTV - 8 };
                let exceeds_k = kl > if kind == 0 { mk } else { TOTK - 17 };
                let ok = match named {
                    "key" => exceeds_k,
                    "value" => exceeds_v,
                    _ => kl + vl + 60 > max,
                };
                check!(ok, "wrong-error", "{op} with a key of {kl} and a value of {vl} bytes (shard size {max}) was refused with {e:?}, a limit it does not exceed ({limit}, {w:?})");
                let mut after = raw_entries(s.st());
                before.sort();
                after.sort();
                if before != after {
                    bad!("trace-left", "{op} was refused with {e:?} but changed what is stored: {}", diff(&after, &before));
                }
                s.verify("after a refused operation");
                label("refused operations");
                nontrivial();
            }
            (_, Some(false)) => bad!("accepted", "{op} with a key of {kl} and a value of {vl} bytes (shard size {max}) exceeds the {limit} limit but was accepted"),
            _ => {
                if let Err(e) = s.m.apply(&op, &r) {
                    bad!(sig_of(&op, &r), "{op}: {e}");
                }
                s.verify("after an operation near the limits");
                label("accepted operations near the limits");
            }
        }
    }
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    s.open();
    s.verify("final contents, reopened");
    s.close();
}

// ---------------------------------------------------------------- C18 statistics
#[derive(Default, Clone, Debug, PartialEq)]
struct Counters {
    writes: usize,
    pos: usize,
    neg: usize,
    upd: usize,
    coll: usize,
    hist: [usize; 5],
}
fn check_stats(s: &Sess, what: &str) -> candystore::Stats {
    let t = s.stats();
    let (rb, ro, wb) = unsafe { (rt::S.rd_bytes as usize, rt::S.rd_ops as usize, rt::S.wr_bytes as usize) };
    let (rb, wb) = (rb - s.base.0, wb - s.base.1);
    check!(t.num_write_bytes == wb, "stats-traffic", "{what}: statistics say {} bytes were written, but {wb} were", t.num_write_bytes);
    check!(t.num_read_bytes == rb, "stats-traffic", "{what}: statistics say {} bytes were read, but {rb} were", t.num_read_bytes);
    check!((t.num_read_ops == 0) == (rb == 0) && t.num_read_ops <= ro, "stats-traffic", "{what}: statistics say {} reads of {} bytes", t.num_read_ops, t.num_read_bytes);
    let raw = raw_entries(s.st());
    let bytes: usize = raw.iter().map(|(k, v)| k.len() + v.len()).sum();
    check!(t.num_inserts >= t.num_removals && t.num_inserts - t.num_removals == raw.len(), "stats-entries", "{what}: statistics say {} entries inserted and {} removed, but {} are stored", t.num_inserts, t.num_removals, raw.len());
    check!(t.wasted_bytes <= t.occupied_bytes, "stats-wasted", "{what}: {} bytes wasted of {} occupied", t.wasted_bytes, t.occupied_bytes);
    check!(t.occupied_bytes - t.wasted_bytes == bytes, "stats-bytes", "{what}: statistics say {} - {} bytes are live, but the stored entries have {}", t.occupied_bytes, t.wasted_bytes, bytes);
    settle();
    let sp = spans(&s.dir);
    check!(sp.len() == t.num_shards, "stats-shards", "{what}: {} shards, but the directory has {sp:?}", t.num_shards);
    check!(t.num_entries() == raw.len() && t.data_bytes() == bytes, "stats-derived", "{what}: num_entries() / data_bytes() are {} / {}, expected {} / {bytes}", t.num_entries(), t.data_bytes(), raw.len());
    check!(t.average_entry_size() == bytes.checked_div(raw.len()).unwrap_or(0), "stats-derived", "{what}: average_entry_size() is {}", t.average_entry_size());
    check!(t.total_occupied_bytes() == t.occupied_bytes + t.num_shards * candystore::Stats::FILE_HEADER_SIZE, "stats-derived", "{what}: total_occupied_bytes() is {}", t.total_occupied_bytes());
    let h = t.entries_under_128 + t.entries_under_1k + t.entries_under_8k + t.entries_under_32k + t.entries_over_32k;
    check!(h == t.num_write_ops, "stats-histogram", "{what}: the histogram counts {h} entries, but {} were written", t.num_write_ops);
    let co = unsafe { rt::S.replacing as usize } - s.base.2;
    check!(t.num_compactions == co, "stats-compactions", "{what}: statistics say there were {} compactions, but {co} files were replaced", t.num_compactions);
    check!(t.last_compaction_stats.len() <= t.num_compactions.min(8) && t.last_split_stats.len() <= t.num_splits.min(8), "stats-last", "{what}: more recent splits or compactions than there ever were: {t:?}");
    check!(t.last_compaction_stats.iter().all(|x| x.1 > 0), "stats-last", "{what}: a compaction of an empty file is reported: {t:?}");
    label("statistics compared");
    t
}
fn cleared_stats(t: &candystore::Stats) {
    let ops = t.num_write_ops + t.num_splits + t.num_compactions + t.num_updates + t.num_positive_lookups + t.num_negative_lookups + t.num_collisions;
    check!(ops == 0 && t.occupied_bytes == 0 && t.num_inserts == 0 && t.num_removals == 0, "stats-clear", "counters are not reset by clear: {t:?}");
    check!(t.last_split_stats.is_empty() && t.last_compaction_stats.is_empty(), "stats-clear", "clear keeps splits or compactions: {t:?}");
}
fn c18_mixed(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = small(g);
    let p = Pools {
        keys: numbered("k", *g.pick(&[12, 40, 3])),
        lists: numbered("l", 2),
        items: numbered("i", 8),
        queues: numbered("q", 2),
        bigs: numbered("b", 2),
        maxval: 60.min(cfg.max_shard_size as usize - 90),
        ctr: 0,
    };
    let n = g.range(20, if c.thorough { 300 } else { 150 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let x = Mix { kv: 40, list: 15, queue: 15, big: 2, reopen: 2, merge: 2, clear: 1, stats: 0, flush: 1, check: 10 };
        match gen_step(g, &mut s, &x, 150) {
            Step::Op(op) => {
                s.run(&op);
                if matches!(op.k, K::Clear | K::Merge(_)) {
                    let t = check_stats(&s, &format!("after {op}"));
                    if op.k == K::Clear {
                        cleared_stats(&t);
                    }
                }
            }
            Step::Reopen(_) => {
                s.reopen(None);
                check_stats(&s, "after reopening");
            }
            Step::Check => {
                trace!("check statistics");
                check_stats(&s, "check");
            }
        }
    }
    check_stats(&s, "final");
    s.label_restructuring();
    s.close();
    s.open();
    check_stats(&s, "final, reopened");
    s.close();
    if counted("cases-with-splits") || counted("cases-with-compactions") {
        nontrivial();
    }
}
/// exact operation counters: plain operations without restructuring
fn c18_counters(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = Config::default();
    cfg.hash_seed = *SEED;
    cfg.max_shard_size = 64 << 20;
    cfg.min_compaction_threashold = 32 << 20;
    let moving = g.chance(1, 3);
    if moving {
        cfg = small(g);
    }
    let p = Pools { keys: numbered("k", *g.pick(&[12, 3])), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: 60.min(cfg.max_shard_size as usize - 90), ctr: 0 };
    let mut p = p;
    let pairs = crate::collide_keys::PAIRS54;
    if g.chance(1, 3) {
        for i in 0..g.range(1, pairs.len().min(3)) {
            p.keys.push(pairs[i].0.as_bytes().to_vec());
            p.keys.push(pairs[i].1.as_bytes().to_vec());
        }
        label("counters with keys of equal hashes");
    }
    let partner = |k: &B| -> Option<B> { pairs.iter().find_map(|(a, b)| if a.as_bytes() == &k[..] { Some(b.as_bytes().to_vec()) } else if b.as_bytes() == &k[..] { Some(a.as_bytes().to_vec()) } else { None }) };
    let n = g.range(5, if moving { 150 } else { 60 });
    if moving {
        sched(g);
    } else {
        rt::start();
    }
    let mut s = Sess::new(&c.dir, cfg, p);
    let t0 = check_stats(&s, "new");
    check!(t0.num_entries() == 0 && t0.occupied_bytes == 0 && t0.num_splits == 0, "stats-new", "a new store's statistics: {t0:?}");
    let mut w = Counters::default();
    let wr = |w: &mut Counters, k: &B, v: &B| {
        let sz = k.len() + 1 + v.len();
        w.writes += 1;
        w.hist[if sz < 128 { 0 } else if sz < 1024 { 1 } else if sz < 8192 { 2 } else if sz < 32768 { 3 } else { 4 }] += 1;
    };
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let mut op = gen_kv(g, &mut s.p, &s.m);
        if let K::Set(k, v) | K::Goc(k, v) | K::Replace(k, v, _) = &mut op.k {
            if !moving && g.chance(1, 2) {
                let t = *g.pick(&[127usize, 128, 1023, 1024, 8191, 8192, 32767, 32768, 40000, 126, 1025, 60000]);
                *v = fill(i as u64 + 1, t - k.len() - 1);
            }
        }
        if matches!(op.k, K::Iter) {
            continue;
        }
        if g.chance(1, 40) {
            op.k = K::Clear;
        }
        let before = s.m.clone();
        s.run(&op);
        match &op.k {
            K::Get(k) | K::Contains(k) => {
                if before.kv.contains_key(k) {
                    w.pos += 1
                } else {
                    w.neg += 1
                }
            }
            K::Set(k, v) | K::Goc(k, v) | K::Replace(k, v, _) => {
                let is_new = !before.kv.contains_key(k);
                if s.m.kv.get(k) != before.kv.get(k) {
                    wr(&mut w, k, v);
                    if !is_new {
                        w.upd += 1;
                    } else if partner(k).is_some_and(|p| before.kv.contains_key(&p)) {
                        w.coll += 1;
                    }
                }
                if matches!(op.k, K::Goc(..)) && !is_new {
                    w.pos += 1;
                }
            }
            K::Clear => {
                w = Counters::default();
                cleared_stats(&check_stats(&s, "after clear"));
                label("counters after clear");
            }
            _ => {}
        }
    }
    let t = check_stats(&s, "final");
    let got = Counters {
        writes: t.num_write_ops,
        pos: t.num_positive_lookups,
        neg: t.num_negative_lookups,
        upd: t.num_updates,
        coll: t.num_collisions,
        hist: [t.entries_under_128, t.entries_under_1k, t.entries_under_8k, t.entries_under_32k, t.entries_over_32k],
    };
    if t.num_splits + t.num_compactions == 0 {
        check!(got == w, "stats-counters", "the counters are {got:?}, but the operations amount to {w:?}");
    } else {
        // entries are copied as well
        check!((got.pos, got.neg, got.upd, got.coll) == (w.pos, w.neg, w.upd, w.coll), "stats-counters", "the counters are {got:?}, but the operations amount to {w:?}");
        check!(got.writes >= w.writes && got.hist.iter().zip(&w.hist).all(|(a, b)| a >= b), "stats-counters", "the counters are {got:?}, but the operations amount to at least {w:?}");
        label("counters compared in spite of restructuring");
    }
    check!(t.num_shards == t0.num_shards + t.num_splits, "stats-splits", "{} shards at first, {} now, but {} splits", t0.num_shards, t.num_shards, t.num_splits);
    check!(t.last_split_stats.len() == t.num_splits.min(8) && t.last_compaction_stats.len() == t.num_compactions.min(8), "stats-last", "the latest splits and compactions are incomplete: {t:?}");
    check!(moving || t.num_splits + t.num_compactions == 0, "stats-counters", "unexpected restructuring: {t:?}");
    s.close();
    if n > 10 {
        nontrivial();
    }
}
/// statistics after concurrent clients have finished
fn c18_concurrent(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = crate::p_kv::tiny(g);
    let n = g.range(2, 3);
    let shared = g.chance(1, 2);
    let pools: Vec<Pools> = (0..n).map(|i| crate::p_kv::kv_pools(g, &cfg, if shared { 0 } else { i }, n)).collect();
    let per = g.range(4, 25);
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, pools[0].clone());
    let gp = g as *mut G as usize;
    let tot = g.count(OP, per * n);
    let hs: Vec<_> = pools
        .into_iter()
        .enumerate()
        .map(|(ci, mut p)| {
            let st = s.arc();
            std::thread::spawn(move || {
                let mut keys: Vec<B> = vec![];
                for i in 0..(tot + n - 1 - ci) / n {
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + ci);
                    let op = match g.weighted(&[30, 1, 1, 1]) {
                        0 => gen_kv(g, &mut p, &Model::default()),
                        1 => Op { k: K::Stats, alt: false },
                        2 => Op { k: K::Merge(400), alt: false },
                        _ => Op { k: K::Flush, alt: false },
                    };
                    let r = run_op(&st, &op);
                    trace!("[{ci}] {op} -> {r}");
                    if let Res::Panic(e) = &r {
                        bad!("panic", "{op} panicked: {e}");
                    }
                    keys.push(vec![]);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    trace!("check statistics");
    check_stats(&s, "after concurrent operations");
    s.label_restructuring();
    s.close();
    s.open();
    check_stats(&s, "after concurrent operations, reopened");
    s.close();
    if counted("cases-with-splits") || counted("cases-with-compactions") {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C26 space
fn c26(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[2500, 1200, 5000, 20000, 600], thr_div: &[4, 2, 8, 16, 3], expected: &[0], threads: 2 });
    cfg.hash_seed = *SEED;
    let maxval = (*g.pick(&[60usize, 8, 150])).min(cfg.max_shard_size as usize / 4);
    let nkeys = *g.pick(&[4usize, 12, 1, 30]);
    let p = Pools { keys: numbered("k", nkeys), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 };
    let n = g.range(30, if c.thorough { 600 } else { 300 });
    sched(g);
    let mut s = Sess::new(&c.dir, cfg, p);
    let max = s.cfg.max_shard_size as usize;
    let thr = s.cfg.min_compaction_threashold as usize;
    // a removal leaves waste behind until the next insertion; only insertions are required to reclaim
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let ki = g.us(s.p.keys.len());
        let k = s.p.keys[ki].clone();
        let op = match g.weighted(&[20, 8, 1, 1, 1]) {
            0 => K::Set(k.clone(), s.p.val(g)),
            1 => K::Remove(k.clone()),
            2 => K::Goc(k.clone(), s.p.val(g)),
            3 => K::Iter,
            _ => K::Merge(1 + g.n(499) as u32),
        };
        let op = Op { k: op, alt: false };
        let bytes = match &op.k {
            K::Set(k, v) | K::Goc(k, v) => k.len() + 1 + v.len(),
            _ => 0,
        };
        let before = if bytes > 0 && g.chance(1, 2) { Some(s.stats()) } else { None };
        s.run(&op);
        let Some(b) = before else { continue };
        let t = s.stats(); // waits for compactions
        // with several shards, the limits hold for the shard written to: compare increases in that case
        if t.num_shards == 1 {
            let old = 2 * maxval + 40;
            check!(t.wasted_bytes < thr + old, "wasted", "after {op} and all background work, {} bytes are wasted, with a compaction threshold of {thr}", t.wasted_bytes);
            check!(t.occupied_bytes <= max + bytes, "occupied", "after {op} and all background work, {} bytes are occupied, with a shard size of {max}", t.occupied_bytes);
        }
        let lim = t.num_shards * (thr.max(b.wasted_bytes) + 2 * maxval + 40);
        check!(t.wasted_bytes <= lim, "wasted", "{} bytes wasted in {} shards", t.wasted_bytes, t.num_shards);
        label("space bounds checked");
    }
    s.stats();
    settle();
    let files = dir_files(&s.dir);
    let ns = s.stats().num_shards;
    for (f, _) in &files {
        check!(f == ".lock" || f.starts_with("shard_"), "leftover", "temporary file {f} left after all background work: {files:?}");
    }
    check!(files.iter().filter(|f| f.0.starts_with("shard_")).count() == ns, "leftover", "superseded shard files left: {files:?} with {ns} shards");
    s.verify("final contents");
    s.label_restructuring();
    s.close();
    settle();
    let files = dir_files(&s.dir);
    for (f, _) in &files {
        check!(f == ".lock" || f.starts_with("shard_"), "leftover", "temporary file {f} left after closing: {files:?}");
    }
    if counted("space bounds checked") && counted("cases-with-compactions") {
        nontrivial();
    }
}
/// rewriting a fixed set of entries that fits must not split any further
fn c26_rewrite(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = Config::default();
    cfg.hash_seed = *SEED;
    cfg.max_shard_size = *g.pick(&[2000u32, 1000, 5000, 20_000]);
    let max = cfg.max_shard_size as usize;
    let div = *g.pick(&[4usize, 8, 16, 3]);
    cfg.min_compaction_threashold = (max / div) as u32;
    cfg.truncate_up = g.chance(1, 2);
    cfg.num_compaction_threads = g.range(1, 2);
    let esz = g.range(12, 80);
    // live data + threshold + a few entries of slack stay within the shard
    // 0: overwrite, 1: remove and insert, 2: remove everything and insert everything, 3: replace, 4: compare and replace
    let how = g.weighted(&[4, 2, 3, 1, 1]);
    let fit = if how == 2 { max / esz } else { (max - max / div) / 2 / esz };
    let nkeys = if how == 2 && g.chance(1, 2) { fit.min(200) } else { g.range(1, fit.clamp(1, 60)) };
    let rounds = g.range(5, if nkeys > 60 { 12 } else { 60 });
    // how an entry's size is divided between key and value
    let klen = *g.pick(&[4usize, 4, esz - 6, esz - 1, esz / 2]);
    sched(g);
    let keys: Vec<B> = (0..nkeys).map(|i| format!("{:x>1$}", format!("k{i}"), klen.max(4)).into_bytes()).collect();
    let p = Pools { keys, lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: esz, ctr: 0 };
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    let val = |r: u64, i: u64| fill(r * 1000 + i + 1, esz - 1 - klen.max(4).min(esz - 1));
    let remove = how == 1;
    for i in 0..nkeys {
        let k = s.p.keys[i].clone();
        s.k(K::Set(k, val(0, i as u64)));
    }
    let t0 = s.stats();
    trace!("{nkeys} keys of about {esz} bytes; {rounds} rounds of rewriting, mode {how}, key length {klen}");
    for r in 1..=rounds {
        if how == 2 {
            for i in 0..nkeys {
                s.k(K::Remove(s.p.keys[i].clone()));
            }
        }
        for i in 0..nkeys {
            let k = s.p.keys[i].clone();
            if remove {
                s.k(K::Remove(k.clone()));
            }
            let v = val(r as u64, i as u64);
            match how {
                3 => s.k(K::Replace(k, v, None)),
                4 => s.k(K::Replace(k, v, Some(val(r as u64 - 1, i as u64)))),
                _ => s.k(K::Set(k, v)),
            };
            // background work finishes between operations
            let t = s.stats();
            check!(t.num_splits == t0.num_splits, "split", "rewriting {nkeys} entries of {esz} bytes (shard size {max}, threshold {}) caused a split in round {r}; {t}", max / div);
            check!(t.occupied_bytes <= max + esz, "occupied", "{} bytes occupied in round {r}; shard size {max}", t.occupied_bytes);
            check!(t.wasted_bytes < max / div + (2 + if how == 2 { nkeys } else { 0 }) * esz, "wasted", "{} bytes wasted in round {r}; threshold {}", t.wasted_bytes, max / div);
        }
    }
    s.verify("final contents");
    let (_, co) = s.label_restructuring();
    label("space bounds checked");
    settle();
    for (f, len) in dir_files(&s.dir) {
        check!(f == ".lock" || f.starts_with("shard_"), "leftover", "temporary file {f} left");
        // the file itself stays bounded, too
        check!(len as usize <= candystore::Stats::FILE_HEADER_SIZE + 2 * max + 4096, "file-size", "{f} has grown to {len} bytes");
    }
    s.close();
    if co > 1 {
        nontrivial();
    }
}

/// the same for lists and queues
fn c26_rewrite_ds(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = Config::default();
    cfg.hash_seed = *SEED;
    cfg.max_shard_size = *g.pick(&[4000u32, 2500, 8000, 20_000]);
    let max = cfg.max_shard_size as usize;
    let div = *g.pick(&[4usize, 8, 16, 3]);
    cfg.min_compaction_threashold = (max / div) as u32;
    cfg.truncate_up = g.chance(1, 2);
    cfg.num_compaction_threads = g.range(1, 2);
    let vlen = g.range(1, 60);
    let n = g.range(1, 12);
    let rounds = g.range(20, 150);
    // list: 0 overwrite, 1 remove and insert, 2 promote, 3 pop and insert, 4 discard and refill; queue: 5 rotate, 6 reverse, 7 discard and refill; 8 big value
    let how = g.us(9);
    sched(g);
    let (l, q) = (b"L".to_vec(), b"Q".to_vec());
    let it = |i: usize| format!("i{i}").into_bytes();
    let p = Pools { keys: vec![], lists: vec![l.clone()], items: (0..n).map(it).collect(), queues: if how == 8 { vec![] } else { vec![q.clone()] }, bigs: if how == 8 { vec![q.clone()] } else { vec![] }, maxval: vlen, ctr: 0 };
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    let val = |r: usize, i: usize| fill((r * 1000 + i) as u64 * 2 + 1, vlen);
    for i in 0..n {
        match how {
            0..=4 => s.k(K::LSet(l.clone(), it(i), val(0, i))),
            5..=7 => s.k(K::QPushT(q.clone(), val(0, i))),
            _ => s.k(K::BSet(q.clone(), val(0, i))),
        };
    }
    let t0 = s.stats();
    // live entries, the tolerated waste and what a single call writes must fit
    let call = match how {
        4 | 7 => t0.data_bytes() + n * (vlen + 80),
        8 => vlen + 300,
        _ => vlen + 200,
    };
    if t0.num_shards > 1 || t0.data_bytes() + max / div + call + 200 > max {
        return;
    }
    trace!("{n} values of {vlen} bytes, mode {how}, {rounds} rounds; {} live bytes", t0.data_bytes());
    for r in 1..=rounds {
        for i in 0..n {
            let v = val(r, i);
            match how {
                0 => drop(s.k(K::LSet(l.clone(), it(i), v))),
                1 => {
                    s.k(K::LRemove(l.clone(), it(i)));
                    s.stats();
                    s.k(K::LSet(l.clone(), it(i), v));
                }
                2 => drop(s.k(K::LPromote(l.clone(), it(i), v))),
                3 => {
                    s.k(if r % 3 == 0 { K::LPopT(l.clone()) } else { K::LPopH(l.clone()) });
                    s.stats();
                    s.k(K::LSet(l.clone(), it((r * n + i) % (n + 3)), v));
                }
                4 => {
                    if i == 0 {
                        s.k(K::LDiscard(l.clone()));
                    }
                    s.k(K::LSet(l.clone(), it(i), v));
                }
                5 => {
                    s.k(K::QPopH(q.clone()));
                    s.stats();
                    s.k(K::QPushT(q.clone(), v));
                }
                6 => {
                    s.k(K::QPopT(q.clone()));
                    s.stats();
                    s.k(K::QPushH(q.clone(), v));
                }
                7 => {
                    if i == 0 {
                        s.k(K::QDiscard(q.clone()));
                    }
                    s.k(K::QPushT(q.clone(), v));
                }
                _ => drop(s.k(K::BSet(q.clone(), v))),
            }
            let t = s.stats();
            check!(t.num_splits == 0, "split", "rewriting {n} values of {vlen} bytes (mode {how}, shard size {max}, threshold {}) caused a split in round {r}; {t}", max / div);
            check!(t.occupied_bytes <= max + call, "occupied", "{} bytes occupied in round {r}; shard size {max}", t.occupied_bytes);
            check!(t.data_bytes() <= t0.data_bytes() + call, "live", "{} bytes are live in round {r}, initially {}", t.data_bytes(), t0.data_bytes());
        }
    }
    s.verify("final contents");
    let (_, co) = s.label_restructuring();
    label("space bounds of lists and queues checked");
    s.close();
    if co > 1 {
        nontrivial();
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            level: "exploration",
            rule: "a case counts when the store was reopened at least twice and at least one split or compaction happened",
            assumptions: &[],
            parts: &[("reopen", 3000, 40000, c02)],
            expect: &["reopened with another configuration", "foreign files kept", "cases-with-splits", "cases-with-compactions"],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "a case counts when at least one merge changed the number of shards",
            assumptions: &[],
            parts: &[("merge", 1800, 40000, c06), ("rows", 300, 5000, c06_rows), ("advice", 1500, 30000, c06_advice)],
            expect: &["merges that changed the shards", "merges that changed nothing", "rejected fill levels", "advice compared", "merged after reopening with another expectation", "cases-with-splits", "cases-with-compactions"],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "a case counts when a list was compacted and a split or compaction of the store happened (part history), or when iterators were stepped between more than 8 operations (part iterators)",
            assumptions: &[],
            parts: &[("history", 4000, 60000, c07), ("iterators", 1500, 15000, c07_iter)],
            expect: &["lists compacted", "cases-with-splits", "cases-with-compactions", "reopened", "iterators stepped"],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "a case counts when at least one split or compaction happened",
            assumptions: &[],
            parts: &[("history", 5000, 100000, c09)],
            expect: &["cases-with-splits", "cases-with-compactions", "reopened", "iterators stepped"],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "a case counts when a value of more than one chunk was stored",
            assumptions: &[],
            parts: &[("history", 5000, 60000, c13)],
            expect: &["empty big values", "big values of whole chunks", "big values of several chunks", "big values similar to the previous one", "cases-with-splits"],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "a case counts when plain keys, lists and queues under crafted keys exist at the end",
            assumptions: &["no two list keys have the same 64-bit hash"],
            parts: &[("history", 4000, 60000, c15)],
            expect: &["cases-with-splits"],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "a case counts when an operation was refused",
            assumptions: &[],
            parts: &[("history", 1200, 40000, c17)],
            expect: &["refused operations", "accepted operations near the limits"],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "a case counts when at least one split or compaction happened (parts mixed, concurrent) or it has more than 10 operations (part counters)",
            assumptions: &[],
            parts: &[("mixed", 2000, 30000, c18_mixed), ("counters", 800, 6000, c18_counters), ("concurrent", 900, 15000, c18_concurrent)],
            expect: &["statistics compared", "counters with keys of equal hashes", "cases-with-splits", "cases-with-compactions"],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "a case counts when the space bounds were checked and a compaction happened",
            assumptions: &[],
            parts: &[("history", 3000, 60000, c26), ("rewrite", 2200, 15000, c26_rewrite), ("lists", 1000, 15000, c26_rewrite_ds), ("rows", 150, 3000, c26_rows)],
            expect: &["space bounds checked", "space bounds of lists and queues checked", "cases-with-compactions"],
        },
    ]
}
