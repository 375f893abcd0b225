//! C01 and relatives: the key-value map.
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt;
use crate::snap::*;

pub fn pools(g: &mut G, nkeys: usize, maxval: usize) -> Pools {
    let _ = &g;
    Pools { keys: numbered("k", nkeys), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 }
}

fn c01_map(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &SMALL);
    cfg.hash_seed = *SEED;
    if g.chance(1, 6) {
        let max = cfg.max_shard_size;
        cfg.min_compaction_threashold = *g.pick(&[max / 4, 0, 1, max, 2 * max, u32::MAX]);
        cfg.num_compaction_threads = *g.pick(&[1, 0, 8, 0]);
        let b = g.n(1 << 32).to_le_bytes();
        cfg.hash_seed[3..11].copy_from_slice(&b);
        label("unusual configurations");
    }
    let nkeys = *g.pick(&[12, 3, 40, 120]);
    let maxval = (*g.pick(&[60usize, 8, 200, 1000])).min(cfg.max_shard_size as usize - 70);
    let mut p = pools(g, nkeys, maxval);
    if g.chance(1, 3) {
        p.keys.push(vec![]);
        p.keys.push(vec![0]);
        p.keys.push(vec![1]);
        p.keys.push(b"k0\x01".to_vec());
        p.keys.push(vec![0xff; 60]);
    }
    let n = g.range(20, if c.thorough { 400 } else { 250 });
    let clears = g.chance(1, 6);
    let (sv, pol) = g.sched(60);
    rt::start();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let w = g.weighted(&[160, 3, 2, 1]);
        let op = match w {
            0 => gen_kv(g, &mut s.p, &s.m),
            1 => Op { k: K::Stats, alt: false },
            2 => Op { k: K::Iter, alt: false },
            _ => Op { k: if clears { K::Clear } else { K::Flush }, alt: false },
        };
        s.run(&op);
    }
    s.verify("final contents");
    let (sp, co) = s.label_restructuring();
    s.verify("contents after background work");
    s.close();
    if sp + co > 0 {
        nontrivial();
    }
}

/// entries of the largest sizes, in shards that hold tens of megabytes
fn c01_large(g: &mut G, c: &Ctx) {
    g.cfg();
    let max = *g.pick(&[24u32 << 20, 64 << 20, 40 << 20, 18 << 20]);
    let thr = max / *g.pick(&[4u32, 2, 100, 8]);
    let mut cfg = candystore::Config { max_shard_size: max, min_compaction_threashold: thr, hash_seed: *SEED, ..Default::default() };
    cfg.expected_number_of_keys = *g.pick(&[0usize, 0, 100_000]);
    cfg.num_compaction_threads = 1 + g.us(2);
    let nkeys = *g.pick(&[600usize, 300, 900]);
    let p = pools(g, nkeys, 60);
    // most of the data is written first, with values of the largest size
    let fillto = (17u64 << 20) + g.n(6 << 20) * if c.thorough { 8 } else { 1 };
    let (sv, pol) = g.sched(4);
    rt::start();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    let top = candystore::MAX_VALUE_SIZE;
    let (mut tot, mut i) = (0u64, 0u64);
    while tot < fillto {
        let v = fill(i * 2, top - (i % 3) as usize);
        tot += v.len() as u64;
        let k = s.p.keys[i as usize % s.p.keys.len()].clone();
        s.k(K::Set(k, v));
        i += 1;
    }
    trace!("{i} keys set to values of {top} bytes");
    s.quietly = false;
    let n = g.range(1, 60);
    for j in 0..g.count(OP, n) {
        g.select(OP, j);
        let k = g.pick(&s.p.keys).clone();
        let len = *g.pick(&[top, 0, 10, top - 1, 1000]);
        let v = fill(g.n(1000) * 2, len);
        s.run(&Op {
            k: match g.weighted(&[5, 2, 3, 1, 1]) {
                0 => K::Set(k, v),
                1 => K::Remove(k),
                2 => K::Get(k),
                3 => K::Goc(k, v),
                _ => K::Replace(k, v, None),
            },
            alt: false,
        });
    }
    s.verify("final contents");
    let (sp, co) = s.label_restructuring();
    if g.chance(1, 3) {
        s.close();
        s.open();
        s.verify("reopened");
    }
    let big = dir_files(&s.dir).iter().any(|f| f.1 > (16 << 20) + 400_000);
    s.close();
    if big || sp + co > 0 {
        nontrivial();
    }
    if big {
        label("files of more than 16 MB");
    }
}
/// gigabytes in one shard, beyond which offsets take their 32nd bit. (What is zero is not really written; a region of a
/// shard file is only written once, so holes read the same.)
fn c01_huge(g: &mut G, c: &Ctx) {
    g.cfg();
    let max = *g.pick(&[u32::MAX, 2_200_000_000, 3_000_000_000, 4_200_000_000]);
    let thr = max - *g.pick(&[1u32, 100_000, 30_000_000, 1 << 26]);
    let mut cfg = candystore::Config { max_shard_size: max, min_compaction_threashold: thr, hash_seed: *SEED, ..Default::default() };
    cfg.truncate_up = g.chance(1, 2);
    let nkeys = *g.pick(&[300usize, 20, 900]);
    let p = pools(g, nkeys, 60);
    let over = g.n(3 << 20);
    let fillto = if g.chance(1, 2) { max as u64 + over } else { (1u64 << 31) + over };
    let (sv, pol) = g.sched(4);
    rt::start();
    rt::set_sched(sv, pol);
    unsafe { rt::S.sparse = true };
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    let top = candystore::MAX_VALUE_SIZE;
    let value = |i: u64, len: usize| {
        let mut v = vec![0u8; len];
        for (d, s) in v.iter_mut().zip(fill(i * 2, 24)) {
            *d = s;
        }
        if i % 8 == 0 && len > 0 {
            v[len - 1] = 7;
        }
        v
    };
    let (mut tot, mut i) = (0u64, 0u64);
    while tot < fillto {
        let v = value(i, top - (i % 3) as usize);
        tot += v.len() as u64;
        let k = s.p.keys[i as usize % s.p.keys.len()].clone();
        s.k(K::Set(k, v));
        i += 1;
    }
    trace!("{i} keys set to values of {top} bytes");
    s.quietly = false;
    let huge = s.st().stats().occupied_bytes > 1 << 31;
    let n = g.range(1, 60);
    for j in 0..g.count(OP, n) {
        g.select(OP, j);
        let k = g.pick(&s.p.keys).clone();
        let len = *g.pick(&[top, 0, 10, top - 1, 1000]);
        let v = value(g.n(1000), len);
        s.run(&Op {
            k: match g.weighted(&[5, 2, 3, 1, 1]) {
                0 => K::Set(k, v),
                1 => K::Remove(k),
                2 => K::Get(k),
                3 => K::Goc(k, v),
                _ => K::Replace(k, v, None),
            },
            alt: false,
        });
    }
    s.verify("final contents");
    let (sp, co) = s.label_restructuring();
    if g.chance(1, 3) {
        s.close();
        s.open();
        s.verify("reopened");
    }
    s.close();
    if huge || sp + co > 0 {
        nontrivial();
    }
    if huge {
        label("more than 2 GB in a shard");
    }
}
/// keys that compete for the 512 places of a row, and keys next to the edges of the shards' ranges
fn c01_rows(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[200_000, 60_000, 30_000, 1_000_000], thr_div: &[4, 8, 2, 100], expected: &[0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let top = *g.pick(&[0u32, 1, 2, 3]);
    let nkeys = *g.pick(&[700usize, 540, 1100, 1500, 514]);
    let row = g.n(64) as u32;
    let mut p = pools(g, 0, 40);
    p.keys = same_row(nkeys, row, top, g.n(100));
    let edges: Vec<B> = EDGES.iter().flat_map(|e| edge_keys(*e, 3)).collect();
    for k in edges {
        p.keys.push(k);
    }
    let n = g.range(10, if c.thorough { 600 } else { 200 });
    // which keys are there before, and what is then removed again
    let (have, holes) = (*g.pick(&[100u64, 98, 90, 60]), *g.pick(&[5u64, 0, 2, 40]));
    let salt = g.n(1 << 20);
    let (sv, pol) = g.sched(20);
    rt::start();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    for (i, k) in s.p.keys.clone().into_iter().enumerate() {
        let r = mix(salt + i as u64);
        if r % 100 < have {
            s.k(K::Set(k, fill(i as u64, 12)));
        }
        if r / 100 % 100 < holes {
            let d = s.p.keys[(r / 10_000) as usize % (i + 1)].clone();
            s.k(K::Remove(d));
        }
    }
    trace!("{} of {} keys set and some removed: {} are there", have, s.p.keys.len(), s.m.kv.len());
    s.quietly = false;
    for i in 0..g.count(OP, n) {
        g.select(OP, i);
        let op = match g.weighted(&[60, 1, 1, 1]) {
            0 => gen_kv(g, &mut s.p, &s.m),
            1 => Op { k: K::Stats, alt: false },
            2 => Op { k: K::Iter, alt: false },
            _ => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        };
        s.run(&op);
    }
    s.verify("final contents");
    let (sp, _) = s.label_restructuring();
    if g.chance(1, 3) {
        s.close();
        s.open();
        s.verify("reopened");
    }
    s.close();
    if sp > 0 {
        nontrivial();
    }
}
fn mix(x: u64) -> u64 {
    let x = (x ^ (x >> 31)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 8
}

/// configuration small enough that tens of operations restructure the store
pub fn tiny(g: &mut G) -> candystore::Config {
    let mut cfg = gen_cfg(g, &CfgGen { max: &[600, 300, 1200, 2500], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000, 100_000], threads: 2 });
    cfg.hash_seed = *SEED;
    cfg
}
pub fn kv_pools(g: &mut G, cfg: &candystore::Config, c: usize, n: usize) -> Pools {
    let nkeys = *g.pick(&[8, 3, 20, 40]);
    let maxval = (*g.pick(&[60usize, 8, 150])).min(cfg.max_shard_size as usize - 70);
    let keys = if g.chance(1, 4) {
        same_row(nkeys, c as u32, 0, c as u64)
    } else if n == 1 {
        numbered("k", nkeys)
    } else {
        numbered(&format!("{}", (b'a' + c as u8) as char), nkeys)
    };
    Pools { keys, lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: c as u32 * 100_000 }
}
pub fn run_clients(
    g: &mut G, s: &std::sync::Arc<candystore::CandyStore>, cl: Vec<Client>, per: usize, gen: fn(&mut G, &mut Pools, &Model) -> Op,
) -> Vec<Client> {
    let n = cl.len();
    let gp = g as *mut G as usize;
    if n == 1 {
        let mut c = cl.into_iter().next().unwrap();
        let tot = g.count(OP, per);
        drive(s, 0, &mut c, g, 0, tot, 1, gen);
        return vec![c];
    }
    let tot = g.count(OP, per * n);
    let hs: Vec<_> = cl
        .into_iter()
        .enumerate()
        .map(|(ci, mut c)| {
            let s = s.clone();
            std::thread::spawn(move || {
                let mine = (tot + n - 1 - ci) / n;
                drive(&s, ci, &mut c, gp as *mut G, 0, mine, n, gen);
                drop(s);
                c
            })
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
}
/// a crash case: clients with disjoint objects, images sampled along the way, every image recovered
pub fn crash_case(
    g: &mut G, c: &Ctx, cfg: candystore::Config, pools: Vec<Pools>, per: usize, gen: fn(&mut G, &mut Pools, &Model) -> Op,
    partial: fn(&Op, &Model, &Model, &Obs) -> bool, from_creation: bool, nested: u64,
) {
    crash_case2(g, c, cfg, pools, per, gen, gen, partial, from_creation, nested, None)
}
/// `cgen` generates the operations after recovery
pub fn crash_case2(
    g: &mut G, c: &Ctx, cfg: candystore::Config, pools: Vec<Pools>, per: usize, gen: fn(&mut G, &mut Pools, &Model) -> Op,
    cgen: fn(&mut G, &mut Pools, &Model) -> Op, partial: fn(&Op, &Model, &Model, &Obs) -> bool, from_creation: bool, nested: u64,
    prefill: Option<Vec<Op>>,
) {
    g.select(EXTRA, 1);
    let gap = *g.pick(&[0u64, 4, 12, 40]);
    let span = if prefill.is_some() { 40 } else { (per as u64 * 14).min(1500) };
    let skip = if gap == 0 { g.n(span) } else { g.n(span / 4 + 1) };
    let salt = g.n(1 << 30);
    let cap = if c.thorough { 80 } else { 45 };
    let dir = c.dir.join("store");
    let n = pools.len();
    if from_creation {
        record(&dir, gap, 0, cap, n, salt);
    }
    unsafe { rt::S.trap = true };
    trace!("open new store: {}", show_cfg(&cfg));
    let st = match try_open(&dir, &cfg) {
        Ok(s) => s,
        Err(e) => bad!("open", "{e}"),
    };
    let mut cl: Vec<Client> = pools.into_iter().map(|p| Client { ops: vec![], models: vec![Model::default()], pools: p }).collect();
    for op in prefill.iter().flatten() {
        let r = run_op(&st, op);
        if let Err(e) = cl[0].models[0].apply(op, &r) {
            bad!(sig_of(op, &r), "{op}: {e}");
        }
    }
    if let Some(o) = &prefill {
        trace!("{} keys inserted or removed before: {} keys present", o.len(), cl[0].models[0].kv.len());
    }
    if !from_creation {
        record(&dir, gap, skip, cap, n, salt);
    }
    let st = std::sync::Arc::new(st);
    let cl = run_clients(g, &st, cl, per, gen);
    let stats = match rt::api(op_id("stats".into()), || st.stats()) {
        Ok(s) => s,
        Err(p) => bad!("panic", "stats() panicked: {p} ({})", last_panic()),
    };
    label_n("splits", stats.num_splits as u64);
    label_n("compactions", stats.num_compactions as u64);
    close(std::sync::Arc::try_unwrap(st).ok().unwrap());
    let (imgs, nev) = stop();
    label_n("effects enumerated", nev);
    label_n("crash images recovered", imgs.len() as u64);
    if candy_panics() > 0 {
        bad!("panic", "a background thread panicked: {}", last_panic());
    }
    settle();
    let mut v = Verify { cfg: &cfg, dir: &c.dir, all: union(&cl), clients: &cl, partial, nested, cont: 3, salt, gen: cgen, contlen: 5 };
    verify_images(g, &mut v, &imgs);
    if imgs.len() > 3 {
        nontrivial();
    }
}

fn c03(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = tiny(g);
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let pools: Vec<Pools> = (0..n).map(|i| kv_pools(g, &cfg, i, n)).collect();
    let per = g.range(8, if c.thorough { 100 } else { 60 }) / n + 1;
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case(g, c, cfg, pools, per, gen_kv, no_partial, false, 8);
}
fn gen_restructure(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    match g.weighted(&[24, 1, 2, 1]) {
        0 => gen_kv(g, p, m),
        1 => Op { k: K::Clear, alt: false },
        2 => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
        _ => Op { k: K::Flush, alt: false },
    }
}
fn c04_create(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = tiny(g);
    cfg.expected_number_of_keys = *g.pick(&[0usize, 40_000, 100_000, 200_000]);
    let p = kv_pools(g, &cfg, 0, 1);
    let (sv, pol) = g.sched(10);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case(g, c, cfg, vec![p], 3, gen_kv, no_partial, true, 3);
}
fn c04_restructure(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = tiny(g);
    let p = kv_pools(g, &cfg, 0, 1);
    let per = g.range(10, if c.thorough { 120 } else { 70 });
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case(g, c, cfg, vec![p], per, gen_restructure, no_partial, false, 3);
}
/// few operations on a store brought to the point where they restructure it, with every effect a crash point
fn c04_focus(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[600, 300, 1200], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000, 100_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let mut p = kv_pools(g, &cfg, 0, 1);
    let max = cfg.max_shard_size as usize;
    let mut ops = vec![];
    let mode = g.weighted(&[3, 2, 1]);
    let i0 = g.us(1000);
    let f = |i: usize| format!("f{}", i0 + i).into_bytes();
    let gen: fn(&mut G, &mut Pools, &Model) -> Op;
    match mode {
        0 | 2 => {
            let tot = g.range(1, 4) * max / 30 + 2;
            let keep = g.us(7);
            for i in 0..tot {
                ops.push(Op { k: K::Set(f(i), vec![b'x'; 20]), alt: false });
            }
            for i in keep..tot {
                ops.push(Op { k: K::Remove(f(i)), alt: false });
            }
            for i in 0..(keep + 3).min(tot) {
                p.keys.push(f(i));
            }
            gen = if mode == 0 { gen_merge } else { gen_clear };
        }
        _ => {
            let slack = g.us(100);
            let mut used = 0;
            let mut i = 0;
            while used + 30 + slack < max {
                used += f(i).len() + 1 + 20;
                ops.push(Op { k: K::Set(f(i), vec![b'x'; 20]), alt: false });
                i += 1;
            }
            for k in 0..i {
                p.keys.push(f(k));
            }
            gen = gen_kv;
        }
    }
    let per = g.range(1, 6);
    let (sv, pol) = g.sched(20);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case2(g, c, cfg, vec![p], per, gen, gen_kv, no_partial, false, 4, Some(ops));
}
fn gen_merge(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    match g.weighted(&[2, 1]) {
        0 => Op { k: K::Merge(490), alt: false },
        _ => gen_kv(g, p, m),
    }
}
fn gen_clear(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    match g.weighted(&[1, 1]) {
        0 => Op { k: K::Clear, alt: false },
        _ => gen_kv(g, p, m),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
        id: "C01",
        level: "exploration",
        rule: "a case counts when at least one split or compaction happened during its operations; in part large also when a file exceeds 16 MB",
        assumptions: &[],
        parts: &[("map", 2000, 40000, c01_map), ("rows", 400, 10000, c01_rows), ("large", 150, 1500, c01_large), ("huge", 8, 80, c01_huge)],
        expect: &["cases-with-splits", "cases-with-compactions", "unusual configurations", "files of more than 16 MB", "more than 2 GB in a shard"],
    },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "a case counts when more than three crash images were taken and recovered",
            assumptions: &["a process crash leaves every completed system call and every completed store to a shared mapping in effect (page cache survives)"],
            parts: &[("crash", 900, 30000, c03)],
            expect: &["crash before a header store", "crash before a rename", "crash before an unlink", "crash during a split", "crash during compaction", "crashes during recovery"],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "a case counts when more than three crash images were taken and recovered",
            assumptions: &["a process crash leaves every completed system call and every completed store to a shared mapping in effect (page cache survives)"],
            parts: &[("create", 40, 1000, c04_create), ("restructure", 160, 10000, c04_restructure), ("focus", 500, 20000, c04_focus)],
            expect: &["crash during a split", "crash during compaction", "crash during a merge", "crashes during recovery"],
        },
    ]
}
