//! C25: keys whose hashes coincide. In the `collide` build hash bits are masked off (the crate's own test hook), so that
//! chosen parts of the hash coincide; in the main build genuinely colliding keys, found by search offline, are used.
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_ds::*;
use crate::rt;

#[cfg(feature = "collide")]
mod masked {
    use super::*;
    use crate::lin;
    use std::collections::BTreeMap;

    fn masked(ns: u8, key: &[u8]) -> u64 {
        let mut v = key.to_vec();
        v.push(ns);
        (H::of(&v).0 & unsafe { candystore::HASH_BITS_TO_KEEP }) | 1
    }
    /// choose which bits of the hash survive; returns the number of shard bits
    fn choose_mask(g: &mut G, shard: &[u32], row: &[u32], sig: &[u32]) -> u32 {
        let sb = *g.pick(shard);
        let rb = *g.pick(row);
        let gb = *g.pick(sig);
        let sm = if sb == 0 { 0 } else { (0xffffu64 << (16 - sb)) & 0xffff };
        let rm = (1u64 << rb) - 1;
        let at = g.us(33 - gb as usize) as u64;
        let gm = (((1u64 << gb) - 1) << at) & 0xffff_ffff;
        let mask = sm << 48 | rm << 32 | gm;
        unsafe { candystore::HASH_BITS_TO_KEEP = mask };
        trace!("hash bits kept: {sb} of the shard, {rb} of the row, {gb} of the signature (mask {mask:016x})");
        if gb <= 1 && rb <= 1 {
            label("cases with nearly all keys colliding in row and signature");
        }
        sb
    }
    /// make the shards large enough that keys of one shard selector always fit one shard (they can never be split apart)
    fn size_for(cfg: &mut candystore::Config, p: &Pools, extra: usize, tight: bool) {
        let mut by: BTreeMap<u64, usize> = BTreeMap::new();
        for k in &p.keys {
            *by.entry(masked(1, k) >> 48).or_default() += k.len() + 1 + p.maxval + 30;
        }
        let worst = by.values().max().copied().unwrap_or(0) + extra;
        let need = (2 * (worst + p.maxval + 60)) as u32;
        if cfg.max_shard_size < need || tight {
            cfg.max_shard_size = need;
        }
        cfg.min_compaction_threashold = cfg.min_compaction_threashold.min(cfg.max_shard_size / 2);
    }
    fn collisions(p: &Pools) -> u64 {
        let mut n = 0;
        let h: Vec<u64> = p.keys.iter().map(|k| masked(1, k) & 0x3f_ffff_ffff).collect();
        for i in 0..h.len() {
            for j in 0..i {
                n += (h[i] == h[j]) as u64;
            }
        }
        n
    }
    /// names whose masked hashes all differ (equal ones share a list by the design of the format)
    fn distinct(ns: u8, prefix: &str, n: usize) -> Vec<B> {
        let mut v: Vec<B> = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..200 {
            let k = format!("{prefix}{i}").into_bytes();
            if v.len() < n && seen.insert(masked(ns, &k)) {
                v.push(k);
            }
        }
        v
    }
    pub fn keys(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &SMALL);
        cfg.hash_seed = *SEED;
        choose_mask(g, &[16, 16, 2, 3, 4, 0], &[0, 1, 2, 6], &[0, 1, 2, 4, 8, 32]);
        let nkeys = *g.pick(&[10, 3, 25, 60, 150]);
        let tight = g.chance(2, 3);
        let prefill = g.chance(1, 2);
        let maxval = (*g.pick(&[40usize, 8, 150])).min(cfg.max_shard_size as usize - 100);
        let mut p = Pools { keys: numbered("k", nkeys), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 };
        if g.chance(1, 4) {
            p.keys.push(vec![]);
            p.keys.push(b"k".to_vec());
            p.keys.push(b"k0\x01".to_vec());
        }
        // a shard that cannot be split further just grows
        if g.chance(3, 4) {
            size_for(&mut cfg, &p, 0, tight);
        }
        let n = g.range(20, if c.thorough { 400 } else { 200 });
        let (sv, pol) = g.sched(60);
        rt::start();
        rt::set_sched(sv, pol);
        let co = collisions(&p);
        label_n("pairs of keys equal in row and signature", co);
        let min_max = cfg.max_shard_size;
        let mut s = Sess::new(&c.dir, cfg, p);
        if prefill {
            s.quietly = true;
            for k in s.p.keys.clone() {
                s.k(K::Set(k.clone(), fill(k.len() as u64 + 7, maxval)));
            }
            s.quietly = false;
            trace!("every key set to a value of {maxval} bytes");
        }
        session(g, &mut s, n, &Mix { kv: 200, stats: 2, flush: 1, merge: 4, reopen: 3, check: 4, clear: 1, ..MIX0 }, 0, min_max);
        if co > 0 {
            nontrivial();
        }
    }
    pub fn mixed(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &SMALL);
        cfg.hash_seed = *SEED;
        let sb = choose_mask(g, &[16, 2, 4, 16, 0], &[0, 1, 2, 6], &[0, 1, 2, 4, 8]);
        let nl = *g.pick(&[1usize, 2, 3]);
        let ni = *g.pick(&[4usize, 8, 15]);
        let nq = *g.pick(&[1usize, 2, 3]);
        let maxval = (*g.pick(&[30usize, 8, 80])).min(cfg.max_shard_size as usize - 100);
        let p = Pools { keys: numbered("k", *g.pick(&[4usize, 0, 12])), lists: distinct(3, "L", nl), items: numbered("i", ni), queues: numbered("q", nq), bigs: numbered("q", 1), maxval, ctr: 0 };
        let p = Pools { bigs: vec![b"big".to_vec()], keys: if p.keys.is_empty() { vec![b"only".to_vec()] } else { p.keys.clone() }, ..p };
        let per = 60 + maxval;
        let extra = p.lists.len() * (p.items.len() * (per + 60) + 100) + p.queues.len() * 60 * per;
        let tight = g.chance(2, 3);
        let prefill = g.chance(1, 2);
        size_for(&mut cfg, &p, if sb == 16 { 400 } else { extra }, tight);
        let n = g.range(15, if c.thorough { 300 } else { 150 });
        let (sv, pol) = g.sched(60);
        rt::start();
        rt::set_sched(sv, pol);
        label_n("pairs of keys equal in row and signature", collisions(&p));
        let min_max = cfg.max_shard_size;
        let mut s = Sess::new(&c.dir, cfg, p);
        if prefill {
            s.quietly = true;
            for l in s.p.lists.clone() {
                for i in s.p.items.clone() {
                    s.k(K::LSet(l.clone(), i.clone(), fill(9, maxval)));
                }
            }
            s.quietly = false;
            trace!("every item set to a value of {maxval} bytes");
        }
        let nops = g.count(OP, n);
        let x = Mix { kv: 20, list: 100, queue: 70, big: 3, stats: 2, flush: 1, merge: 4, reopen: 3, check: 4, clear: 1 };
        for i in 0..nops {
            g.select(OP, i);
            match gen_step(g, &mut s, &x, 100) {
                Step::Op(op) => {
                    // queues stay small, so that their shard need not be split
                    if let K::QPushH(q, _) | K::QPushT(q, _) | K::QExtend(q, _) = &op.k {
                        if s.m.queues.get(q).map_or(0, |m| m.len()) > 40 {
                            s.k(K::QDiscard(q.clone()));
                        }
                    }
                    s.run(&op);
                }
                Step::Reopen(o) => {
                    let k = if o { Some(other_cfg(g, &s.cfg, min_max)) } else { None };
                    label("reopened");
                    s.reopen(k);
                    s.verify("after reopening");
                }
                Step::Check => s.verify("check"),
            }
        }
        s.verify("final contents");
        s.label_restructuring();
        s.close();
        s.open();
        s.verify("final contents, reopened");
        s.close();
        settle();
        nontrivial();
    }
    /// one row and few signatures: rows fill up and split
    pub fn rows(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &CfgGen { max: &[1_000_000], thr_div: &[50, 200, 2], expected: &[0, 0, 40_000], threads: 2 });
        cfg.hash_seed = *SEED;
        choose_mask(g, &[16, 2, 4], &[0, 1], &[2, 4, 3]);
        // 512 entries per row and selector value at most
        let n = g.range(450, 1300);
        let mut keys: Vec<B> = vec![];
        let mut cnt: BTreeMap<(u64, u64), usize> = BTreeMap::new();
        let mut i = 0;
        while keys.len() < n {
            let k = format!("{i:x}").into_bytes();
            let h = masked(1, &k);
            let e = cnt.entry((h >> 48, h >> 32 & 63)).or_default();
            if *e < 500 {
                *e += 1;
                keys.push(k);
            }
            i += 1;
            if i > 4000 {
                break;
            }
        }
        let p = Pools { keys, lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: 8, ctr: 0 };
        let all = p.keys.clone();
        let (sv, pol) = g.sched(40);
        rt::start();
        rt::set_sched(sv, pol);
        let mut s = Sess::new(&c.dir, cfg, p);
        s.quietly = true;
        for k in &all {
            s.k(K::Set(k.clone(), k.clone()));
        }
        s.verify("filled");
        s.quietly = false;
        let nops = g.count(OP, 60);
        for i in 0..nops {
            g.select(OP, i);
            let op = match g.weighted(&[40, 1]) {
                0 => gen_kv(g, &mut s.p, &s.m),
                _ => Op { k: K::Merge(490), alt: false },
            };
            s.run(&op);
        }
        s.verify("final contents");
        let (sp, _) = s.label_restructuring();
        s.close();
        s.open();
        s.verify("final contents, reopened");
        s.close();
        if sp > 0 {
            nontrivial();
        }
    }
    pub fn conc(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &CfgGen { max: &[300, 600, 1200], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 40_000], threads: 2 });
        cfg.hash_seed = *SEED;
        let sb = choose_mask(g, &[16, 3, 0, 16], &[0, 1], &[0, 1, 2]);
        let n = g.range(2, 3);
        let per = g.range(2, if c.thorough { 12 } else { 8 });
        let lists = g.chance(1, 3);
        let maxval = 30;
        let p = Pools {
            keys: numbered("k", *g.pick(&[3usize, 2, 5, 30])),
            lists: if lists { distinct(3, "L", 2) } else { vec![] },
            items: if lists { numbered("i", 3) } else { vec![] },
            queues: vec![],
            bigs: vec![],
            maxval,
            ctr: 0,
        };
        size_for(&mut cfg, &p, if lists && sb < 16 { 3 * 2 * 300 } else { 0 }, true);
        let trap = g.chance(1, 2);
        let fillops = *g.pick(&[0usize, 4, 12, 30]);
        let (sv, pol) = g.sched(60);
        rt::start();
        let mut s = Sess::new(&c.dir, cfg, p);
        for i in 0..fillops {
            g.select(EXTRA, 1000 + i);
            let op = if lists { gen_list(g, &mut s.p, &s.m) } else { gen_kv(g, &mut s.p, &s.m) };
            s.run(&op);
        }
        unsafe { rt::S.trap = trap };
        rt::set_sched(sv, pol);
        lin::concurrent(g, &mut s, n, per, if lists { lin::gen_c11 } else { lin::gen_c05 });
        lin::finish(g, s);
    }
}

#[cfg(not(feature = "collide"))]
mod real {
    use super::*;
    use crate::collide_keys::*;
    pub fn real(g: &mut G, c: &Ctx) {
        g.cfg();
        let mut cfg = gen_cfg(g, &SMALL);
        cfg.hash_seed = *SEED;
        let maxval = (*g.pick(&[40usize, 8, 150])).min(cfg.max_shard_size as usize - 100);
        let mut keys: Vec<B> = vec![];
        let add = |v: &mut Vec<B>, k: &str| v.push(k.as_bytes().to_vec());
        let kind = g.n(4);
        if kind != 1 {
            let n = g.range(2, ZERO_USER.len());
            let at = g.us(ZERO_USER.len());
            for i in 0..n {
                add(&mut keys, ZERO_USER[(at + i) % ZERO_USER.len()]);
            }
            add(&mut keys, FALLBACK);
            label("cases with keys whose signature is the reserved value");
        }
        if kind != 0 {
            let n = g.range(1, PAIRS54.len());
            for i in 0..n {
                add(&mut keys, PAIRS54[i].0);
                add(&mut keys, PAIRS54[i].1);
            }
            let n = g.us(PAIRS38.len());
            for i in 0..n {
                add(&mut keys, PAIRS38[i].0);
                add(&mut keys, PAIRS38[i].1);
            }
            label("cases with keys equal in shard, row and signature");
        }
        let extra = *g.pick(&[0usize, 10, 30]);
        keys.extend(numbered("k", extra));
        let with_ds = g.chance(1, 3);
        let s_ = |v: &[&str]| -> Vec<B> { v.iter().map(|k| k.as_bytes().to_vec()).collect() };
        let mut items = s_(ZERO_ITEM_L);
        items.extend(numbered("i", 2));
        let mut lists = vec![b"L".to_vec()];
        lists.extend(s_(ZERO_LIST));
        lists.extend(s_(ZERO_CHAIN_LIST));
        let mut queues = s_(ZERO_QUEUE);
        queues.extend(s_(ZERO_ELEM_QUEUE));
        let p = if with_ds { Pools { keys, lists, items, queues, bigs: vec![], maxval, ctr: 0 } } else { Pools { keys, lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 } };
        // the published hash really does coincide as claimed
        assert!(ZERO_USER.iter().all(|k| H::user(k.as_bytes()).sig() == 0));
        for (a, b) in PAIRS54 {
            let (a, b) = (H::user(a.as_bytes()), H::user(b.as_bytes()));
            assert!(a.0 & 0xffff_003f_ffff_ffff == b.0 & 0xffff_003f_ffff_ffff);
        }
        let n = g.range(20, if c.thorough { 400 } else { 200 });
        let (sv, pol) = g.sched(60);
        rt::start();
        rt::set_sched(sv, pol);
        let min_max = cfg.max_shard_size.max(600);
        let mut s = Sess::new(&c.dir, cfg, p);
        let x = Mix { kv: 200, list: if with_ds { 100 } else { 0 }, queue: if with_ds { 80 } else { 0 }, stats: 2, flush: 1, merge: 4, reopen: 3, check: 4, clear: 1, ..MIX0 };
        session(g, &mut s, n, &x, 0, min_max);
        nontrivial();
    }
}
#[cfg(feature = "collide")]
const PARTS: &[(&str, u64, u64, fn(&mut G, &Ctx))] = &[("keys", 3000, 100000, masked::keys), ("mixed", 3000, 100000, masked::mixed), ("rows", 60, 2000, masked::rows), ("concurrent", 2000, 60000, masked::conc)];
#[cfg(not(feature = "collide"))]
const PARTS: &[(&str, u64, u64, fn(&mut G, &Ctx))] = &[("real", 1500, 50000, real::real)];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        level: "exploration",
        rule: "a case counts when its keys contain collisions (in row and signature, or with the reserved signature) or it mixes lists and queues under masked hashes",
        assumptions: &["masking is done by the crate's own whitebox_testing hook; one part uses the unmodified hash with genuinely colliding keys"],
        parts: PARTS,
        expect: if cfg!(feature = "collide") { &["pairs of keys equal in row and signature", "splits", "compactions", "reopened"] } else { &[] },
    }]
}
