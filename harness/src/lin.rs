//! C05, C11, C12: linearizability of concurrent histories (search for one sequential order, Wing & Gong).
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Ev {
    pub c: usize,
    pub op: Op,
    pub res: Res,
    pub call: u64,
    pub ret: u64,
    /// any result is fine (first half of a promoting set)
    pub any: bool,
    /// index of an event that must come before this one
    pub after: Option<usize>,
}
pub static mut HIST: Vec<Ev> = Vec::new();
static mut BEFORE: (usize, usize) = (0, 0);
pub static mut CLOCK: u64 = 0;
pub fn tick() -> u64 {
    unsafe {
        CLOCK += 1;
        CLOCK
    }
}
fn is_err(r: &Res) -> bool {
    matches!(r, Res::Err(_) | Res::Panic(_))
}
/// perform and record
pub fn rec(st: &candystore::CandyStore, c: usize, op: &Op) -> Res {
    let call = tick();
    let r = run_op(st, op);
    let ret = tick();
    trace!("[{c}] {call}..{ret} {op} -> {r}");
    if matches!((&op.k, &r), (K::Merge(_), Res::Bool(true))) {
        label("merges during the concurrent phase");
    }
    if is_err(&r) {
        bad!(if matches!(r, Res::Panic(_)) { "panic" } else { "error" }, "client {c}: {op} -> {r}");
    }
    unsafe { HIST.push(Ev { c, op: op.clone(), res: r.clone(), call, ret, any: false, after: None }) };
    r
}
/// which object an operation concerns; None: all of them
fn object(op: &Op) -> Option<(u8, B)> {
    match &op.k {
        K::Get(k) | K::Contains(k) | K::Set(k, _) | K::Replace(k, ..) | K::Goc(k, _) | K::Remove(k) => Some((0, k.clone())),
        K::LSet(l, ..) | K::LPromote(l, ..) | K::LReplace(l, ..) | K::LGoc(l, ..) | K::LGet(l, _) | K::LRemove(l, _) => Some((1, l.clone())),
        K::LDiscard(l) | K::LPopH(l) | K::LPopT(l) | K::LPeekH(l) | K::LPeekT(l) | K::LIter(l) | K::LIterB(l) | K::LLen(l) | K::LCompact(l, ..) => Some((1, l.clone())),
        K::QPushH(q, _) | K::QPushT(q, _) | K::QPopH(q) | K::QPopT(q) | K::QPeekH(q) | K::QPeekT(q) | K::QExtend(q, _) => Some((2, q.clone())),
        K::QRemove(q, _) | K::QDiscard(q) | K::QIter(q) | K::QIterB(q) | K::QLen(q) | K::QRange(q) => Some((2, q.clone())),
        K::BSet(b, _) | K::BGet(b) | K::BRemove(b) => Some((3, b.clone())),
        _ => None,
    }
}
struct Search<'a> {
    ev: &'a [Ev],
    seen: HashSet<(u128, u64)>,
    nodes: u64,
    best: (u32, Vec<String>),
}
impl Search<'_> {
    fn go(&mut self, done: u128, m: &Model) -> Option<bool> {
        let n = self.ev.len();
        if done.count_ones() as usize == n {
            return Some(true);
        }
        self.nodes += 1;
        if self.nodes > 3_000_000 {
            return None;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        m.hash(&mut h);
        if !self.seen.insert((done, h.finish())) {
            return Some(false);
        }
        let minret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| self.ev[i].ret).min().unwrap();
        let mut errs = vec![];
        for i in 0..n {
            if done >> i & 1 != 0 || self.ev[i].call > minret {
                continue;
            }
            if let Some(a) = self.ev[i].after {
                if done >> a & 1 == 0 {
                    continue;
                }
            }
            let mut m2 = m.clone();
            let e = &self.ev[i];
            let r = if e.any {
                if let K::LRemove(l, k) = &e.op.k {
                    if let Some(v) = m2.lists.get_mut(l) {
                        v.retain(|x| x.0 != *k);
                    }
                }
                Ok(())
            } else {
                m2.apply(&e.op, &e.res)
            };
            match r {
                Ok(()) => match self.go(done | 1 << i, &m2) {
                    Some(true) => return Some(true),
                    Some(false) => {}
                    None => return None,
                },
                Err(x) => errs.push(format!("[{}] {}: {x}", e.c, e.op)),
            }
        }
        if done.count_ones() >= self.best.0 {
            self.best = (done.count_ones(), errs);
        }
        Some(false)
    }
}
/// decide whether the recorded history is explained by some sequential order starting from `init`
pub fn linearizable(hist: &[Ev], init: &Model) {
    // a promoting set is a removal followed by an insertion
    let mut ev: Vec<Ev> = vec![];
    for e in hist {
        if let K::LPromote(l, k, v) = &e.op.k {
            ev.push(Ev { op: Op { k: K::LRemove(l.clone(), k.clone()), alt: false }, any: true, ..e.clone() });
            let a = ev.len() - 1;
            ev.push(Ev { op: Op { k: K::LSet(l.clone(), k.clone(), v.clone()), alt: false }, after: Some(a), ..e.clone() });
        } else {
            ev.push(e.clone());
        }
    }
    // operations on different objects are independent unless something concerns all of them
    let global = ev.iter().any(|e| matches!(e.op.k, K::Clear));
    let relevant: Vec<Ev> = ev.into_iter().filter(|e| object(&e.op).is_some() || matches!(e.op.k, K::Clear)).collect();
    let mut groups: Vec<Vec<Ev>> = vec![];
    if global {
        groups.push(relevant);
    } else {
        let objs: BTreeSet<_> = relevant.iter().map(|e| object(&e.op).unwrap()).collect();
        for o in objs {
            let mut idx = vec![usize::MAX; relevant.len()];
            let mut v: Vec<Ev> = vec![];
            for (i, e) in relevant.iter().enumerate() {
                if object(&e.op).unwrap() == o {
                    idx[i] = v.len();
                    v.push(e.clone());
                }
            }
            // `after` refers to the immediately preceding event
            for i in 0..v.len() {
                if v[i].after.is_some() {
                    v[i].after = Some(i - 1);
                }
            }
            groups.push(v);
        }
    }
    if global {
        for i in 0..groups[0].len() {
            if groups[0][i].after.is_some() {
                groups[0][i].after = Some(i - 1);
            }
        }
    }
    for v in groups {
        if v.len() > 120 {
            label("histories too long to decide");
            continue;
        }
        let mut s = Search { ev: &v, seen: HashSet::new(), nodes: 0, best: (0, vec![]) };
        // objects other than this group's are irrelevant; the model starts from their initial state
        match s.go(0, init) {
            Some(true) => {}
            Some(false) => {
                let mut d = String::new();
                for e in &v {
                    d.push_str(&format!("\n  [{}] {}..{} {} -> {}", e.c, e.call, e.ret, e.op, e.res));
                }
                bad!("not-linearizable", "no sequential order explains these concurrent operations:{d}\n  (at best {} of them, then: {})", s.best.0, s.best.1.join("; "));
            }
            None => label("histories too complex to decide"),
        }
    }
}

/// run `n` clients concurrently over one store; each gets its operations from `gen`
pub fn concurrent(g: &mut G, s: &mut Sess, n: usize, per: usize, gen: fn(&mut G, usize, &mut Pools, &Model) -> Op) {
    let gp = g as *mut G as usize;
    let tot = g.count(OP, per * n);
    let model = s.m.clone();
    let hs: Vec<_> = (0..n)
        .map(|ci| {
            let st = s.arc();
            let mut p = s.p.clone();
            p.ctr = (ci as u32 + 1) * 100_000;
            let m = model.clone();
            std::thread::spawn(move || {
                for i in 0..(tot + n - 1 - ci) / n {
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + ci);
                    let op = gen(g, ci, &mut p, &m);
                    rec(&st, ci, &op);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    label_n("concurrent operations", tot as u64);
}
fn overlaps(h: &[Ev]) -> usize {
    let mut n = 0;
    for i in 0..h.len() {
        for j in 0..i {
            if h[i].c != h[j].c && h[i].call < h[j].ret && h[j].call < h[i].ret {
                n += 1;
            }
        }
    }
    n
}
fn prefill(g: &mut G, s: &mut Sess, n: usize, gen: fn(&mut G, &mut Pools, &Model) -> Op) {
    // before the preemptions start, single client
    s.p.ctr = 50_000;
    g.select(EXTRA, 900);
    let mode = g.weighted(&[4, 4, 3, 1]);
    let slack = g.us(160);
    let keep = g.us(8);
    let max = s.cfg.max_shard_size as usize;
    s.quietly = true;
    if mode == 1 && max <= 2500 {
        // fill the (first) shard so that the clients will split it
        let mut used = 0;
        let mut i = 0;
        while used + 40 + slack < max {
            let k = format!("f{i}").into_bytes();
            used += k.len() + 1 + 20;
            s.k(K::Set(k, vec![b'x'; 20]));
            i += 1;
        }
        trace!("{i} keys inserted to fill the shard");
        label("prefilled to just below a split");
    } else if mode >= 2 && max <= 1200 {
        // split several times and remove most, so that merging has something to do
        let tot = (if mode == 3 { 5 } else { 3 }) * max / 30;
        for i in 0..tot {
            s.k(K::Set(format!("f{i}").into_bytes(), vec![b'x'; 20]));
        }
        for i in keep..tot {
            s.k(K::Remove(format!("f{i}").into_bytes()));
        }
        trace!("{tot} keys inserted, {} removed", tot - keep.min(tot));
        label("prefilled by splitting");
    }
    s.quietly = false;
    for i in 0..n {
        g.select(EXTRA, 1000 + i);
        let op = gen(g, &mut s.p, &s.m);
        s.run(&op);
    }
}
pub fn finish(g: &mut G, s: Sess) {
    let _ = g;
    let mut s = s;
    let hist = unsafe { std::mem::take(&mut HIST) };
    let ov = overlaps(&hist);
    label_n("overlapping pairs", ov as u64);
    if candy_panics() > 0 {
        bad!("panic", "a thread panicked: {}", last_panic());
    }
    // final observations are part of the history
    let lists: Vec<(B, Vec<B>)> = s.p.lists.iter().map(|l| (l.clone(), s.p.items.clone())).collect();
    for k in s.m.kv.keys() {
        if !s.p.keys.contains(k) {
            s.p.keys.push(k.clone());
        }
    }
    let obs = Model::default().observers(&s.p.keys, &lists, &s.p.queues, &s.p.bigs);
    let mut fin = vec![];
    for op in &obs {
        let r = run_op(s.st(), op);
        if is_err(&r) {
            bad!("error", "after the concurrent phase: {op} -> {r}");
        }
        fin.push((op.clone(), r));
    }
    let mut all = hist.clone();
    for (op, r) in &fin {
        if matches!(op.k, K::Iter) {
            continue;
        }
        trace!("finally {op} -> {r}");
        let t = tick();
        all.push(Ev { c: 99, op: op.clone(), res: r.clone(), call: t, ret: tick(), any: false, after: None });
    }
    linearizable(&all, &s.m);
    // plain iteration agrees with lookups, and everything survives reopening
    let mut m = Model::default();
    for (op, r) in &fin {
        match (&op.k, r) {
            (K::Get(k), Res::Opt(Some(v))) => {
                m.kv.insert(k.clone(), v.clone());
            }
            (K::LIter(l), Res::Kvs(v)) => {
                m.lists.insert(l.clone(), v.clone());
            }
            (K::QIter(q), Res::Ivs(v)) => {
                m.queues.insert(q.clone(), v.iter().cloned().collect());
            }
            (K::BGet(b), Res::Opt(Some(v))) => {
                m.bigs.insert(b.clone(), v.clone());
            }
            _ => {}
        }
    }
    s.m = m;
    s.verify("final contents");
    let (sp, co) = s.label_restructuring();
    let (sp, co) = (sp - unsafe { BEFORE.0 }, co - unsafe { BEFORE.1 });
    if sp > 0 {
        label("splits during the concurrent phase");
    }
    if co > 0 {
        label("compactions during the concurrent phase");
    }
    s.close();
    rt::end_sched();
    s.open();
    s.verify("final contents, reopened");
    s.close();
    if ov > 0 {
        nontrivial();
    }
    if ov > 0 && sp + co > 0 {
        label("overlapping and restructuring");
    }
}

// ---------------------------------------------------------------- C05
pub fn gen_c05(g: &mut G, ci: usize, p: &mut Pools, m: &Model) -> Op {
    let w = g.weighted(&[60, 1, 1, 2, 2]);
    let _ = ci;
    match w {
        1 => Op { k: K::Flush, alt: false },
        2 => Op { k: K::Stats, alt: false },
        3 => Op { k: K::Merge(490), alt: false },
        4 => Op { k: K::Iter, alt: false },
        _ => loop {
            let mut op = gen_kv(g, p, m);
            if matches!(op.k, K::Iter) {
                continue;
            }
            // expected values: those of the common counters
            if let K::Replace(_, _, Some(e)) = &mut op.k {
                *e = match g.n(4) {
                    0 => b"same".to_vec(),
                    1 => vec![],
                    n => format!("c{n}").into_bytes(),
                };
            }
            if let K::Replace(_, v, _) | K::Set(_, v) | K::Goc(_, v) = &mut op.k {
                if g.chance(1, 3) {
                    *v = format!("c{}", g.n(4)).into_bytes();
                }
            }
            break op;
        },
    }
}
fn gen_c05_clear(g: &mut G, ci: usize, p: &mut Pools, m: &Model) -> Op {
    if g.chance(1, 10) {
        return Op { k: K::Clear, alt: false };
    }
    gen_c05(g, ci, p, m)
}
fn setup_c05(g: &mut G, c: &Ctx, max: &'static [u32]) -> (Sess, usize, usize) {
    setup_c05_with(g, c, max, |_, _| ())
}
pub fn setup_c05_with(g: &mut G, c: &Ctx, max: &'static [u32], tune: fn(&mut G, &mut candystore::Config)) -> (Sess, usize, usize) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max, thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000, 100_000], threads: 2 });
    cfg.hash_seed = *SEED;
    tune(g, &mut cfg);
    let n = g.range(2, 4);
    let per = g.range(2, if c.thorough { 20 } else { 14 });
    let nk = *g.pick(&[2usize, 1, 3, 5]);
    let mut keys = if g.chance(1, 2) { same_row(nk, 3, 0, 1) } else { numbered("k", nk) };
    // more keys, only to fill shards
    if g.chance(1, 2) {
        keys.extend(numbered("f", 30));
    }
    let maxval = (*g.pick(&[60usize, 8, 150])).min(cfg.max_shard_size as usize - 70);
    let p = Pools { keys, lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 };
    let fillops = *g.pick(&[0usize, 5, 12, 25]);
    let trap = g.chance(1, 2);
    let (sv, pol) = g.sched(60);
    rt::start();
    let mut s = Sess::new(&c.dir, cfg, p);
    prefill(g, &mut s, fillops, gen_kv);
    let t = s.stats();
    unsafe { BEFORE = (t.num_splits, t.num_compactions) };
    unsafe { rt::S.trap = trap };
    rt::set_sched(sv, pol);
    (s, n, per)
}
fn c05_kv(g: &mut G, c: &Ctx) {
    let (mut s, n, per) = setup_c05(g, c, &[300, 600, 1200, 2500]);
    concurrent(g, &mut s, n, per, gen_c05);
    finish(g, s);
}
fn c05_clear(g: &mut G, c: &Ctx) {
    let (mut s, n, per) = setup_c05(g, c, &[300, 600, 1200]);
    concurrent(g, &mut s, n, per.min(6), gen_c05_clear);
    finish(g, s);
}

// ---------------------------------------------------------------- C11, C12
fn setup_ds(g: &mut G, c: &Ctx, lists: bool) -> (Sess, usize, usize) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[20_000, 600, 1200, 300, 2500], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let n = g.range(2, 3);
    let per = g.range(2, if c.thorough { 12 } else { 8 });
    let maxval = 30;
    let no = *g.pick(&[1usize, 1, 2, 3]);
    let ni = *g.pick(&[2usize, 3, 5]);
    let p = Pools {
        keys: numbered("k", 2),
        lists: if lists { numbered("L", no) } else { vec![] },
        items: if lists { numbered("i", ni) } else { vec![] },
        queues: if lists { vec![] } else { numbered("q", no) },
        bigs: vec![],
        maxval,
        ctr: 0,
    };
    let fillops = *g.pick(&[0usize, 4, 10]);
    let trap = g.chance(1, 2);
    let (sv, pol) = g.sched(60);
    rt::start();
    let mut s = Sess::new(&c.dir, cfg, p);
    prefill(g, &mut s, fillops, if lists { gen_list } else { gen_queue });
    let t = s.stats();
    unsafe { BEFORE = (t.num_splits, t.num_compactions) };
    unsafe { rt::S.trap = trap };
    rt::set_sched(sv, pol);
    (s, n, per)
}
pub fn gen_c11(g: &mut G, _ci: usize, p: &mut Pools, m: &Model) -> Op {
    if g.chance(1, 20) {
        return match g.n(3) {
            0 => Op { k: K::Set(p.keys[0].clone(), p.val(g)), alt: false },
            1 => Op { k: K::Merge(490), alt: false },
            _ => Op { k: K::Stats, alt: false },
        };
    }
    let li = g.us(p.lists.len());
    let l = p.lists[li].clone();
    let ii = g.us(p.items.len());
    let i = p.items[ii].clone();
    let alt = g.chance(1, 4);
    let _ = m;
    let val = |g: &mut G, p: &mut Pools| if g.chance(1, 3) { format!("c{}", g.n(3)).into_bytes() } else { p.val(g) };
    let k = match g.weighted(&[20, 6, 10, 8, 4, 14, 1, 12, 12, 3]) {
        0 => K::LSet(l, i, val(g, p)),
        1 => K::LPromote(l, i, val(g, p)),
        2 => {
            let e = match g.n(3) {
                0 => None,
                n => Some(format!("c{}", n - 1).into_bytes()),
            };
            K::LReplace(l, i, val(g, p), e)
        }
        3 => K::LGoc(l, i, val(g, p)),
        4 => K::LGet(l, i),
        5 => K::LRemove(l, i),
        6 => K::LDiscard(l),
        7 => K::LPopH(l),
        8 => K::LPopT(l),
        _ => K::LCompact(l, g.n(4), 0),
    };
    Op { k, alt }
}
fn gen_c12(g: &mut G, _ci: usize, p: &mut Pools, m: &Model) -> Op {
    if g.chance(1, 20) {
        return match g.n(3) {
            0 => Op { k: K::Set(p.keys[0].clone(), p.val(g)), alt: false },
            1 => Op { k: K::Merge(490), alt: false },
            _ => Op { k: K::Stats, alt: false },
        };
    }
    let qi = g.us(p.queues.len());
    let q = p.queues[qi].clone();
    let alt = g.chance(1, 4);
    let _ = m;
    let k = match g.weighted(&[14, 14, 12, 12, 8, 10, 2]) {
        0 => K::QPushH(q, p.val(g)),
        1 => K::QPushT(q, p.val(g)),
        2 => K::QPopH(q),
        3 => K::QPopT(q),
        4 => {
            let n = g.us(4);
            let v = (0..n).map(|_| p.val(g)).collect();
            K::QExtend(q, v)
        }
        5 => K::QRemove(q, (1u64 << 63).wrapping_add(g.n(9)).wrapping_sub(4)),
        _ => K::QDiscard(q),
    };
    Op { k, alt }
}
fn c11(g: &mut G, c: &Ctx) {
    let (mut s, n, per) = setup_ds(g, c, true);
    concurrent(g, &mut s, n, per, gen_c11);
    finish(g, s);
}
fn c12(g: &mut G, c: &Ctx) {
    let (mut s, n, per) = setup_ds(g, c, false);
    concurrent(g, &mut s, n, per, gen_c12);
    finish(g, s);
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            level: "exploration",
            rule: "a case counts when operations of different clients overlapped",
            assumptions: &["sequentially consistent memory (threads are interleaved at machine-instruction granularity, one at a time)"],
            parts: &[("kv", 8000, 200000, c05_kv), ("clear", 1800, 30000, c05_clear)],
            expect: &["overlapping and restructuring", "splits during the concurrent phase", "compactions during the concurrent phase", "merges during the concurrent phase"],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "a case counts when operations of different clients overlapped",
            assumptions: &["sequentially consistent memory (threads are interleaved at machine-instruction granularity, one at a time)"],
            parts: &[("lists", 10000, 200000, c11)],
            expect: &["overlapping and restructuring", "splits during the concurrent phase", "compactions during the concurrent phase", "merges during the concurrent phase"],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "a case counts when operations of different clients overlapped",
            assumptions: &["sequentially consistent memory (threads are interleaved at machine-instruction granularity, one at a time)"],
            parts: &[("queues", 10000, 200000, c12)],
            expect: &["overlapping and restructuring", "splits during the concurrent phase", "compactions during the concurrent phase", "merges during the concurrent phase"],
        },
    ]
}
