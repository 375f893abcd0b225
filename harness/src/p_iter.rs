//! C16: iteration and cookies.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt;
use std::collections::{BTreeMap, BTreeSet};

/// one step of an iterator, as a call of the store
fn step<I: Iterator<Item = anyhow::Result<(B, B)>>>(it: &mut I, what: &str) -> Option<(B, B)> {
    match rt::api(op_id(format!("{what}.next()")), || it.next()) {
        Ok(None) => None,
        Ok(Some(Ok(kv))) => Some(kv),
        Ok(Some(Err(e))) => bad!("error", "{what}: next() failed: {e:#}"),
        Err(p) => bad!("panic", "{what}: next() panicked: {p} ({})", last_panic()),
    }
}
/// keys that fill rows beyond their 256th column, plus others
fn wide_keys(g: &mut G) -> Vec<B> {
    let row = g.n(64) as u32;
    let n = *g.pick(&[280usize, 350, 500, 300]);
    let mut v = same_row(n, row, 0, row as u64);
    if g.chance(1, 3) {
        v.extend(same_row(260, (row + 1) % 64, 0, 77));
    }
    v.extend(numbered("k", g.us(30)));
    v
}
fn show(v: &[(B, B)]) -> String {
    v.iter().take(6).map(|(k, v)| format!("{}={}", short(k), short(v))).collect::<Vec<_>>().join(", ") + if v.len() > 6 { ", ..." } else { "" }
}
fn c16_cookies(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[1200, 600, 2500, 20000], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 40_000, 100_000, 200_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let wide = g.chance(1, 3);
    let mut keys = if wide { wide_keys(g) } else { numbered("k", *g.pick(&[10usize, 1, 3, 60, 150])) };
    if wide {
        cfg.max_shard_size = 1 << 20;
        cfg.min_compaction_threashold = *g.pick(&[1u32 << 18, 400, 2000]);
        label("rows wider than 256 entries");
    } else if g.chance(1, 3) {
        keys.extend([vec![], vec![1], b"k0\x01".to_vec(), vec![4], vec![7]]);
    }
    let p = Pools { keys, lists: numbered("L", 2), items: numbered("i", 4), queues: numbered("q", 2), bigs: vec![], maxval: 40, ctr: 0 };
    let n = g.range(0, if c.thorough { 200 } else { 120 });
    let fill_all = wide || g.chance(1, 2);
    let drop_pct = *g.pick(&[0u64, 10, 50, 90]);
    let (sv, pol) = g.sched(20);
    rt::start();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    if fill_all {
        g.select(EXTRA, 5);
        for k in s.p.keys.clone() {
            s.k(K::Set(k, b"first".to_vec()));
        }
        for k in s.p.keys.clone() {
            if g.n(100) < drop_pct {
                s.k(K::Remove(k));
            }
        }
        trace!("{} keys inserted, {} present", s.p.keys.len(), s.m.kv.len());
    }
    s.quietly = wide;
    for i in 0..g.count(OP, n) {
        g.select(OP, i);
        let op = match g.weighted(&[12, 2, 2]) {
            0 => gen_kv(g, &mut s.p, &s.m),
            1 => gen_list(g, &mut s.p, &s.m),
            _ => gen_queue(g, &mut s.p, &s.m),
        };
        s.run(&op);
    }
    s.label_restructuring();
    settle();
    g.select(EXTRA, 6);
    // a complete iteration, with the cookie before every item
    let mut cookies = vec![];
    let mut items: Vec<(B, B)> = vec![];
    let end;
    {
        let mut it = s.st().iter();
        loop {
            cookies.push(it.cookie());
            let Some(kv) = step(&mut it, "iter()") else { break };
            items.push(kv);
        }
        end = it.cookie();
        check!(step(&mut it, "iter()").is_none(), "iteration", "a finished iterator yields more items");
    }
    let mut sorted = items.clone();
    sorted.sort();
    let want: Vec<(B, B)> = s.m.kv.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    check!(sorted == want, "iteration", "iteration over {} keys: {}", want.len(), diff(&sorted, &want));
    let mut resumed = 0u64;
    for round in 0..2 {
        let all: Vec<usize> = if items.len() <= 40 { (0..=items.len()).collect() } else { (0..40).map(|_| g.us(items.len() + 1)).chain([items.len()]).collect() };
        for i in all {
            let it = s.st().iter_from_cookie(cookies[i]);
            let mut it = it;
            let mut got = vec![];
            let limit = if items.len() > 100 && g.chance(1, 2) { 40 } else { usize::MAX };
            while got.len() < limit {
                match step(&mut it, "iter_from_cookie()") {
                    Some(kv) => got.push(kv),
                    None => break,
                }
            }
            let w = &items[i..];
            let w = &w[..w.len().min(limit)];
            check!(
                got == w, "resume", "resuming from cookie {:#x}, taken after {i} of {} items: got {} items ({}), expected {} ({}); {}",
                cookies[i], items.len(), got.len(), show(&got), w.len(), show(w), diff(&got, w)
            );
            resumed += 1;
        }
        let x = step(&mut s.st().iter_from_cookie(end), "iter_from_cookie(end)");
        check!(x.is_none(), "resume", "resuming from the cookie {end:#x} of a finished iteration yields {}", show(&[x.unwrap()]));
        // piecewise
        let mut cookie = 0;
        let mut got = vec![];
        loop {
            let mut it = s.st().iter_from_cookie(cookie);
            let n = *g.pick(&[7usize, 1, 2, 40, 300]);
            let chunk = 1 + g.us(n);
            let mut fin = false;
            for _ in 0..chunk {
                match step(&mut it, "iter_from_cookie()") {
                    Some(kv) => got.push(kv),
                    None => {
                        fin = true;
                        break;
                    }
                }
            }
            cookie = it.cookie();
            resumed += 1;
            if fin || got.len() > items.len() + 5 {
                break;
            }
        }
        check!(got == items, "resume", "iterating piecewise yields {} items instead of {}: {}", got.len(), items.len(), diff(&got, &items));
        if round == 0 {
            rt::end_sched();
            s.reopen(None);
            settle();
        }
    }
    label_n("resumptions", resumed);
    s.close();
    if items.len() >= 2 {
        nontrivial();
    }
}
/// a store whose shards never split, with background compaction going on; which of its keys will be modified
fn setup(g: &mut G, c: &Ctx, sched: usize) -> (Sess, Vec<B>) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[1 << 20], thr_div: &[1000, 100, 10_000, 4, 20_000], expected: &[0, 0, 40_000, 100_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let wide = g.chance(1, 4);
    let keys = if wide {
        wide_keys(g)
    } else if g.chance(1, 2) {
        same_row(*g.pick(&[6usize, 3, 20]), 7, 0, 1)
    } else {
        numbered("k", *g.pick(&[10usize, 4, 40]))
    };
    let absent = numbered("a", 4);
    let p = Pools { keys, lists: numbered("L", 1), items: numbered("i", 3), queues: numbered("q", 1), bigs: vec![], maxval: 40, ctr: 0 };
    let (sv, pol) = g.sched(sched);
    rt::start();
    let mut s = Sess::new(&c.dir, cfg, p);
    s.quietly = true;
    g.select(EXTRA, 5);
    let churn = g.chance(1, 2);
    for k in s.p.keys.clone() {
        if churn {
            s.k(K::Set(k.clone(), b"before".to_vec()));
        }
        let v = s.p.val(g);
        s.k(K::Set(k, v));
    }
    for k in s.p.keys.clone() {
        if g.chance(1, 4) {
            s.k(K::Remove(k));
        }
    }
    for k in absent {
        s.k(K::Set(k.clone(), b"gone".to_vec()));
        s.k(K::Remove(k));
    }
    for _ in 0..g.us(6) {
        let op = gen_list(g, &mut s.p, &s.m);
        s.run(&op);
        let op = gen_queue(g, &mut s.p, &s.m);
        s.run(&op);
    }
    let every = *g.pick(&[3usize, 2, 1, 8]);
    let touched: Vec<B> = s.p.keys.iter().enumerate().filter(|(i, _)| i % every == every - 1).map(|x| x.1.clone()).collect();
    trace!("{} keys present, {} of {} keys will be modified", s.m.kv.len(), touched.len(), s.p.keys.len());
    rt::set_sched(sv, pol);
    if !touched.is_empty() {
        // the iteration may begin at any moment of a compaction
        let n = *g.pick(&[0usize, 6, 25, 1]);
        let mut p = s.p.clone();
        p.ctr = 900_000;
        for _ in 0..g.us(n + 1) {
            let op = modify(g, &mut p, &touched);
            s.run(&op);
        }
    }
    (s, touched)
}
/// a change of one of the keys
fn modify(g: &mut G, p: &mut Pools, touched: &[B]) -> Op {
    let k = touched[g.us(touched.len())].clone();
    let kind = match g.weighted(&[5, 4, 2, 2]) {
        0 => K::Set(k, p.val(g)),
        1 => K::Remove(k),
        2 => K::Goc(k, p.val(g)),
        _ => K::Replace(k, p.val(g), None),
    };
    Op { k: kind, alt: g.chance(1, 4) }
}
struct Seen {
    start: BTreeMap<B, B>,
    touched: BTreeSet<B>,
    got: Vec<(B, B)>,
}
impl Seen {
    /// `held`: may the (modified) key have had this value during the iteration so far?
    fn item(&mut self, kv: (B, B), held: impl Fn(&(B, B)) -> bool) {
        trace!("  next() -> {}={}", short(&kv.0), short(&kv.1));
        if self.touched.contains(&kv.0) {
            check!(held(&kv), "stale", "iteration yields {}={}, a value the key did not hold during the iteration", short(&kv.0), short(&kv.1));
        } else {
            check!(self.start.get(&kv.0) == Some(&kv.1), "phantom", "iteration yields {}={}, but the (untouched) key is {:?}", short(&kv.0), short(&kv.1), self.start.get(&kv.0).map(|v| short(v)));
            check!(!self.got.iter().any(|x| x.0 == kv.0), "duplicate", "iteration yields the untouched key {} twice", short(&kv.0));
        }
        self.got.push(kv);
    }
    fn end(&self) {
        for k in self.start.keys() {
            if !self.touched.contains(k) && !self.got.iter().any(|x| x.0 == *k) {
                bad!("missed", "iteration misses {}, which was present and untouched throughout", short(k));
            }
        }
    }
}
fn c16_modify(g: &mut G, c: &Ctx) {
    let (mut s, touched) = setup(g, c, 30);
    s.quietly = s.p.keys.len() > 100;
    let mut p = s.p.clone();
    p.ctr = 500_000;
    g.select(EXTRA, 7);
    let rate = *g.pick(&[3u64, 1, 6, 12]);
    let resume = *g.pick(&[4u64, 1, 30, 1000]);
    let mut seen = Seen { start: s.m.kv.clone(), touched: touched.iter().cloned().collect(), got: vec![] };
    let mut held: BTreeSet<(B, B)> = s.m.kv.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let st = s.arc();
    let mut it = st.iter();
    let mut fi = 0;
    let (mut mods, mut res) = (0u64, 0u64);
    loop {
        g.select(OP, fi);
        fi += 1;
        for _ in 0..g.n(rate + 1) {
            if touched.is_empty() {
                break;
            }
            let op = modify(g, &mut p, &touched);
            s.run(&op);
            mods += 1;
            for k in &touched {
                if let Some(v) = s.m.kv.get(k) {
                    held.insert((k.clone(), v.clone()));
                }
            }
        }
        if g.n(resume) == 0 {
            let ck = it.cookie();
            trace!("  resumed from cookie {ck:#x}");
            it = st.iter_from_cookie(ck);
            res += 1;
        }
        match step(&mut it, "iter()") {
            Some(kv) => seen.item(kv, |kv| held.contains(kv)),
            None => break,
        }
        check!(seen.got.len() < 20_000, "endless", "the iteration does not end");
    }
    drop(it);
    drop(st);
    seen.end();
    label_n("modifications during iterations", mods);
    label_n("resumptions", res);
    let (sp, co) = s.label_restructuring();
    check!(sp == 0, "harness", "a shard was split, which this test was meant to avoid");
    s.verify("final contents");
    s.close();
    if mods > 0 && !seen.got.is_empty() {
        nontrivial();
    }
    if co > 0 && mods > 0 {
        label("iterations of stores that get compacted");
    }
}

static mut WRITES: Vec<(B, Option<B>, u64, u64)> = Vec::new();
fn c16_threads(g: &mut G, c: &Ctx) {
    let (mut s, touched) = setup(g, c, 60);
    let n = 1 + g.us(2);
    let per = g.range(1, if c.thorough { 60 } else { 30 });
    let resume = *g.pick(&[1000u64, 4, 1]);
    let tot = g.count(OP, per * n);
    let st = s.arc();
    let gp = g as *mut G as usize;
    let start = s.m.kv.clone();
    let hs: Vec<_> = (0..n)
        .map(|ci| {
            let st = st.clone();
            let mut p = s.p.clone();
            p.ctr = (ci as u32 + 1) * 100_000;
            // one writer per key
            let mine: Vec<B> = touched.iter().enumerate().filter(|(i, _)| i % n == ci).map(|x| x.1.clone()).collect();
            let mut m = s.m.clone();
            std::thread::spawn(move || {
                for i in 0..(tot + n - 1 - ci) / n {
                    if mine.is_empty() {
                        break;
                    }
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + ci);
                    let op = modify(g, &mut p, &mine);
                    let call = crate::lin::tick();
                    let r = run_op(&st, &op);
                    let ret = crate::lin::tick();
                    trace!("[{ci}] {op} -> {r}");
                    if let Err(e) = m.apply(&op, &r) {
                        bad!(sig_of(&op, &r), "{op}: {e}");
                    }
                    let (K::Set(k, _) | K::Remove(k) | K::Goc(k, _) | K::Replace(k, ..)) = &op.k else { unreachable!() };
                    unsafe { WRITES.push((k.clone(), m.kv.get(k).cloned(), call, ret)) };
                }
                m
            })
        })
        .collect();
    let mut seen = Seen { start, touched: touched.iter().cloned().collect(), got: vec![] };
    let t0 = crate::lin::tick();
    let mut yields = vec![];
    {
        let mut it = st.iter();
        let mut k = 0;
        loop {
            g.select(EXTRA, 100 + k);
            k += 1;
            if g.n(resume) == 0 {
                it = st.iter_from_cookie(it.cookie());
            }
            let r = step(&mut it, "iter()");
            let t = crate::lin::tick();
            match r {
                Some(kv) => {
                    yields.push((kv.clone(), t));
                    seen.item(kv, |_| true);
                }
                None => break,
            }
            check!(seen.got.len() < 20_000, "endless", "the iteration does not end");
        }
    }
    let t1 = crate::lin::tick();
    let ms: Vec<Model> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    drop(st);
    rt::end_sched();
    let w = unsafe { &WRITES };
    for ((k, v), t) in &yields {
        if !seen.touched.contains(k) {
            continue;
        }
        // values the key may have had between the start of the iteration and this moment
        let mut ok = seen.start.get(k) == Some(v) && !w.iter().any(|x| x.0 == *k && x.3 < t0);
        for x in w.iter().filter(|x| x.0 == *k && x.1.as_ref() == Some(v) && x.2 < *t) {
            // not replaced before the iteration began
            if !w.iter().any(|y| y.0 == *k && y.2 > x.3 && y.3 < t0) {
                ok = true;
            }
        }
        check!(ok, "stale", "iteration yields {}={}, a value the key did not hold during the iteration", short(k), short(v));
    }
    seen.end();
    let over = w.iter().filter(|x| x.3 > t0 && x.2 < t1).count();
    label_n("modifications during iterations", over as u64);
    for (ci, m) in ms.iter().enumerate() {
        for (i, k) in touched.iter().enumerate() {
            if i % n == ci {
                match m.kv.get(k) {
                    Some(v) => s.m.kv.insert(k.clone(), v.clone()),
                    None => s.m.kv.remove(k),
                };
            }
        }
    }
    let (sp, co) = s.label_restructuring();
    check!(sp == 0, "harness", "a shard was split, which this test was meant to avoid");
    s.verify("final contents");
    s.close();
    if over > 0 {
        nontrivial();
        if co > 0 {
            label("iterations of stores that get compacted");
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        level: "exploration",
        rule: "a case counts when two or more items were iterated (resumption parts) or modifications happened during the iteration (the others)",
        assumptions: &["sequentially consistent memory (threads are interleaved at machine-instruction granularity, one at a time)"],
        parts: &[("cookies", 800, 30000, c16_cookies), ("modify", 900, 40000, c16_modify), ("threads", 2000, 60000, c16_threads)],
        expect: &["rows wider than 256 entries", "modifications during iterations", "resumptions", "iterations of stores that get compacted"],
    }]
}
