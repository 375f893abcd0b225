//! C08 and C10: crashes inside list and queue operations.
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_kv::*;
use crate::rt;
use crate::snap::*;

fn cfg(g: &mut G) -> candystore::Config {
    let mut cfg = gen_cfg(g, &CfgGen { max: &[20_000, 1200, 600, 2500, 300], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    cfg
}
/// `part` is `full` with some elements missing, in the same order
fn subsequence<T: PartialEq>(part: &[T], full: &[T]) -> bool {
    let mut i = 0;
    for x in full {
        if i < part.len() && part[i] == *x {
            i += 1;
        }
    }
    i == part.len()
}
fn partial(op: &Op, before: &Model, after: &Model, o: &Obs) -> bool {
    match &op.k {
        // a discard in flight may have removed some of the items
        K::LDiscard(l) => {
            let Some(lo) = o.lists.get(l) else { return false };
            let mut m = before.clone();
            let full = m.lists.get(l).cloned().unwrap_or_default();
            if !subsequence(&lo.fwd, &full) {
                return false;
            }
            m.lists.insert(l.clone(), lo.fwd.clone());
            o.matches(&m).is_ok()
        }
        K::QDiscard(q) => {
            let Some(qo) = o.queues.get(q) else { return false };
            let mut m = before.clone();
            let full: Vec<(u64, B)> = m.queues.get(q).map_or(vec![], |m| m.iter().map(|(a, b)| (*a, b.clone())).collect());
            if !subsequence(&qo.fwd, &full) {
                return false;
            }
            m.queues.insert(q.clone(), qo.fwd.iter().cloned().collect());
            o.matches(&m).is_ok()
        }
        // an extension in flight may have added some of its elements, in order
        K::QExtend(q, _) => {
            let Some(qo) = o.queues.get(q) else { return false };
            let mut m = before.clone();
            let full: Vec<(u64, B)> = after.queues.get(q).map_or(vec![], |m| m.iter().map(|(a, b)| (*a, b.clone())).collect());
            let old = m.queues.get(q).cloned().unwrap_or_default();
            if !subsequence(&qo.fwd, &full) || old.iter().any(|(i, v)| !qo.fwd.iter().any(|x| x.0 == *i && x.1 == *v)) {
                return false;
            }
            m.queues.insert(q.clone(), qo.fwd.iter().cloned().collect());
            o.matches(&m).is_ok()
        }
        _ => false,
    }
}
fn gen_l(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    if g.chance(1, 12) {
        return gen_kv(g, p, m);
    }
    let mut op = gen_list(g, p, m);
    // documented as not safe when crashing
    match op.k {
        K::LPromote(l, i, v) => op.k = K::LSet(l, i, v),
        K::LCompact(l, ..) => op.k = K::LPopH(l),
        _ => {}
    }
    op
}
fn gen_l_after(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    gen_list(g, p, m)
}
fn c08(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = cfg(g);
    let n = *g.pick(&[1usize, 1, 1, 2]);
    let nl = *g.pick(&[1usize, 1, 2]);
    let ni = *g.pick(&[3usize, 6, 2, 12]);
    let maxval = 60.min(cfg.max_shard_size as usize - 120);
    let pools: Vec<Pools> = (0..n)
        .map(|i| Pools { keys: numbered(&format!("k{i}."), 3), lists: numbered(&format!("L{i}."), nl), items: numbered("i", ni), queues: vec![], bigs: vec![], maxval, ctr: i as u32 * 100_000 })
        .collect();
    let per = g.range(4, if c.thorough { 60 } else { 30 }) / n + 1;
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case2(g, c, cfg, pools, per, gen_l, gen_l_after, partial, false, 24, None);
}
fn gen_q(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    if g.chance(1, 12) {
        return gen_kv(g, p, m);
    }
    gen_queue(g, p, m)
}
fn c10(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = cfg(g);
    let n = *g.pick(&[1usize, 1, 1, 2]);
    let nq = *g.pick(&[1usize, 1, 2]);
    let maxval = 60.min(cfg.max_shard_size as usize - 120);
    let pools: Vec<Pools> = (0..n)
        .map(|i| Pools { keys: numbered(&format!("k{i}."), 3), lists: vec![], items: vec![], queues: numbered(&format!("q{i}."), nq), bigs: vec![], maxval, ctr: i as u32 * 100_000 })
        .collect();
    let per = g.range(4, if c.thorough { 60 } else { 30 }) / n + 1;
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
    crash_case2(g, c, cfg, pools, per, gen_q, gen_q, partial, false, 24, None);
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            level: "fault_enumeration",
            rule: "a case counts when more than three crash images were taken and recovered",
            assumptions: &["a process crash leaves every completed system call and every completed store to a shared mapping in effect (page cache survives)"],
            parts: &[("crash", 1300, 30000, c08)],
            expect: &["crash before a header store", "crash during a split", "crash during compaction", "crashes during recovery", "recovered stores used further"],
        },
        Prop {
            id: "C10",
            level: "fault_enumeration",
            rule: "a case counts when more than three crash images were taken and recovered",
            assumptions: &["a process crash leaves every completed system call and every completed store to a shared mapping in effect (page cache survives)"],
            parts: &[("crash", 1300, 30000, c10)],
            expect: &["crash before a header store", "crash during a split", "crash during compaction", "crashes during recovery", "recovered stores used further"],
        },
    ]
}
