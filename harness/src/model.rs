//! Operations over the public API, their results, and the reference model.
use crate::engine::G;
use candystore::{CandyError, CandyStore, Config, GetOrCreateStatus, ListCompactionParams, ReplaceStatus, SetStatus};
use std::collections::BTreeMap;

pub type B = Vec<u8>;
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Get(B),
    Contains(B),
    Set(B, B),
    Replace(B, B, Option<B>),
    Goc(B, B),
    Remove(B),
    Iter,
    Clear,
    LSet(B, B, B),
    LPromote(B, B, B),
    LReplace(B, B, B, Option<B>),
    LGoc(B, B, B),
    LGet(B, B),
    LRemove(B, B),
    LDiscard(B),
    LPopH(B),
    LPopT(B),
    LPeekH(B),
    LPeekT(B),
    LIter(B),
    LIterB(B),
    LLen(B),
    LCompact(B, u64, u64), // min_length, holes ratio in percent
    QPushH(B, B),
    QPushT(B, B),
    QPopH(B),
    QPopT(B),
    QPeekH(B),
    QPeekT(B),
    QExtend(B, Vec<B>),
    QRemove(B, u64),
    QDiscard(B),
    QIter(B),
    QIterB(B),
    QLen(B),
    QRange(B),
    BSet(B, B),
    BGet(B),
    BRemove(B),
    Flush,
    Stats,
    Merge(u32), // thousandths
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub alt: bool, // use the owned_/without-index variant of the call
}
#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    KeyTooLong,
    ValueTooLong,
    EntryCannotFit,
    Other(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Bool(bool),
    Opt(Option<B>),
    Created(B), // get_or_create CreatedNew / set CreatedNew (empty)
    Existing(B),
    Wrong(B),
    Missing,
    Kv(Option<(B, B)>),
    Iv(Option<(u64, B)>),
    Kvs(Vec<(B, B)>),
    Ivs(Vec<(u64, B)>),
    Num(u64),
    Range(u64, u64),
    Err(Er),
    Panic(String),
}
impl Res {
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_) | Res::Panic(_))
    }
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 40 {
        let s: String = b.iter().map(|&c| if (33..127).contains(&c) && c != b'\\' { (c as char).to_string() } else { format!("\\x{:02x}", c) }).collect();
        if s.is_empty() {
            "''".into()
        } else {
            s
        }
    } else {
        let h = b.iter().fold(0xcbf29ce484222325u64, |h, &c| (h ^ c as u64).wrapping_mul(0x100000001b3));
        let p: String = b[..10].iter().map(|&c| if (33..127).contains(&c) { c as char } else { '.' }).collect();
        format!("<{}..{} bytes,{:08x}>", p, b.len(), h as u32)
    }
}
fn so(b: &Option<B>) -> String {
    b.as_ref().map_or("None".into(), |b| format!("Some({})", short(b)))
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = |b: &B| short(b);
        match &self.k {
            K::Get(k) => write!(f, "get {}", s(k)),
            K::Contains(k) => write!(f, "contains {}", s(k)),
            K::Set(k, v) => write!(f, "set {} = {}", s(k), s(v)),
            K::Replace(k, v, e) => write!(f, "replace {} = {} expecting {}", s(k), s(v), so(e)),
            K::Goc(k, v) => write!(f, "get_or_create {} default {}", s(k), s(v)),
            K::Remove(k) => write!(f, "remove {}", s(k)),
            K::LSet(l, k, v) => write!(f, "set_in_list {}/{} = {}", s(l), s(k), s(v)),
            K::LPromote(l, k, v) => write!(f, "set_in_list_promoting {}/{} = {}", s(l), s(k), s(v)),
            K::LReplace(l, k, v, e) => write!(f, "replace_in_list {}/{} = {} expecting {}", s(l), s(k), s(v), so(e)),
            K::LGoc(l, k, v) => write!(f, "get_or_create_in_list {}/{} default {}", s(l), s(k), s(v)),
            K::LGet(l, k) => write!(f, "get_from_list {}/{}", s(l), s(k)),
            K::LRemove(l, k) => write!(f, "remove_from_list {}/{}", s(l), s(k)),
            K::LDiscard(l) => write!(f, "discard_list {}", s(l)),
            K::LPopH(l) => write!(f, "pop_list_head {}", s(l)),
            K::LPopT(l) => write!(f, "pop_list_tail {}", s(l)),
            K::LPeekH(l) => write!(f, "peek_list_head {}", s(l)),
            K::LPeekT(l) => write!(f, "peek_list_tail {}", s(l)),
            K::LIter(l) => write!(f, "iter_list {}", s(l)),
            K::LIterB(l) => write!(f, "iter_list_backwards {}", s(l)),
            K::LLen(l) => write!(f, "list_len {}", s(l)),
            K::LCompact(l, m, h) => write!(f, "compact_list_if_needed {} min_length={} holes={}%", s(l), m, h),
            K::QPushH(q, v) => write!(f, "push_to_queue_head {} {}", s(q), s(v)),
            K::QPushT(q, v) => write!(f, "push_to_queue_tail {} {}", s(q), s(v)),
            K::QPopH(q) => write!(f, "pop_queue_head {}", s(q)),
            K::QPopT(q) => write!(f, "pop_queue_tail {}", s(q)),
            K::QPeekH(q) => write!(f, "peek_queue_head {}", s(q)),
            K::QPeekT(q) => write!(f, "peek_queue_tail {}", s(q)),
            K::QExtend(q, v) => write!(f, "extend_queue {} [{}]", s(q), v.iter().map(|v| short(v)).collect::<Vec<_>>().join(", ")),
            K::QRemove(q, i) => write!(f, "remove_from_queue {} idx {}", s(q), qi(*i)),
            K::QDiscard(q) => write!(f, "discard_queue {}", s(q)),
            K::QIter(q) => write!(f, "iter_queue {}", s(q)),
            K::QIterB(q) => write!(f, "iter_queue_backwards {}", s(q)),
            K::QLen(q) => write!(f, "queue_len {}", s(q)),
            K::QRange(q) => write!(f, "queue_range {}", s(q)),
            K::BSet(k, v) => write!(f, "set_big {} = {}", s(k), s(v)),
            K::BGet(k) => write!(f, "get_big {}", s(k)),
            K::BRemove(k) => write!(f, "remove_big {}", s(k)),
            k => write!(f, "{}", format!("{k:?}").to_lowercase()),
        }
    }
}
pub fn qi(i: u64) -> String {
    let d = i.wrapping_sub(1 << 63) as i64;
    format!("B{d:+}")
}
impl std::fmt::Display for Res {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Res::Unit => write!(f, "ok"),
            Res::Bool(b) => write!(f, "{b}"),
            Res::Opt(o) => write!(f, "{}", so(o)),
            Res::Created(b) => write!(f, "created({})", short(b)),
            Res::Existing(b) => write!(f, "previous/existing({})", short(b)),
            Res::Wrong(b) => write!(f, "wrong-value({})", short(b)),
            Res::Missing => write!(f, "does-not-exist"),
            Res::Kv(o) => write!(f, "{:?}", o.as_ref().map(|(k, v)| format!("{}={}", short(k), short(v)))),
            Res::Iv(o) => write!(f, "{:?}", o.as_ref().map(|(k, v)| format!("{}:{}", qi(*k), short(v)))),
            Res::Kvs(v) => write!(f, "[{}]", v.iter().map(|(k, v)| format!("{}={}", short(k), short(v))).collect::<Vec<_>>().join(", ")),
            Res::Ivs(v) => write!(f, "[{}]", v.iter().map(|(k, v)| format!("{}:{}", qi(*k), short(v))).collect::<Vec<_>>().join(", ")),
            Res::Num(n) => write!(f, "{n}"),
            Res::Range(a, b) => write!(f, "{}..{}", qi(*a), qi(*b)),
            Res::Err(e) => write!(f, "ERROR {e:?}"),
            Res::Panic(e) => write!(f, "PANIC {e}"),
        }
    }
}

pub fn er(e: anyhow::Error) -> Res {
    Res::Err(match e.downcast_ref::<CandyError>() {
        Some(CandyError::KeyTooLong(_)) => Er::KeyTooLong,
        Some(CandyError::ValueTooLong(_)) => Er::ValueTooLong,
        Some(CandyError::EntryCannotFitInShard(..)) => Er::EntryCannotFit,
        None => Er::Other(format!("{e:#}").chars().take(200).collect()),
    })
}
fn rset(s: SetStatus) -> Res {
    let created = s == SetStatus::CreatedNew;
    check!(s.was_created() == created && s.was_replaced() != created, "status", "the predicates of {s:?} are wrong");
    match s {
        SetStatus::CreatedNew => Res::Created(vec![]),
        SetStatus::PrevValue(v) => Res::Existing(v),
    }
}
fn rrep(s: ReplaceStatus) -> Res {
    let (done, missing) = (matches!(s, ReplaceStatus::PrevValue(_)), s == ReplaceStatus::DoesNotExist);
    check!(s.was_replaced() == done && s.failed() != done && s.is_key_missing() == missing && s.is_wrong_value() == (!done && !missing), "status", "the predicates of {s:?} are wrong");
    match s {
        ReplaceStatus::PrevValue(v) => Res::Existing(v),
        ReplaceStatus::WrongValue(v) => Res::Wrong(v),
        ReplaceStatus::DoesNotExist => Res::Missing,
    }
}
fn rgoc(s: GetOrCreateStatus) -> Res {
    let created = matches!(s, GetOrCreateStatus::CreatedNew(_));
    check!(s.was_created() == created && s.already_exists() != created, "status", "the predicates of {s:?} are wrong");
    match s {
        GetOrCreateStatus::CreatedNew(v) => Res::Created(v),
        GetOrCreateStatus::ExistingValue(v) => Res::Existing(v),
    }
}

/// perform an operation on the store (call inside rt::api)
pub fn exec(st: &CandyStore, op: &Op) -> Res {
    exec_inner(st, op).unwrap_or_else(er)
}
fn exec_inner(st: &CandyStore, op: &Op) -> anyhow::Result<Res> {
    let alt = op.alt;
    Ok(match &op.k {
        K::Get(k) => Res::Opt(if alt { st.owned_get(k.clone())? } else { st.get(k)? }),
        K::Contains(k) => Res::Bool(if alt { st.owned_contains(k.clone())? } else { st.contains(k)? }),
        K::Set(k, v) => rset(if alt { st.owned_set(k.clone(), v)? } else { st.set(k, v)? }),
        K::Replace(k, v, e) => rrep(if alt { st.owned_replace(k.clone(), v, e.as_deref())? } else { st.replace(k, v, e.as_ref())? }),
        K::Goc(k, v) => rgoc(if alt { st.owned_get_or_create(k.clone(), v.clone())? } else { st.get_or_create(k, v)? }),
        K::Remove(k) => Res::Opt(if alt { st.owned_remove(k.clone())? } else { st.remove(k)? }),
        K::Iter => {
            let mut v = vec![];
            for r in st.iter() {
                v.push(r?);
            }
            Res::Kvs(v)
        }
        K::Clear => {
            st.clear()?;
            Res::Unit
        }
        K::LSet(l, k, v) => rset(if alt { st.owned_set_in_list(l.clone(), k.clone(), v.clone(), false)? } else { st.set_in_list(l, k, v)? }),
        K::LPromote(l, k, v) => rset(if alt { st.owned_set_in_list(l.clone(), k.clone(), v.clone(), true)? } else { st.set_in_list_promoting(l, k, v)? }),
        K::LReplace(l, k, v, e) => {
            rrep(if alt { st.owned_replace_in_list(l.clone(), k.clone(), v.clone(), e.as_deref())? } else { st.replace_in_list(l, k, v, e.as_ref())? })
        }
        K::LGoc(l, k, v) => rgoc(if alt { st.owned_get_or_create_in_list(l.clone(), k.clone(), v.clone())? } else { st.get_or_create_in_list(l, k, v)? }),
        K::LGet(l, k) => Res::Opt(if alt { st.owned_get_from_list(l.clone(), k.clone())? } else { st.get_from_list(l, k)? }),
        K::LRemove(l, k) => Res::Opt(if alt { st.owned_remove_from_list(l.clone(), k.clone())? } else { st.remove_from_list(l, k)? }),
        K::LDiscard(l) => Res::Bool(if alt { st.owned_discard_list(l.clone())? } else { st.discard_list(l)? }),
        K::LPopH(l) => Res::Kv(if alt { st.owned_pop_list_head(l.clone())? } else { st.pop_list_head(l)? }),
        K::LPopT(l) => Res::Kv(if alt { st.owned_pop_list_tail(l.clone())? } else { st.pop_list_tail(l)? }),
        K::LPeekH(l) => Res::Kv(if alt { st.owned_peek_list_head(l.clone())? } else { st.peek_list_head(l)? }),
        K::LPeekT(l) => Res::Kv(if alt { st.owned_peek_list_tail(l.clone())? } else { st.peek_list_tail(l)? }),
        K::LIter(l) => {
            let mut v = vec![];
            if alt {
                for r in st.owned_iter_list(l.clone()) {
                    v.push(r?)
                }
            } else {
                for r in st.iter_list(l) {
                    v.push(r?)
                }
            }
            Res::Kvs(v)
        }
        K::LIterB(l) => {
            let mut v = vec![];
            if alt {
                for r in st.owned_iter_list_backwards(l.clone()) {
                    v.push(r?)
                }
            } else {
                for r in st.iter_list_backwards(l) {
                    v.push(r?)
                }
            }
            Res::Kvs(v)
        }
        K::LLen(l) => Res::Num(if alt { st.owned_list_len(l.clone())? } else { st.list_len(l)? } as u64),
        K::LCompact(l, m, h) => Res::Bool(st.compact_list_if_needed(l, ListCompactionParams { min_length: *m, min_holes_ratio: *h as f64 / 100.0 })?),
        K::QPushH(q, v) => Res::Num(st.push_to_queue_head(q, v)? as u64),
        K::QPushT(q, v) => Res::Num(st.push_to_queue_tail(q, v)? as u64),
        K::QPopH(q) => {
            if alt {
                Res::Opt(st.pop_queue_head(q)?)
            } else {
                Res::Iv(st.pop_queue_head_with_idx(q)?.map(|(i, v)| (i as u64, v)))
            }
        }
        K::QPopT(q) => {
            if alt {
                Res::Opt(st.pop_queue_tail(q)?)
            } else {
                Res::Iv(st.pop_queue_tail_with_idx(q)?.map(|(i, v)| (i as u64, v)))
            }
        }
        K::QPeekH(q) => {
            if alt {
                Res::Opt(st.peek_queue_head(q)?)
            } else {
                Res::Iv(st.peek_queue_head_with_idx(q)?.map(|(i, v)| (i as u64, v)))
            }
        }
        K::QPeekT(q) => {
            if alt {
                Res::Opt(st.peek_queue_tail(q)?)
            } else {
                Res::Iv(st.peek_queue_tail_with_idx(q)?.map(|(i, v)| (i as u64, v)))
            }
        }
        K::QExtend(q, vs) => {
            let r = st.extend_queue(q, vs.iter())?;
            Res::Range(r.start as u64, r.end as u64)
        }
        K::QRemove(q, i) => Res::Opt(st.remove_from_queue(q, *i as usize)?),
        K::QDiscard(q) => Res::Bool(st.discard_queue(q)?),
        K::QIter(q) => {
            let mut v = vec![];
            for r in st.iter_queue(q) {
                let (i, x) = r?;
                v.push((i as u64, x));
            }
            Res::Ivs(v)
        }
        K::QIterB(q) => {
            let mut v = vec![];
            for r in st.iter_queue_backwards(q) {
                let (i, x) = r?;
                v.push((i as u64, x));
            }
            Res::Ivs(v)
        }
        K::QLen(q) => Res::Num(st.queue_len(q)? as u64),
        K::QRange(q) => {
            let r = st.queue_range(q)?;
            Res::Range(r.start as u64, r.end as u64)
        }
        K::BSet(k, v) => Res::Bool(st.set_big(k, v)?),
        K::BGet(k) => Res::Opt(st.get_big(k)?),
        K::BRemove(k) => Res::Bool(st.remove_big(k)?),
        K::Flush => {
            st.flush()?;
            Res::Unit
        }
        K::Stats => {
            let _ = st.stats();
            Res::Unit
        }
        K::Merge(f) => Res::Bool(st.merge_small_shards(*f as f32 / 1000.0)?),
    })
}

/// Reference model. An absent map entry means the object never existed (or was discarded); a list or queue that was
/// emptied by removals stays as an empty entry: whether a later discard says it "existed" is not specified.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub kv: BTreeMap<B, B>,
    pub lists: BTreeMap<B, Vec<(B, B)>>,
    pub queues: BTreeMap<B, BTreeMap<u64, B>>,
    pub bigs: BTreeMap<B, B>,
    pub lenient_len: bool, // after a crash, lengths are only estimates
    pub loose: std::collections::BTreeSet<B>, // big values that may exist with nothing in them
}
macro_rules! want {
    ($r:expr, $w:expr) => {{
        let w = $w;
        if *$r == w {
            Ok(())
        } else {
            Err(format!("returned {}, expected {}", $r, w))
        }
    }};
}
impl Model {
    /// check an observed result and update the model
    pub fn apply(&mut self, op: &Op, r: &Res) -> Result<(), String> {
        if let Res::Panic(p) = r {
            return Err(format!("panicked: {p}"));
        }
        if let Res::Err(e) = r {
            return Err(format!("failed: {e:?}"));
        }
        match &op.k {
            K::Get(k) => want!(r, Res::Opt(self.kv.get(k).cloned())),
            K::Contains(k) => want!(r, Res::Bool(self.kv.contains_key(k))),
            K::Set(k, v) => {
                let w = match self.kv.insert(k.clone(), v.clone()) {
                    None => Res::Created(vec![]),
                    Some(p) => Res::Existing(p),
                };
                want!(r, w)
            }
            K::Replace(k, v, e) => {
                let w = match self.kv.get_mut(k) {
                    None => Res::Missing,
                    Some(cur) => {
                        if e.as_ref().is_some_and(|e| e != cur) {
                            Res::Wrong(cur.clone())
                        } else {
                            Res::Existing(std::mem::replace(cur, v.clone()))
                        }
                    }
                };
                want!(r, w)
            }
            K::Goc(k, v) => {
                let w = match self.kv.get(k) {
                    Some(p) => Res::Existing(p.clone()),
                    None => {
                        self.kv.insert(k.clone(), v.clone());
                        Res::Created(v.clone())
                    }
                };
                want!(r, w)
            }
            K::Remove(k) => {
                let w = Res::Opt(self.kv.remove(k));
                want!(r, w)
            }
            K::Iter => {
                let Res::Kvs(v) = r else { return Err(format!("returned {r}")) };
                let mut s = v.clone();
                s.sort();
                let w: Vec<(B, B)> = self.kv.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if s == w {
                    Ok(())
                } else {
                    Err(diff(&s, &w))
                }
            }
            K::Clear => {
                self.kv.clear();
                self.lists.clear();
                self.queues.clear();
                self.bigs.clear();
                want!(r, Res::Unit)
            }
            K::LSet(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                let w = match li.iter_mut().find(|x| x.0 == *k) {
                    Some(x) => Res::Existing(std::mem::replace(&mut x.1, v.clone())),
                    None => {
                        li.push((k.clone(), v.clone()));
                        Res::Created(vec![])
                    }
                };
                want!(r, w)
            }
            K::LPromote(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                li.retain(|x| x.0 != *k);
                li.push((k.clone(), v.clone()));
                // documented as remove + insert: always reported as created
                want!(r, Res::Created(vec![]))
            }
            K::LReplace(l, k, v, e) => {
                let w = match self.lists.get_mut(l).and_then(|li| li.iter_mut().find(|x| x.0 == *k)) {
                    None => Res::Missing,
                    Some(x) => {
                        if e.as_ref().is_some_and(|e| *e != x.1) {
                            Res::Wrong(x.1.clone())
                        } else {
                            Res::Existing(std::mem::replace(&mut x.1, v.clone()))
                        }
                    }
                };
                want!(r, w)
            }
            K::LGoc(l, k, v) => {
                let li = self.lists.entry(l.clone()).or_default();
                let w = match li.iter().find(|x| x.0 == *k) {
                    Some(x) => Res::Existing(x.1.clone()),
                    None => {
                        li.push((k.clone(), v.clone()));
                        Res::Created(v.clone())
                    }
                };
                want!(r, w)
            }
            K::LGet(l, k) => want!(r, Res::Opt(self.lists.get(l).and_then(|li| li.iter().find(|x| x.0 == *k)).map(|x| x.1.clone()))),
            K::LRemove(l, k) => {
                let w = match self.lists.get_mut(l) {
                    Some(li) => match li.iter().position(|x| x.0 == *k) {
                        Some(i) => Some(li.remove(i).1),
                        None => None,
                    },
                    None => None,
                };
                want!(r, Res::Opt(w))
            }
            K::LDiscard(l) => match self.lists.remove(l) {
                None => want!(r, Res::Bool(false)),
                Some(v) if v.is_empty() => match r {
                    Res::Bool(_) => Ok(()),
                    _ => Err(format!("returned {r}")),
                },
                Some(_) => want!(r, Res::Bool(true)),
            },
            K::LPopH(l) => {
                let w = self.lists.get_mut(l).and_then(|li| if li.is_empty() { None } else { Some(li.remove(0)) });
                want!(r, Res::Kv(w))
            }
            K::LPopT(l) => {
                let w = self.lists.get_mut(l).and_then(|li| li.pop());
                want!(r, Res::Kv(w))
            }
            K::LPeekH(l) => want!(r, Res::Kv(self.lists.get(l).and_then(|li| li.first().cloned()))),
            K::LPeekT(l) => want!(r, Res::Kv(self.lists.get(l).and_then(|li| li.last().cloned()))),
            K::LIter(l) => want!(r, Res::Kvs(self.lists.get(l).cloned().unwrap_or_default())),
            K::LIterB(l) => want!(r, Res::Kvs(self.lists.get(l).cloned().unwrap_or_default().into_iter().rev().collect())),
            K::LLen(l) => {
                if self.lenient_len {
                    return match r {
                        Res::Num(_) => Ok(()),
                        _ => Err(format!("returned {r}")),
                    };
                }
                want!(r, Res::Num(self.lists.get(l).map_or(0, |v| v.len() as u64)))
            }
            K::LCompact(..) => match r {
                Res::Bool(_) => Ok(()),
                _ => Err(format!("returned {r}")),
            },
            K::QPushH(q, v) => {
                let qu = self.queues.entry(q.clone()).or_default();
                let Res::Num(i) = r else { return Err(format!("returned {r}")) };
                if qu.keys().next().is_some_and(|f| i >= f) {
                    return Err(format!("pushed at the head but got index {} not before the head {}", qi(*i), qi(*qu.keys().next().unwrap())));
                }
                qu.insert(*i, v.clone());
                Ok(())
            }
            K::QPushT(q, v) => {
                let qu = self.queues.entry(q.clone()).or_default();
                let Res::Num(i) = r else { return Err(format!("returned {r}")) };
                if qu.keys().next_back().is_some_and(|f| i <= f) {
                    return Err(format!("pushed at the tail but got index {} not after the tail {}", qi(*i), qi(*qu.keys().next_back().unwrap())));
                }
                qu.insert(*i, v.clone());
                Ok(())
            }
            K::QPopH(q) | K::QPeekH(q) | K::QPopT(q) | K::QPeekT(q) => {
                let head = matches!(op.k, K::QPopH(_) | K::QPeekH(_));
                let pop = matches!(op.k, K::QPopH(_) | K::QPopT(_));
                let w = self.queues.get(q).and_then(|m| if head { m.first_key_value() } else { m.last_key_value() }).map(|(i, v)| (*i, v.clone()));
                if pop {
                    if let Some((i, _)) = &w {
                        self.queues.get_mut(q).unwrap().remove(i);
                    }
                }
                if op.alt {
                    want!(r, Res::Opt(w.map(|x| x.1)))
                } else {
                    want!(r, Res::Iv(w))
                }
            }
            K::QExtend(q, vs) => {
                let Res::Range(a, b) = r else { return Err(format!("returned {r}")) };
                if b.wrapping_sub(*a) != vs.len() as u64 {
                    return Err(format!("returned {r} for {} elements", vs.len()));
                }
                let qu = self.queues.entry(q.clone()).or_default();
                if !vs.is_empty() && qu.keys().next_back().is_some_and(|f| a <= f) {
                    return Err(format!("returned {r}, overlapping existing elements up to {}", qi(*qu.keys().next_back().unwrap())));
                }
                for (i, v) in vs.iter().enumerate() {
                    qu.insert(a + i as u64, v.clone());
                }
                Ok(())
            }
            K::QRemove(q, i) => {
                let w = self.queues.get_mut(q).and_then(|m| m.remove(i));
                want!(r, Res::Opt(w))
            }
            K::QDiscard(q) => match self.queues.remove(q) {
                None => want!(r, Res::Bool(false)),
                Some(v) if v.is_empty() => match r {
                    Res::Bool(_) => Ok(()),
                    _ => Err(format!("returned {r}")),
                },
                Some(_) => want!(r, Res::Bool(true)),
            },
            K::QIter(q) => want!(r, Res::Ivs(self.queues.get(q).map_or(vec![], |m| m.iter().map(|(i, v)| (*i, v.clone())).collect()))),
            K::QIterB(q) => want!(r, Res::Ivs(self.queues.get(q).map_or(vec![], |m| m.iter().rev().map(|(i, v)| (*i, v.clone())).collect()))),
            K::QLen(q) => {
                if self.lenient_len {
                    return match r {
                        Res::Num(_) => Ok(()),
                        _ => Err(format!("returned {r}")),
                    };
                }
                want!(r, Res::Num(self.queues.get(q).map_or(0, |v| v.len() as u64)))
            }
            K::QRange(q) => {
                let Res::Range(a, b) = r else { return Err(format!("returned {r}")) };
                if let Some(m) = self.queues.get(q) {
                    if let (Some(f), Some(l)) = (m.keys().next(), m.keys().next_back()) {
                        if a > f || b <= l {
                            return Err(format!("returned {r}, which does not cover {}..={}", qi(*f), qi(*l)));
                        }
                    }
                }
                if a > b {
                    return Err(format!("returned the inverted range {r}"));
                }
                Ok(())
            }
            K::BSet(k, v) => {
                let w = self.bigs.insert(k.clone(), v.clone()).is_some();
                if self.loose.remove(k) && !w && matches!(r, Res::Bool(_)) {
                    return Ok(());
                }
                want!(r, Res::Bool(w))
            }
            K::BGet(k) => want!(r, Res::Opt(self.bigs.get(k).cloned())),
            K::BRemove(k) => {
                let w = self.bigs.remove(k).is_some();
                if self.loose.remove(k) && !w && matches!(r, Res::Bool(_)) {
                    return Ok(());
                }
                want!(r, Res::Bool(w))
            }
            K::Flush | K::Stats => want!(r, Res::Unit),
            K::Merge(_) => match r {
                Res::Bool(_) => Ok(()),
                _ => Err(format!("returned {r}")),
            },
        }
    }
    /// read operations that observe every object of the model (and the given extra keys)
    pub fn observers(&self, keys: &[B], lists: &[(B, Vec<B>)], queues: &[B], bigs: &[B]) -> Vec<Op> {
        let mut v = vec![];
        let mut o = |k: K| v.push(Op { k, alt: false });
        let mut ks: Vec<B> = self.kv.keys().cloned().collect();
        ks.extend(keys.iter().cloned());
        ks.sort();
        ks.dedup();
        for k in ks {
            o(K::Get(k));
        }
        o(K::Iter);
        let mut ls: BTreeMap<B, Vec<B>> = self.lists.iter().map(|(l, v)| (l.clone(), v.iter().map(|x| x.0.clone()).collect())).collect();
        for (l, items) in lists {
            ls.entry(l.clone()).or_default().extend(items.iter().cloned());
        }
        for (l, mut items) in ls {
            o(K::LIter(l.clone()));
            o(K::LIterB(l.clone()));
            o(K::LLen(l.clone()));
            items.sort();
            items.dedup();
            for i in items {
                o(K::LGet(l.clone(), i));
            }
        }
        let mut qs: Vec<B> = self.queues.keys().cloned().collect();
        qs.extend(queues.iter().cloned());
        qs.sort();
        qs.dedup();
        for q in qs {
            o(K::QIter(q.clone()));
            o(K::QIterB(q.clone()));
            o(K::QLen(q.clone()));
            o(K::QRange(q));
        }
        let mut bs: Vec<B> = self.bigs.keys().cloned().collect();
        bs.extend(bigs.iter().cloned());
        bs.sort();
        bs.dedup();
        for b in bs {
            o(K::BGet(b));
        }
        v
    }
}
pub fn diff(got: &[(B, B)], want: &[(B, B)]) -> String {
    let g: Vec<_> = got.iter().collect();
    let mut s = String::new();
    for w in want {
        if !g.contains(&w) {
            s.push_str(&format!("missing {}={}; ", short(&w.0), short(&w.1)));
        }
    }
    for x in &g {
        if !want.contains(x) {
            s.push_str(&format!("unexpected {}={}; ", short(&x.0), short(&x.1)));
        }
    }
    if got.len() != want.len() {
        s.push_str(&format!("{} entries instead of {}; ", got.len(), want.len()));
    }
    let mut d = got.to_vec();
    d.sort();
    for w in d.windows(2) {
        if w[0] == w[1] {
            s.push_str(&format!("duplicate {}; ", short(&w[0].0)));
        }
    }
    s.chars().take(2000).collect()
}

// ---------------------------------------------------------------- generators
pub fn show_cfg(c: &Config) -> String {
    format!(
        "max_shard_size={} compaction_threshold={} expected_keys={} truncate_up={} mlock={} threads={} list_locks={}",
        c.max_shard_size, c.min_compaction_threashold, c.expected_number_of_keys, c.truncate_up, c.mlock_headers, c.num_compaction_threads, c.max_concurrent_list_ops
    )
}
pub struct CfgGen {
    pub max: &'static [u32],
    pub thr_div: &'static [u32],
    pub expected: &'static [usize],
    pub threads: usize,
}
/// small shards, so that tens of operations restructure the store
pub const SMALL: CfgGen = CfgGen { max: &[1200, 600, 2500, 5000, 300, 20000], thr_div: &[4, 2, 8, 16, 3], expected: &[0, 0, 0, 0, 40_000, 100_000], threads: 2 };
pub fn gen_cfg(g: &mut G, c: &CfgGen) -> Config {
    let max = *g.pick(c.max);
    let div = *g.pick(c.thr_div);
    let mut k = Config::default();
    k.max_shard_size = max;
    k.min_compaction_threashold = (max / div).max(1);
    k.expected_number_of_keys = *g.pick(c.expected);
    k.truncate_up = !g.chance(1, 2);
    k.mlock_headers = g.chance(1, 8);
    k.num_compaction_threads = g.range(1, c.threads.max(1));
    k.max_concurrent_list_ops = *g.pick(&[64, 0, 1, 3, 4, 5, 9]);
    k
}

#[derive(Clone)]
pub struct Pools {
    pub keys: Vec<B>,
    pub lists: Vec<B>,
    pub items: Vec<B>,
    pub queues: Vec<B>,
    pub bigs: Vec<B>,
    pub maxval: usize,
    pub ctr: u32,
}
pub fn numbered(prefix: &str, n: usize) -> Vec<B> {
    (0..n).map(|i| format!("{prefix}{i}").into_bytes()).collect()
}
impl Pools {
    pub fn val(&mut self, g: &mut G) -> B {
        self.ctr += 1;
        match g.weighted(&[10, 2, 1, 4]) {
            0 => format!("v{}", self.ctr).into_bytes(),
            1 => b"same".to_vec(),
            2 => vec![],
            _ => {
                let n = g.us(self.maxval.max(1));
                let mut v = format!("w{}.", self.ctr).into_bytes();
                let mut x = self.ctr.wrapping_mul(2654435761);
                while v.len() < n {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    v.push((x >> 24) as u8);
                }
                v
            }
        }
    }
}
/// a value that differs only a little from another one
pub fn near(g: &mut G, v: &[u8], maxlen: usize) -> B {
    let mut v = v.to_vec();
    match g.n(4) {
        0 if !v.is_empty() => {
            let i = *g.pick(&[v.len() - 1, 0, v.len() / 2]);
            v[i] ^= 1 << g.n(8);
        }
        1 => {
            v.pop();
        }
        2 => v.truncate(v.len() / 2),
        _ if v.len() < maxlen => v.push(g.n(3) as u8),
        _ => v.clear(),
    }
    v
}
pub fn gen_kv(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    let w = g.weighted(&[30, 14, 10, 10, 12, 12, 4, 1]);
    let ki = g.us(p.keys.len());
    let k = p.keys[ki].clone();
    let alt = g.chance(1, 4);
    let kind = match w {
        0 => K::Set(k, p.val(g)),
        1 => K::Get(k),
        2 => K::Goc(k, p.val(g)),
        3 => {
            let e = match g.weighted(&[3, 4, 2]) {
                0 => None,
                1 => Some(m.kv.get(&k).cloned().unwrap_or(b"nothing".to_vec())),
                _ => Some(m.kv.get(&k).map_or(b"wrong".to_vec(), |v| near(g, v, usize::MAX))),
            };
            K::Replace(k, p.val(g), e)
        }
        4 => K::Remove(k),
        5 => match m.kv.get(&k) {
            Some(v) if g.chance(1, 2) => K::Set(k, near(g, v, p.maxval)),
            _ => K::Set(k, p.val(g)),
        },
        6 => K::Contains(k),
        _ => K::Iter,
    };
    Op { k: kind, alt }
}
pub fn gen_list(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    let w = g.weighted(&[30, 8, 10, 6, 6, 14, 2, 5, 5, 2, 2, 3, 3, 2, 4]);
    let li = g.us(p.lists.len());
    let l = p.lists[li].clone();
    let ii = g.us(p.items.len());
    let i = p.items[ii].clone();
    let alt = g.chance(1, 4);
    let kind = match w {
        0 => K::LSet(l, i, p.val(g)),
        1 => K::LPromote(l, i, p.val(g)),
        2 => {
            let cur = m.lists.get(&l).and_then(|v| v.iter().find(|x| x.0 == i)).map(|x| x.1.clone());
            let e = match g.weighted(&[3, 5, 2]) {
                0 => None,
                1 => Some(cur.unwrap_or(b"nothing".to_vec())),
                _ => Some(cur.map_or(b"wrong".to_vec(), |v| near(g, &v, usize::MAX))),
            };
            K::LReplace(l, i, p.val(g), e)
        }
        3 => K::LGoc(l, i, p.val(g)),
        4 => K::LGet(l, i),
        5 => K::LRemove(l, i),
        6 => K::LDiscard(l),
        7 => K::LPopH(l),
        8 => K::LPopT(l),
        9 => K::LPeekH(l),
        10 => K::LPeekT(l),
        11 => K::LIter(l),
        12 => K::LIterB(l),
        13 => K::LLen(l),
        _ => K::LCompact(l, g.n(8), *g.pick(&[0, 10, 25, 50])),
    };
    Op { k: kind, alt }
}
pub fn gen_queue(g: &mut G, p: &mut Pools, m: &Model) -> Op {
    let w = g.weighted(&[14, 20, 9, 9, 3, 3, 6, 14, 2, 3, 3, 2, 2]);
    let qi = g.us(p.queues.len());
    let q = p.queues[qi].clone();
    let alt = g.chance(1, 4);
    let kind = match w {
        0 => K::QPushH(q, p.val(g)),
        1 => K::QPushT(q, p.val(g)),
        2 => K::QPopH(q),
        3 => K::QPopT(q),
        4 => K::QPeekH(q),
        5 => K::QPeekT(q),
        6 => {
            let n = g.us(5);
            let v = (0..n).map(|_| p.val(g)).collect();
            K::QExtend(q, v)
        }
        7 => {
            let ks: Vec<u64> = m.queues.get(&q).map_or(vec![], |m| m.keys().copied().collect());
            let sel = g.n(20);
            let pos = g.us(ks.len().max(1));
            let i = if ks.is_empty() || sel == 19 {
                // out of range / removed before
                (1u64 << 63).wrapping_add(g.n(9)).wrapping_sub(4)
            } else if sel >= 15 {
                ks[0]
            } else if sel >= 11 {
                ks[ks.len() - 1]
            } else {
                ks[pos]
            };
            K::QRemove(q, i)
        }
        8 => K::QDiscard(q),
        9 => K::QIter(q),
        10 => K::QIterB(q),
        11 => K::QLen(q),
        _ => K::QRange(q),
    };
    Op { k: kind, alt }
}
pub fn gen_big(g: &mut G, p: &mut Pools, maxlen: usize) -> Op {
    let w = g.weighted(&[10, 8, 4]);
    let bi = g.us(p.bigs.len());
    let b = p.bigs[bi].clone();
    let k = match w {
        0 => {
            let c = candystore::MAX_VALUE_SIZE;
            let len = match g.weighted(&[4, 3, 5]) {
                0 => g.us(200),
                1 => g.us(maxlen + 1),
                _ => {
                    let base = c * g.us(maxlen / c + 1);
                    (base + g.us(5)).saturating_sub(2)
                }
            };
            K::BSet(b, fill(g.n(1 << 30), len))
        }
        1 => K::BGet(b),
        _ => K::BRemove(b),
    };
    Op { k, alt: false }
}
pub fn fill(seed: u64, len: usize) -> B {
    let mut v = Vec::with_capacity(len);
    let mut x = seed | 1;
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.push((x >> 32) as u8);
    }
    v
}
