//! C14: typed wrappers against typed reference models.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_ds::{gen_step, Mix, Step, MIX0};
use crate::rt;
use candystore::*;
use databuf::{config::num::LE, Decode, DecodeOwned, Encode};
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct MyId(u32);
impl CandyTypedKey for MyId {
    const TYPE_ID: u32 = 0x9a7c_55e1;
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct YourId(u32);
impl CandyTypedKey for YourId {
    const TYPE_ID: u32 = 0x9a7c_55e2;
}
/// its id differs from MyId's in the last byte only, and its encoding is that of a String
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct Name(String);
impl CandyTypedKey for Name {
    const TYPE_ID: u32 = 0x1a7c_55e1;
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct Rec {
    a: u32,
    b: Option<String>,
    c: Vec<(u8, i64)>,
}

/// key types that encode alike and whose ids differ in single bits
#[derive(Clone, Debug, PartialEq)]
struct Id<const T: u32>(u16);
impl<const T: u32> CandyTypedKey for Id<T> {
    const TYPE_ID: u32 = T;
}
impl<const T: u32> Encode for Id<T> {
    fn encode<const C: u16>(&self, c: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
        self.0.encode::<C>(c)
    }
}
impl<'de, const T: u32> Decode<'de> for Id<T> {
    fn decode<const C: u16>(c: &mut &'de [u8]) -> databuf::Result<Self> {
        Ok(Id(u16::decode::<C>(c)?))
    }
}
const I0: u32 = 0x5a96_c3e7;
macro_rules! ids {
    ($($b:expr),*) => {
        $(impl TK for Id<{ I0 ^ $b }> {
            type Q = Self;
            fn cands() -> Vec<Self> {
                vec![Id(0), Id(1), Id(0x4101)]
            }
            fn name() -> &'static str {
                concat!("Id<I0^", stringify!($b), ">")
            }
        })*
        /// wrappers of one kind over these types
        fn ids(kind: u64) -> Vec<Box<dyn Obj>> {
            vec![$(match kind {
                0 => s::<Id<{ I0 ^ $b }>, u64>(),
                1 => l::<Id<{ I0 ^ $b }>, u16, u64>(),
                _ => d::<Id<{ I0 ^ $b }>, u64>(),
            }),*]
        }
    };
}
ids!(0, 0x1, 0x80, 0x100, 0x8000, 0x1_0000, 0x80_0000, 0x100_0000, 0x8000_0000);

/// key types: candidates chosen so that encodings of different types coincide
trait TK: CandyTypedKey + Clone + Debug + PartialEq + Borrow<Self::Q> + 'static {
    type Q: ?Sized + Encode;
    fn cands() -> Vec<Self>;
    fn name() -> &'static str;
}
macro_rules! tk {
    ($t:ty, $q:ty, $v:expr) => {
        impl TK for $t {
            type Q = $q;
            fn cands() -> Vec<Self> {
                $v
            }
            fn name() -> &'static str {
                stringify!($t)
            }
        }
    };
}
tk!(u8, u8, vec![0, 1, 2, 65, 255]);
tk!(i8, i8, vec![0, 1, 2, 65, -1]);
tk!(bool, bool, vec![false, true]);
tk!(u16, u16, vec![0, 1, 65, 0x4101, 0xffff]);
tk!(i16, i16, vec![0, 1, 65, 0x4101, -1]);
tk!(u32, u32, vec![0, 1, 65, 0x0200_0000, u32::MAX]);
tk!(i32, i32, vec![0, 1, 65, -1]);
tk!(char, char, vec!['\0', '\u{1}', 'A', '\u{10ffff}']);
tk!(u64, u64, vec![0, 1, 65, u64::MAX]);
tk!(i64, i64, vec![0, 1, 65, -1]);
tk!(usize, usize, vec![0, 1, 65, usize::MAX]);
tk!(isize, isize, vec![0, 1, 65, -1]);
tk!(u128, u128, vec![0, 1, u128::MAX]);
tk!(i128, i128, vec![0, 1, -1]);
tk!(String, str, vec!["".into(), "A".into(), "k1".into(), "\u{1}".into(), "x".repeat(40)]);
tk!(Vec<u8>, [u8], vec![vec![], vec![65], b"k1".to_vec(), vec![1], vec![b'x'; 40]]);
tk!([u8; 16], [u8; 16], vec![[0; 16], [1; 16], [255; 16]]);
tk!(MyId, MyId, vec![MyId(0), MyId(1), MyId(65), MyId(u32::MAX)]);
tk!(YourId, YourId, vec![YourId(0), YourId(1), YourId(65), YourId(u32::MAX)]);
tk!(Name, Name, vec![Name("".into()), Name("A".into()), Name("k1".into())]);

trait TV: Encode + DecodeOwned + Clone + Debug + PartialEq + 'static {
    fn make(g: &mut G) -> Self;
}
impl TV for u64 {
    fn make(g: &mut G) -> Self {
        *g.pick(&[0u64, 1, 7, 255, 1 << 40, u64::MAX])
    }
}
impl TV for bool {
    fn make(g: &mut G) -> Self {
        g.chance(1, 2)
    }
}
impl TV for () {
    fn make(_: &mut G) -> Self {}
}
impl TV for String {
    fn make(g: &mut G) -> Self {
        let n = *g.pick(&[3usize, 0, 1, 20, 60]);
        let c = *g.pick(&['a', 'é', '\0', '😀']);
        format!("{}{}", g.n(100), c.to_string().repeat(n))
    }
}
impl TV for Vec<u8> {
    fn make(g: &mut G) -> Self {
        let n = *g.pick(&[3usize, 0, 1, 50]);
        fill(g.n(1000), n)
    }
}
impl TV for Option<i32> {
    fn make(g: &mut G) -> Self {
        if g.chance(1, 3) {
            None
        } else {
            Some(g.n(200) as i32 - 100)
        }
    }
}
impl TV for Rec {
    fn make(g: &mut G) -> Self {
        let n = g.us(4);
        Rec { a: g.n(5) as u32, b: if g.chance(1, 2) { Some(String::make(g)) } else { None }, c: (0..n).map(|i| (i as u8, g.n(1000) as i64 - 500)).collect() }
    }
}

fn call<T>(what: String, f: impl FnOnce() -> anyhow::Result<T>) -> T {
    match rt::api(op_id(what.clone()), f) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => bad!("error", "{what} failed: {e:#}"),
        Err(p) => bad!("panic", "{what} panicked: {p} ({})", last_panic()),
    }
}
fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) {
    trace!("{what} -> {got:?}");
    check!(got == want, "typed", "{what}: returned {got:?}, expected {want:?}");
}
fn quietly<T: PartialEq + Debug>(what: &str, got: T, want: T) {
    check!(got == want, "typed", "{what}: returned {got:?}, expected {want:?}");
}

trait Obj {
    fn step(&mut self, g: &mut G);
    fn verify(&mut self, when: &str);
    fn release(&mut self);
    fn bind(&mut self, st: Arc<CandyStore>);
    /// the bytes the wrapper might use as keys: untyped objects of those names must be independent
    fn raw(&self) -> Vec<B>;
    fn clear(&mut self);
}
/// linear map: typed values have no order
#[derive(Clone)]
struct Lm<K, V>(Vec<(K, V)>);
impl<K: PartialEq, V: Clone> Lm<K, V> {
    fn get(&self, k: &K) -> Option<V> {
        self.0.iter().find(|x| x.0 == *k).map(|x| x.1.clone())
    }
    fn set(&mut self, k: K, v: V) -> Option<V> {
        match self.0.iter_mut().find(|x| x.0 == k) {
            Some(x) => Some(std::mem::replace(&mut x.1, v)),
            None => {
                self.0.push((k, v));
                None
            }
        }
    }
    fn remove(&mut self, k: &K) -> Option<V> {
        let i = self.0.iter().position(|x| x.0 == *k)?;
        Some(self.0.remove(i).1)
    }
}
fn rawkeys<K: TK>() -> Vec<B> {
    let mut v = vec![];
    for k in K::cands() {
        let e = <K as Borrow<K::Q>>::borrow(&k).to_bytes::<LE>();
        v.push(e.clone());
        let mut e2 = e.clone();
        e2.extend_from_slice(&K::TYPE_ID.to_le_bytes());
        v.push(e2.clone());
        e2.push(2);
        v.push(e2);
    }
    v
}

struct Store<K, V> {
    w: Option<CandyTypedStore<K, V>>,
    m: Lm<K, V>,
    big: Lm<K, V>,
}
impl<K: TK, V: TV> Store<K, V> {
    fn name(&self) -> String {
        format!("store<{}>", K::name())
    }
}
impl<K: TK, V: TV> Obj for Store<K, V> {
    fn step(&mut self, g: &mut G) {
        let ks = K::cands();
        let k = ks[g.us(ks.len())].clone();
        let q: &K::Q = k.borrow();
        let w = self.w.as_ref().unwrap();
        let n = self.name();
        match g.weighted(&[6, 3, 2, 3, 4, 2, 2, 2, 1]) {
            0 => {
                let v = V::make(g);
                let t = format!("{n}.set({k:?}, {v:?})");
                same(&t, call(t.clone(), || w.set(q, &v)), self.m.set(k.clone(), v));
            }
            1 => {
                let t = format!("{n}.get({k:?})");
                same(&t, call(t.clone(), || w.get(q)), self.m.get(&k));
            }
            2 => {
                let t = format!("{n}.contains({k:?})");
                same(&t, call(t.clone(), || w.contains(q)), self.m.get(&k).is_some());
            }
            3 => {
                let v = V::make(g);
                let t = format!("{n}.get_or_create({k:?}, {v:?})");
                if self.m.get(&k).is_none() {
                    self.m.set(k.clone(), v.clone());
                }
                same(&t, call(t.clone(), || w.get_or_create(q, &v)), self.m.get(&k).unwrap());
            }
            4 => {
                let v = V::make(g);
                let e = match g.n(3) {
                    0 => None,
                    1 => Some(self.m.get(&k).unwrap_or(V::make(g))),
                    _ => Some(V::make(g)),
                };
                let t = format!("{n}.replace({k:?}, {v:?}, {e:?})");
                let cur = self.m.get(&k);
                let hit = cur.is_some() && (e.is_none() || e == cur);
                let want = if hit { self.m.set(k.clone(), v.clone()) } else { None };
                same(&t, call(t.clone(), || w.replace(q, &v, e.as_ref())), want);
            }
            5 => {
                let t = format!("{n}.remove({k:?})");
                same(&t, call(t.clone(), || w.remove(q)), self.m.remove(&k));
            }
            6 => {
                let v = V::make(g);
                let t = format!("{n}.set_big({k:?}, {v:?})");
                same(&t, call(t.clone(), || w.set_big(q, &v)), self.big.set(k.clone(), v).is_some());
            }
            7 => {
                let t = format!("{n}.get_big({k:?})");
                same(&t, call(t.clone(), || w.get_big(q)), self.big.get(&k));
            }
            _ => {
                let t = format!("{n}.remove_big({k:?})");
                same(&t, call(t.clone(), || w.remove_big(q)), self.big.remove(&k).is_some());
            }
        }
    }
    fn verify(&mut self, when: &str) {
        let w = self.w.as_ref().unwrap();
        for k in K::cands() {
            let t = format!("{when}: {}.get({k:?})", self.name());
            quietly(&t, call(t.clone(), || w.get(k.borrow())), self.m.get(&k));
            let t = format!("{when}: {}.contains({k:?})", self.name());
            quietly(&t, call(t.clone(), || w.contains(k.borrow())), self.m.get(&k).is_some());
            let t = format!("{when}: {}.get_big({k:?})", self.name());
            quietly(&t, call(t.clone(), || w.get_big(k.borrow())), self.big.get(&k));
        }
    }
    fn release(&mut self) {
        self.w = None;
    }
    fn bind(&mut self, st: Arc<CandyStore>) {
        self.w = Some(CandyTypedStore::new(st).clone());
    }
    fn raw(&self) -> Vec<B> {
        rawkeys::<K>()
    }
    fn clear(&mut self) {
        self.m.0.clear();
        self.big.0.clear();
    }
}

struct List<L, K, V> {
    w: Option<CandyTypedList<L, K, V>>,
    m: Vec<(L, Lm<K, V>)>,
}
impl<L: TK, K: TK, V: TV> List<L, K, V> {
    fn name(&self) -> String {
        format!("list<{},{}>", L::name(), K::name())
    }
    fn l(&mut self, l: &L) -> &mut Lm<K, V> {
        if !self.m.iter().any(|x| x.0 == *l) {
            self.m.push((l.clone(), Lm(vec![])));
        }
        &mut self.m.iter_mut().find(|x| x.0 == *l).unwrap().1
    }
}
impl<L: TK, K: TK, V: TV> Obj for List<L, K, V> {
    fn step(&mut self, g: &mut G) {
        let ls = L::cands();
        let l = ls[g.us(ls.len().min(3))].clone();
        let ks = K::cands();
        let k = ks[g.us(ks.len())].clone();
        let n = format!("{}[{l:?}]", self.name());
        let w = self.w.clone().unwrap();
        let m = self.l(&l);
        let (lq, kq): (&L::Q, &K::Q) = (l.borrow(), k.borrow());
        match g.weighted(&[8, 3, 3, 4, 3, 2, 4, 1, 1, 2, 2, 1, 1, 2]) {
            0 => {
                let v = V::make(g);
                let t = format!("{n}.set({k:?}, {v:?})");
                same(&t, call(t.clone(), || w.set(lq, kq, &v)), m.set(k.clone(), v));
            }
            1 => {
                let v = V::make(g);
                let t = format!("{n}.set_promoting({k:?}, {v:?})");
                m.remove(&k);
                m.0.push((k.clone(), v.clone()));
                // documented as a removal followed by an insertion
                same(&t, call(t.clone(), || w.set_promoting(lq, kq, &v)), None);
            }
            2 => {
                let v = V::make(g);
                let t = format!("{n}.get_or_create({k:?}, {v:?})");
                if m.get(&k).is_none() {
                    m.set(k.clone(), v.clone());
                }
                same(&t, call(t.clone(), || w.get_or_create(lq, kq, &v)), m.get(&k).unwrap());
            }
            3 => {
                let v = V::make(g);
                let e = match g.n(3) {
                    0 => None,
                    1 => Some(m.get(&k).unwrap_or(V::make(g))),
                    _ => Some(V::make(g)),
                };
                let t = format!("{n}.replace({k:?}, {v:?}, {e:?})");
                let cur = m.get(&k);
                let hit = cur.is_some() && (e.is_none() || e == cur);
                let want = if hit { m.set(k.clone(), v.clone()) } else { None };
                same(&t, call(t.clone(), || w.replace(lq, kq, &v, e.as_ref())), want);
            }
            4 => {
                let t = format!("{n}.get({k:?})");
                same(&t, call(t.clone(), || w.get(lq, kq)), m.get(&k));
            }
            5 => {
                let t = format!("{n}.contains({k:?})");
                same(&t, call(t.clone(), || w.contains(lq, kq)), m.get(&k).is_some());
            }
            6 => {
                let t = format!("{n}.remove({k:?})");
                same(&t, call(t.clone(), || w.remove(lq, kq)), m.remove(&k));
            }
            7 => {
                let t = format!("{n}.discard()");
                let had = !m.0.is_empty();
                m.0.clear();
                let r = call(t.clone(), || w.discard(lq));
                trace!("{t} -> {r}");
                // of a list emptied by removals, it's unspecified
                check!(r || !had, "typed", "{t}: returned {r}, expected {had}");
            }
            8 => {
                let t = format!("{n}.compact_if_needed()");
                let ml = g.n(4);
                let r = call(t.clone(), || w.compact_if_needed(lq, ListCompactionParams { min_length: ml, min_holes_ratio: 0.0 }));
                trace!("{t} -> {r}");
            }
            9 => {
                let t = format!("{n}.pop_head()");
                let want = if m.0.is_empty() { None } else { Some(m.0.remove(0)) };
                same(&t, call(t.clone(), || w.pop_head(lq)), want);
            }
            10 => {
                let t = format!("{n}.pop_tail()");
                let want = m.0.pop();
                same(&t, call(t.clone(), || w.pop_tail(lq)), want);
            }
            11 => {
                let t = format!("{n}.peek_head()");
                same(&t, call(t.clone(), || w.peek_head(lq)), m.0.first().cloned());
            }
            12 => {
                let t = format!("{n}.peek_tail()");
                same(&t, call(t.clone(), || w.peek_tail(lq)), m.0.last().cloned());
            }
            _ => {
                let t = format!("{n}.len()");
                same(&t, call(t.clone(), || w.len(lq)), m.0.len());
            }
        }
    }
    fn verify(&mut self, when: &str) {
        let n = self.name();
        let w = self.w.clone().unwrap();
        for l in L::cands().into_iter().take(3) {
            let m = self.l(&l).0.clone();
            let t = format!("{when}: {n}[{l:?}].iter()");
            quietly(&t, call(t.clone(), || w.iter(l.borrow()).collect::<Result<Vec<_>>>()), m.clone());
            let t = format!("{when}: {n}[{l:?}].iter_backwards()");
            quietly(&t, call(t.clone(), || w.iter_backwards(l.borrow()).collect::<Result<Vec<_>>>()), m.iter().rev().cloned().collect());
            let t = format!("{when}: {n}[{l:?}].len()");
            quietly(&t, call(t.clone(), || w.len(l.borrow())), m.len());
            for k in K::cands() {
                let t = format!("{when}: {n}[{l:?}].get({k:?})");
                quietly(&t, call(t.clone(), || w.get(l.borrow(), k.borrow())), m.iter().find(|x| x.0 == k).map(|x| x.1.clone()));
            }
        }
    }
    fn release(&mut self) {
        self.w = None;
    }
    fn bind(&mut self, st: Arc<CandyStore>) {
        self.w = Some(CandyTypedList::new(st));
    }
    fn raw(&self) -> Vec<B> {
        let mut v = rawkeys::<L>();
        v.extend(rawkeys::<K>());
        v
    }
    fn clear(&mut self) {
        self.m.clear();
    }
}

struct Deque<L, V> {
    w: Option<CandyTypedDeque<L, V>>,
    m: Vec<(L, BTreeMap<usize, V>)>,
}
impl<L: TK, V: TV> Deque<L, V> {
    fn l(&mut self, l: &L) -> &mut BTreeMap<usize, V> {
        if !self.m.iter().any(|x| x.0 == *l) {
            self.m.push((l.clone(), BTreeMap::new()));
        }
        &mut self.m.iter_mut().find(|x| x.0 == *l).unwrap().1
    }
}
impl<L: TK, V: TV> Obj for Deque<L, V> {
    fn step(&mut self, g: &mut G) {
        let ls = L::cands();
        let l = ls[g.us(ls.len().min(3))].clone();
        let n = format!("deque<{}>[{l:?}]", L::name());
        let w = self.w.clone().unwrap();
        let m = self.l(&l);
        let lq: &L::Q = l.borrow();
        let idx = g.chance(1, 2);
        match g.weighted(&[5, 5, 3, 3, 1, 1, 1, 1]) {
            x @ (0 | 1) => {
                let v = V::make(g);
                let t = format!("{n}.push_{}({v:?})", if x == 0 { "head" } else { "tail" });
                call(t.clone(), || if x == 0 { w.push_head(lq, &v) } else { w.push_tail(lq, &v) });
                trace!("{t}");
                // indices are what the queue says: read the new one back
                let (i, r) = if x == 0 { call(t.clone(), || w.peek_head_with_idx(lq)) } else { call(t.clone(), || w.peek_tail_with_idx(lq)) }.unwrap_or((0, V::make(g)));
                same(&format!("{t}, and peeking"), r, v.clone());
                let fits = if x == 0 { m.keys().next().is_none_or(|f| i < *f) } else { m.keys().last().is_none_or(|f| i > *f) };
                check!(fits, "typed", "{t}: the new element's index {i} is not beyond {:?}", m.keys().collect::<Vec<_>>());
                m.insert(i, v);
            }
            2 => {
                let t = format!("{n}.pop_head()");
                let want = m.pop_first();
                if idx {
                    same(&t, call(t.clone(), || w.pop_head_with_idx(lq)), want);
                } else {
                    same(&t, call(t.clone(), || w.pop_head(lq)), want.map(|x| x.1));
                }
            }
            3 => {
                let t = format!("{n}.pop_tail()");
                let want = m.pop_last();
                if idx {
                    same(&t, call(t.clone(), || w.pop_tail_with_idx(lq)), want);
                } else {
                    same(&t, call(t.clone(), || w.pop_tail(lq)), want.map(|x| x.1));
                }
            }
            4 => {
                let t = format!("{n}.peek_head()");
                let want = m.first_key_value().map(|(k, v)| (*k, v.clone()));
                if idx {
                    same(&t, call(t.clone(), || w.peek_head_with_idx(lq)), want);
                } else {
                    same(&t, call(t.clone(), || w.peek_head(lq)), want.map(|x| x.1));
                }
            }
            5 => {
                let t = format!("{n}.peek_tail()");
                let want = m.last_key_value().map(|(k, v)| (*k, v.clone()));
                if idx {
                    same(&t, call(t.clone(), || w.peek_tail_with_idx(lq)), want);
                } else {
                    same(&t, call(t.clone(), || w.peek_tail(lq)), want.map(|x| x.1));
                }
            }
            6 => {
                let t = format!("{n}.len()");
                same(&t, call(t.clone(), || w.len(lq)), m.len());
            }
            _ => {
                let t = format!("{n}.range()");
                let r = call(t.clone(), || w.range(lq));
                trace!("{t} -> {r:?}");
                check!(m.keys().all(|k| r.contains(k)), "typed", "{t}: {r:?} does not cover the elements {:?}", m.keys().collect::<Vec<_>>());
            }
        }
    }
    fn verify(&mut self, when: &str) {
        let w = self.w.clone().unwrap();
        for l in L::cands().into_iter().take(3) {
            let m: Vec<(usize, V)> = self.l(&l).clone().into_iter().collect();
            let t = format!("{when}: deque<{}>[{l:?}].iter()", L::name());
            quietly(&t, call(t.clone(), || w.iter(l.borrow()).collect::<Result<Vec<_>>>()), m.clone());
            let t = format!("{when}: deque<{}>[{l:?}].iter_backwards()", L::name());
            quietly(&t, call(t.clone(), || w.iter_backwards(l.borrow()).collect::<Result<Vec<_>>>()), m.iter().rev().cloned().collect());
            let t = format!("{when}: deque<{}>[{l:?}].len()", L::name());
            quietly(&t, call(t.clone(), || w.len(l.borrow())), m.len());
        }
    }
    fn release(&mut self) {
        self.w = None;
    }
    fn bind(&mut self, st: Arc<CandyStore>) {
        self.w = Some(CandyTypedDeque::new(st));
    }
    fn raw(&self) -> Vec<B> {
        rawkeys::<L>()
    }
    fn clear(&mut self) {
        self.m.clear();
    }
}

fn s<K: TK, V: TV>() -> Box<dyn Obj> {
    Box::new(Store::<K, V> { w: None, m: Lm(vec![]), big: Lm(vec![]) })
}
fn l<L: TK, K: TK, V: TV>() -> Box<dyn Obj> {
    Box::new(List::<L, K, V> { w: None, m: vec![] })
}
fn d<L: TK, V: TV>() -> Box<dyn Obj> {
    Box::new(Deque::<L, V> { w: None, m: vec![] })
}
/// groups of types whose keys encode alike
fn group(i: usize) -> Vec<Box<dyn Obj>> {
    match i {
        0 => vec![s::<u8, u64>(), s::<i8, String>(), s::<bool, Rec>(), l::<u8, u8, u64>(), l::<bool, i8, String>(), d::<u8, u64>(), d::<i8, String>()],
        1 => vec![s::<u32, String>(), s::<i32, u64>(), s::<MyId, Rec>(), s::<YourId, Vec<u8>>(), l::<u32, MyId, Rec>(), l::<MyId, u32, u64>(), l::<YourId, u32, String>(), d::<MyId, Rec>(), d::<u32, u64>()],
        2 => vec![s::<String, Rec>(), s::<Vec<u8>, u64>(), s::<Name, String>(), l::<String, Vec<u8>, u64>(), l::<Vec<u8>, String, Rec>(), l::<Name, String, ()>(), d::<String, Vec<u8>>(), d::<Name, Option<i32>>()],
        3 => vec![s::<u64, Option<i32>>(), s::<i64, ()>(), s::<usize, bool>(), s::<isize, Vec<u8>>(), l::<u64, i64, Option<i32>>(), l::<usize, u64, ()>(), d::<u64, ()>(), d::<usize, bool>()],
        4 => vec![s::<u16, u64>(), s::<i16, String>(), s::<char, Rec>(), l::<u16, char, u64>(), l::<char, u16, String>(), d::<char, String>()],
        _ => vec![s::<u128, u64>(), s::<i128, String>(), s::<[u8; 16], Rec>(), l::<[u8; 16], u128, u64>(), l::<u128, [u8; 16], Vec<u8>>(), d::<[u8; 16], String>()],
    }
}
fn c14(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfg = gen_cfg(g, &CfgGen { max: &[1200, 600, 2500, 20000], thr_div: &[4, 2, 8, 3], expected: &[0, 0, 0, 40_000], threads: 2 });
    cfg.hash_seed = *SEED;
    let gr = g.us(7);
    let mut objs = if gr < 6 { group(gr) } else { ids(g.n(3)) };
    // untyped objects: plain keys made of the very bytes the wrappers use
    let mut raw: Vec<B> = objs.iter().flat_map(|o| o.raw()).collect();
    raw.sort();
    raw.dedup();
    let mut keys = numbered("k", 4);
    for _ in 0..12 {
        keys.push(raw[g.us(raw.len())].clone());
    }
    keys.sort();
    keys.dedup();
    let p = Pools { keys, lists: numbered("untyped", 2), items: numbered("i", 3), queues: numbered("untyped", 2), bigs: numbered("big", 2), maxval: 40, ctr: 0 };
    let n = g.range(10, if c.thorough { 400 } else { 150 });
    let clears = g.chance(1, 6);
    let (sv, pol) = g.sched(40);
    rt::start();
    rt::set_sched(sv, pol);
    let mut se = Sess::new(&c.dir, cfg, p);
    for o in &mut objs {
        o.bind(se.arc());
    }
    let mix = Mix { kv: 8, list: 2, queue: 2, big: 1, stats: 1, ..MIX0 };
    let mut typed = 0;
    for i in 0..g.count(OP, n) {
        g.select(OP, i);
        match g.weighted(&[60, 14, 2, 2, 1]) {
            0 => {
                let k = g.us(objs.len());
                objs[k].step(g);
                typed += 1;
            }
            1 => {
                if let Step::Op(op) = gen_step(g, &mut se, &mix, 200) {
                    se.run(&op);
                }
            }
            2 => {
                let k = g.us(objs.len());
                objs[k].verify("then");
            }
            3 => {
                for o in &mut objs {
                    o.release();
                }
                se.reopen(None);
                for o in &mut objs {
                    o.bind(se.arc());
                }
                label("reopened");
            }
            _ => {
                if clears {
                    se.k(K::Clear);
                    for o in &mut objs {
                        o.clear();
                    }
                }
            }
        }
    }
    for o in &mut objs {
        o.verify("finally");
    }
    se.verify("final untyped contents");
    let (sp, co) = se.label_restructuring();
    for o in &mut objs {
        o.release();
    }
    se.reopen(None);
    for o in &mut objs {
        o.bind(se.arc());
        o.verify("after reopening");
    }
    se.verify("untyped contents after reopening");
    for o in &mut objs {
        o.release();
    }
    se.close();
    label_n("typed operations", typed);
    if typed >= 5 {
        nontrivial();
    }
    let _ = (sp, co);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        level: "exploration",
        rule: "a case counts when it performed five or more operations through typed wrappers",
        assumptions: &["an untyped list or queue is not deliberately named by the encoding of a typed list's key followed by its type id: that is the same list"],
        parts: &[("typed", 3000, 60000, c14)],
        expect: &["reopened", "cases-with-splits", "cases-with-compactions"],
    }]
}
