//! Crash images: copies of the store's directory taken immediately before a file effect or a store to a mapped header,
//! i.e. exactly what a process killed at that instant leaves behind; and their verification by recovery.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::rt::{self, Ev, S};
use candystore::{CandyStore, Config};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---------------------------------------------------------------- directory images
#[derive(Clone)]
pub struct FileImg {
    pub len: u64,
    pub pages: Vec<(u32, Arc<[u8]>)>,
}
#[derive(Clone, Default)]
pub struct Img {
    pub files: BTreeMap<String, FileImg>,
}
static mut PAGES: Option<HashMap<u64, Vec<Arc<[u8]>>>> = None;
fn intern(p: &[u8]) -> Arc<[u8]> {
    let mut h = 0xcbf29ce484222325u64;
    for c in p.chunks_exact(8) {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &c in p.chunks_exact(8).remainder() {
        h = (h ^ c as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    let m = unsafe { PAGES.get_or_insert_with(HashMap::new) };
    let e = m.entry(h).or_default();
    for a in e.iter() {
        if **a == *p {
            return a.clone();
        }
    }
    let a: Arc<[u8]> = p.into();
    e.push(a.clone());
    a
}
const PG: usize = 4096;
pub fn file_img(fd: i32) -> FileImg {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        rt::raw(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0);
        let len = st.st_size as u64;
        let mut pages = vec![];
        if len > 0 {
            let pos = rt::raw(libc::SYS_lseek, fd as usize, 0, libc::SEEK_CUR as usize, 0, 0, 0);
            static mut BUF: Vec<u8> = Vec::new();
            let chunk = 1 << 20;
            if BUF.len() < chunk {
                BUF.resize(chunk, 0);
            }
            let mut off = 0usize;
            while (off as u64) < len {
                // skip holes
                let d = rt::raw(libc::SYS_lseek, fd as usize, off, libc::SEEK_DATA as usize, 0, 0, 0);
                if d < 0 {
                    break;
                }
                off = (d as usize) & !(PG - 1);
                let n = rt::raw(libc::SYS_pread64, fd as usize, BUF.as_mut_ptr() as usize, chunk, off, 0, 0);
                if n <= 0 {
                    break;
                }
                for (i, p) in BUF[..n as usize].chunks(PG).enumerate() {
                    let zero = if p.len() == PG { p.chunks_exact(64).all(|c| c == [0u8; 64]) } else { p.iter().all(|&b| b == 0) };
                    if !zero {
                        pages.push(((off / PG + i) as u32, intern(p)));
                    }
                }
                off += n as usize;
            }
            rt::raw(libc::SYS_lseek, fd as usize, pos.max(0) as usize, libc::SEEK_SET as usize, 0, 0, 0);
        }
        FileImg { len, pages }
    }
}
fn open_ro(p: &Path) -> i32 {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { rt::raw(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, (libc::O_RDONLY | libc::O_CLOEXEC) as usize, 0, 0, 0) as i32 }
}
fn close_fd(fd: i32) {
    unsafe {
        rt::raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    }
}
pub fn take(dir: &Path) -> Img {
    let mut im = Img::default();
    let Ok(rd) = std::fs::read_dir(dir) else { return im };
    for e in rd.filter_map(|e| e.ok()) {
        let Ok(t) = e.file_type() else { continue };
        if !t.is_file() {
            continue;
        }
        let fd = open_ro(&e.path());
        if fd < 0 {
            continue;
        }
        im.files.insert(e.file_name().to_string_lossy().into_owned(), file_img(fd));
        close_fd(fd);
    }
    im
}
pub fn put(im: &Img, dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (n, f) in &im.files {
        use std::os::unix::fs::FileExt;
        let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(n)).unwrap();
        file.set_len(f.len).unwrap();
        for (p, d) in &f.pages {
            file.write_all_at(d, *p as u64 * PG as u64).unwrap();
        }
    }
}
impl Img {
    pub fn describe(&self) -> String {
        self.files.iter().filter(|f| f.0 != ".lock").map(|(n, f)| format!("{n}({})", f.len)).collect::<Vec<_>>().join(" ")
    }
}

// ---------------------------------------------------------------- recorder
#[derive(Clone)]
pub struct Image {
    pub img: Img,
    pub ev: Ev,
    pub n: u64,
    pub prog: Vec<(usize, bool)>,
    pub front: Vec<usize>, // per client, how many operations a completed flush covers
}
struct Rec {
    durable: bool,
    named: bool, // the last event changed names
    seen: u64,
    front: Vec<usize>,
    on: bool,
    dir: PathBuf,
    gap: u64,
    left: u64,
    n: u64,
    cap: usize,
    salt: u64,
    imgs: Vec<Image>,
    prog: Vec<(usize, bool)>,
}
static mut REC: Option<Rec> = None;

fn on_ev(e: Ev) {
    unsafe {
        let Some(r) = REC.as_mut() else { return };
        if !r.on {
            return;
        }
        r.n += 1;
        // events are reported before they take effect. what is durable changes meaning when names change, so look right
        // after that; what is written is looked at right before it
        let named = matches!(e, Ev::Rename | Ev::Unlink | Ev::Create);
        let must = if r.durable { std::mem::replace(&mut r.named, named) } else { named || matches!(e, Ev::Trunc | Ev::Resize) };
        if !must || r.gap > 200 {
            if r.left > 0 {
                r.left -= 1;
                return;
            }
            r.left = if r.gap == 0 { 0 } else { rt::mix(r.salt ^ r.n) % (2 * r.gap + 1) };
        }
        // when there are too many, each is kept with the same probability
        r.seen += 1;
        let mut at = r.imgs.len();
        if at >= r.cap {
            let x = rt::mix(r.salt ^ (r.seen << 20));
            if r.cap == 0 || x % r.seen >= r.cap as u64 {
                return;
            }
            at = (x >> 32) as usize % r.cap;
        }
        let img = if r.durable { durable(&r.dir) } else { take(&r.dir) };
        if at < r.imgs.len() {
            r.imgs.swap_remove(at);
        }
        r.imgs.push(Image { img, ev: e, n: r.n, prog: r.prog.clone(), front: r.front.clone() });
    }
}
/// record crash images of `dir`: one for about every `gap`+1 events (0: all), at most `cap`
pub fn record(dir: &Path, gap: u64, skip: u64, cap: usize, clients: usize, salt: u64) {
    unsafe {
        let prog = match REC.take() {
            Some(r) if r.prog.len() == clients => r.prog,
            _ => vec![(0, false); clients],
        };
        REC = Some(Rec { durable: false, named: false, seen: 0, front: vec![0; clients], on: true, dir: dir.into(), gap, left: skip, n: 0, cap, salt, imgs: vec![], prog });
        S.on_ev = Some(on_ev);
        S.trap = true;
    }
}
pub fn progress(c: usize, acked: usize, inflight: bool) {
    unsafe {
        if let Some(r) = REC.as_mut() {
            r.prog[c] = (acked, inflight);
        }
    }
}
/// from now on, images hold what has been synced, not what has been written
pub fn durable_mode() {
    unsafe {
        if let Some(r) = REC.as_mut() {
            r.durable = true;
        }
        S.trap = false;
        S.on_sync = Some(on_sync);
        S.on_create = Some(on_create);
    }
}
pub fn acked() -> Vec<usize> {
    unsafe { REC.as_ref().unwrap().prog.iter().map(|p| p.0).collect() }
}
/// everything in `f` is durable from now on
pub fn flushed(f: &[usize]) {
    unsafe {
        let r = REC.as_mut().unwrap();
        for (a, b) in r.front.iter_mut().zip(f) {
            *a = (*a).max(*b);
        }
    }
}
pub fn full() -> bool {
    unsafe { REC.as_ref().is_some_and(|r| r.imgs.len() >= r.cap) }
}
// contents of every inode as of its last successful sync
static mut SYNCED: Option<HashMap<u64, FileImg>> = None;
pub static mut NSYNC: u64 = 0;
/// a new file may have the number of one that is gone
fn on_create(ino: u64) {
    unsafe {
        SYNCED.get_or_insert_with(HashMap::new).remove(&ino);
    }
}
pub fn on_sync(fd: i32, ino: u64) {
    unsafe {
        NSYNC += 1;
        let m = SYNCED.get_or_insert_with(HashMap::new);
        if fd >= 0 {
            m.insert(ino, file_img(fd));
            return;
        }
        // the whole file system, or only the mapped header of one file
        let Some(r) = REC.as_ref() else { return };
        let Ok(rd) = std::fs::read_dir(&r.dir) else { return };
        for e in rd.filter_map(|e| e.ok()) {
            use std::os::unix::fs::DirEntryExt;
            if fd == -2 && e.ino() != ino {
                continue;
            }
            let f = open_ro(&e.path());
            if f < 0 {
                continue;
            }
            let im = file_img(f);
            close_fd(f);
            if fd == -1 {
                m.insert(e.ino(), im);
            } else {
                let hp = 100; // pages of the header, rounded up
                let o = m.entry(ino).or_insert(FileImg { len: 0, pages: vec![] });
                o.pages.retain(|p| p.0 >= hp);
                o.pages.extend(im.pages.iter().filter(|p| p.0 < hp).cloned());
                o.len = o.len.max(im.len);
            }
        }
    }
}
/// what is left of the directory when everything that was not synced is lost (names excepted)
pub fn durable(dir: &Path) -> Img {
    let mut im = Img::default();
    let Ok(rd) = std::fs::read_dir(dir) else { return im };
    let m = unsafe { SYNCED.get_or_insert_with(HashMap::new) };
    for e in rd.filter_map(|e| e.ok()) {
        use std::os::unix::fs::DirEntryExt;
        if !e.file_type().is_ok_and(|t| t.is_file()) {
            continue;
        }
        im.files.insert(e.file_name().to_string_lossy().into_owned(), m.get(&e.ino()).cloned().unwrap_or(FileImg { len: 0, pages: vec![] }));
    }
    im
}
pub fn pause(on: bool) {
    unsafe {
        if let Some(r) = REC.as_mut() {
            r.on = on;
        }
    }
}
/// a last image now
pub fn snap_now(e: Ev) {
    unsafe {
        if let Some(r) = REC.as_mut() {
            let img = if r.durable { durable(&r.dir) } else { take(&r.dir) };
            r.n += 1;
            r.imgs.push(Image { img, ev: e, n: r.n, prog: r.prog.clone(), front: r.front.clone() });
        }
    }
}
pub fn stop() -> (Vec<Image>, u64) {
    unsafe {
        S.on_ev = None;
        S.trap = false;
        let r = REC.as_mut().unwrap();
        r.on = false;
        (std::mem::take(&mut r.imgs), r.n)
    }
}

// ---------------------------------------------------------------- observation
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub kv: BTreeMap<B, B>,
    pub iter: Vec<(B, B)>,
    pub lists: BTreeMap<B, ListObs>,
    pub queues: BTreeMap<B, QueueObs>,
    pub bigs: BTreeMap<B, Option<B>>,
}
#[derive(Clone, Debug, Default)]
pub struct ListObs {
    pub fwd: Vec<(B, B)>,
    pub bwd: Vec<(B, B)>,
    pub get: BTreeMap<B, B>,
}
#[derive(Clone, Debug, Default)]
pub struct QueueObs {
    pub fwd: Vec<(u64, B)>,
    pub bwd: Vec<(u64, B)>,
    pub range: (u64, u64),
}
pub fn observe(st: &CandyStore, p: &Pools) -> Result<Obs, String> {
    let mut o = Obs::default();
    let ex = |k: K| -> Result<Res, String> {
        let op = Op { k, alt: false };
        let r = run_op(st, &op);
        match r {
            Res::Err(e) => Err(format!("{op} failed: {e:?}")),
            Res::Panic(e) => Err(format!("{op} panicked: {e}")),
            r => Ok(r),
        }
    };
    for k in &p.keys {
        if let Res::Opt(Some(v)) = ex(K::Get(k.clone()))? {
            o.kv.insert(k.clone(), v);
        }
    }
    if let Res::Kvs(v) = ex(K::Iter)? {
        o.iter = v;
    }
    for l in &p.lists {
        let mut lo = ListObs::default();
        if let Res::Kvs(v) = ex(K::LIter(l.clone()))? {
            lo.fwd = v;
        }
        if let Res::Kvs(v) = ex(K::LIterB(l.clone()))? {
            lo.bwd = v;
        }
        for i in &p.items {
            if let Res::Opt(Some(v)) = ex(K::LGet(l.clone(), i.clone()))? {
                lo.get.insert(i.clone(), v);
            }
        }
        ex(K::LLen(l.clone()))?;
        o.lists.insert(l.clone(), lo);
    }
    for q in &p.queues {
        let mut qo = QueueObs::default();
        if let Res::Ivs(v) = ex(K::QIter(q.clone()))? {
            qo.fwd = v;
        }
        if let Res::Ivs(v) = ex(K::QIterB(q.clone()))? {
            qo.bwd = v;
        }
        if let Res::Range(a, b) = ex(K::QRange(q.clone()))? {
            qo.range = (a, b);
        }
        ex(K::QLen(q.clone()))?;
        o.queues.insert(q.clone(), qo);
    }
    for b in &p.bigs {
        if let Res::Opt(v) = ex(K::BGet(b.clone()))? {
            o.bigs.insert(b.clone(), v);
        }
    }
    Ok(o)
}
impl Obs {
    /// everything but plain iteration agrees with itself
    pub fn coherent(&self) -> Result<(), String> {
        let mut it = self.iter.clone();
        it.sort();
        let kv: Vec<(B, B)> = self.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        if it != kv {
            return Err(format!("iteration disagrees with lookups: {}", diff(&it, &kv)));
        }
        for (l, o) in &self.lists {
            let mut r = o.bwd.clone();
            r.reverse();
            if r != o.fwd {
                return Err(format!("list {}: forward {} and backward {} iteration disagree", short(l), Res::Kvs(o.fwd.clone()), Res::Kvs(o.bwd.clone())));
            }
            let mut s = o.fwd.clone();
            s.sort();
            let g: Vec<(B, B)> = o.get.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            if s != g {
                return Err(format!("list {}: iteration disagrees with lookups by key: {}", short(l), diff(&s, &g)));
            }
        }
        for (q, o) in &self.queues {
            let mut r = o.bwd.clone();
            r.reverse();
            if r != o.fwd {
                return Err(format!("queue {}: forward {} and backward {} iteration disagree", short(q), Res::Ivs(o.fwd.clone()), Res::Ivs(o.bwd.clone())));
            }
            if o.range.0 > o.range.1 {
                return Err(format!("queue {}: inverted range", short(q)));
            }
        }
        Ok(())
    }
    /// the observation restricted to the objects of one client
    pub fn restrict(&self, p: &Pools) -> Obs {
        Obs {
            kv: self.kv.iter().filter(|(k, _)| p.keys.contains(k)).map(|(a, b)| (a.clone(), b.clone())).collect(),
            iter: vec![],
            lists: self.lists.iter().filter(|(k, _)| p.lists.contains(k)).map(|(a, b)| (a.clone(), b.clone())).collect(),
            queues: self.queues.iter().filter(|(k, _)| p.queues.contains(k)).map(|(a, b)| (a.clone(), b.clone())).collect(),
            bigs: self.bigs.iter().filter(|(k, _)| p.bigs.contains(k)).map(|(a, b)| (a.clone(), b.clone())).collect(),
        }
    }
    pub fn matches(&self, m: &Model) -> Result<(), String> {
        if self.kv != m.kv {
            let a: Vec<(B, B)> = self.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            let b: Vec<(B, B)> = m.kv.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            return Err(format!("plain keys: {}", diff(&a, &b)));
        }
        for (l, o) in &self.lists {
            let w = m.lists.get(l).cloned().unwrap_or_default();
            if o.fwd != w {
                return Err(format!("list {}: holds {}, expected {}", short(l), Res::Kvs(o.fwd.clone()), Res::Kvs(w)));
            }
        }
        for (q, o) in &self.queues {
            let w: Vec<(u64, B)> = m.queues.get(q).map_or(vec![], |m| m.iter().map(|(i, v)| (*i, v.clone())).collect());
            if o.fwd != w {
                return Err(format!("queue {}: holds {}, expected {}", short(q), Res::Ivs(o.fwd.clone()), Res::Ivs(w)));
            }
        }
        for (b, o) in &self.bigs {
            let w = m.bigs.get(b).cloned();
            if *o != w {
                return Err(format!("big {}: reads {}, expected {}", short(b), Res::Opt(o.clone()), Res::Opt(w)));
            }
        }
        Ok(())
    }
    /// the model state this observation corresponds to
    pub fn model(&self) -> Model {
        Model {
            kv: self.kv.clone(),
            lists: self.lists.iter().map(|(l, o)| (l.clone(), o.fwd.clone())).collect(),
            queues: self.queues.iter().map(|(l, o)| (l.clone(), o.fwd.iter().cloned().collect())).collect(),
            bigs: self.bigs.iter().filter_map(|(b, o)| o.clone().map(|v| (b.clone(), v))).collect(),
            lenient_len: true,
            loose: Default::default(),
        }
    }
}

// ---------------------------------------------------------------- verification
pub struct Client {
    pub ops: Vec<Op>,
    pub models: Vec<Model>, // models[i] = state after i operations
    pub pools: Pools,
}
pub struct Verify<'a> {
    pub cfg: &'a Config,
    pub dir: &'a Path,
    pub clients: &'a [Client],
    /// decides whether a state between `before` and `after` is acceptable for the operation in flight
    pub partial: fn(op: &Op, before: &Model, after: &Model, o: &Obs) -> bool,
    pub all: Pools,
    pub nested: u64, // one image in so many is crashed again during recovery (0: never)
    pub cont: u64,   // one image in so many is used further (0: never)
    pub salt: u64,
    pub gen: fn(&mut G, &mut Pools, &Model) -> Op,
    pub contlen: usize,
}
pub fn no_partial(_: &Op, _: &Model, _: &Model, _: &Obs) -> bool {
    false
}
pub fn union(cl: &[Client]) -> Pools {
    let mut p = cl[0].pools.clone();
    for c in &cl[1..] {
        p.keys.extend(c.pools.keys.iter().cloned());
        p.lists.extend(c.pools.lists.iter().cloned());
        p.queues.extend(c.pools.queues.iter().cloned());
        p.bigs.extend(c.pools.bigs.iter().cloned());
        for i in &c.pools.items {
            if !p.items.contains(i) {
                p.items.push(i.clone());
            }
        }
    }
    p
}
/// check one recovered store; returns its state and, per client, the operation in flight
pub fn judge(v: &Verify, st: &CandyStore, prog: &[(usize, bool)], at: &str) -> Model {
    let o = match observe(st, &v.all) {
        Ok(o) => o,
        Err(e) => bad!("crash-read", "{at}: {e}"),
    };
    if let Err(e) = o.coherent() {
        bad!("crash-incoherent", "{at}: {e}");
    }
    for (ci, c) in v.clients.iter().enumerate() {
        let (k, infl) = prog[ci];
        let r = o.restrict(&c.pools);
        let mut ok = r.matches(&c.models[k]);
        if ok.is_err() && infl && k < c.ops.len() {
            let e1 = ok.clone().unwrap_err();
            if c.models.len() > k + 1 {
                ok = r.matches(&c.models[k + 1]);
            }
            if ok.is_err() && c.models.len() > k + 1 && (v.partial)(&c.ops[k], &c.models[k], &c.models[k + 1], &r) {
                ok = Ok(());
            }
            if let Err(e2) = ok {
                bad!(if infl { "crash-inflight" } else { "crash-lost" }, "{at}: neither the state before nor after the operation in flight ({}): {e1} / {e2}", c.ops[k]);
            }
        } else if let Err(e) = ok {
            bad!("crash-lost", "{at}: {e}");
        }
    }
    o.model()
}
pub fn where_(im: &Image, v: &Verify) -> String {
    let mut s = format!("killed before effect #{} ({:?})", im.n, im.ev);
    for (ci, c) in v.clients.iter().enumerate() {
        let (k, infl) = im.prog[ci];
        if infl && k < c.ops.len() {
            s.push_str(&format!(", during operation {} [{}]", k + 1, c.ops[k]));
        } else {
            s.push_str(&format!(", after operation {k}"));
        }
    }
    s.push_str(&format!(", leaving {}", im.img.describe()));
    s
}
pub fn verify_images(g: &mut G, v: &mut Verify, imgs: &[Image]) {
    rt::end_sched();
    let d = v.dir.join("img");
    let d2 = v.dir.join("img2");
    for (ix, im) in imgs.iter().enumerate() {
        let at = where_(im, v);
        put(&im.img, &d);
        let h = rt::mix(v.salt ^ im.n.wrapping_mul(77));
        let nest = v.nested > 0 && h % v.nested == 0;
        if nest {
            unsafe { REC = None };
            record(&d, if h & 64 == 0 { 0 } else { 5 }, 0, 40, v.clients.len(), h);
        }
        let st = match try_open(&d, v.cfg) {
            Ok(s) => s,
            Err(e) => bad!("crash-open", "{at}: the store cannot be opened again: {e}"),
        };
        let sub = if nest { stop().0 } else { vec![] };
        evals(1);
        let m = judge(v, &st, &im.prog, &at);
        if v.cont > 0 && (h >> 20) % v.cont == 0 {
            let mut m = m;
            let mut p = v.all.clone();
            p.ctr = 1_000_000;
            // repeat the operations that were in flight (or not), then go on
            let mut ops: Vec<Op> = vec![];
            let repeat = (h >> 32) % 2 == 0;
            for (ci, c) in v.clients.iter().enumerate() {
                let (k, infl) = im.prog[ci];
                if repeat && infl && k < c.ops.len() {
                    ops.push(c.ops[k].clone());
                }
            }
            let nrep = ops.len();
            let mut done = vec![];
            for j in 0..nrep + v.contlen {
                let op = if j < nrep {
                    ops[j].clone()
                } else {
                    g.select(EXTRA, 100 + ix * 64 + j);
                    (v.gen)(g, &mut p, &m)
                };
                let r = run_op(&st, &op);
                done.push(format!("{op} -> {r}"));
                if let Err(e) = m.apply(&op, &r) {
                    bad!("crash-continue", "{at}; after recovery: {}: {e}", done.join("; "));
                }
            }
            let r = run_op(&st, &Op { k: K::Stats, alt: false });
            if r.is_err() {
                bad!("crash-continue", "{at}; after recovery and {}: stats: {r}", done.join("; "));
            }
            let fin = |st: &CandyStore, what: &str, m: &Model| {
                let o = match observe(st, &v.all) {
                    Ok(o) => o,
                    Err(e) => bad!("crash-continue", "{at}; {what} {}: {e}", done.join("; ")),
                };
                if let Err(e) = o.coherent().and_then(|_| o.matches(m)) {
                    bad!("crash-continue", "{at}; {what} {}: {e}", done.join("; "));
                }
            };
            fin(&st, "after recovery and", &m);
            close(st);
            settle();
            let st = match try_open(&d, v.cfg) {
                Ok(s) => s,
                Err(e) => bad!("crash-open", "{at}; recovery, {} and closing: the store cannot be opened again: {e}", done.join("; ")),
            };
            fin(&st, "after recovery, reopening and", &m);
            close(st);
            label("recovered stores used further");
        } else {
            close(st);
        }
        settle();
        if candy_panics() > 0 {
            bad!("panic", "{at}: a background thread panicked: {}", last_panic());
        }
        for s in &sub {
            put(&s.img, &d2);
            let at2 = format!("{at}; then killed again during recovery, before effect #{} ({:?}), leaving {}", s.n, s.ev, s.img.describe());
            let st = match try_open(&d2, v.cfg) {
                Ok(s) => s,
                Err(e) => bad!("crash-open", "{at2}: the store cannot be opened again: {e}"),
            };
            evals(1);
            judge(v, &st, &im.prog, &at2);
            close(st);
            settle();
            label("crashes during recovery");
        }
        match im.ev {
            Ev::Header => label("crash before a header store"),
            Ev::Write => label("crash before or inside a data write"),
            Ev::Rename => label("crash before a rename"),
            Ev::Unlink => label("crash before an unlink"),
            Ev::Create | Ev::Trunc => label("crash before creating a file"),
            _ => label("crash at another point"),
        }
        let f = &im.img.files;
        if f.keys().any(|k| k.starts_with("compact_")) {
            label("crash during compaction");
        }
        if f.keys().any(|k| k.starts_with("bottom_") || k.starts_with("top_")) {
            label("crash during a split");
        }
        if f.keys().any(|k| k.starts_with("merge_")) {
            label("crash during a merge");
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    let _ = std::fs::remove_dir_all(&d2);
}

/// run one client's operations on its own model; used inside harness threads or directly
pub fn drive(s: &Arc<CandyStore>, ci: usize, c: &mut Client, g: *mut G, from: usize, n: usize, stride: usize, gen: fn(&mut G, &mut Pools, &Model) -> Op) {
    for i in from..n {
        let g = unsafe { &mut *g };
        g.select(OP, i * stride + ci);
        let m = c.models.last().unwrap().clone();
        let mut op = gen(g, &mut c.pools, &m);
        if stride > 1 && matches!(op.k, K::Iter | K::Clear) {
            op.k = K::Flush; // would see or touch the other clients' keys
        }
        c.ops.push(op.clone());
        progress(ci, i, true);
        let r = run_op(s, &op);
        progress(ci, i + 1, false);
        if stride == 1 {
            trace!("{op} -> {r}");
        } else {
            trace!("[{ci}] {op} -> {r}");
        }
        let mut m = m;
        if let Err(e) = m.apply(&op, &r) {
            bad!(sig_of(&op, &r), "{op}: {e}");
        }
        c.models.push(m);
    }
}
