//! Shared pieces of the properties: a store under test together with its model.
#![allow(static_mut_refs)]
use crate::engine::*;
use crate::model::*;
use crate::rt;
use candystore::{CandyStore, Config};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub const SEED: &[u8; 16] = b"kOYLu0xvq2WtzcKJ";

pub fn candy_panics() -> usize {
    unsafe { PANICS.len() }
}
pub fn last_panic() -> String {
    unsafe { PANICS.last().cloned().unwrap_or_default() }
}
pub fn copy_cfg(c: &Config) -> Config {
    let mut k = Config::default();
    k.max_shard_size = c.max_shard_size;
    k.min_compaction_threashold = c.min_compaction_threashold;
    k.hash_seed = c.hash_seed;
    k.expected_number_of_keys = c.expected_number_of_keys;
    k.max_concurrent_list_ops = c.max_concurrent_list_ops;
    k.truncate_up = c.truncate_up;
    k.clear_on_unsupported_version = c.clear_on_unsupported_version;
    k.mlock_headers = c.mlock_headers;
    k.num_compaction_threads = c.num_compaction_threads;
    #[cfg(feature = "flushagg")]
    {
        k.flush_aggregation_delay = c.flush_aggregation_delay;
    }
    k
}
/// open, catching panics
pub fn try_open(dir: &Path, cfg: &Config) -> Result<CandyStore, String> {
    let c = copy_cfg(cfg);
    let d = dir.to_path_buf();
    match rt::api(op_id("open".into()), move || CandyStore::open(d, c)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("error: {e:#}")),
        Err(p) => Err(format!("PANIC: {p} ({})", last_panic())),
    }
}
pub fn run_op(st: &CandyStore, op: &Op) -> Res {
    match rt::api(op_id(op.to_string()), || exec(st, op)) {
        Ok(r) => r,
        Err(p) => Res::Panic(format!("{p} ({})", last_panic())),
    }
}
pub fn close(st: CandyStore) {
    if let Err(p) = rt::api(op_id("close".into()), move || drop(st)) {
        bad!("close-panic", "closing the store panicked: {p} ({})", last_panic());
    }
}
pub fn settle() {
    rt::drain();
}
/// number of shards a directory holds, by the file names the store itself uses
pub fn dir_files(dir: &Path) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| (e.file_name().to_string_lossy().into_owned(), e.metadata().map_or(0, |m| m.len()))).collect())
        .unwrap_or_default();
    v.sort();
    v
}

pub struct Sess {
    pub dir: PathBuf,
    pub cfg: Config,
    st: Option<Arc<CandyStore>>,
    pub m: Model,
    pub p: Pools,
    pub quietly: bool, // do not trace individual operations
    pub nops: u64,
    /// bytes read and written when the statistics were zero
    pub base: (usize, usize, usize),
    pub keyset: std::collections::BTreeSet<B>,
}
impl Sess {
    pub fn new(dir: &Path, cfg: Config, p: Pools) -> Sess {
        let mut s = Sess { dir: dir.join("store"), cfg, st: None, m: Model::default(), p, quietly: false, nops: 0, base: (0, 0, 0), keyset: Default::default() };
        trace!("open new store: {}", show_cfg(&s.cfg));
        s.open();
        s
    }
    pub fn st(&self) -> &CandyStore {
        self.st.as_ref().unwrap()
    }
    pub fn arc(&self) -> Arc<CandyStore> {
        self.st.clone().unwrap()
    }
    fn rebase(&mut self) {
        self.base = unsafe { (rt::S.rd_bytes as usize, rt::S.wr_bytes as usize, rt::S.replacing as usize) };
    }
    pub fn open(&mut self) {
        self.rebase();
        match try_open(&self.dir, &self.cfg) {
            Ok(s) => self.st = Some(Arc::new(s)),
            Err(e) => bad!("open", "opening the store failed: {e}; files: {:?}", dir_files(&self.dir)),
        }
    }
    pub fn close(&mut self) {
        trace!("close");
        let a = self.st.take().unwrap();
        match Arc::try_unwrap(a) {
            Ok(s) => close(s),
            Err(_) => panic!("harness still holds the store"),
        }
        self.panics();
    }
    pub fn reopen(&mut self, cfg: Option<Config>) {
        self.close();
        if let Some(c) = cfg {
            self.cfg = c;
        }
        trace!("reopen: {}", show_cfg(&self.cfg));
        self.open();
    }
    pub fn panics(&self) {
        if candy_panics() > 0 {
            bad!("panic", "a background thread panicked: {}", last_panic());
        }
    }
    /// perform an operation, compare with the model, update the model
    pub fn run(&mut self, op: &Op) -> Res {
        let r = run_op(self.st(), op);
        if matches!(op.k, K::Clear) {
            self.rebase();
        }
        self.nops += 1;
        if !self.quietly {
            trace!("{op} -> {r}");
        }
        if let Err(e) = self.m.apply(op, &r) {
            if self.quietly {
                trace!("{op} -> {r}");
            }
            bad!(sig_of(op, &r), "{op}: {e}");
        }
        r
    }
    pub fn k(&mut self, k: K) -> Res {
        self.run(&Op { k, alt: false })
    }
    /// compare everything observable with the model
    pub fn verify(&mut self, what: &str) {
        let lists: Vec<(B, Vec<B>)> = self.p.lists.iter().map(|l| (l.clone(), self.p.items.clone())).collect();
        let obs = self.m.observers(&self.p.keys, &lists, &self.p.queues, &self.p.bigs);
        for op in obs {
            let r = run_op(self.st(), &op);
            if let Err(e) = self.m.apply(&op, &r) {
                trace!("{what}: {op} -> {r}");
                bad!(sig_of(&op, &r), "{what}: {op}: {e}");
            }
        }
    }
    pub fn stats(&self) -> candystore::Stats {
        match rt::api(op_id("stats".into()), || self.st().stats()) {
            Ok(s) => s,
            Err(p) => bad!("stats-panic", "stats() panicked: {p} ({})", last_panic()),
        }
    }
    /// label restructuring that happened; returns (splits, compactions)
    pub fn label_restructuring(&self) -> (usize, usize) {
        let s = self.stats();
        label_n("splits", s.num_splits as u64);
        label_n("compactions", s.num_compactions as u64);
        label_n("operations", self.nops);
        if s.num_splits > 0 {
            label("cases-with-splits");
        }
        if s.num_compactions > 0 {
            label("cases-with-compactions");
        }
        (s.num_splits, s.num_compactions)
    }
}
pub fn kind(op: &Op) -> &'static str {
    match &op.k {
        K::Get(..) => "get",
        K::Contains(..) => "contains",
        K::Set(..) => "set",
        K::Replace(..) => "replace",
        K::Goc(..) => "get_or_create",
        K::Remove(..) => "remove",
        K::Iter => "iter",
        K::Clear => "clear",
        K::LSet(..) => "set_in_list",
        K::LPromote(..) => "set_in_list_promoting",
        K::LReplace(..) => "replace_in_list",
        K::LGoc(..) => "get_or_create_in_list",
        K::LGet(..) => "get_from_list",
        K::LRemove(..) => "remove_from_list",
        K::LDiscard(..) => "discard_list",
        K::LPopH(..) => "pop_list_head",
        K::LPopT(..) => "pop_list_tail",
        K::LPeekH(..) => "peek_list_head",
        K::LPeekT(..) => "peek_list_tail",
        K::LIter(..) => "iter_list",
        K::LIterB(..) => "iter_list_backwards",
        K::LLen(..) => "list_len",
        K::LCompact(..) => "compact_list",
        K::QPushH(..) => "push_to_queue_head",
        K::QPushT(..) => "push_to_queue_tail",
        K::QPopH(..) => "pop_queue_head",
        K::QPopT(..) => "pop_queue_tail",
        K::QPeekH(..) => "peek_queue_head",
        K::QPeekT(..) => "peek_queue_tail",
        K::QExtend(..) => "extend_queue",
        K::QRemove(..) => "remove_from_queue",
        K::QDiscard(..) => "discard_queue",
        K::QIter(..) => "iter_queue",
        K::QIterB(..) => "iter_queue_backwards",
        K::QLen(..) => "queue_len",
        K::QRange(..) => "queue_range",
        K::BSet(..) => "set_big",
        K::BGet(..) => "get_big",
        K::BRemove(..) => "remove_big",
        K::Flush => "flush",
        K::Stats => "stats",
        K::Merge(..) => "merge_small_shards",
    }
}
pub fn sig_of(op: &Op, r: &Res) -> &'static str {
    if matches!(r, Res::Panic(_)) {
        return "panic";
    }
    if matches!(r, Res::Err(_)) {
        return "error";
    }
    kind(op)
}

// ---------------------------------------------------------------- hash-directed keys
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H(pub u64);
impl H {
    pub fn of(full: &[u8]) -> H {
        use siphasher::sip128::SipHasher24;
        let h = SipHasher24::new_with_key(SEED).hash(full);
        H(h.h1)
    }
    pub fn user(k: &[u8]) -> H {
        let mut v = k.to_vec();
        v.push(1);
        Self::of(&v)
    }
    pub fn shard(&self) -> u32 {
        (self.0 >> 48) as u32
    }
    pub fn row(&self) -> u32 {
        ((self.0 >> 32) & 63) as u32
    }
    pub fn sig(&self) -> u32 {
        self.0 as u32
    }
}
/// keys of the same row; with `top`, also in the same 2^-top part of the shard space
pub fn same_row(n: usize, row: u32, top: u32, tag: u64) -> Vec<B> {
    let mut v = vec![];
    let mut i = 0u64;
    while v.len() < n {
        let k = format!("r{tag:x}.{i:x}").into_bytes();
        let h = H::user(&k);
        if h.row() == row && (top == 0 || h.shard() >> (16 - top) == 0) {
            v.push(k);
        }
        i += 1;
    }
    v
}
/// shard selectors next to the places where shards are divided
pub const EDGES: [u32; 10] = [0, 0xffff, 0x7fff, 0x8000, 0x3fff, 0x4000, 0xbfff, 0xc000, 0x1fff, 0xe000];
/// `n` keys with exactly this shard selector
pub fn edge_keys(sel: u32, n: usize) -> Vec<B> {
    (0..n).map(|j| format!("e{:x}", EDGE_IX[EDGES.iter().position(|e| *e == sel).unwrap()][j]).into_bytes()).collect()
}
const EDGE_IX: [[u64; 4]; 10] = [
    [193310, 244354, 325922, 340983],
    [47817, 82941, 477383, 488324],
    [22214, 116094, 257881, 276771],
    [19096, 37889, 73867, 78750],
    [81081, 237369, 380079, 383435],
    [25281, 243463, 249485, 320146],
    [121847, 322799, 444009, 481269],
    [78621, 229892, 235363, 243529],
    [22546, 38799, 42246, 139970],
    [140974, 213009, 301062, 496076],
];
