//! C19 (a directory is open at most once) and C20 (damaged, foreign and leftover files).
use crate::common::*;
use crate::engine::*;
use crate::model::*;
use crate::p_ds::*;
use crate::rt;
use crate::p_kv::tiny;
use crate::snap::{observe, put, take, Img};
use candystore::{CandyStore, Config};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- C19: helper processes
struct Helper {
    pid: i32,
    fd: i32,
    dead: bool,
}
fn wr(fd: i32, b: &[u8]) -> bool {
    let l = (b.len() as u32).to_le_bytes();
    let mut v = l.to_vec();
    v.extend_from_slice(b);
    let mut o = 0;
    while o < v.len() {
        let n = unsafe { libc::send(fd, v[o..].as_ptr() as *const _, v.len() - o, libc::MSG_NOSIGNAL) };
        if n <= 0 {
            return false;
        }
        o += n as usize;
    }
    true
}
fn rd(fd: i32, timeout_ms: i32) -> Result<Vec<u8>, &'static str> {
    let mut need = 4usize;
    let mut v = vec![];
    let mut hdr = true;
    loop {
        while v.len() < need {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, timeout_ms) };
            if r == 0 {
                return Err("timeout");
            }
            let mut b = vec![0u8; need - v.len()];
            let n = unsafe { libc::recv(fd, b.as_mut_ptr() as *mut _, b.len(), 0) };
            if n <= 0 {
                return Err("closed");
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        if hdr {
            need = u32::from_le_bytes(v[..4].try_into().unwrap()) as usize;
            v.clear();
            hdr = false;
        } else {
            return Ok(v);
        }
    }
}
/// what a helper process does: commands are `c arg1 \0 arg2`
fn helper_main(fd: i32, cfgs: &[Config]) -> ! {
    let mut slots: Vec<Option<CandyStore>> = (0..4).map(|_| None).collect();
    let open = |path: &str, ci: usize| -> Result<CandyStore, String> {
        let c = copy_cfg(&cfgs[ci]);
        let p = path.to_string();
        match std::panic::catch_unwind(move || CandyStore::open(p, c)) {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => Err(format!("error: {e:#}")),
            Err(_) => Err("PANIC".into()),
        }
    };
    loop {
        let Ok(m) = rd(fd, -1) else { std::process::exit(0) };
        let m = String::from_utf8_lossy(&m).into_owned();
        let a: Vec<&str> = m[1..].split('\0').collect();
        let rep = match m.as_bytes()[0] {
            b'O' => {
                // slot, config, path
                match open(a[2], a[1].parse().unwrap()) {
                    Ok(s) => {
                        slots[a[0].parse::<usize>().unwrap()] = Some(s);
                        "ok".to_string()
                    }
                    Err(e) => e,
                }
            }
            b'R' => {
                // two threads of this process race: config, path 1, path 2; the winner goes to slot a[0]
                let bar = std::sync::Barrier::new(2);
                let rs: Vec<Result<CandyStore, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = [a[2], a[3]]
                        .into_iter()
                        .map(|p| {
                            let bar = &bar;
                            let open = &open;
                            let ci = a[1].parse().unwrap();
                            sc.spawn(move || {
                                bar.wait();
                                open(p, ci)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(Err("PANIC".into()))).collect()
                });
                let n = rs.iter().filter(|r| r.is_ok()).count();
                let txt = rs.iter().map(|r| r.as_ref().err().cloned().unwrap_or("ok".into())).collect::<Vec<_>>().join(" | ");
                for r in rs {
                    if let Ok(s) = r {
                        slots[a[0].parse::<usize>().unwrap()] = Some(s);
                    }
                }
                format!("{n} {txt}")
            }
            b'C' => {
                slots[a[0].parse::<usize>().unwrap()] = None;
                "ok".into()
            }
            b'S' => match slots[a[0].parse::<usize>().unwrap()].as_ref().unwrap().set(a[1], a[2]) {
                Ok(_) => "ok".into(),
                Err(e) => format!("error: {e:#}"),
            },
            b'G' => {
                // everything the store holds
                let mut v = vec![];
                let mut err = None;
                for x in slots[a[0].parse::<usize>().unwrap()].as_ref().unwrap().iter() {
                    match x {
                        Ok((k, x)) => v.push(format!("{:>4}={}", String::from_utf8_lossy(&k), String::from_utf8_lossy(&x)).replace(' ', "_")),
                        Err(e) => err = Some(format!("error: {e:#}")),
                    }
                }
                v.sort();
                err.unwrap_or(format!("ok{}", v.iter().map(|x| format!(" {x}")).collect::<String>()))
            }
            b'X' => unsafe { libc::_exit(0) },
            b'E' => std::process::exit(0),
            b'A' => std::process::abort(),
            _ => "?".into(),
        };
        if !wr(fd, rep.as_bytes()) {
            std::process::exit(0);
        }
    }
}
impl Helper {
    fn spawn(cfgs: &[Config]) -> Helper {
        let mut f = [0i32; 2];
        unsafe {
            assert!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, f.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(f[0]);
                helper_main(f[1], cfgs);
            }
            libc::close(f[1]);
            Helper { pid, fd: f[0], dead: false }
        }
    }
    fn send(&self, m: &str) {
        wr(self.fd, m.as_bytes());
    }
    fn recv(&self, what: &str) -> String {
        match rd(self.fd, 15_000) {
            Ok(v) => String::from_utf8_lossy(&v).into_owned(),
            Err("timeout") => bad!("hang", "{what}: no answer within 15 s"),
            Err(_) => bad!("died", "{what}: the process died"),
        }
    }
    fn call(&self, m: &str, what: &str) -> String {
        self.send(m);
        self.recv(what)
    }
    fn end(&mut self, how: u64) -> &'static str {
        let s = match how {
            0 => {
                unsafe { libc::kill(self.pid, libc::SIGKILL) };
                "killed"
            }
            1 => {
                self.send("A");
                "aborted"
            }
            2 => {
                self.send("X");
                "ended by _exit"
            }
            _ => {
                self.send("E");
                "ended by exit"
            }
        };
        let mut st = 0;
        unsafe { while libc::waitpid(self.pid, &mut st, 0) < 0 {} }
        unsafe { libc::close(self.fd) };
        self.dead = true;
        s
    }
}
/// different ways to name the same directory
fn alias(g: &mut G, base: &Path, name: &str) -> String {
    let b = base.to_str().unwrap();
    match g.n(7) {
        0 => format!("{b}/{name}"),
        1 => format!("{b}/{name}/"),
        2 => format!("{b}/link_{name}"),
        3 => format!("{b}/{name}/../{name}"),
        4 => name.to_string(), // relative: the working directory is the parent
        5 => format!("./{name}/."),
        _ => format!("{b}//link_dir/{name}"),
    }
}
fn c19(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut cfgs: Vec<Config> = (0..3).map(|_| gen_cfg(g, &CfgGen { max: &[2500, 600, 20_000], thr_div: &[4, 2], expected: &[0, 0, 40_000], threads: 2 })).collect();
    for k in cfgs.iter_mut() {
        k.hash_seed = *SEED;
        k.clear_on_unsupported_version = false;
    }
    let nh = g.range(1, 3);
    let nd = *g.pick(&[1usize, 1, 2]);
    let n = g.range(4, if c.thorough { 40 } else { 22 });
    std::env::set_current_dir(&c.dir).unwrap();
    let names: Vec<String> = (0..nd).map(|i| format!("s{i}")).collect();
    for n in &names {
        std::os::unix::fs::symlink(c.dir.join(n), c.dir.join(format!("link_{n}"))).unwrap();
        if g.chance(1, 2) {
            std::fs::create_dir(c.dir.join(n)).unwrap();
        }
    }
    std::os::unix::fs::symlink(&c.dir, c.dir.join("link_dir")).unwrap();
    let mut hs: Vec<Helper> = (0..nh).map(|_| Helper::spawn(&cfgs)).collect();
    // who holds each directory: (process, slot)
    let mut holder: Vec<Option<(usize, usize)>> = vec![None; nd];
    let mut data: Vec<BTreeMap<String, String>> = vec![Default::default(); nd];
    let mut ctr = 0;
    let nops = g.count(OP, n);
    let mut slot = 0usize;
    let show = |d: &BTreeMap<String, String>| -> String { format!("ok{}", d.iter().map(|(k, v)| format!(" _{k}={v}")).collect::<String>()) };
    let (mut refused, mut taken) = (0, 0);
    for i in 0..nops {
        g.select(OP, i);
        let d = g.us(nd);
        let h = g.us(nh);
        let ci = g.us(3);
        if hs[h].dead {
            hs[h] = Helper::spawn(&cfgs);
            trace!("process {h} started again");
        }
        // a slot of this process that holds nothing
        slot = (slot + 1) % 4;
        while holder.contains(&Some((h, slot))) {
            slot = (slot + 1) % 4;
        }
        let exists = c.dir.join(&names[d]).exists();
        let path = loop {
            let p = alias(g, &c.dir, &names[d]);
            // a path through a directory that does not exist yet names nothing
            if exists || p == names[d] || p.ends_with(&format!("/{}", names[d])) && !p.contains("..") {
                break p;
            }
        };
        match g.weighted(&[30, 10, 12, 10, 8, 6, 6]) {
            // an attempt to open
            0 => {
                let r = hs[h].call(&format!("O{slot}\0{ci}\0{path}"), "open");
                trace!("process {h}: open {path} -> {r}");
                evals(1);
                match holder[d] {
                    Some((p, s)) => {
                        check!(r != "ok", "opened-twice", "{path} was opened by process {h} while process {p} has it open");
                        check!(r != "PANIC", "panic", "opening {path} in process {h} panicked");
                        refused += 1;
                        label(if p == h { "refused: held by the same process" } else { "refused: held by another process" });
                        // the holder's data is undisturbed
                        let r = hs[p].call(&format!("G{s}"), "read");
                        check!(r == show(&data[d]), "disturbed", "after a refused open of {path} the holder reads [{r}], expected [{}]", show(&data[d]));
                    }
                    None => {
                        check!(r == "ok", "not-released", "nobody has {path} open, yet process {h} cannot open it: {r}");
                        holder[d] = Some((h, slot));
                        taken += 1;
                        let r = hs[h].call(&format!("G{slot}"), "read");
                        check!(r == show(&data[d]), "disturbed", "{path} opened by process {h} holds [{r}], expected [{}]", show(&data[d]));
                    }
                }
            }
            // simultaneous attempts by all processes
            1 => {
                for x in hs.iter_mut() {
                    if x.dead {
                        *x = Helper::spawn(&cfgs);
                    }
                }
                let mut slots = vec![];
                for p in 0..nh {
                    let mut s = 0;
                    while holder.contains(&Some((p, s))) {
                        s += 1;
                    }
                    slots.push(s);
                }
                for p in 0..nh {
                    hs[p].send(&format!("O{}\0{ci}\0{path}", slots[p]));
                }
                let rs: Vec<String> = (0..nh).map(|p| hs[p].recv("open")).collect();
                trace!("all processes at once: open {path} -> {rs:?}");
                let won: Vec<usize> = (0..nh).filter(|&p| rs[p] == "ok").collect();
                evals(1);
                label("simultaneous attempts");
                if holder[d].is_some() {
                    check!(won.is_empty(), "opened-twice", "{path} is held, yet opened by {won:?}");
                } else {
                    check!(won.len() == 1, if won.is_empty() { "not-released" } else { "opened-twice" }, "{nh} processes open {path} simultaneously: {rs:?}");
                    holder[d] = Some((won[0], slots[won[0]]));
                    taken += 1;
                }
            }
            // close
            2 => {
                if let Some((p, s)) = holder[d] {
                    let r = hs[p].call(&format!("C{s}"), "close");
                    trace!("process {p}: close {} -> {r}", names[d]);
                    holder[d] = None;
                    label("closed");
                }
            }
            // a write by the holder
            3 => {
                if let Some((p, s)) = holder[d] {
                    ctr += 1;
                    let (k, v) = (format!("k{:02}", g.n(30)), format!("v{ctr}"));
                    let r = hs[p].call(&format!("S{s}\0{k}\0{v}"), "set");
                    trace!("process {p}: set {k}={v} in {} -> {r}", names[d]);
                    check!(r == "ok", "error", "set failed: {r}");
                    data[d].insert(k, v);
                }
            }
            // a process ends in some way
            4 => {
                let how = hs[h].end(g.n(4));
                trace!("process {h} {how}");
                for x in holder.iter_mut() {
                    if x.is_some_and(|(p, _)| p == h) {
                        *x = None;
                        label("the holder's process ended");
                    }
                }
                label("processes ended");
            }
            // threads of one process
            5 => {
                let path2 = if exists { alias(g, &c.dir, &names[d]) } else { path.clone() };
                let r = hs[h].call(&format!("R{slot}\0{ci}\0{path}\0{path2}"), "open by two threads");
                trace!("process {h}, two threads: open {path} and {path2} -> {r}");
                evals(1);
                label("simultaneous attempts by threads");
                let want = if holder[d].is_some() { "0" } else { "1" };
                check!(&r[..1] == want, if &r[..1] > want { "opened-twice" } else { "not-released" }, "two threads of process {h} open {path} and {path2}: {r}, expected {want} success");
                if holder[d].is_none() {
                    holder[d] = Some((h, slot));
                    taken += 1;
                }
            }
            // an attempt that fails for another reason, by a process that stays alive
            _ => {
                if holder[d].is_none() && exists {
                    let dir = c.dir.join(&names[d]);
                    let keep = take(&dir);
                    let Some(f) = keep.files.keys().find(|f| f.starts_with("shard_")).cloned() else { continue };
                    use std::os::unix::fs::FileExt;
                    let fd = std::fs::OpenOptions::new().read(true).write(true).open(dir.join(&f)).unwrap();
                    let mut old = [0u8; 16];
                    fd.read_exact_at(&mut old, 0).unwrap();
                    let mut bad = old;
                    bad[8 + g.us(8)] ^= 1 + g.n(255) as u8;
                    fd.write_all_at(&bad, 0).unwrap();
                    let r = hs[h].call(&format!("O{slot}\0{ci}\0{path}"), "open");
                    trace!("process {h}: open {path} with a foreign version in {f} -> {r}");
                    check!(r != "ok" && r != "PANIC", "foreign", "opening {path} with a foreign version in {f}: {r}");
                    fd.write_all_at(&old, 0).unwrap();
                    label("opens that failed for another reason");
                }
            }
        }
    }
    // in the end everybody can get in, one after another
    for d in 0..nd {
        if let Some((p, s)) = holder[d] {
            hs[p].call(&format!("C{s}"), "close");
        }
        for h in hs.iter_mut() {
            if h.dead {
                *h = Helper::spawn(&cfgs);
            }
            let r = h.call(&format!("O3\0{}\0{}", 0, c.dir.join(&names[d]).display()), "open");
            check!(r == "ok", "not-released", "in the end {} cannot be opened: {r}", names[d]);
            let r = h.call("G3", "read");
            check!(r == show(&data[d]), "disturbed", "in the end {} holds [{r}], expected [{}]", names[d], show(&data[d]));
            h.call("C3", "close");
        }
    }
    for h in hs.iter_mut() {
        h.end(2);
    }
    if refused > 0 && taken > 1 {
        nontrivial();
    }
}
// ---------------------------------------------------------------- threads taking turns
static mut HOLDER: Option<usize> = None;
static mut BUSY: Vec<bool> = vec![];
static mut ATTEMPTS: Vec<u64> = vec![];
static mut SHARED: Option<Model> = None;
/// threads that open, use and close the same store over and over, under generated schedules: one at a time has it, and
/// finds what its predecessors left. whoever is refused is refused because another one has it, is getting it or letting go
fn c19_turns(g: &mut G, c: &Ctx) {
    g.cfg();
    let cfg = tiny(g);
    let n = *g.pick(&[2usize, 2, 3]);
    let nk = *g.pick(&[4usize, 10, 25]);
    let p = Pools { keys: numbered("k", nk), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval: (cfg.max_shard_size as usize - 100).min(120), ctr: 0 };
    let rounds = g.range(1, if c.thorough { 12 } else { 6 });
    let (sv, pol) = g.sched(60);
    let dir = c.dir.join("store");
    let exists = g.chance(1, 2);
    rt::start();
    unsafe {
        HOLDER = None;
        BUSY = vec![false; n];
        ATTEMPTS = vec![0; n];
        SHARED = Some(Model::default());
    }
    trace!("{n} threads, {}", show_cfg(&cfg));
    if exists {
        match try_open(&dir, &cfg) {
            Ok(s) => close(s),
            Err(e) => bad!("open", "{e}"),
        }
    }
    rt::set_sched(sv, pol);
    let gp = g as *mut G as usize;
    let tot = g.count(OP, rounds * n);
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (dir, cfg, mut p) = (dir.clone(), copy_cfg(&cfg), p.clone());
            p.ctr = (t as u32 + 1) * 100_000;
            std::thread::spawn(move || {
                for i in 0..(tot + n - 1 - t) / n {
                    let g = unsafe { &mut *(gp as *mut G) };
                    g.select(OP, i * n + t);
                    let nops = g.us(12);
                    let ops: Vec<Op> = {
                        let m = unsafe { SHARED.as_ref().unwrap().clone() };
                        (0..nops).map(|_| gen_kv(g, &mut p, &m)).collect()
                    };
                    unsafe {
                        BUSY[t] = true;
                        ATTEMPTS[t] += 1;
                    }
                    let others = |a: &[u64]| unsafe { (0..n).any(|o| o != t && (BUSY[o] || ATTEMPTS[o] != a[o])) };
                    let before = unsafe { ATTEMPTS.clone() };
                    let was = unsafe { (0..n).any(|o| o != t && BUSY[o]) };
                    let r = try_open(&dir, &cfg);
                    match r {
                        Ok(st) => {
                            trace!("[{t}] open -> ok");
                            unsafe {
                                if let Some(o) = HOLDER {
                                    bad!("opened-twice", "thread {t} has opened the store, which thread {o} has open");
                                }
                                HOLDER = Some(t);
                            }
                            evals(1);
                            label("opened");
                            let mut m = unsafe { SHARED.clone().unwrap() };
                            let o = match observe(&st, &p) {
                                Ok(o) => o,
                                Err(e) => bad!("disturbed", "thread {t}: {e}"),
                            };
                            if let Err(e) = o.matches(&m) {
                                bad!("disturbed", "thread {t}, having opened the store: {e}");
                            }
                            for op in ops {
                                let r = run_op(&st, &op);
                                trace!("[{t}] {op} -> {r}");
                                if let Err(e) = m.apply(&op, &r) {
                                    bad!("disturbed", "thread {t}, {op}: {e}");
                                }
                            }
                            unsafe {
                                SHARED = Some(m);
                                HOLDER = None;
                            }
                            trace!("[{t}] close");
                            close(st);
                            unsafe { BUSY[t] = false };
                        }
                        Err(e) => {
                            trace!("[{t}] open -> {e}");
                            unsafe { BUSY[t] = false };
                            check!(!e.starts_with("PANIC"), "panic", "thread {t}: {e}");
                            check!(e.contains("used by another"), "wrong-error", "thread {t}: {e}");
                            check!(was || others(&before), "not-released", "thread {t} was refused although nobody had the store: {e}");
                            label("refused");
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    settle();
    rt::end_sched();
    if candy_panics() > 0 {
        bad!("panic", "a background thread panicked: {}", last_panic());
    }
    let st = match try_open(&dir, &cfg) {
        Ok(s) => s,
        Err(e) => bad!("not-released", "in the end: {e}"),
    };
    match observe(&st, &p) {
        Ok(o) => {
            if let Err(e) = o.matches(unsafe { SHARED.as_ref().unwrap() }) {
                bad!("disturbed", "in the end: {e}");
            }
        }
        Err(e) => bad!("disturbed", "in the end: {e}"),
    }
    close(st);
    settle();
    if has_label("refused") {
        nontrivial();
    }
}

// ---------------------------------------------------------------- C20

// ---------------------------------------------------------------- C20
fn shard_files(dir: &Path) -> Vec<(String, std::ops::Range<u32>)> {
    let mut v = vec![];
    for (n, _) in dir_files(dir) {
        if let Some((a, b)) = n.strip_prefix("shard_").and_then(|s| s.split_once('-')) {
            if let (Ok(a), Ok(b)) = (u32::from_str_radix(a, 16), u32::from_str_radix(b, 16)) {
                v.push((n.clone(), a..b));
            }
        }
    }
    v
}
fn shards_only(im: &Img) -> Img {
    Img { files: im.files.iter().filter(|(n, _)| n.starts_with("shard_")).map(|(a, b)| (a.clone(), b.clone())).collect() }
}
fn same(a: &Img, b: &Img) -> Result<(), String> {
    for n in a.files.keys().chain(b.files.keys()) {
        match (a.files.get(n), b.files.get(n)) {
            (None, _) => return Err(format!("{n} has appeared")),
            (_, None) => return Err(format!("{n} has disappeared")),
            (Some(x), Some(y)) => {
                if x.len != y.len {
                    return Err(format!("{n} had {} bytes, now {}", x.len, y.len));
                }
                if x.pages != y.pages {
                    return Err(format!("the contents of {n} changed"));
                }
            }
        }
    }
    Ok(())
}
/// length of a shard file's header, read off a fresh store
fn header_len(c: &Ctx) -> u64 {
    let d = c.dir.join("probe");
    let mut k = Config::default();
    k.truncate_up = false;
    k.expected_number_of_keys = 0;
    let st = try_open(&d, &k).unwrap();
    let n = dir_files(&d).iter().find(|f| f.0.starts_with("shard_")).unwrap().1;
    close(st);
    settle();
    let _ = std::fs::remove_dir_all(&d);
    n
}
fn damage(g: &mut G, p: &Path, hdr: u64) -> String {
    use std::os::unix::fs::FileExt;
    let fd = std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
    let mut b = [0u8; 16];
    fd.read_exact_at(&mut b, 0).unwrap();
    let old = b;
    let what = match g.weighted(&[4, 4, 5, 2, 2, 1]) {
        0 => {
            let mut v = u64::from_le_bytes(b[8..].try_into().unwrap());
            let w = v;
            v = match g.n(6) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => 0,
                3 => v ^ (1 << g.n(64)),
                4 => v.swap_bytes(),
                _ => g.n(u64::MAX),
            };
            if v == w {
                v ^= 1;
            }
            b[8..].copy_from_slice(&v.to_le_bytes());
            format!("version {v:#x}")
        }
        1 => {
            match g.n(3) {
                0 => b[g.us(8)] ^= 1 << g.n(8),
                1 => b[..8].fill(0),
                _ => b[..8].copy_from_slice(b"SQLite f"),
            }
            "foreign signature".to_string()
        }
        2 => {
            let n = match g.n(8) {
                0 => 1,
                1 => 15,
                2 => 16,
                3 => 17,
                4 => hdr - 1,
                5 => 8,
                6 => 4096,
                _ => 1 + g.n(hdr - 1),
            };
            fd.set_len(n).unwrap();
            return format!("truncated to {n} bytes");
        }
        3 => {
            b = *b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
            "zeroed".into()
        }
        4 => {
            fd.set_len(0).unwrap();
            fd.write_all_at(b"not a shard at all, but a text\n", 0).unwrap();
            return "replaced by a text".into();
        }
        _ => {
            b[8..].fill(0xff);
            fd.set_len(hdr / 2).unwrap();
            "foreign version and truncated".into()
        }
    };
    if b == old {
        b[0] ^= 0x80;
    }
    fd.write_all_at(&b, 0).unwrap();
    what
}
fn kv_session(g: &mut G, c: &Ctx, grow: bool) -> Sess {
    let mut cfg = gen_cfg(g, &SMALL);
    cfg.hash_seed = *SEED;
    let nkeys = *g.pick(&[20, 5, 60, 120]);
    let maxval = (*g.pick(&[60usize, 8, 150])).min(cfg.max_shard_size as usize - 70);
    let p = Pools { keys: numbered("k", nkeys), lists: vec![], items: vec![], queues: vec![], bigs: vec![], maxval, ctr: 0 };
    let n = g.range(5, if c.thorough { 250 } else { 120 });
    let (sv, pol) = g.sched(30);
    rt::start();
    rt::set_sched(sv, pol);
    let mut s = Sess::new(&c.dir, cfg, p);
    if grow {
        s.quietly = true;
        for k in s.p.keys.clone() {
            s.k(K::Set(k.clone(), fill(k.len() as u64, maxval / 2)));
        }
        s.quietly = false;
        trace!("every key set to a value of {} bytes", maxval / 2);
    }
    let nops = g.count(OP, n);
    for i in 0..nops {
        g.select(OP, i);
        let op = match g.weighted(&[80, 1, 1]) {
            0 => gen_kv(g, &mut s.p, &s.m),
            1 => Op { k: K::Merge(1 + g.n(499) as u32), alt: false },
            _ => Op { k: K::Flush, alt: false },
        };
        s.run(&op);
    }
    s.label_restructuring();
    s.close();
    settle();
    rt::end_sched();
    s
}
fn use_further(g: &mut G, s: &mut Sess, from: usize, n: usize) {
    for i in 0..n {
        g.select(EXTRA, from + i);
        let op = gen_kv(g, &mut s.p, &s.m);
        s.run(&op);
    }
    s.verify("used further");
    s.close();
    s.open();
    s.verify("used further and reopened");
}
fn c20_damage(g: &mut G, c: &Ctx) {
    g.cfg();
    let grow = g.chance(1, 2);
    let mut s = kv_session(g, c, grow);
    let hdr = header_len(c);
    g.select(EXTRA, 1);
    let intact = take(&s.dir);
    let fs = shard_files(&s.dir);
    label_n("shards", fs.len() as u64);
    // which shards are damaged
    let k = match g.n(3) {
        0 => 1,
        1 => fs.len(),
        _ => 1 + g.us(fs.len()),
    };
    let mut hit: Vec<usize> = vec![];
    let mut desc = vec![];
    for j in 0..k {
        g.select(EXTRA, 2 + j);
        let x = g.us(fs.len());
        if !hit.contains(&x) {
            hit.push(x);
            let w = damage(g, &s.dir.join(&fs[x].0), hdr);
            desc.push(format!("{}: {w}", fs[x].0));
        }
    }
    let desc = desc.join(", ");
    trace!("damaged {desc}");
    g.select(EXTRA, 1000);
    let mut cfg = if g.chance(1, 2) { other_cfg(g, &s.cfg, s.cfg.max_shard_size) } else { copy_cfg(&s.cfg) };
    let broken = shards_only(&take(&s.dir));
    // without the option: refused, nothing touched - whether asked once or more often
    for round in 0..1 + g.n(2) {
        match try_open(&s.dir, &cfg) {
            Ok(_) => bad!("accepted", "the store was opened although {desc}"),
            Err(e) => {
                check!(!e.starts_with("PANIC"), "panic", "opening the store with {desc}: {e}");
                trace!("open -> {e}");
            }
        }
        settle();
        evals(1);
        if let Err(e) = same(&broken, &shards_only(&take(&s.dir))) {
            bad!("touched", "a refused open (attempt {}) of a store with {desc}: {e}", round + 1);
        }
    }
    s.panics();
    label("refused opens");
    if g.chance(1, 2) {
        // the damage is repaired: everything is there
        put(&intact, &s.dir);
        trace!("damage undone");
        s.open();
        s.verify("after undoing the damage");
        use_further(g, &mut s, 2000, 10);
        label("damage undone");
    } else {
        // the affected shards come up empty, the others as they were
        cfg.clear_on_unsupported_version = true;
        trace!("open with clear_on_unsupported_version: {}", show_cfg(&cfg));
        s.cfg = cfg;
        let lost = |k: &B| {
            let sh = H::user(k).shard();
            hit.iter().any(|&x| fs[x].1.contains(&sh))
        };
        let before = s.m.kv.len();
        s.m.kv.retain(|k, _| !lost(k));
        label_n("keys dropped with their shard", (before - s.m.kv.len()) as u64);
        label_n("keys kept in intact shards", s.m.kv.len() as u64);
        s.open();
        s.verify("after clearing the damaged shards");
        if g.chance(1, 2) {
            // crash right after: the cleared shards are valid now
            s.cfg.clear_on_unsupported_version = false;
            s.reopen(None);
            s.verify("cleared and reopened without the option");
        }
        use_further(g, &mut s, 2000, 30);
        s.cfg.clear_on_unsupported_version = false;
        s.reopen(None);
        s.verify("finally, without the option");
        label("damaged shards cleared on request");
    }
    s.close();
    if fs.len() > 1 {
        nontrivial();
    }
}
/// some of the shard files are not there
fn c20_missing(g: &mut G, c: &Ctx) {
    g.cfg();
    let mut s = kv_session(g, c, true);
    g.select(EXTRA, 1);
    let intact = take(&s.dir);
    let fs = shard_files(&s.dir);
    if fs.len() < 2 {
        s.open();
        s.close();
        return;
    }
    let k = match g.n(3) {
        0 => 1,
        1 => fs.len() - 1,
        _ => 1 + g.us(fs.len() - 1),
    };
    let mut names: Vec<&String> = fs.iter().map(|f| &f.0).collect();
    let mut gone = vec![];
    for j in 0..k {
        g.select(EXTRA, 2 + j);
        gone.push(names.remove(g.us(names.len())).clone());
    }
    for f in &gone {
        std::fs::remove_file(s.dir.join(f)).unwrap();
    }
    let desc = format!("{} missing, {} left", gone.join(" "), names.len());
    trace!("{desc}");
    g.select(EXTRA, 1000);
    let mut cfg = if g.chance(1, 2) { other_cfg(g, &s.cfg, s.cfg.max_shard_size) } else { copy_cfg(&s.cfg) };
    cfg.clear_on_unsupported_version = g.chance(1, 3);
    let broken = shards_only(&take(&s.dir));
    for round in 0..1 + g.n(2) {
        match try_open(&s.dir, &cfg) {
            Ok(_) => bad!("accepted", "the store was opened although {desc}"),
            Err(e) => {
                check!(!e.starts_with("PANIC"), "panic", "opening the store with {desc}: {e}");
                trace!("open -> {e}");
            }
        }
        settle();
        evals(1);
        if let Err(e) = same(&broken, &shards_only(&take(&s.dir))) {
            bad!("touched", "a refused open (attempt {}) of a store with {desc}: {e}", round + 1);
        }
    }
    s.panics();
    label("opens refused for missing shards");
    put(&intact, &s.dir);
    trace!("put back");
    s.open();
    s.verify("after putting the files back");
    use_further(g, &mut s, 2000, 10);
    s.close();
    nontrivial();
}
/// leftovers of interrupted internal work: they must not matter
fn c20_left(g: &mut G, c: &Ctx) {
    g.cfg();
    let grow = g.chance(2, 3);
    let mut s = kv_session(g, c, grow);
    let hdr = header_len(c);
    g.select(EXTRA, 1);
    let before = take(&s.dir);
    let fs = shard_files(&s.dir);
    let w = |n: &str, b: &[u8]| std::fs::write(s.dir.join(n), b).unwrap();
    let marker = g.chance(1, 6);
    let n = g.range(1, 4);
    let mut desc = vec![];
    if marker {
        w("reset_in_progress", b"");
        desc.push("reset_in_progress".to_string());
        label("leftover: interrupted creation or clear");
    }
    for j in 0..n {
        g.select(EXTRA, 2 + j);
        let x = g.us(fs.len());
        let (name, span) = fs[x].clone();
        let mid = (span.start + span.end) / 2;
        let Some(src) = std::fs::read(s.dir.join(&name)).ok().filter(|b| b.len() as u64 >= hdr) else { continue };
        // what a file being written may hold
        let content = |g: &mut G| -> Vec<u8> {
            match g.n(6) {
                0 => vec![],
                1 => vec![0; hdr as usize],
                2 => src[..16].to_vec(),
                3 => src.clone(),
                4 => src[..g.us(src.len())].to_vec(),
                _ => {
                    let mut v = src[..16].to_vec();
                    v.resize(hdr as usize + 100, 0);
                    v
                }
            }
        };
        let splittable = span.end - span.start > 1;
        match g.weighted(&[3, 3, 3, if marker { 3 } else { 0 }]) {
            0 if splittable => {
                // an interrupted split, the halves not yet in place
                let b = content(g);
                w(&format!("bottom_{:04x}-{:04x}", span.start, mid), &b);
                if g.chance(1, 2) {
                    let b = content(g);
                    w(&format!("top_{:04x}-{:04x}", mid, span.end), &b);
                }
                desc.push(format!("half-done split of {name}"));
                label("leftover: half-done split");
            }
            1 if splittable && !marker => {
                // a split that was interrupted after putting one or both halves in place: the old shard still rules
                w(&format!("shard_{:04x}-{:04x}", span.start, mid), &src);
                if g.chance(1, 2) {
                    w(&format!("shard_{:04x}-{:04x}", mid, span.end), &src);
                }
                if g.chance(1, 4) && mid - span.start > 1 {
                    w(&format!("shard_{:04x}-{:04x}", span.start, (span.start + mid) / 2), &src);
                }
                // stale: not what the old shard holds now
                desc.push(format!("halves of {name} in place, {name} not yet removed"));
                label("leftover: halves and whole of a shard");
            }
            2 => {
                let b = content(g);
                let len = span.end - span.start;
                let st = span.start & !(2 * len - 1);
                w(&format!("merge_{:04x}-{:04x}", st, st + 2 * len), &b);
                desc.push(format!("half-done merge into {st:04x}-{:04x}", st + 2 * len));
                label("leftover: half-done merge");
            }
            3 => {
                // while resetting, shard files may be in any state
                let p = s.dir.join(&name);
                match g.n(4) {
                    0 => drop(std::fs::remove_file(p)),
                    1 => w(&name, &[]),
                    2 => w(&name, &vec![0; hdr as usize]),
                    _ => w(&name, &src[..g.us(hdr as usize)]),
                }
                desc.push(format!("{name} in some state"));
            }
            _ => {
                // a compaction that had just created its target
                let mut b = vec![];
                match g.n(3) {
                    0 => {}
                    1 => b.resize(hdr as usize, 0),
                    _ => b.resize(hdr as usize + s.cfg.max_shard_size as usize, 0),
                }
                w(&format!("compact_{:04x}-{:04x}", span.start, span.end), &b);
                desc.push(format!("compaction of {name} just started ({} bytes)", b.len()));
                label("leftover: compaction just started");
            }
        }
    }
    let desc = desc.join(", ");
    trace!("leftovers: {desc}");
    g.select(EXTRA, 500);
    if g.chance(1, 2) {
        s.cfg = other_cfg(g, &s.cfg, s.cfg.max_shard_size);
        trace!("open: {}", show_cfg(&s.cfg));
    }
    if marker {
        s.m = Model::default();
    }
    let (sv, pol) = (vec![], 0);
    rt::set_sched(sv, pol);
    let _ = before;
    match try_open(&s.dir, &s.cfg) {
        Ok(st) => close(st),
        Err(e) => bad!("open", "with leftovers ({desc}) the store cannot be opened: {e}"),
    }
    settle();
    s.open();
    evals(1);
    s.verify("with leftovers");
    if g.chance(1, 2) {
        s.k(K::Merge(490));
        s.verify("with leftovers, merged");
    }
    use_further(g, &mut s, 1000, 40);
    let _ = s.stats();
    s.close();
    settle();
    for (n, _) in dir_files(&s.dir) {
        check!(
            n == ".lock" || n.starts_with("shard_"),
            "leftover",
            "{n} is still there after the store was opened with leftovers ({desc}), used and closed"
        );
    }
    nontrivial();
}
#[allow(unused)]
fn unused(_: PathBuf) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            level: "exploration",
            rule: "a case counts when an open was refused because of a holder and the directory changed hands",
            assumptions: &["the directory is on a local file system (tmpfs)"],
            parts: &[("processes", 6000, 50000, c19), ("turns", 1500, 60000, c19_turns)],
            expect: &["refused: held by the same process", "refused: held by another process", "the holder's process ended", "simultaneous attempts", "opens that failed for another reason"],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "a case counts when the damaged store has several shards, or leftovers were planted",
            assumptions: &["damage is limited to the identifying header fields and to truncation below the header's size"],
            parts: &[("damage", 2500, 80000, c20_damage), ("leftovers", 2500, 80000, c20_left), ("missing", 500, 20000, c20_missing)],
            expect: &["refused opens", "opens refused for missing shards", "damage undone", "keys dropped with their shard", "keys kept in intact shards", "leftover: halves and whole of a shard"],
        },
    ]
}
