//! Bounded exhaustive explorer shared by all checks.
//!
//! A check is a pair (construct, verify):
//!  * `construct` builds one behaviour (a literal, a schema document, an operation history, ...)
//!    by asking a `Chooser` for decisions.  The decisions form a finite tree; the explorer
//!    enumerates *every* path of that tree (stateless search, depth first, parallel over subtrees).
//!    `Chooser::dev` marks decisions whose non-zero answers are deviations from a default; at most
//!    `budget` deviations are taken on one path (deviation-bounded search).
//!  * `verify` runs the real implementation on the behaviour and compares it with the reference model.
//!
//! Counters: transitions = edges of the decision tree traversed, states = distinct behaviours reached
//! (after canonicalisation by their text), traces = executions of the implementation compared with
//! the model.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Chooser<'a> {
    prefix: &'a [u32],
    pub log: Vec<(u32, u32)>,
    budget: u32,
    centre: Option<u64>,
    calls: u64,
}

impl<'a> Chooser<'a> {
    pub fn new(prefix: &'a [u32], budget: u32) -> Self {
        Chooser { prefix, log: Vec::with_capacity(16), budget, centre: None, calls: 0 }
    }
    /// Choose one of n alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 {
            return 0;
        }
        let i = self.log.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {} of {} at {}", c, n, i);
        self.log.push((c, n as u32));
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.choose(xs.len())]
    }
    /// Count deviations from another behaviour than the one of all first alternatives: from now on
    /// the default of the n-th decision is a fixed function of `k` and n (the first alternative at
    /// about half of the decisions).
    pub fn centre(&mut self, k: usize) {
        self.centre = Some(k as u64);
        self.calls = 0;
    }
    fn default_of(&mut self, n: usize) -> usize {
        let Some(k) = self.centre else { return 0 };
        self.calls += 1;
        // splitmix64
        let mut z = (k << 32 | self.calls).wrapping_mul(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        if z & 1 == 0 {
            0
        } else {
            ((z >> 8) % n as u64) as usize
        }
    }
    /// Alternative 0 is the default; any other costs one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        let d = self.default_of(n);
        if self.budget == 0 {
            return d;
        }
        let c = self.choose(n);
        if c != 0 {
            self.budget -= 1;
        }
        (c + d) % n
    }
    pub fn dev_pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.dev(xs.len())]
    }
    pub fn deviations_left(&self) -> u32 {
        self.budget
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identifier of what failed, matched against the known-findings file
    pub key: String,
    pub input: String,
    pub expected: String,
    pub actual: String,
    pub explore: String,
    pub choices: Vec<u32>,
}

pub fn viol(key: impl Into<String>, input: impl Into<String>, expected: impl Into<String>, actual: impl Into<String>) -> Viol {
    Viol { key: key.into(), input: input.into(), expected: expected.into(), actual: actual.into(), explore: String::new(), choices: vec![] }
}

/// What one verified behaviour looked like: number of implementation executions and an outcome class.
pub struct Obs {
    pub runs: u64,
    pub class: &'static str,
}

pub fn ok(runs: u64, class: &'static str) -> Result<Obs, Viol> {
    Ok(Obs { runs, class })
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub verif: String,
    pub replay: Option<(String, Vec<u32>)>,
    pub replay_hits: AtomicUsize,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    classes: Mutex<BTreeMap<String, u64>>,
    per_explore: Mutex<Vec<(String, u64, u64, u64)>>,
    samples: Mutex<Vec<String>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    capped: AtomicBool,
    pub cap: Duration,
    pub assumptions: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<String>>,
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a style over std Hash (deterministic)
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0xd6e8feb86659fd93);
            x ^= x >> 32;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for &c in b {
                self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;
pub struct Seen(Vec<Mutex<HashSet<u64>>>);
impl Seen {
    pub fn new() -> Self {
        Seen((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    pub fn insert(&self, h: u64) -> bool {
        self.0[(h >> 58) as usize % SHARDS].lock().unwrap().insert(h)
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// Run f, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}


// ---- supervision -------------------------------------------------------------------------------
// A run happens in a child process.  What each worker is executing is kept in a shared file, so that a
// behaviour on which the implementation overflows the stack, aborts, exhausts memory or never returns is
// found again and reported, instead of leaving the check without an answer.
const SLOTS: usize = 64;
const SLOT: usize = 8192;
const HANG_MS: u64 = 90_000;
static BOARD: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
/// state u64 (0 idle, 1 running, 2 hanging), start u64, name length u64, number of choices u64, name, choices
fn slot(i: usize) -> Option<*mut u64> {
    let b = BOARD.load(Relaxed);
    if b.is_null() {
        return None;
    }
    Some(unsafe { b.add((i % SLOTS) * SLOT) } as *mut u64)
}
/// The worker now executes this behaviour.
pub fn running(worker: usize, name: &str, choices: impl ExactSizeIterator<Item = u32>, time: u64) {
    let Some(p) = slot(worker) else { return };
    unsafe {
        p.write_volatile(0);
        let n = name.len().min(1000);
        p.add(1).write_volatile(time);
        p.add(2).write_volatile(n as u64);
        let k = choices.len().min(1500);
        p.add(3).write_volatile(k as u64);
        std::ptr::copy_nonoverlapping(name.as_ptr(), p.add(4) as *mut u8, n);
        let c = p.add(4 + 125) as *mut u32;
        for (i, x) in choices.take(k).enumerate() {
            c.add(i).write_volatile(x);
        }
        p.write_volatile(1);
    }
}
pub fn idle(worker: usize) {
    if let Some(p) = slot(worker) {
        unsafe { p.write_volatile(0) }
    }
}
fn open_board(path: &str, create: bool) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("board");
    if create {
        f.set_len((SLOTS * SLOT) as u64).expect("board");
    }
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "board");
    BOARD.store(p, Relaxed);
}
fn supervise(prop: &str) {
    if let Ok(path) = std::env::var("MC_BOARD") {
        std::env::remove_var("MC_BOARD");
        open_board(&path, false);
        unsafe { setrlimit(9, &[24 << 30, 24 << 30]) };
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = now_ms();
            for i in 0..SLOTS {
                let p = slot(i).unwrap();
                unsafe {
                    if p.read_volatile() == 1 && now.saturating_sub(p.add(1).read_volatile()) > HANG_MS && p.read_volatile() == 1 {
                        p.write_volatile(2);
                        std::process::abort();
                    }
                }
            }
        });
        return;
    }
    use std::os::unix::process::ExitStatusExt;
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let rd = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&rd);
    let board = format!("{}/{}.board.{}", rd, prop, std::process::id());
    open_board(&board, true);
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe).args(std::env::args_os().skip(1)).env("MC_BOARD", &board).status().expect("child");
    let _ = std::fs::remove_file(&board);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let how = if st.signal() == Some(6) { "aborts or never returns".to_string() } else { format!("dies of signal {}", st.signal().unwrap_or(0)) };
    println!("the run {}; looking for the behaviour", how);
    let path = format!("{}/{}.replay", rd, prop);
    for i in 0..SLOTS {
        let p = slot(i).unwrap();
        let (state, name, choices) = unsafe {
            let n = p.add(2).read_volatile() as usize;
            let k = p.add(3).read_volatile() as usize;
            let name = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(4) as *const u8, n.min(1000))).to_string();
            (p.read_volatile(), name, std::slice::from_raw_parts(p.add(4 + 125) as *const u32, k.min(1500)).to_vec())
        };
        if state == 0 {
            continue;
        }
        let text = format!("property: {}\nexplore: {}\nchoices: {}\n# rerun with: bash /verif/check.sh {} --replay {}\n", prop, name, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), prop, path);
        std::fs::write(&path, &text).unwrap();
        let out = std::fs::File::create(format!("{}.out", path)).unwrap();
        let mut c = std::process::Command::new(&exe).arg(prop).arg("--replay").arg(&path).stdout(out).stderr(std::process::Stdio::null()).spawn().expect("replay");
        let t = Instant::now();
        let verdict = loop {
            match c.try_wait().unwrap() {
                Some(s) if s.signal().is_some() => break Some(format!("the process dies of signal {}", s.signal().unwrap())),
                Some(s) if s.code() == Some(1) => break Some("violated".into()),
                Some(_) => break None,
                None if t.elapsed() > Duration::from_secs(30) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break Some("never returns".into());
                }
                None => std::thread::sleep(Duration::from_millis(5)),
            }
        };
        let shown = std::fs::read_to_string(format!("{}.out", path)).unwrap_or_default();
        let _ = std::fs::remove_file(format!("{}.out", path));
        if let Some(v) = verdict {
            println!("first: key=crash input={} expected=an answer actual={}", trunc(&shown, 600), v);
            println!("VIOLATION property={} replay={}", prop, path);
            std::process::exit(1);
        }
    }
    println!("no behaviour that was being executed does this on its own");
    std::process::exit(2);
}

impl Ctx {
    /// Usage: BIN PROP [--replay FILE]; VERIF_TIER, VERIF_SEED, VERIF_DIR from the environment.
    pub fn from_args() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let prop = args.get(1).cloned().unwrap_or_else(|| {
            eprintln!("usage: {} PROPERTY [--replay FILE]", args[0]);
            std::process::exit(2)
        });
        let mut replay = None;
        if args.get(2).map(|s| s.as_str()) == Some("--replay") {
            let text = std::fs::read_to_string(&args[3]).expect("replay file");
            let mut ex = String::new();
            let mut ch = vec![];
            for l in text.lines() {
                if let Some(r) = l.strip_prefix("explore: ") {
                    ex = r.to_string();
                } else if let Some(r) = l.strip_prefix("choices: ") {
                    ch = r.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                }
            }
            replay = Some((ex, ch));
        }
        if replay.is_none() {
            supervise(&prop);
        } else {
            unsafe { setrlimit(9, &[24 << 30, 24 << 30]) };
        }
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let cap = std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 400 } else { 3 * 3600 });
        if std::env::var("VERIF_PANICS").is_err() {
            // code under test runs in worker threads: a panic of the main thread is the harness's own
            std::panic::set_hook(Box::new(|info| {
                if std::thread::current().name() == Some("main") {
                    eprintln!("harness: {}", info);
                }
            }));
        }
        Ctx {
            prop,
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
            replay,
            replay_hits: AtomicUsize::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            classes: Mutex::new(BTreeMap::new()),
            per_explore: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            viols: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            capped: AtomicBool::new(false),
            cap: Duration::from_secs(cap),
            assumptions: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into())
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into())
    }

    pub fn report(&self, v: Viol) {
        let n = self.nviol.fetch_add(1, Relaxed);
        let mut g = self.viols.lock().unwrap();
        if n < 4000 {
            g.push(v);
        } else if let Some(worst) = (0..g.len()).max_by_key(|&i| g[i].input.len()) {
            if g[worst].input.len() > v.input.len() {
                g[worst] = v;
            }
        }
    }

    fn too_many(&self) -> bool {
        self.nviol.load(Relaxed) > 20_000
    }

    /// Record behaviours checked outside `explore` (e.g. by a batch compiled program).
    pub fn add(&self, name: &str, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
        self.per_explore.lock().unwrap().push((name.into(), states, transitions, traces));
    }
    pub fn class(&self, c: &str, n: u64) {
        *self.classes.lock().unwrap().entry(c.into()).or_insert(0) += n;
    }
    pub fn sample(&self, s: String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(s)
        }
    }

    /// Enumerate every path of the decision tree of `construct`; verify each distinct behaviour.
    pub fn explore<C: Send>(
        &self,
        name: &str,
        budget: u32,
        construct: impl Fn(&mut Chooser) -> Option<C> + Sync,
        key: impl Fn(&C) -> u64 + Sync,
        show: impl Fn(&C) -> String + Sync,
        verify: impl Fn(&C) -> Result<Obs, Viol> + Sync,
    ) {
        if let Some((ex, ch)) = &self.replay {
            if ex == name {
                self.replay_hits.fetch_add(1, Relaxed);
                let mut c = Chooser::new(ch, budget);
                let case = construct(&mut c).expect("replayed path yields a behaviour");
                let shown = show(&case);
                println!("replaying [{}] {}", name, shown);
                let answer = std::thread::scope(|s| {
                    let verify = &verify;
                    let f = move || guard(|| verify(&case));
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
                });
                match answer {
                    Ok(Ok(o)) => println!("outcome: agrees with the model ({})", o.class),
                    Ok(Err(mut v)) => {
                        println!("outcome: VIOLATED\n  expected: {}\n  actual:   {}", v.expected, v.actual);
                        v.explore = name.into();
                        v.choices = ch.clone();
                        self.report(v);
                    }
                    Err(p) => {
                        println!("outcome: harness panic {}", p);
                        self.report(viol("panic", shown, "no panic", p));
                    }
                }
            }
            return;
        }
        // 1. split the tree into subtrees
        let mut tasks: Vec<Vec<u32>> = vec![vec![]];
        let mut split_edges = 0u64;
        loop {
            if tasks.len() >= 2048 {
                break;
            }
            let mut next = vec![];
            let mut grew = false;
            for t in &tasks {
                let mut c = Chooser::new(t, budget);
                let _ = construct(&mut c);
                if c.log.len() > t.len() {
                    let n = c.log[t.len()].1;
                    for i in 0..n {
                        let mut x = t.clone();
                        x.push(i);
                        next.push(x);
                    }
                    split_edges += n as u64;
                    grew = true;
                } else {
                    next.push(t.clone());
                }
            }
            tasks = next;
            if !grew {
                break;
            }
        }
        self.transitions.fetch_add(split_edges, Relaxed);
        // 2. depth-first search in every subtree
        // a worker that runs out of subtrees is given part of another worker's
        let total_tasks = tasks.len();
        let queue: Mutex<Vec<(Vec<u32>, usize, usize)>> =
            Mutex::new(tasks.into_iter().enumerate().rev().map(|(i, t)| (t.clone(), t.len(), i)).collect());
        let (hungry, open) = (AtomicUsize::new(0), AtomicUsize::new(total_tasks));
        let seen = Seen::new();
        let (st, tr, rn) = (AtomicU64::new(0), AtomicU64::new(split_edges), AtomicU64::new(0));
        let first_sample = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for worker in 0..threads() {
                let (queue, hungry, open, seen, st, tr, rn, first_sample) = (&queue, &hungry, &open, &seen, &st, &tr, &rn, &first_sample);
                let (construct, key, show, verify) = (&construct, &key, &show, &verify);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let (mut lst, mut ltr, mut lrn) = (0u64, 0u64, 0u64);
                        'tasks: loop {
                            // `common`: how many edges of the prefix have been counted
                            let next = queue.lock().unwrap().pop();
                            let Some((mut prefix, mut common, ti)) = next else {
                                if open.load(SeqCst) == 0 || self.capped.load(Relaxed) {
                                    break;
                                }
                                idle(worker);
                                hungry.fetch_add(1, SeqCst);
                                std::thread::sleep(Duration::from_micros(200));
                                hungry.fetch_sub(1, SeqCst);
                                continue;
                            };
                            let mut base = prefix.len();
                            loop {
                                if self.start.elapsed() > self.cap {
                                    self.capped.store(true, Relaxed);
                                    break 'tasks;
                                }
                                if self.too_many() {
                                    self.capped.store(true, Relaxed);
                                    break 'tasks;
                                }
                                let mut c = Chooser::new(&prefix, budget);
                                let case = construct(&mut c);
                                let log = std::mem::take(&mut c.log);
                                ltr += (log.len() - common) as u64;
                                if let Some(case) = case {
                                    if seen.insert(key(&case)) {
                                        lst += 1;
                                        if ti != usize::MAX && ti % (total_tasks / 3 + 1) == 0 && first_sample.fetch_add(1, Relaxed) < 3 {
                                            self.sample(format!("[{}] {}", name, show(&case)));
                                        }
                                        running(worker, name, log.iter().map(|x| x.0), now_ms());
                                        match guard(|| verify(&case)) {
                                            Ok(Ok(o)) => {
                                                lrn += o.runs;
                                                *classes.entry(o.class).or_insert(0) += 1;
                                            }
                                            Ok(Err(mut v)) => {
                                                lrn += 1;
                                                v.explore = name.into();
                                                v.choices = log.iter().map(|x| x.0).collect();
                                                self.report(v);
                                            }
                                            Err(p) => {
                                                let mut v = viol("panic", show(&case), "no panic", format!("panic: {}", p));
                                                v.explore = name.into();
                                                v.choices = log.iter().map(|x| x.0).collect();
                                                self.report(v);
                                            }
                                        }
                                    }
                                }
                                if hungry.load(Relaxed) > 0 {
                                    // give away the alternatives nearest to the root
                                    if let Some(i) = (base..log.len()).find(|&i| log[i].0 + 1 < log[i].1) {
                                        let mut q = queue.lock().unwrap();
                                        for x in log[i].0 + 1..log[i].1 {
                                            let mut t: Vec<u32> = log[..i].iter().map(|x| x.0).collect();
                                            t.push(x);
                                            q.push((t, i, usize::MAX));
                                            open.fetch_add(1, SeqCst);
                                        }
                                        base = i + 1;
                                    }
                                }
                                // advance
                                let mut i = log.len();
                                loop {
                                    if i <= base {
                                        open.fetch_sub(1, SeqCst);
                                        continue 'tasks;
                                    }
                                    i -= 1;
                                    if log[i].0 + 1 < log[i].1 {
                                        break;
                                    }
                                }
                                prefix.clear();
                                prefix.extend(log[..i].iter().map(|x| x.0));
                                prefix.push(log[i].0 + 1);
                                common = i;
                            }
                        }
                        idle(worker);
                        st.fetch_add(lst, Relaxed);
                        tr.fetch_add(ltr, Relaxed);
                        rn.fetch_add(lrn, Relaxed);
                        self.states.fetch_add(lst, Relaxed);
                        self.transitions.fetch_add(ltr, Relaxed);
                        self.traces.fetch_add(lrn, Relaxed);
                        for (k, v) in classes {
                            self.class(k, v);
                        }
                    })
                    .unwrap();
            }
        });
        self.per_explore.lock().unwrap().push((name.into(), st.load(Relaxed), tr.load(Relaxed), rn.load(Relaxed)));
    }

    /// Convenience for behaviours that are strings.
    pub fn explore_str(
        &self,
        name: &str,
        budget: u32,
        construct: impl Fn(&mut Chooser) -> Option<String> + Sync,
        verify: impl Fn(&str) -> Result<Obs, Viol> + Sync,
    ) {
        self.explore(name, budget, construct, |s| hash64(s.as_str()), |s| format!("{:?}", s), |s| verify(s))
    }

    pub fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        if let Some((ex, _)) = &self.replay {
            if self.replay_hits.load(Relaxed) == 0 {
                println!("replay: no exploration named {:?} in {}", ex, self.prop);
                std::process::exit(2);
            }
            let bad = !self.viols.lock().unwrap().is_empty();
            std::process::exit(if bad { 1 } else { 0 });
        }
        let known = load_known(&self.verif, &self.prop);
        let mut viols = self.viols.into_inner().unwrap();
        viols.sort_by(|a, b| (a.input.len(), &a.input, &a.key).cmp(&(b.input.len(), &b.input, &b.key)));
        let (kn, fresh): (Vec<_>, Vec<_>) = viols.into_iter().partition(|v| known.iter().any(|k| k.0 == v.key));
        let classes = self.classes.into_inner().unwrap();
        let (states, transitions, traces) = (self.states.into_inner(), self.transitions.into_inner(), self.traces.into_inner());
        let exhaustive = !self.capped.load(Relaxed);
        for (k, d) in &known {
            if kn.iter().any(|v| &v.key == k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, d);
            }
        }
        // evidence
        let mut j = String::from("{\n");
        j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&self.prop), js(&self.tier), self.seed);
        j += " \"coverage\": {\n";
        j += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n", states, transitions, traces, exhaustive);
        j += "  \"outcome_classes\": {";
        j += &classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
        j += "},\n  \"explorations\": [\n";
        j += &self
            .per_explore
            .into_inner()
            .unwrap()
            .iter()
            .map(|(n, s, t, r)| format!("   {{\"name\": {}, \"states\": {}, \"transitions\": {}, \"impl_executions\": {}}}", js(n), s, t, r))
            .collect::<Vec<_>>()
            .join(",\n");
        j += "\n  ],\n  \"bounds\": [";
        j += &self.bounds.into_inner().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        j += "],\n  \"samples\": [";
        j += &self.samples.into_inner().unwrap().iter().map(|s| js(&trunc(s, 1500))).collect::<Vec<_>>().join(", ");
        j += "]\n },\n \"assumptions\": [";
        j += &self.assumptions.into_inner().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        j += &format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, fresh.len());
        let evdir = format!("{}/evidence", self.verif);
        std::fs::create_dir_all(&evdir).unwrap();
        std::fs::write(format!("{}/{}.json", evdir, self.prop), j).unwrap();
        println!(
            "{} {}: states={} transitions={} impl_executions={} outcomes={:?} exhaustive={} wall={:.1}s known={} violations={}",
            self.prop, self.tier, states, transitions, traces, classes, exhaustive, wall, kn.len(), fresh.len()
        );
        if let Some(v) = fresh.first() {
            let rd = format!("{}/replays", self.verif);
            std::fs::create_dir_all(&rd).unwrap();
            let path = format!("{}/{}.replay", rd, self.prop);
            let mut t = String::new();
            t += &format!("property: {}\nexplore: {}\nchoices: {}\n", self.prop, v.explore, v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
            t += &format!("# rerun with: bash /verif/check.sh {} --replay {}\n", self.prop, path);
            t += &format!("key: {}\ninput: {}\nexpected: {}\nactual: {}\n", v.key, v.input, v.expected, v.actual);
            let mut keys = BTreeMap::new();
            for v in &fresh {
                *keys.entry(v.key.clone()).or_insert(0) += 1;
            }
            t += &format!("\nall violation keys of this run: {:?}\n", keys);
            let mut shown = HashSet::new();
            for v in fresh.iter() {
                if shown.insert(v.key.clone()) && shown.len() <= 40 {
                    t += &format!("\n--- explore: {}\n--- choices: {}\nkey: {}\ninput: {}\nexpected: {}\nactual: {}\n", v.explore, v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), v.key, v.input, v.expected, v.actual);
                }
            }
            std::fs::write(&path, t).unwrap();
            println!("first: key={} input={} expected={} actual={}", v.key, trunc(&v.input, 600), trunc(&v.expected, 400), trunc(&v.actual, 400));
            println!("keys: {}", trunc(&format!("{:?}", keys), 2000));
            println!("VIOLATION property={} replay={}", self.prop, path);
            std::process::exit(1);
        }
        if !exhaustive {
            println!("NOTE: wall-clock cap reached; coverage above is what completed");
        }
        std::process::exit(0)
    }
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines `known: property=<id> key=<key> :: <what fails>` of known_findings.txt.
fn load_known(verif: &str, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (p, r) = r.split_once(" key=")?;
            let (k, d) = r.split_once(" :: ")?;
            (p == prop).then(|| (k.to_string(), d.to_string()))
        })
        .collect()
}
