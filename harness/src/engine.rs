//! Stateless explorer: a body asks a `Ch` for every decision, the engine enumerates every choice
//! vector (depth first, in parallel), optionally bounding deviations from default answers.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// What one execution ended in.
pub struct Out {
    pub label: &'static str,
    pub hash: u64,
    pub known: Option<(&'static str, String)>,
}

pub fn ok(label: &'static str, hash: u64) -> Result<Out, String> {
    Ok(Out { label, hash, known: None })
}

pub type Body<'b> = dyn Fn(&Ch) -> Result<Out, String> + Sync + 'b;

pub struct Ch {
    prefix: Vec<u32>,
    log: RefCell<Vec<(u32, u32)>>,
    pos: Cell<usize>,
    bound: u32,
    used: Cell<u32>,
    pub verbose: bool,
    notes: RefCell<Vec<String>>,
    /// extra model steps / executions performed inside a body (inner loops)
    pub inner_steps: Cell<u64>,
    pub inner_runs: Cell<u64>,
    diverged: Cell<bool>,
}

impl Ch {
    pub fn new(prefix: Vec<u32>, bound: u32, verbose: bool) -> Ch {
        Ch {
            prefix,
            log: RefCell::new(Vec::with_capacity(16)),
            pos: Cell::new(0),
            bound,
            used: Cell::new(0),
            verbose,
            notes: RefCell::new(vec![]),
            inner_steps: Cell::new(0),
            inner_runs: Cell::new(0),
            diverged: Cell::new(false),
        }
    }
    fn choose(&self, n: u32) -> u32 {
        let i = self.pos.get();
        self.pos.set(i + 1);
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c >= n {
                self.diverged.set(true);
                0
            } else {
                c
            }
        } else {
            0
        };
        self.log.borrow_mut().push((c, n));
        c
    }
    /// Any of `0..n`, all explored.
    pub fn pick(&self, n: usize) -> usize {
        assert!(n > 0, "pick(0)");
        if n == 1 {
            return 0;
        }
        self.choose(n as u32) as usize
    }
    pub fn of<'x, T>(&self, xs: &'x [T]) -> &'x T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&self) -> bool {
        self.pick(2) == 1
    }
    /// Environment answer: 0 is the default, anything else costs one deviation.
    pub fn dev(&self, n: usize) -> usize {
        if n <= 1 || self.used.get() >= self.bound {
            return 0;
        }
        let c = self.choose(n as u32) as usize;
        if c != 0 {
            self.used.set(self.used.get() + 1);
        }
        c
    }
    pub fn note<F: FnOnce() -> String>(&self, f: F) {
        if self.verbose {
            let s = f();
            self.notes.borrow_mut().push(if s.len() > 600 { format!("{}...({} chars)", s.chars().take(560).collect::<String>(), s.len()) } else { s });
        }
    }
    pub fn inner(&self, runs: u64, steps: u64) {
        self.inner_runs.set(self.inner_runs.get() + runs);
        self.inner_steps.set(self.inner_steps.get() + steps);
    }
}

#[derive(Clone, Default)]
pub struct Report {
    pub stage: String,
    pub build: String,
    pub bound: u32,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub inner_runs: u64,
    pub inner_steps: u64,
    pub max_depth: usize,
    /// the longest single case, seconds
    pub slowest: f64,
    pub distinct: u64,
    pub distinct_capped: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, String>,
    pub exhaustive: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub choices: Vec<u32>,
    pub desc: String,
    pub notes: Vec<String>,
    pub reproducible: bool,
}

struct Item {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

/// Runs `f`, turning a panic into an error description.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_one(body: &Body, ch: &Ch) -> Result<Out, String> {
    match guarded(|| body(ch)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// Crash journal: a shared mapping the parent reads if this process dies.
pub struct Journal {
    ptr: *mut u32,
    slots: usize,
}
unsafe impl Sync for Journal {}
pub const SLOT: usize = 4096;

impl Journal {
    pub fn open(path: &str, slots: usize) -> Option<Journal> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        let len = slots * SLOT * 4;
        f.set_len(len as u64).ok()?;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Journal { ptr: p as *mut u32, slots })
    }
    fn put(&self, slot: usize, stage: u32, choices: &[u32], last: Option<u32>) {
        if slot >= self.slots {
            return;
        }
        unsafe {
            let p = self.ptr.add(slot * SLOT);
            p.write_volatile(0);
            let n = choices.len().min(SLOT - 8);
            std::ptr::copy_nonoverlapping(choices.as_ptr(), p.add(3), n);
            let mut m = n;
            if let Some(l) = last {
                *p.add(3 + n) = l;
                m += 1;
            }
            *p.add(1) = stage;
            *p.add(2) = m as u32;
            p.write_volatile(1);
        }
    }
    fn done(&self, slot: usize) {
        if slot < self.slots {
            unsafe { self.ptr.add(slot * SLOT).write_volatile(0) }
        }
    }
}

/// Reads the journal of a dead child: (stage index, choices) of every case that was in flight.
pub fn read_journal(path: &str) -> Vec<(u32, Vec<u32>)> {
    let data = std::fs::read(path).unwrap_or_default();
    let w: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let mut v = vec![];
    for s in w.chunks(SLOT) {
        if s.len() >= 3 && s[0] == 1 {
            let n = (s[2] as usize).min(s.len() - 3);
            v.push((s[1], s[3..3 + n].to_vec()));
        }
    }
    v
}

pub struct Opts<'j> {
    pub threads: usize,
    pub wall_cap: Duration,
    pub hang: Duration,
    pub journal: Option<&'j Journal>,
    pub stage_idx: u32,
}

struct Shared {
    q: Mutex<Vec<Item>>,
    cv: Condvar,
    active: AtomicUsize,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
}

pub fn replay(bound: u32, choices: &[u32], body: &Body) -> (Result<Out, String>, Vec<String>, bool) {
    let ch = Ch::new(choices.to_vec(), bound, true);
    let r = run_one(body, &ch);
    let d = ch.diverged.get();
    (r, ch.notes.into_inner(), d)
}

pub fn explore(stage: &str, bound: u32, opts: &Opts, body: &Body) -> Report {
    let t0 = Instant::now();
    let n = opts.threads;
    let sh = Shared {
        q: Mutex::new(vec![Item { prefix: vec![], lo: 0, hi: 1 }]),
        cv: Condvar::new(),
        active: AtomicUsize::new(n),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
    };
    let rep = Mutex::new(Report { stage: stage.into(), bound, exhaustive: true, ..Default::default() });
    let hashes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let beats: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let cases: Vec<Mutex<Vec<u32>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    let busy: Vec<AtomicBool> = (0..n).map(|_| AtomicBool::new(false)).collect();
    let clocks: Vec<AtomicI32> = (0..n).map(|_| AtomicI32::new(0)).collect();
    let finished = AtomicBool::new(false);
    let done_workers = AtomicUsize::new(0);

    std::thread::scope(|s| {
        for w in 0..n {
            let (sh, rep, hashes, samples, beats, busy, cases, done_workers, clocks) = (&sh, &rep, &hashes, &samples, &beats, &busy, &cases, &done_workers, &clocks);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut clock = 0;
                    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } == 0 {
                        clocks[w].store(clock, Ordering::SeqCst);
                    }
                    let mut local: Vec<Item> = vec![];
                    let mut r = Report::default();
                    let mut hs: HashSet<u64> = HashSet::new();
                    let mut my_samples: Vec<Vec<u32>> = vec![];
                    let mut best_len = 0usize;
                    loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut item = match local.pop() {
                            Some(i) => i,
                            None => {
                                let mut q = sh.q.lock().unwrap();
                                sh.active.fetch_sub(1, Ordering::SeqCst);
                                sh.idle.fetch_add(1, Ordering::SeqCst);
                                let got = loop {
                                    if sh.stop.load(Ordering::Relaxed) {
                                        break None;
                                    }
                                    if let Some(i) = q.pop() {
                                        break Some(i);
                                    }
                                    if sh.active.load(Ordering::SeqCst) == 0 {
                                        sh.cv.notify_all();
                                        break None;
                                    }
                                    q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                };
                                sh.idle.fetch_sub(1, Ordering::SeqCst);
                                match got {
                                    Some(i) => {
                                        sh.active.fetch_add(1, Ordering::SeqCst);
                                        i
                                    }
                                    None => break,
                                }
                            }
                        };
                        // run prefix + [lo]; keep the rest of the range
                        let root = item.prefix.is_empty() && item.hi == 1 && item.lo == 0;
                        let x = item.lo;
                        let mut full = item.prefix.clone();
                        if !root {
                            full.push(x);
                        }
                        item.lo += 1;
                        if item.lo < item.hi {
                            local.push(item);
                        }
                        if sh.idle.load(Ordering::Relaxed) > 0 && !local.is_empty() {
                            let mut give = vec![];
                            if local.len() == 1 {
                                let it = &mut local[0];
                                let span = it.hi - it.lo;
                                if span > 1 {
                                    let mid = it.lo + span / 2;
                                    give.push(Item { prefix: it.prefix.clone(), lo: mid, hi: it.hi });
                                    it.hi = mid;
                                }
                            } else {
                                let k = (local.len() / 2).max(1);
                                // the shallowest items, splitting the very first if it is a big range
                                for it in local.drain(..k) {
                                    let span = it.hi - it.lo;
                                    if span > 16 {
                                        let parts = 8u32;
                                        let mut a = it.lo;
                                        for p in 0..parts {
                                            let b = it.lo + ((span as u64 * (p as u64 + 1)) / parts as u64) as u32;
                                            if b > a {
                                                give.push(Item { prefix: it.prefix.clone(), lo: a, hi: b });
                                            }
                                            a = b;
                                        }
                                    } else {
                                        give.push(it);
                                    }
                                }
                            }
                            if !give.is_empty() {
                                sh.q.lock().unwrap().extend(give);
                                sh.cv.notify_all();
                            }
                        }
                        if let Some(j) = opts.journal {
                            j.put(w, opts.stage_idx, &full, None);
                        }
                        {
                            let mut c = cases[w].lock().unwrap();
                            c.clear();
                            c.extend_from_slice(&full);
                        }
                        let plen = full.len();
                        let ch = Ch::new(full, bound, false);
                        let started = Instant::now();
                        busy[w].store(true, Ordering::SeqCst);
                        let res = run_one(body, &ch);
                        busy[w].store(false, Ordering::SeqCst);
                        r.slowest = r.slowest.max(started.elapsed().as_secs_f64());
                        beats[w].fetch_add(1, Ordering::Relaxed);
                        if ch.diverged.get() {
                            let mut g = rep.lock().unwrap();
                            g.error = Some(format!("replay divergence in stage {} at {:?}", stage, ch.prefix));
                            sh.stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        let log = ch.log.into_inner();
                        r.executions += 1;
                        let newpts = log.len().saturating_sub(plen) as u64;
                        r.states += newpts + 1;
                        r.transitions += newpts + if plen > 0 { 1 } else { 0 };
                        r.inner_runs += ch.inner_runs.get();
                        r.inner_steps += ch.inner_steps.get();
                        r.max_depth = r.max_depth.max(log.len());
                        match res {
                            Ok(o) => {
                                *r.labels.entry(o.label).or_insert(0) += 1;
                                if hs.len() < 400_000 {
                                    hs.insert(o.hash);
                                } else {
                                    r.distinct_capped = true;
                                }
                                if let Some((sig, d)) = o.known {
                                    r.known.entry(sig.to_string()).or_insert(d);
                                }
                                if my_samples.is_empty() || (log.len() > best_len && my_samples.len() < 4) {
                                    best_len = log.len();
                                    my_samples.push(log.iter().map(|x| x.0).collect());
                                }
                            }
                            Err(desc) => {
                                let choices: Vec<u32> = log.iter().map(|x| x.0).collect();
                                let mut g = rep.lock().unwrap();
                                let better = match &g.violation {
                                    None => true,
                                    Some(v) => choices.len() < v.choices.len(),
                                };
                                if better {
                                    g.violation = Some(Violation { choices, desc, notes: vec![], reproducible: true });
                                }
                                sh.stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                        for i in plen..log.len() {
                            if log[i].1 > 1 {
                                local.push(Item { prefix: log[..i].iter().map(|x| x.0).collect(), lo: 1, hi: log[i].1 });
                            }
                        }
                        if r.executions % 64 == 0 && t0.elapsed() > opts.wall_cap {
                            sh.capped.store(true, Ordering::SeqCst);
                            sh.stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    if let Some(j) = opts.journal {
                        j.done(w);
                    }
                    let mut g = rep.lock().unwrap();
                    g.executions += r.executions;
                    g.states += r.states;
                    g.transitions += r.transitions;
                    g.inner_runs += r.inner_runs;
                    g.inner_steps += r.inner_steps;
                    g.max_depth = g.max_depth.max(r.max_depth);
                    g.slowest = g.slowest.max(r.slowest);
                    g.distinct_capped |= r.distinct_capped;
                    for (k, v) in r.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in r.known {
                        g.known.entry(k).or_insert(v);
                    }
                    drop(g);
                    hashes.lock().unwrap().extend(hs);
                    samples.lock().unwrap().extend(my_samples.into_iter().rev().take(2));
                    done_workers.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn worker");
        }
        // watchdog: a case that uses `hang` of processor time (or waits five times that long) is itself a violation
        let (rep, beats, busy, cases, finished, done_workers, clocks) = (&rep, &beats, &busy, &cases, &finished, &done_workers, &clocks);
        s.spawn(move || {
            let used = |w: usize| {
                let c = clocks[w].load(Ordering::SeqCst);
                let mut t: libc::timespec = unsafe { std::mem::zeroed() };
                if c == 0 || unsafe { libc::clock_gettime(c, &mut t) } != 0 {
                    return Duration::ZERO;
                }
                Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
            };
            let mut last: Vec<(u64, Instant, Duration)> = beats.iter().enumerate().map(|(w, b)| (b.load(Ordering::Relaxed), Instant::now(), used(w))).collect();
            while done_workers.load(Ordering::SeqCst) < n && !finished.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(10));
                for w in 0..n {
                    let b = beats[w].load(Ordering::Relaxed);
                    if b != last[w].0 || !busy[w].load(Ordering::SeqCst) {
                        last[w] = (b, Instant::now(), used(w));
                    } else if last[w].1.elapsed() > opts.hang && (used(w).saturating_sub(last[w].2) > opts.hang || last[w].1.elapsed() > opts.hang * 5) {
                        let choices = cases[w].lock().unwrap().clone();
                        let mut g = rep.lock().unwrap();
                        g.violation = Some(Violation { choices, desc: format!("no termination within {:?} of processor time", opts.hang), notes: vec![], reproducible: true });
                        let g2 = g.clone();
                        drop(g);
                        HANG.lock().unwrap().as_ref().map(|f| f(&g2));
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    finished.store(true, Ordering::SeqCst);
    let mut r = rep.into_inner().unwrap();
    r.exhaustive = !sh.capped.load(Ordering::SeqCst) && r.violation.is_none() && r.error.is_none();
    r.distinct = hashes.into_inner().unwrap().len() as u64;
    if let Some(v) = r.violation.as_mut() {
        let (res, notes, _) = replay(bound, &v.choices, body);
        v.notes = notes;
        match res {
            Err(d) => {
                v.desc = d;
            }
            Ok(_) => v.reproducible = false,
        }
    } else if r.error.is_none() {
        let mut ss = samples.into_inner().unwrap();
        ss.sort_by_key(|s| s.len());
        let picks: Vec<Vec<u32>> = match ss.len() {
            0 => vec![],
            1 => vec![ss[0].clone()],
            l => vec![ss[l / 2].clone(), ss[l - 1].clone()],
        };
        for c in picks {
            if r.slowest > 20.0 {
                // too long to be run twice more
                r.samples.push(format!("{} choices={:?}", stage, &c[..c.len().min(40)]));
                continue;
            }
            let (a, notes, _) = replay(bound, &c, body);
            let (b, _, _) = replay(bound, &c, body);
            match (a, b) {
                (Ok(a), Ok(b)) if a.hash == b.hash && a.label == b.label => {
                    r.samples.push(format!("{} choices={:?} -> {} | {}", stage, &c[..c.len().min(40)], a.label, notes.join("; ")))
                }
                (a, b) => {
                    let d = [a.err(), b.err()].into_iter().flatten().next().unwrap_or_else(|| "two runs of the same case gave different observations".into());
                    r.violation = Some(Violation { choices: c, desc: format!("on replay: {}", d), notes, reproducible: false });
                    r.exhaustive = false;
                }
            }
        }
    }
    r.wall = t0.elapsed().as_secs_f64();
    r
}

pub static HANG: Mutex<Option<Box<dyn Fn(&Report) + Send>>> = Mutex::new(None);

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in data {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^ (x >> 32)
}
