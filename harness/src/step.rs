//! Preemptive interleavings: two jobs on two threads, only one of which runs at a time; the running
//! one can be made to give way at the entry of any function of the code under test (class 1 and 2)
//! or of any function of the standard library that deals with state threads can share (class 2).
//! Every schedule is a real execution; nothing is reported but what a job then computes wrongly.
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn mc_setup(classes: *mut u16, base: u64, len: u64);
    fn mc_begin(min: i32, most: u32, stop: u64);
    fn mc_again(stop: u64);
    fn mc_end() -> u64;
    fn mc_classify(name: *const u8) -> i32;
}

struct State {
    turn: usize,
    done: [bool; 2],
    /// further switches: how many points each thread runs before it next gives way (0: never again)
    next: [u64; 2],
    tid: [i32; 2],
    /// changes whenever anything above does
    version: u64,
}
static STATE: Mutex<State> = Mutex::new(State { turn: 0, done: [false; 2], next: [0; 2], tid: [0; 2], version: 0 });
static CHANGED: Condvar = Condvar::new();
thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(9) };
}

/// The running thread has reached the point where it gives way.
#[no_mangle]
pub extern "C" fn rvmc_switch() {
    let me = ME.with(|m| m.get());
    if me > 1 {
        return;
    }
    let mut s = STATE.lock().unwrap();
    if !s.done[1 - me] {
        s.turn = 1 - me;
        s.version += 1;
        CHANGED.notify_all();
        while s.turn != me {
            s = CHANGED.wait(s).unwrap();
        }
    }
    unsafe { mc_again(s.next[me]) };
}

fn text_classes() -> Result<(), String> {
    let e = |x: std::io::Error| x.to_string();
    let f = std::fs::read("/proc/self/exe").map_err(e)?;
    let u16a = |o: usize| u16::from_le_bytes([f[o], f[o + 1]]) as usize;
    let u32a = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap()) as usize;
    let u64a = |o: usize| u64::from_le_bytes(f[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shsize, shnum) = (u64a(0x28), u16a(0x3a), u16a(0x3c));
    let sec = |i: usize| shoff + i * shsize;
    let mut syms: Vec<(usize, usize, &[u8])> = vec![];
    for i in 0..shnum {
        if u32a(sec(i) + 4) == 2 {
            let (off, size, link) = (u64a(sec(i) + 24), u64a(sec(i) + 32), u32a(sec(i) + 40));
            let strs = u64a(sec(link) + 24);
            for k in (off..off + size).step_by(24) {
                if f[k + 4] & 15 == 2 && u64a(k + 16) > 0 {
                    let n = strs + u32a(k);
                    syms.push((u64a(k + 8), u64a(k + 16), &f[n..]));
                }
            }
        }
    }
    let lo = syms.iter().map(|s| s.0).min().ok_or("no symbols")?;
    let hi = syms.iter().map(|s| s.0 + s.1).max().unwrap();
    let mut class = vec![0u16; hi - lo + 1];
    let mut me = 0;
    for (i, (at, len, name)) in syms.iter().enumerate() {
        if name.starts_with(b"rvmc_switch\0") {
            me = *at;
        }
        // (the name is a part of the file that ends in a zero byte)
        let c = (unsafe { mc_classify(name.as_ptr()) } as u16) << 14 | (i & 16383) as u16;
        if c >= 1 << 14 {
            for x in &mut class[at - lo..at - lo + len + 1] {
                *x = (*x).max(c);
            }
        }
    }
    if me == 0 {
        return Err("own symbol not found".into());
    }
    let base = rvmc_switch as *const () as u64 - me as u64 + lo as u64;
    let c: &'static mut [u16] = Box::leak(class.into_boxed_slice());
    unsafe { mc_setup(c.as_mut_ptr(), base, c.len() as u64) };
    Ok(())
}

fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).map(|s| s.rsplit(')').next().unwrap_or("").trim_start().starts_with('S')).unwrap_or(false)
}

type Job<'j> = &'j (dyn Fn() -> Result<(), String> + Sync);

/// Thread 0 runs for `stops[0]` points, thread 1 for `stops[1]`, thread 0 for `stops[2]` more and so on; one that has no
/// number left runs on until it ends, or until the other one can only wait for it.
/// Returns the number of points each thread passed.
pub fn run(jobs: [Job; 2], min: i32, most: u32, stops: &[u64]) -> Result<[u64; 2], String> {
    let mine = |k: usize| -> Vec<u64> { stops.iter().skip(k).step_by(2).cloned().collect() };
    let (a, b) = (mine(0), mine(1));
    let at = |v: &[u64], i: usize| v.get(i).cloned().unwrap_or(0);
    {
        let mut s = STATE.lock().unwrap();
        *s = State { turn: 0, done: [false; 2], next: [if a.len() > 1 { a[0] + a[1] } else { 0 }, 0], tid: [0; 2], version: 0 };
    }
    let first = [at(&a, 0), at(&b, 0)];
    let out: Mutex<[Option<Result<u64, String>>; 2]> = Mutex::new([None, None]);
    std::thread::scope(|sc| {
        for me in 0..2 {
            let (out, first) = (&out, &first);
            sc.spawn(move || {
                ME.with(|m| m.set(me));
                {
                    let mut s = STATE.lock().unwrap();
                    s.tid[me] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                    while s.turn != me {
                        s = CHANGED.wait(s).unwrap();
                    }
                }
                unsafe { mc_begin(min, most, first[me]) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jobs[me]()));
                let n = unsafe { mc_end() };
                let r = r.unwrap_or_else(|p| Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())));
                out.lock().unwrap()[me] = Some(r.map(|_| n));
                let mut s = STATE.lock().unwrap();
                s.done[me] = true;
                s.turn = 1 - me;
                s.version += 1;
                CHANGED.notify_all();
            });
        }
        // the thread whose turn it is may be waiting for something the other one holds: then the other one goes on
        let mut s = STATE.lock().unwrap();
        let started = Instant::now();
        let mut seen = (0, 0);
        let mut idle = 0;
        while !(s.done[0] && s.done[1]) {
            let (n, w) = CHANGED.wait_timeout(s, Duration::from_millis(5)).unwrap();
            s = n;
            if !w.timed_out() {
                idle = 0;
                continue;
            }
            idle += 1;
            if started.elapsed() > Duration::from_secs(120) {
                println!("bad 0 the two jobs do not end when interleaved (stops {:?})", stops);
                std::process::exit(0);
            }
            let t = s.tid[s.turn];
            seen = if t != 0 && asleep(t) { if seen.0 == s.version { (s.version, seen.1 + 1) } else { (s.version, 1) } } else { (s.version, 0) };
            // (or may be trying again and again: then too)
            if (seen.1 >= 4 || idle >= 400) && !s.done[1 - s.turn] {
                idle = 0;
                s.turn = 1 - s.turn;
                s.version += 1;
                CHANGED.notify_all();
            }
        }
    });
    let o = out.into_inner().unwrap();
    let mut n = [0u64; 2];
    for (i, r) in o.into_iter().enumerate() {
        n[i] = r.unwrap().map_err(|e| format!("{} (job {} of 2, threads giving way after {:?} points of class {} or above)", e, i + 1, stops, min))?;
    }
    Ok(n)
}

/// Every schedule of the two jobs in which thread 0 gives way once anywhere (points of class 1), or both give way up to
/// once each, anywhere among the points of class 2. Prints `good <schedules> <points> <points of class 2>` or `bad <schedules> <what>`.
///
/// `fine`: the first kind, for every `parts`th point from `part` on, where the points are the first `most` entries of each
/// function (0: all); otherwise the second kind.
pub fn all(jobs: [Job; 2], fine: bool, most: u64, part: u64, parts: u64) {
    if let Err(e) = text_classes() {
        println!("error {}", e);
        return;
    }
    let mut n = 0u64;
    let cap = if fine { most as u32 } else { 0 };
    let mut go = || -> Result<[u64; 4], String> {
        // both alone, twice: what is made at first use is made
        let alone = |j: Job, min: i32, cap: u32| -> Result<u64, String> {
            unsafe { mc_begin(min, cap, 0) };
            let r = j();
            let k = unsafe { mc_end() };
            r.map(|_| k).map_err(|e| format!("{} (alone)", e))
        };
        let mut c = [0u64; 4];
        for _ in 0..2 {
            c = [alone(jobs[0], 1, cap)?, alone(jobs[1], 1, cap)?, alone(jobs[0], 2, 0)?, alone(jobs[1], 2, 0)?];
        }
        if fine {
            for k in (1 + part..=c[0]).step_by(parts as usize) {
                n += 1;
                run(jobs, 1, cap, &[k])?;
            }
            return Ok(c);
        }
        // (the number of points may depend on the schedule: go on until one is not reached)
        let mut k = 1;
        loop {
            n += 1;
            let got = run(jobs, 2, 0, &[k])?;
            if got[0] < k || k > most {
                break;
            }
            for m in 1..=got[1].min(most) {
                n += 1;
                run(jobs, 2, 0, &[k, m])?;
            }
            k += 1;
        }
        Ok(c)
    };
    match go() {
        Ok(c) => println!("good {} {} {} {} {}", n, c[0], c[1], c[2], c[3]),
        Err(e) => println!("bad {} {}", n, e.replace('\n', " ")),
    }
}

/// One schedule in a process where nothing has run before. Prints `good` or `bad`; `end` after `good` if the stop was not reached.
pub fn first_use(jobs: [Job; 2], min: i32, stops: &[u64]) {
    if let Err(e) = text_classes() {
        println!("error {}", e);
        return;
    }
    match run(jobs, min, 0, stops) {
        Ok(c) => println!("good {} {} {}", c[0], c[1], if stops.first().map(|&k| c[0] < k).unwrap_or(false) { "end" } else { "more" }),
        Err(e) => println!("bad 1 {}", e.replace('\n', " ")),
    }
}
