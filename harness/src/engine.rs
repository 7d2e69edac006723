//! Choice-tape property engine: every generated value is a function of a tape of bounded draws, so
//! shrinking (delete/zero/minimise draws) and replay work for any generator, including histories.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Cx {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: Vec<&'static str>,
    pub thorough: bool,
    pub case: u64,
}

impl Cx {
    pub fn random(seed: u64, thorough: bool, case: u64) -> Cx {
        Cx { tape: vec![], pos: 0, rng: Some(seed), nontrivial: false, verbose: false, notes: vec![], labels: vec![], thorough, case }
    }
    pub fn replay(tape: Vec<u64>, verbose: bool, thorough: bool, case: u64) -> Cx {
        Cx { tape, pos: 0, rng: None, nontrivial: false, verbose, notes: vec![], labels: vec![], thorough, case }
    }
    /// uniform in [0, n)  (n >= 1)
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(s) => {
                *s = s.wrapping_add(0x9e3779b97f4a7c15);
                let r = mix(*s);
                let v = if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 };
                self.tape.push(v);
                v
            }
            None => {
                let v = if self.pos < self.tape.len() { self.tape[self.pos] } else { 0 };
                if n == 0 { v } else { v.min(n - 1) }
            }
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 { self.draw(0) }
    pub fn u32(&mut self) -> u32 { self.draw(1 << 32) as u32 }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.draw((hi - lo + 1) as u64) as i64 }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { lo + self.draw((hi - lo + 1) as u64) as usize }
    pub fn bool(&mut self) -> bool { self.draw(2) == 1 }
    /// true with probability 1/n; shrinks to false
    pub fn one_in(&mut self, n: u64) -> bool { self.draw(n) == n - 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.draw(v.len() as u64) as usize] }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose { self.notes.push(f()); }
    }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn nt(&mut self, b: bool) { if b { self.nontrivial = true; } }
}

pub type CheckFn = fn(&mut Cx) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    /// cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub f: CheckFn,
    /// enumerated subs use cx.case directly (the space is finite and fully listed)
    pub enumerated: bool,
    /// cases that legitimately take minutes: running out of time there only leaves them unexplored
    pub slow: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take().unwrap_or_default())
}
/// Runs f; Err(panic message) when it panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(f: CheckFn, cx: &mut Cx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

/// Keep only the variable-free part of a message, so the shrinker stays on the same failure when possible.
fn kind(msg: &str) -> String {
    msg.split(|c| c == ':' || c == '[').next().unwrap_or("").to_string()
}

fn shrink(f: CheckFn, tape: Vec<u64>, thorough: bool, case: u64, enumerated: bool) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let first = {
        let mut cx = Cx::replay(best.clone(), false, thorough, case);
        match run_case(f, &mut cx) {
            Err(m) => m,
            Ok(()) => return (best, "not reproducible on replay".into(), 0),
        }
    };
    let k = kind(&first);
    let mut msg = first;
    if enumerated { return (best, msg, 0); }
    let attempt = |cand: &[u64], tries: &mut u64| -> Option<(Vec<u64>, String)> {
        *tries += 1;
        let mut cx = Cx::replay(cand.to_vec(), false, thorough, case);
        match run_case(f, &mut cx) {
            Err(m) if kind(&m) == k => {
                let used = cx.pos.min(cand.len());
                Some((cand[..used].to_vec(), m))
            }
            _ => None,
        }
    };
    let over = |tries: u64| start.elapsed() > Duration::from_secs(25) || tries > 40_000;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if over(tries) { break; }
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                if let Some((b, m)) = attempt(&c, &mut tries) {
                    best = b;
                    msg = m;
                } else {
                    i += size;
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // minimise values
        for i in 0..best.len() {
            if i >= best.len() || over(tries) { break; }
            if best[i] == 0 { continue; }
            let mut c = best.clone();
            c[i] = 0;
            if let Some((b, m)) = attempt(&c, &mut tries) {
                best = b;
                msg = m;
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while hi - lo > 1 && !over(tries) {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() { break; }
                c[i] = mid;
                if let Some((b, m)) = attempt(&c, &mut tries) {
                    best = b;
                    msg = m;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
        if best == before || over(tries) { break; }
    }
    (best, msg, tries)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
}

pub struct Report {
    pub sub: String,
    pub evals: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub inconclusive: Option<String>,
    pub wall: f64,
}
pub struct Failure {
    pub case: u64,
    pub tape: Vec<u64>,
    pub msg: String,
    pub notes: Vec<String>,
    pub shrink_tries: u64,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash_str(prop).rotate_left(17) ^ hash_str(sub) ^ mix(i.wrapping_mul(0x632be59bd9b4e019)))
}

/// Seconds a single case may run before the worker process gives up (exit 4); the supervisor then re-runs that
/// case alone and calls it non-terminating only if it again exceeds its own, equally generous limit.
pub const CASE_LIMIT_S: u64 = 100;
/// Seconds after which a slow sub is abandoned (without a verdict on the cases still running).
pub const SLOW_LIMIT_S: u64 = 420;

/// Where the worker process notes the case each thread is about to run (a shared mapping of a small file), for the
/// supervisor to read after a crash.
pub struct Progress(Option<&'static [AtomicU64]>);
extern "C" { fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
impl Progress {
    pub fn open() -> Progress {
        use std::os::fd::AsRawFd;
        let Some(f) = std::env::var("HV_PROGRESS").ok().and_then(|p| std::fs::OpenOptions::new().read(true).write(true).open(p).ok()) else { return Progress(None) };
        let a = unsafe { mmap(std::ptr::null_mut(), 16 * 64, 3, 1, f.as_raw_fd(), 0) };
        if a as isize == -1 { return Progress(None); }
        Progress(Some(unsafe { std::slice::from_raw_parts(a as *const AtomicU64, 128) }))
    }
    fn set(&self, thread: usize, sub: u64, case: u64) {
        if let Some(m) = self.0 { m[thread * 2 + 1].store(case, SeqCst); m[thread * 2].store(sub, SeqCst); }
    }
}

/// Keeps a failing case on file before it is shrunk: shrinking may run into a crash of the code under test.
fn note_failure(sub: &str, case: u64, msg: &str) {
    if let Ok(p) = std::env::var("HV_PROGRESS") {
        let _ = std::fs::write(format!("{}.fail", p), format!("{}\n{}\n{}", sub, case, msg));
    }
}

pub fn run_sub(prop: &'static str, sub: &Sub, sub_ix: u64, progress: &Arc<Progress>, seed: u64, thorough: bool, scale: f64, deadline: Instant) -> Report {
    let t0 = Instant::now();
    let mut total = if thorough { sub.thorough } else { sub.quick };
    if !sub.enumerated { total = ((total as f64) * scale).max(1.0) as u64; }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    let next = Arc::new(AtomicU64::new(0));
    let fail_at = Arc::new(AtomicU64::new(u64::MAX));
    let fail: Arc<Mutex<Option<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(None));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..nthreads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<AtomicU64>> = Arc::new((0..nthreads).map(|_| AtomicU64::new(0)).collect());
    let (tx, rx) = std::sync::mpsc::channel();
    let f = sub.f;
    let name = sub.name;
    // small blocks keep the cores busy; results do not depend on the split
    let block = (total / (nthreads as u64 * 64)).clamp(1, 256);
    for t in 0..nthreads {
        let tx = tx.clone();
        let progress = progress.clone();
        let (next, fail_at, fail, started, current) = (next.clone(), fail_at.clone(), fail.clone(), started.clone(), current.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    'o: loop {
                        let b = next.fetch_add(block, SeqCst);
                        if b >= total { break; }
                        for i in b..(b + block).min(total) {
                            if i > fail_at.load(SeqCst) { break 'o; }
                            started[t].store(t0.elapsed().as_secs() + 1, SeqCst);
                            current[t].store(i, SeqCst);
                            progress.set(t, sub_ix + 1, i + 1);
                            let mut cx = Cx::random(case_seed(seed, prop, name, i), thorough, i);
                            let r = run_case(f, &mut cx);
                            started[t].store(0, SeqCst);
                            progress.set(t, 0, 0);
                            st.evals += 1;
                            for l in cx.labels.iter() { *st.labels.entry(l).or_default() += 1; }
                            if cx.nontrivial {
                                let mut h = i.wrapping_mul(cx.tape.is_empty() as u64);
                                for v in cx.tape.iter() { h = mix(h ^ v).wrapping_add(0x1234567); }
                                st.seen.insert(h);
                            }
                            if let Err(m) = r {
                                let mut g = fail.lock().unwrap();
                                if g.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                    note_failure(name, i, &m);
                                    *g = Some((i, cx.tape.clone(), m));
                                    fail_at.fetch_min(i, SeqCst);
                                }
                                break;
                            }
                        }
                    }
                    let _ = tx.send(st);
                })
                .unwrap();
    }
    drop(tx);
    // collect; a stuck case makes the sub inconclusive (never a violation), a failure found meanwhile still counts
    let mut st = Stats::default();
    let mut left = nthreads;
    let mut fail_seen: Option<Instant> = None;
    let mut inconclusive = None;
    while left > 0 {
        match rx.recv_timeout(Duration::from_millis(50)) {
            Ok(s) => {
                left -= 1;
                st.evals += s.evals;
                st.seen.extend(s.seen);
                for (k, v) in s.labels { *st.labels.entry(k).or_default() += v; }
                continue;
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if fail_at.load(SeqCst) != u64::MAX && fail_seen.is_none() { fail_seen = Some(Instant::now()); }
        if let Some(t) = fail_seen {
            if t.elapsed() > Duration::from_secs(30) { break; }
            continue;
        }
        let now = t0.elapsed().as_secs() + 1;
        for t in 0..nthreads {
            let s = started[t].load(SeqCst);
            if s != 0 && !sub.slow && now > s + CASE_LIMIT_S {
                inconclusive = Some(format!("case {} ran for more than {} s", current[t].load(SeqCst), CASE_LIMIT_S));
            }
        }
        if sub.slow && t0.elapsed() > Duration::from_secs(SLOW_LIMIT_S) { inconclusive = Some("slow cases left unexplored".to_string()); }
        else if Instant::now() > deadline { inconclusive = Some("out of time".to_string()); }
        if inconclusive.is_some() {
            fail_at.store(0, SeqCst); // the other workers stop
            break;
        }
    }
    let failure = fail.lock().unwrap().take();
    let enumerated = sub.enumerated;
    let failure = failure.map(|(case, tape, msg0)| {
        let (ftx, frx) = std::sync::mpsc::channel();
        let tape0 = tape.clone();
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let (tape, msg, tries) = shrink(f, tape, thorough, case, enumerated);
                let mut cx = Cx::replay(tape.clone(), true, thorough, case);
                let _ = run_case(f, &mut cx);
                let _ = ftx.send(Failure { case, tape, msg, notes: cx.notes, shrink_tries: tries });
            })
            .unwrap();
        frx.recv_timeout(Duration::from_secs(90)).unwrap_or_else(|_| Failure {
            case,
            tape: tape0,
            msg: format!("{} (not shrunk)", msg0),
            notes: vec![],
            shrink_tries: 0,
        })
    });
    // samples: re-run a few cases verbosely
    let samples = if failure.is_none() && inconclusive.is_none() && !sub.slow {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let mut out = vec![];
                for k in 0..40u64 {
                    let i = if total > 40 { mix(seed ^ k) % total } else { k % total.max(1) };
                    let mut cx = Cx::random(case_seed(seed, prop, name, i), thorough, i);
                    cx.verbose = true;
                    let _ = run_case(f, &mut cx);
                    if cx.nontrivial && !cx.notes.is_empty() {
                        let mut s = cx.notes.join("; ");
                        if s.len() > 300 { let mut e = 300; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); s.push_str("..."); }
                        out.push(format!("{}#{}: {}", name, i, s));
                        if out.len() == 2 { break; }
                    }
                }
                out
            })
            .unwrap()
            .join()
            .unwrap()
    } else {
        vec![]
    };
    Report {
        sub: name.to_string(),
        evals: st.evals,
        distinct_nontrivial: st.seen.len() as u64,
        labels: st.labels,
        samples,
        failure,
        inconclusive,
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn replay_case(f: CheckFn, tape: Vec<u64>, thorough: bool, case: u64) -> (Result<(), String>, Vec<String>) {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut cx = Cx::replay(tape, true, thorough, case);
            let r = run_case(f, &mut cx);
            (r, cx.notes)
        })
        .unwrap()
        .join()
        .unwrap()
}

pub fn seeded_case(prop: &'static str, sub: &Sub, seed: u64, thorough: bool, case: u64) -> (Result<(), String>, Vec<String>) {
    let (f, name) = (sub.f, sub.name);
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut cx = Cx::random(case_seed(seed, prop, name, case), thorough, case);
            cx.verbose = true;
            let r = run_case(f, &mut cx);
            (r, cx.notes)
        })
        .unwrap()
        .join()
        .unwrap()
}
