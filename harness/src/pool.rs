//! S04: the thread pool.
use crate::ensure;
use crate::run::*;
use crate::util::*;
use ariadne_dns::shared::thread_pool::ThreadPool;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const LONG: Duration = Duration::from_secs(40);

/// What the jobs report.
#[derive(Default)]
struct Log {
    /// Started jobs: (submitter, number).
    starts: Mutex<Vec<(usize, usize)>>,
    runs: Vec<AtomicU64>,
    ends: Vec<AtomicU64>,
    running: AtomicI64,
    most: AtomicI64,
    problems: Mutex<Vec<String>>,
}

impl Log {
    fn new(n: usize) -> Arc<Log> {
        Arc::new(Log { runs: (0..n).map(|_| AtomicU64::new(0)).collect(), ends: (0..n).map(|_| AtomicU64::new(0)).collect(), ..Default::default() })
    }
    fn start(&self, job: usize, tag: (usize, usize)) {
        let now = self.running.fetch_add(1, SeqCst) + 1;
        self.most.fetch_max(now, SeqCst);
        self.runs[job].fetch_add(1, SeqCst);
        self.starts.lock().unwrap().push(tag);
    }
    fn end(&self, job: usize) {
        self.ends[job].fetch_add(1, SeqCst);
        self.running.fetch_sub(1, SeqCst);
    }
}

/// Ends the record of a job even if it panics.
struct Running(Arc<Log>, usize);
impl Drop for Running {
    fn drop(&mut self) {
        self.0.end(self.1);
    }
}

/// A gate that opens when enough have come, or is opened.
struct Gate {
    m: Mutex<(usize, bool)>,
    cv: Condvar,
}

impl Gate {
    fn new() -> Arc<Gate> {
        Arc::new(Gate { m: Mutex::new((0, false)), cv: Condvar::new() })
    }
    /// Arrives and waits until open; false after too long.
    fn pass(&self, open_at: usize) -> bool {
        let mut g = self.m.lock().unwrap();
        g.0 += 1;
        if g.0 >= open_at {
            g.1 = true;
        }
        self.cv.notify_all();
        let end = Instant::now() + LONG;
        while !g.1 {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
        true
    }
    /// Waits for n arrivals.
    fn arrived(&self, n: usize) -> bool {
        let mut g = self.m.lock().unwrap();
        let end = Instant::now() + LONG;
        while g.0 < n {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
        true
    }
    fn count(&self) -> usize {
        self.m.lock().unwrap().0
    }
    fn open(&self) {
        self.m.lock().unwrap().1 = true;
        self.cv.notify_all();
    }
}

fn explode(kind: usize) {
    match kind {
        0 => panic!("a job panics"),
        1 => std::panic::panic_any(42u32),
        2 => {
            let v: Vec<u8> = vec![];
            let _ = std::hint::black_box(v)[std::hint::black_box(3)];
        }
        3 => {
            let x: Option<u8> = None;
            let _ = std::hint::black_box(x).unwrap();
        }
        _ => std::panic::resume_unwind(Box::new("quietly")),
    }
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

struct Unwound;

pub fn s04(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let size = if r.one_in(150) { r.range(14, 300) } else { *r.pick(&[1, 1, 2, 2, 3, 4, 5, 8, 13]) };
    let before = threads();
    let pool = match guard(|| ThreadPool::new(size, "pool")) {
        Ok(p) => p,
        Err(p) => return bad("panic", p),
    };
    let steps = if size > 13 { 1 } else { r.range(1, 5) };
    let mut shape = vec![];
    for _ in 0..steps {
        let k = r.below(5);
        shape.push(k);
        match k {
            0 => crowd(c, &mut r, &pool, size, 0)?,
            1 => {
                let p = *r.pick(&[5, 30, 100]);
                crowd(c, &mut r, &pool, size, p)?
            }
            2 => held(c, &mut r, &pool, size)?,
            3 => together(c, &pool, size)?,
            _ => dance(c, &mut r, &pool, size)?,
        }
    }
    // Dropping waits for everything submitted.
    let n = r.range(0, 60);
    let log = Log::new(n);
    let panics = *r.pick(&[0, 0, 20, 100]);
    let slow = r.one_in(3);
    for j in 0..n {
        let (l, seed, bang) = (log.clone(), r.u64() | 1, r.pct(panics));
        pool.execute(move || {
            let _x = Running(l.clone(), j);
            l.start(j, (0, j));
            set_jitter(seed);
            if slow {
                std::thread::sleep(Duration::from_micros(seed % 2000));
            }
            jitter();
            set_jitter(0);
            if bang {
                explode(seed as usize % 5)
            }
        });
    }
    let start = Instant::now();
    let done = Arc::new(AtomicUsize::new(0));
    let d2 = done.clone();
    // Dropped as its owner unwinds.
    let unwinding = r.one_in(4);
    let t = std::thread::spawn(move || {
        let r = guard(move || {
            if unwinding {
                let _p = pool;
                std::panic::panic_any(Unwound);
            }
            drop(pool)
        });
        let r = match r {
            Err(_) if unwinding => Ok(()),
            r => r,
        };
        d2.store(1, SeqCst);
        r
    });
    while done.load(SeqCst) == 0 {
        if start.elapsed() > LONG {
            return bad("drop hangs", format!("dropping a pool of {} with {} jobs submitted does not end", size, n));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    match t.join() {
        Ok(Ok(())) => {}
        Ok(Err(p)) => return bad("panic", format!("dropping the pool: {}", p)),
        Err(_) => return inconclusive("the dropping thread ended"),
    }
    check(&log, n, size, 1, "after dropping the pool")?;
    let left = Instant::now();
    while threads() > before {
        if left.elapsed() > LONG {
            return bad("threads stay", format!("{} threads more than before a pool of {} was made and dropped", threads() - before, size));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    c.count("pools dropped");
    c.add("jobs run", n as u64);
    c.count(if unwinding { "pools dropped while unwinding" } else { "pools dropped in the ordinary way" });
    c.count(&if size > 13 { "pools of more than 13".to_string() } else { format!("pools of {}", size) });
    let order: Vec<u64> = log.starts.lock().unwrap().iter().map(|x| x.1 as u64).collect();
    c.distinct(mix(size as u64, mix(fnv(format!("{:?}", shape).as_bytes()), order.iter().fold(0, |h, x| mix(h, *x)))));
    Ok(())
}

fn check(log: &Log, n: usize, size: usize, submitters: usize, when: &str) -> Res {
    for j in 0..n {
        let (a, b) = (log.runs[j].load(SeqCst), log.ends[j].load(SeqCst));
        ensure!(a <= 1, "ran twice", "job {} of {} ran {} times ({}, {} threads)", j, n, a, when, size);
        ensure!(a == 1, "not run", "job {} of {} did not run ({}, {} threads)", j, n, when, size);
        ensure!(b == 1, "not finished", "job {} of {} has not finished ({}, {} threads)", j, n, when, size);
    }
    let most = log.most.load(SeqCst);
    ensure!(most <= size as i64, "too many at once", "{} jobs ran at once in a pool of {}", most, size);
    if let Some(p) = log.problems.lock().unwrap().first() {
        return bad("job", p.clone());
    }
    // Taken in order: when a job starts, of the earlier ones of its submitter at most
    // those the other workers have just taken are missing.
    let starts = log.starts.lock().unwrap().clone();
    for s in 0..submitters {
        let mine: Vec<usize> = starts.iter().filter(|x| x.0 == s).map(|x| x.1).collect();
        let mut seen = vec![false; n];
        let mut below = 0;
        for j in mine {
            while below < n && seen[below] {
                below += 1;
            }
            let missing = (below..j).filter(|k| !seen[*k] && starts.contains(&(s, *k))).count();
            ensure!(missing < size, "out of order", "job {} of submitter {} started before {} earlier ones ({} threads)", j, s, missing, size);
            seen[j] = true;
        }
    }
    Ok(())
}

fn settle(log: &Log, n: usize) -> bool {
    let end = Instant::now() + LONG;
    loop {
        if (0..n).all(|j| log.ends[j].load(SeqCst) >= 1) && log.running.load(SeqCst) == 0 {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
}

/// Many jobs of several submitters, some of which panic.
fn crowd(c: &mut Case, r: &mut Rng, pool: &ThreadPool, size: usize, panics: usize) -> Res {
    let subs = r.range(1, 4);
    let per = r.range(1, 60);
    let log = Log::new(subs * per);
    let seeds: Vec<u64> = (0..subs).map(|_| r.u64() | 1).collect();
    std::thread::scope(|s| {
        for (k, seed) in seeds.iter().enumerate() {
            let log = &log;
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                set_jitter(*seed);
                for j in 0..per {
                    let (l, seed, bang) = (log.clone(), r.u64() | 1, r.pct(panics));
                    pool.execute(move || {
                        let _x = Running(l.clone(), k * per + j);
                        l.start(k * per + j, (k, j));
                        set_jitter(seed);
                        jitter();
                        set_jitter(0);
                        if bang {
                            explode(seed as usize % 5)
                        }
                    });
                    jitter();
                }
                set_jitter(0);
            });
        }
    });
    let done = settle(&log, subs * per);
    check(&log, subs * per, size, subs, if done { "all waited for" } else { "after 40 s" })?;
    c.add("jobs run", (subs * per) as u64);
    c.count(if panics > 0 { "crowds with panics" } else { "crowds" });
    c.max("jobs at once", log.most.load(SeqCst) as u64);
    Ok(())
}

/// As many jobs as workers wait for each other: they must all run at once.
fn together(c: &mut Case, pool: &ThreadPool, size: usize) -> Res {
    let log = Log::new(size);
    let gate = Gate::new();
    for j in 0..size {
        let (l, g) = (log.clone(), gate.clone());
        pool.execute(move || {
            let _x = Running(l.clone(), j);
            l.start(j, (0, j));
            if !g.pass(size) {
                l.problems.lock().unwrap().push(format!("only {} of {} jobs ran at once", g.count(), size));
            }
        });
    }
    let all = gate.arrived(size);
    let n = gate.count();
    gate.open();
    ensure!(all, "not parallel", "only {} of {} jobs that wait for each other were started by a pool of {}", n, size, size);
    settle(&log, size);
    check(&log, size, size, 1, "jobs that wait for each other")?;
    c.count("all workers busy at once");
    Ok(())
}

/// All workers held; more jobs queue up without blocking, and run in order afterwards.
fn held(c: &mut Case, r: &mut Rng, pool: &ThreadPool, size: usize) -> Res {
    let extra = if r.one_in(40) { r.range(1000, 6000) } else { r.range(1, 200) };
    let n = size + extra;
    let log = Log::new(n);
    let gate = Gate::new();
    for j in 0..size {
        let (l, g) = (log.clone(), gate.clone());
        pool.execute(move || {
            let _x = Running(l.clone(), j);
            l.start(j, (0, j));
            if !g.pass(usize::MAX) {
                l.problems.lock().unwrap().push("a held job was never released".into());
            }
        });
    }
    let all = gate.arrived(size);
    if !all {
        let k = gate.count();
        gate.open();
        return bad("not parallel", format!("only {} of {} jobs were started by a pool of {}", k, size, size));
    }
    for j in size..n {
        let l = log.clone();
        pool.execute(move || {
            let _x = Running(l.clone(), j);
            l.start(j, (0, j));
        });
    }
    std::thread::sleep(Duration::from_micros(r.below(1500) as u64));
    let started = log.starts.lock().unwrap().len();
    gate.open();
    ensure!(started == size, "too many at once", "{} jobs were started by a pool of {} whose workers are all held", started, size);
    let done = settle(&log, n);
    check(&log, n, size, 1, if done { "all waited for" } else { "after 40 s" })?;
    c.add("jobs run", n as u64);
    c.count("queues behind held workers");
    Ok(())
}

/// Chains of jobs, each releasing the previous one: needs two workers at a time.
fn dance(c: &mut Case, r: &mut Rng, pool: &ThreadPool, size: usize) -> Res {
    if size < 2 {
        return together(c, pool, size);
    }
    let pairs = r.range(1, 40);
    let log = Log::new(pairs * 2);
    for p in 0..pairs {
        let gate = Gate::new();
        for k in 0..2 {
            let (l, g) = (log.clone(), gate.clone());
            let j = p * 2 + k;
            pool.execute(move || {
                let _x = Running(l.clone(), j);
                l.start(j, (0, j));
                if !g.pass(2) {
                    l.problems.lock().unwrap().push(format!("job {} waited in vain for its partner", j));
                }
            });
        }
    }
    let done = settle(&log, pairs * 2);
    check(&log, pairs * 2, size, 1, if done { "jobs in pairs" } else { "jobs in pairs, after 40 s" })?;
    c.count("jobs in pairs");
    Ok(())
}
