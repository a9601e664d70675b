//! Case runner: seeds, isolation, watchdogs, statistics, violations.
use crate::alloc;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use std::{fs, panic};

pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub sample_keys: BTreeMap<String, u32>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub seed: u64,
    pub thorough: bool,
    pub replay: bool,
    pub shard: u64,
    /// Scratch directory of this shard.
    pub dir: &'a str,
    pub stats: &'a mut Stats,
}

/// What a case concluded.
pub enum Bad {
    /// The property is broken: (signature, detail).
    Violation(String, String),
    /// The case could not be judged.
    Inconclusive(String),
}

pub type Res = Result<(), Bad>;

pub fn bad<T>(sig: &str, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Violation(sig.to_string(), detail.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return $crate::run::bad($sig, format!($($a)*)); }
    };
}

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.stats.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.stats.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.stats.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Registers a non-trivial observation (deduplicated by hash).
    pub fn distinct(&mut self, h: u64) {
        if self.stats.distinct.len() < 4_000_000 {
            self.stats.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        let n = self.stats.sample_keys.entry(kind.to_string()).or_insert(0);
        if *n < 1 {
            *n += 1;
            let s = clip(&f(), 1500);
            self.stats.samples.push(json!({"kind": kind, "case": s}));
        }
        if self.replay {
            // In replays everything is shown.
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, clip(&msg, 400));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text.clone());
        if std::env::var("MON_PANICS").is_ok() {
            eprintln!("{}", text);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic is returned as its text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

/// As guard, but a panic is the violation `sig`.
pub fn guardv<T>(sig: &str, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Bad> {
    match guard(f) {
        Ok(v) => Ok(v),
        Err(p) => bad(sig, format!("{} on {}", p, what())),
    }
}

pub fn inconclusive<T>(s: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Inconclusive(s.into()))
}

pub struct Spec {
    pub name: &'static str,
    pub f: fn(&mut Case) -> Res,
    pub stack: usize,
    /// Live memory a case may hold (None: unlimited).
    pub mem: Option<isize>,
    /// CPU seconds of one case.
    pub cpu: u64,
    /// Wall seconds after which a case is given up as inconclusive.
    pub wall: u64,
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub start: u64,
    pub count: u64,
    pub secs: u64,
    pub dir: String,
    pub replay: Option<u64>,
}

static CASE_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn thread_cpu_ms(clock: libc::clockid_t) -> Option<u64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, clock, &mut ts as *mut _) };
    if r != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
}

fn write_violation(dir: &str, shard: u64, v: &Value) {
    if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(format!("{}/viol-{}.jsonl", dir, shard)) {
        let _ = writeln!(f, "{}", v);
    }
}

pub fn run(spec: &'static Spec, args: Args) -> i32 {
    install_panic_hook();
    let dir = args.dir.clone();
    let scratch = format!("{}/s{}", args.dir, args.shard);
    fs::create_dir_all(&scratch).unwrap();
    let shard = args.shard;
    // The case being run, for whoever finds this process dead.
    let cur = fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/cur-{}", dir, shard)).unwrap();
    let cur = Mutex::new(cur);
    let clock_tx = std::sync::mpsc::channel();
    let (tx, rx) = clock_tx;
    let wall_limit = spec.wall;
    let cpu_limit = spec.cpu;
    let dir2 = dir.clone();

    // Watchdog.
    let wd = move || {
        let clock: libc::clockid_t = match rx.recv() {
            Ok(c) => c,
            Err(_) => return,
        };
        let mut seen = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let start = CASE_START_CPU.load(SeqCst);
            let no = CASE_NO.load(SeqCst);
            if start == u64::MAX {
                continue;
            }
            if no != seen {
                seen = no;
                since = Instant::now();
            }
            if let Some(cpu) = thread_cpu_ms(clock) {
                if CASE_NO.load(SeqCst) == no && cpu.saturating_sub(start) > cpu_limit * 1000 {
                    write_violation(&dir2, shard, &json!({"index": no, "sig": "endless", "detail":
                        format!("the case was still running after {} s of CPU time", cpu_limit)}));
                    unsafe { libc::_exit(78) }
                }
            }
            if since.elapsed() > Duration::from_secs(wall_limit) && CASE_NO.load(SeqCst) == no {
                unsafe { libc::_exit(79) }
            }
        }
    };
    std::thread::Builder::new().name("watchdog".into()).spawn(wd).unwrap();

    let worker = move || {
        let mut clock: libc::clockid_t = 0;
        unsafe {
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
        }
        tx.send(clock).unwrap();
        let mut stats = Stats {
            counts: BTreeMap::new(),
            maxes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            sample_keys: BTreeMap::new(),
        };
        let t0 = Instant::now();
        let mut n_viol = 0;
        let mut sigs: BTreeMap<String, u32> = BTreeMap::new();
        let mut evaluations = 0u64;
        let mut inconcl: Vec<String> = vec![];
        let mut n_inconcl = 0u64;
        let mut index = args.start + args.shard;
        if let Some(r) = args.replay {
            index = r;
        }
        let mut last = 0;
        while index < args.count || args.replay.is_some() {
            if t0.elapsed() > Duration::from_secs(args.secs) {
                break;
            }
            {
                use std::os::unix::fs::FileExt;
                let c = cur.lock().unwrap();
                let _ = c.write_at(format!("{:<20}", index).as_bytes(), 0);
            }
            CASE_NO.store(index, SeqCst);
            CASE_START_CPU.store(thread_cpu_ms(clock).unwrap_or(0), SeqCst);
            let mut case = Case {
                rng: Rng::new(mix(mix(args.seed, fnv(spec.name.as_bytes())), index)),
                index,
                seed: args.seed,
                thorough: args.tier == "thorough",
                replay: args.replay.is_some(),
                shard: args.shard,
                dir: &scratch,
                stats: &mut stats,
            };
            alloc::set_budget(spec.mem);
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (spec.f)(&mut case)));
            alloc::set_budget(None);
            CASE_START_CPU.store(u64::MAX, SeqCst);
            evaluations += 1;
            last = index;
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    let p = last_panic();
                    if p.contains("/repo/src/") {
                        Err(Bad::Violation("panic".into(), p))
                    } else {
                        Err(Bad::Inconclusive(format!("harness {}", p)))
                    }
                }
            };
            match r {
                Ok(()) => {}
                Err(Bad::Violation(sig, detail)) => {
                    let n = sigs.entry(sig.clone()).or_insert(0);
                    *n += 1;
                    // A signature that repeats (it may be a known finding) does not end the run.
                    if *n <= 5 {
                        n_viol += 1;
                    }
                    if *n <= 2 || args.replay.is_some() {
                        write_violation(&dir, shard, &json!({"index": index, "sig": sig, "detail": clip(&detail, 6000)}));
                    }
                    if n_viol >= 40 {
                        break;
                    }
                }
                Err(Bad::Inconclusive(s)) => {
                    n_inconcl += 1;
                    if inconcl.len() < 5 {
                        inconcl.push(format!("case {}: {}", index, clip(&s, 2000)));
                    }
                }
            }
            if args.replay.is_some() {
                break;
            }
            index += args.shards;
        }
        let mut hashes: Vec<u8> = Vec::with_capacity(stats.distinct.len() * 8);
        for h in &stats.distinct {
            hashes.extend(h.to_le_bytes());
        }
        // Appended to by restarted shards.
        let mut hf = fs::OpenOptions::new().create(true).append(true).open(format!("{}/distinct-{}.bin", dir, shard)).unwrap();
        hf.write_all(&hashes).unwrap();
        let out = json!({
            "evaluations": evaluations, "counts": stats.counts, "maxes": stats.maxes, "samples": stats.samples,
            "violations": n_viol, "inconclusive": n_inconcl, "inconclusive_samples": inconcl, "last": last,
            "secs": t0.elapsed().as_secs_f64(),
        });
        let mut of = fs::OpenOptions::new().create(true).append(true).open(format!("{}/stats-{}.jsonl", dir, shard)).unwrap();
        writeln!(of, "{}", out).unwrap();
        if n_viol > 0 {
            1
        } else {
            0
        }
    };
    let h = std::thread::Builder::new().name("case".into()).stack_size(spec.stack).spawn(worker).unwrap();
    match h.join() {
        Ok(c) => c,
        Err(_) => {
            eprintln!("harness worker died: {}", last_panic());
            2
        }
    }
}
