//! R07: the cache as a concurrent map with expiry.
use crate::ensure;
use crate::run::*;
use crate::sim::*;
use crate::util::*;
use ariadne_dns::resolver::{Cache, CacheConf};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

/// No network, only a clock.
pub struct NoFar;

impl Far for NoFar {
    fn udp(&mut self, _: u64, _: SocketAddr, _: &[u8]) -> Udp {
        Udp::SendErr(libc::ENETUNREACH)
    }
    fn connect(&mut self, _: u64, _: SocketAddr) -> Conn {
        Conn::Refused
    }
    fn tcp(&mut self, _: u64, _: SocketAddr, _: &[u8], _: usize) -> Vec<(u64, Piece, u64)> {
        vec![]
    }
    fn delivered(&mut self, _: u64, _: u64) {}
}

/// A key whose use gives other threads a chance.
#[derive(Clone, Debug)]
struct Key(u8);

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        jitter();
        self.0 == o.0
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        jitter();
        self.0.hash(h)
    }
}

#[derive(Default)]
struct Track {
    live: Mutex<BTreeSet<u64>>,
    torn: AtomicBool,
    twice: AtomicBool,
}

/// A value that knows when it is dropped, and whether it is seen half written.
struct Val {
    id: u64,
    n: u64,
    n2: u64,
    /// Copies are not tracked.
    copy: bool,
    t: Arc<Track>,
}

impl Val {
    fn new(id: u64, t: &Arc<Track>) -> Val {
        t.live.lock().unwrap().insert(id);
        Val { id, n: 0, n2: 0, copy: false, t: t.clone() }
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        let n = self.n;
        jitter();
        if n != self.n2 {
            self.t.torn.store(true, SeqCst);
        }
        Val { id: self.id, n, n2: n, copy: true, t: self.t.clone() }
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        if !self.copy && !self.t.live.lock().unwrap().remove(&self.id) {
            self.t.twice.store(true, SeqCst);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Get,
    Set(u64, u64),
    Remove,
    Inc,
    Clean,
}

/// What was returned: expiry (ns), id, increments.
type Ret = Option<(u64, u64, u64)>;

#[derive(Clone, Debug)]
struct Ev {
    op: Op,
    key: u8,
    /// Virtual time, constant during the call.
    t: u64,
    call: u64,
    ret: u64,
    got: Ret,
    thread: usize,
}

struct Rig {
    net: Arc<Net<NoFar>>,
    base: (Instant, u64),
    cache: Arc<Cache<Key, Val>>,
    track: Arc<Track>,
}

impl Rig {
    fn new(start: u64) -> Result<Rig, Bad> {
        let net = Net::new(NoFar, start, 0);
        let base = match net.run(Instant::now) {
            Ok(i) => (i, start),
            Err(e) => return inconclusive(e),
        };
        let cache = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(3600), max_cleaned: 10 }));
        Ok(Rig { net, base, cache, track: Arc::new(Track::default()) })
    }
    fn ns(&self, i: &Instant) -> u64 {
        match i.checked_duration_since(self.base.0) {
            Some(d) => self.base.1 + d.as_nanos() as u64,
            None => self.base.1 - self.base.0.duration_since(*i).as_nanos() as u64,
        }
    }
    /// Runs one operation on this thread.
    fn exec(&self, op: Op, key: u8) -> Result<Ret, String> {
        let k = Key(key);
        let r = self.net.run(|| match op {
            Op::Get => self.cache.get_clone(&k).map(|(i, v)| (i, v.id, v.n)),
            Op::Set(ttl, id) => self.cache.set(k, Duration::from_nanos(ttl), Val::new(id, &self.track)).map(|(i, v)| (i, v.id, v.n)),
            Op::Remove => self.cache.remove(&k).map(|(i, v)| (i, v.id, v.n)),
            Op::Inc => {
                let mut seen = None;
                let found = self.cache.on_found(&k, |i, v| {
                    seen = Some((*i, v.id, v.n));
                    v.n += 1;
                    jitter();
                    v.n2 += 1;
                });
                assert_eq!(found, seen.is_some(), "on_found returned {} but the closure ran: {}", found, seen.is_some());
                seen
            }
            Op::Clean => {
                self.cache.clean();
                None
            }
        })?;
        Ok(r.map(|(i, id, n)| (self.ns(&i), id, n)))
    }
}

/// The abstract map, one key: expiry, id, increments.
type State = Option<(u64, u64, u64)>;

fn apply(s: State, e: &Ev) -> (Ret, State) {
    let now = s.filter(|x| x.0 > e.t);
    match e.op {
        Op::Get => (now, now),
        Op::Set(ttl, id) => (now, Some((e.t + ttl, id, 0))),
        Op::Remove => (now, None),
        Op::Inc => (now, now.map(|x| (x.0, x.1, x.2 + 1))),
        Op::Clean => (None, now),
    }
}

/// Is there an order of these calls, consistent with real time, that explains the results?
fn linearizable(evs: &[Ev], budget: &mut u64) -> Option<bool> {
    fn go(evs: &[Ev], done: &mut Vec<u64>, left: usize, s: State, seen: &mut HashSet<(Vec<u64>, State)>, budget: &mut u64) -> Option<bool> {
        if left == 0 {
            return Some(true);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if !seen.insert((done.clone(), s)) {
            return Some(false);
        }
        let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        // Calls that started before every unfinished call returned.
        let first_ret = (0..evs.len()).filter(|i| !is(done, *i)).map(|i| evs[i].ret).min().unwrap();
        for i in 0..evs.len() {
            if is(done, i) || evs[i].call > first_ret {
                continue;
            }
            let (want, next) = apply(s, &evs[i]);
            if want != evs[i].got {
                continue;
            }
            done[i / 64] |= 1 << (i % 64);
            match go(evs, done, left - 1, next, seen, budget) {
                Some(false) => {}
                x => return x,
            }
            done[i / 64] &= !(1 << (i % 64));
        }
        Some(false)
    }
    let mut done = vec![0u64; evs.len() / 64 + 1];
    go(evs, &mut done, evs.len(), None, &mut HashSet::new(), budget)
}

fn gen_ttl_ns(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(10) as u64,
        3 => SEC,
        4 => u32::MAX as u64 * SEC,
        _ => r.range(1, 50) as u64,
    }
}

/// Histories of a single thread: every result, and what is kept.
fn sequential(c: &mut Case, mut r: Rng) -> Res {
    let rig = Rig::new(1000 * SEC)?;
    let mut model: BTreeMap<u8, (u64, u64, u64)> = BTreeMap::new();
    let keys = r.range(1, 12);
    let mut id = 0;
    let mut log: Vec<String> = vec![];
    let mut h = 0;
    for _ in 0..r.range(5, 60) {
        // Time passes, sometimes exactly to an expiry, or up to just before it.
        let now = rig.net.time();
        match r.below(6) {
            0 | 1 => {}
            2 => rig.net.pass(r.below(20) as u64),
            _ => {
                let ends: Vec<u64> = model.values().map(|x| x.0).filter(|e| *e > now && *e < now + 10_000 * SEC).collect();
                if !ends.is_empty() {
                    let e = *r.pick(&ends);
                    let exact = *r.pick(&[0u64, 0, 1]);
                    rig.net.pass(e - now - exact.min(e - now));
                }
            }
        }
        let t = rig.net.time();
        let key = r.below(keys) as u8;
        id += 1;
        let op = match r.below(10) {
            0..=2 => Op::Get,
            3..=6 => Op::Set(gen_ttl_ns(&mut r), id),
            7 => Op::Remove,
            8 => Op::Inc,
            _ => Op::Clean,
        };
        let got = match rig.exec(op, key) {
            Ok(x) => x,
            Err(p) => return bad("panic", format!("{} in {:?} after {}", p, op, log.join("; "))),
        };
        let ev = Ev { op, key, t, call: 0, ret: 0, got, thread: 0 };
        log.push(format!("t+{} {:?} k{} -> {:?}", t - 1000 * SEC, op, key, got));
        let cur = model.get(&key).copied();
        if op == Op::Clean {
            model.retain(|_, v| v.0 > t);
        } else {
            let (want, next) = apply(cur, &ev);
            match next {
                Some(x) => {
                    model.insert(key, x);
                }
                None => {
                    model.remove(&key);
                }
            }
            ensure!(want == got, "wrong result", "expected {:?}, history: {}", want, log.join("; "));
            if cur.map_or(false, |x| x.0 == t) {
                c.count("used at the instant of expiry");
            }
            if cur.map_or(false, |x| x.0 == t + 1) {
                c.count("used just before expiry");
            }
            if want.is_some() {
                c.count("found");
            }
        }
        // Nothing unexpired may be dropped; cleaning drops all else.
        let live = rig.track.live.lock().unwrap().clone();
        let must: BTreeSet<u64> = model.values().filter(|x| x.0 > t).map(|x| x.1).collect();
        ensure!(must.is_subset(&live), "dropped too early", "{:?} still unexpired, {:?} kept; history: {}", must, live, log.join("; "));
        if op == Op::Clean {
            ensure!(must == live, "not cleaned", "{:?} unexpired, {:?} kept after cleaning; history: {}", must, live, log.join("; "));
            c.count("cleaned and compared");
        }
        h = mix(h, fnv(format!("{:?}{:?}", op, got.map(|x| x.0 - t)).as_bytes()));
        c.count("operations");
    }
    ensure!(!rig.track.twice.load(SeqCst), "dropped twice", "a value was dropped twice; history: {}", log.join("; "));
    let cache = rig.cache;
    let shown = rig.net.run(|| format!("{:?}", DebugOf(&cache)));
    ensure!(shown.is_ok(), "panic", "printing the cache panicked: {:?}", shown);
    drop(cache);
    ensure!(rig.track.live.lock().unwrap().is_empty(), "leak", "values outlive the cache; history: {}", log.join("; "));
    c.distinct(h);
    Ok(())
}

struct DebugOf<'a>(&'a Cache<Key, Val>);
impl std::fmt::Debug for DebugOf<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.id)
    }
}

/// Histories of several threads. Time stands still while they run, and passes between rounds.
fn concurrent(c: &mut Case, mut r: Rng) -> Res {
    let rig = Rig::new(1000 * SEC)?;
    let threads = if c.thorough { r.range(2, 6) } else { r.range(2, 4) };
    let rounds = r.range(1, 5);
    let keys = *r.pick(&[1, 1, 2, 3]);
    let per = r.range(2, 7);
    let stamp = AtomicU64::new(1);
    let mut all: Vec<Ev> = vec![];
    let mut id = 0;
    let heavy = r.below(4);
    for _ in 0..rounds {
        let t = rig.net.time();
        let mut plans: Vec<(u64, Vec<(Op, u8)>)> = vec![];
        for _ in 0..threads {
            let mut ops = vec![];
            for _ in 0..per {
                id += 1;
                let op = match (heavy, r.below(10)) {
                    // Much writing, expired entries everywhere.
                    (0, 0..=5) => Op::Set(r.below(3) as u64, id),
                    (1, 0..=5) => Op::Inc,
                    (2, 0..=3) => Op::Clean,
                    (_, 0..=2) => Op::Get,
                    (_, 3..=5) => Op::Set(gen_ttl_ns(&mut r), id),
                    (_, 6) => Op::Remove,
                    (_, 7) => Op::Inc,
                    (_, 8) => Op::Get,
                    _ => Op::Clean,
                };
                ops.push((op, r.below(keys) as u8));
            }
            plans.push((r.u64() | 1, ops));
        }
        let gate = Barrier::new(threads);
        let (rigr, gater, stampr) = (&rig, &gate, &stamp);
        let evs: Vec<Result<Vec<Ev>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .into_iter()
                .enumerate()
                .map(|(k, (seed, ops))| {
                    s.spawn(move || {
                        set_jitter(seed);
                        gater.wait();
                        let mut v = vec![];
                        for (op, key) in ops {
                            let call = stampr.fetch_add(1, SeqCst);
                            let got = rigr.exec(op, key)?;
                            let ret = stampr.fetch_add(1, SeqCst);
                            v.push(Ev { op, key, t, call, ret, got, thread: k });
                        }
                        set_jitter(0);
                        Ok(v)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect()
        });
        for e in evs {
            match e {
                Ok(v) => all.extend(v),
                Err(p) => return bad("panic", p),
            }
        }
        let ends: Vec<u64> = all.iter().filter_map(|e| if let Op::Set(ttl, _) = e.op { Some(e.t + ttl) } else { None }).filter(|e| *e > t && *e < t + 1000 * SEC).collect();
        if r.pct(80) {
            let d = if !ends.is_empty() && r.bool() { *r.pick(&ends) - t } else { r.below(30) as u64 };
            rig.net.pass(d);
        }
    }
    let show = |v: &[Ev]| {
        let mut v = v.to_vec();
        v.sort_by_key(|e| e.call);
        v.iter().map(|e| format!("[{}..{}] thread {} t+{} {:?} k{} -> {:?}", e.call, e.ret, e.thread, e.t - 1000 * SEC, e.op, e.key, e.got)).collect::<Vec<_>>().join("\n ")
    };
    ensure!(!rig.track.torn.load(SeqCst), "torn value", "a value was read while it was being changed:\n {}", show(&all));
    let mut overlaps = 0;
    for k in 0..keys as u8 {
        let mut evs: Vec<Ev> = all.iter().filter(|e| e.key == k && e.op != Op::Clean).cloned().collect();
        evs.sort_by_key(|e| e.call);
        for w in evs.windows(2) {
            if w[1].call < w[0].ret {
                overlaps += 1;
            }
        }
        let mut budget = 2_000_000;
        match linearizable(&evs, &mut budget) {
            Some(true) => {}
            Some(false) => return bad("not linearizable", format!("no order of the calls on one key explains their results:\n {}", show(&all.iter().filter(|e| e.key == k || e.op == Op::Clean).cloned().collect::<Vec<_>>()))),
            None => {
                c.count("histories too long to decide");
            }
        }
    }
    c.add("overlapping calls", overlaps);
    c.add("concurrent operations", all.len() as u64);
    c.count("concurrent histories decided");
    // What is left is exactly what can be found.
    if let Err(p) = rig.exec(Op::Clean, 0) {
        return bad("panic", p);
    }
    let live = rig.track.live.lock().unwrap().clone();
    let mut found = BTreeSet::new();
    for k in 0..keys as u8 {
        match rig.exec(Op::Get, k) {
            Ok(Some(x)) => {
                found.insert(x.1);
            }
            Ok(None) => {}
            Err(p) => return bad("panic", p),
        }
    }
    ensure!(live == found, "not cleaned", "{:?} kept after cleaning, {:?} found:\n {}", live, found, show(&all));
    ensure!(!rig.track.twice.load(SeqCst), "dropped twice", "a value was dropped twice:\n {}", show(&all));
    // The interleaving: the order of calls and returns.
    let mut marks: Vec<(u64, u64)> = all.iter().flat_map(|e| [(e.call, e.thread as u64 * 2), (e.ret, e.thread as u64 * 2 + 1)]).collect();
    marks.sort();
    if overlaps > 0 {
        c.distinct(marks.iter().fold(0, |h, m| mix(h, m.1)));
    }
    Ok(())
}

/// Many increments by many threads: none is lost.
fn increments(c: &mut Case, mut r: Rng) -> Res {
    let rig = Rig::new(1000 * SEC)?;
    let threads = r.range(2, 8);
    let per = r.range(50, 400) as u64;
    for k in 0..4 {
        if let Err(p) = rig.exec(Op::Set(SEC, 100 + k), k as u8) {
            return bad("panic", p);
        }
    }
    let gate = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64() | 1).collect();
    let (rigr, gater) = (&rig, &gate);
    let sums: Vec<Result<[u64; 4], String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                s.spawn(move || {
                    let mut r = Rng::new(*seed);
                    if r.bool() {
                        set_jitter(*seed);
                    }
                    gater.wait();
                    let mut n = [0; 4];
                    for _ in 0..per {
                        let k = r.below(4);
                        match r.below(10) {
                            0 => {
                                rigr.exec(Op::Get, k as u8)?;
                            }
                            1 => {
                                rigr.exec(Op::Clean, 0)?;
                            }
                            _ => {
                                if rigr.exec(Op::Inc, k as u8)?.is_some() {
                                    n[k] += 1;
                                }
                            }
                        }
                    }
                    set_jitter(0);
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect()
    });
    let mut total = [0; 4];
    for x in sums {
        match x {
            Ok(n) => (0..4).for_each(|k| total[k] += n[k]),
            Err(p) => return bad("panic", p),
        }
    }
    for k in 0..4 {
        match rig.exec(Op::Get, k as u8) {
            Ok(Some(x)) => ensure!(x.2 == total[k], "lost update", "key {} was incremented {} times, but holds {}", k, total[k], x.2),
            Ok(None) => return bad("lost entry", format!("key {} vanished", k)),
            Err(p) => return bad("panic", p),
        }
    }
    ensure!(!rig.track.torn.load(SeqCst), "torn value", "a value was read while it was being changed");
    c.add("increments counted", total.iter().sum());
    Ok(())
}

struct Stop(Arc<AtomicBool>);

impl Drop for Stop {
    fn drop(&mut self) {
        self.0.store(true, SeqCst);
    }
}

/// The periodic cleaning, on the real clock.
fn routine(c: &mut Case, mut r: Rng) -> Res {
    let track = Arc::new(Track::default());
    let period = Duration::from_millis(r.range(5, 40) as u64);
    let cache: Arc<Cache<u64, Val>> = Arc::new(Cache::new(CacheConf { clean_period: period, max_cleaned: *r.pick(&[20, 500, 1000]) }));
    let _h = match guard(|| cache.start_clean_routine()) {
        Ok(h) => h,
        Err(p) => return bad("panic", p),
    };
    let mut id = 0;
    let mut keep: HashMap<u64, u64> = HashMap::new();
    let lasting = r.bool();
    // Others using the cache all the time.
    let stop = Arc::new(AtomicBool::new(false));
    let _stop = Stop(stop.clone());
    for _ in 0..*r.pick(&[0, 0, 1, 3]) {
        let (cache, stop) = (cache.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut k = 0;
            while !stop.load(SeqCst) {
                k += 1;
                let _ = cache.get_clone(&(u64::MAX - k % 64));
            }
        });
    }
    for round in 0..r.range(1, 3) {
        if r.bool() {
            // Nothing to reclaim for a while.
            std::thread::sleep(period * 3);
        }
        for _ in 0..*r.pick(&[1usize, 30, 700, 1500]) {
            id += 1;
            let ttl = Duration::from_millis(r.below(30) as u64);
            cache.set(id, ttl, Val::new(id, &track));
        }
        for _ in 0..if lasting { r.below(20) } else { 0 } {
            id += 1;
            cache.set(id, Duration::from_secs(86_400), Val::new(id, &track));
            keep.insert(id, id);
        }
        // Reclaimed without being asked for.
        let start = Instant::now();
        let want: BTreeSet<u64> = keep.values().copied().collect();
        loop {
            let live = track.live.lock().unwrap().clone();
            ensure!(want.is_subset(&live), "dropped too early", "the cleaning removed unexpired entries {:?}", want.difference(&live).take(5).collect::<Vec<_>>());
            if live == want {
                break;
            }
            if start.elapsed() > Duration::from_secs(30) {
                return bad("never reclaimed", format!("round {}: {} expired entries are still kept 30 s after a period of {:?}", round, live.len() - want.len(), period));
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        c.count("rounds reclaimed by the routine");
    }
    for (k, v) in keep {
        match cache.get_clone(&k) {
            Some(x) => ensure!(x.1.id == v, "wrong result", "key {} holds {}", k, x.1.id),
            None => return bad("dropped too early", format!("key {} is gone", k)),
        }
    }
    // Keep the routine's thread from having anything to do.
    c.distinct(id);
    Ok(())
}

/// A great many entries: none of them is dropped for want of room, and all expired ones are cleaned.
fn crowd(c: &mut Case, mut r: Rng) -> Res {
    let net = Net::new(NoFar, 1000 * SEC, 0);
    let n = if c.thorough { *r.pick(&[3_000u64, 30_000, 70_000, 300_000]) } else { *r.pick(&[3_000, 12_000, 30_000, 70_000]) };
    let (mul, add) = (r.u64() | 1, r.u64());
    let cache: Cache<u64, u64> = Cache::new(CacheConf { clean_period: Duration::from_secs(3600), max_cleaned: 10 });
    // Some live shorter than it takes to put all of them in.
    let short = |i: u64| i % 7 == 3;
    let res = net.run(|| -> Res {
        for i in 0..n {
            let ttl = if short(i) { 1 + i % 50 } else { 100_000 + i };
            let old = cache.set(i.wrapping_mul(mul).wrapping_add(add), Duration::from_secs(ttl), i);
            ensure!(old.is_none(), "wrong result", "the first entry of a key replaced {:?}, {} entries in", old, i);
        }
        for round in 0..2 {
            for i in 0..n {
                let got = cache.get_clone(&i.wrapping_mul(mul).wrapping_add(add)).map(|x| x.1);
                let want = if round == 1 && short(i) { None } else { Some(i) };
                ensure!(got == want, "wrong result", "{:?} instead of {:?} from a cache of {} entries (round {})", got, want, n, round);
            }
            if round == 0 {
                std::thread::sleep(Duration::from_secs(1000));
                cache.clean();
            }
        }
        Ok(())
    });
    match res {
        Ok(x) => x?,
        Err(p) => return bad("panic", format!("{} with {} entries", p, n)),
    }
    c.count("caches of thousands of entries");
    c.max("entries in one cache", n);
    c.distinct(mix(n, mul));
    Ok(())
}

pub fn r07(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let k = r.below(1000);
    if k < 6 {
        routine(c, r)
    } else if k < 9 {
        crowd(c, r)
    } else if k < 40 {
        increments(c, r)
    } else if k < 350 {
        sequential(c, r)
    } else {
        concurrent(c, r)
    }
}
