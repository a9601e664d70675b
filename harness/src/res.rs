//! Checks of the resolver on a simulated network: R01-R06, R08, R09.
use crate::ensure;
use crate::mock::*;
use crate::run::*;
use crate::sim::*;
use crate::util::*;
use crate::wire::*;
use crate::world::*;
use crate::zone::norm;
use ariadne_dns::resolver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

pub type WNet = Arc<Net<World>>;

/// Simulated time may run on by this much between a reply and its storage.
const SLACK: u64 = 20 * MS;

pub struct Rig {
    pub net: WNet,
    pub cache: Arc<RecordsCache>,
    pub h: ResolverHandler,
    pub p: ResolverParams,
    pub id: u16,
}

pub fn gen_params(r: &mut Rng) -> ResolverParams {
    ResolverParams {
        max_ns_queried: r.range(1, 5),
        max_upd_retries: r.range(1, 4),
        max_cname_redir: r.range(1, 12),
        read_timeout: Duration::from_millis(*r.pick(&[200, 500, 1000, 2000, 5000])),
        write_timeout: Duration::from_millis(*r.pick(&[200, 1000, 2000])),
        no_follow_cname: false,
    }
}

pub fn gen_trace(r: &mut Rng) -> TraceParams {
    TraceParams { verbose: r.bool(), silent: r.pct(60), color: r.bool() }
}

impl Rig {
    pub fn new(w: World, p: ResolverParams, t: TraceParams, tick: u64) -> Rig {
        let net = Net::new(w, 1000 * SEC + 7, tick);
        Rig::on(net, p, t)
    }
    pub fn on(net: WNet, p: ResolverParams, t: TraceParams) -> Rig {
        let cache = Arc::new(RecordsCache::new(CacheConf::default()));
        let h = ResolverHandler(Resolver::new(&cache, p.clone(), t));
        Rig { net, cache, h, p, id: 77 }
    }

    /// A client's query; the reply as an independent message, with start and end of the lookup.
    pub fn client(&mut self, q: &RQ) -> Result<(RMsg, u64, u64), Bad> {
        self.id = self.id.wrapping_add(1);
        client(&self.net, &self.h, self.id, q)
    }
}

pub fn client(net: &WNet, h: &ResolverHandler, id: u16, q: &RQ) -> Result<(RMsg, u64, u64), Bad> {
    let m = RMsg { h: RHdr { id, rd: true, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
    let bytes = encode(&m);
    let ts = net.time();
    let r = net.run(|| ask(h, &bytes));
    let te = net.time();
    if broken() {
        return inconclusive("the simulated network failed");
    }
    let replies = match r {
        Ok(v) => v,
        Err(p) => return bad("panic", format!("{} while resolving {} {}", p, text(&q.name), q.qtype)),
    };
    ensure!(replies.len() == 1, "reply count", "{} replies to {} {}", replies.len(), text(&q.name), q.qtype);
    Ok((r_msg(&replies[0]), ts, te))
}

pub fn problems(net: &WNet) -> Res {
    let (p, n) = net.with(|i| (i.far.problems.first().cloned(), i.problems.first().cloned()));
    if let Some(p) = p.or(n) {
        return bad("query", p);
    }
    Ok(())
}

fn same_set(a: &[RRec], b: &[RRec]) -> bool {
    let k = |v: &[RRec]| {
        let mut x: Vec<String> = v.iter().map(|r| { let n = norm(r); format!("{:?} {:?}", n.name, n.data) }).collect();
        x.sort();
        x
    };
    k(a) == k(b)
}

pub fn show_recs(v: &[RRec]) -> String {
    v.iter().map(|r| format!("{} {} {}", text(&r.name), r.ttl, brief(&r.data))).collect::<Vec<_>>().join(" | ")
}

fn show_truth(t: &Truth) -> String {
    let e = match &t.end {
        End::Records(v) => show_recs(v),
        e => format!("{:?}", e),
    };
    format!("aliases [{}] then {}", show_recs(&t.chain), e)
}

/// Compares a reply with the truth; what kind of truth it was.
pub fn judge(t: &Truth, max: usize, q: &RQ, m: &RMsg) -> Result<&'static str, Bad> {
    let k = t.chain.len();
    let why = || format!("question {} {} (at most {} aliases)\n got rcode {} answers {}\n truth {}", text(&q.name), q.qtype, max, m.h.rcode, show_recs(&m.sec[0]), show_truth(t));
    // Nothing foreign among the answers, whatever the code.
    let mut cur = q.name.clone();
    for (i, a) in m.sec[0].iter().enumerate() {
        ensure!(name_eq(&a.name, &cur), "foreign answer", "answer {} is not about {}: {}", i, text(&cur), why());
        if a.data.rtype() == CNAME && q.qtype != CNAME {
            if let RData::Name(_, n) = &a.data {
                cur = n.clone();
            }
        } else {
            ensure!(a.data.rtype() == q.qtype, "foreign answer", "answer {} has another type: {}", i, why());
        }
    }
    match &t.end {
        End::Records(set) => {
            if m.h.rcode == 2 && m.sec[0].is_empty() && k >= max {
                return Ok("long chain refused");
            }
            ensure!(k <= max, "long chain", "{}", why());
            ensure!(m.h.rcode == 0, "failed", "{}", why());
            ensure!(m.sec[0].len() >= k && same_set_seq(&m.sec[0][..k], &t.chain), "aliases", "{}", why());
            ensure!(same_set(&m.sec[0][k..], set), "records", "{}", why());
            Ok(if k > 0 { "aliases and records" } else { "records" })
        }
        End::NxDomain => {
            if k >= max && m.h.rcode == 2 {
                return Ok("long chain refused");
            }
            ensure!(m.h.rcode == 3, "name error missed", "{}", why());
            ensure!(m.sec[0].iter().all(|a| a.data.rtype() == CNAME), "answers in name error", "{}", why());
            Ok(if k > 0 { "aliases and name error" } else { "name error" })
        }
        End::NoData => {
            ensure!(m.h.rcode != 3 || k >= max, "name error for an existing name", "{}", why());
            ensure!(m.sec[0].iter().all(|a| a.data.rtype() == CNAME && q.qtype != CNAME), "records", "{}", why());
            ensure!(m.h.rcode == 0 || m.h.rcode == 2, "code", "{}", why());
            Ok("no such type")
        }
        End::Loop => {
            ensure!(m.h.rcode == 2, "loop", "{}", why());
            ensure!(m.sec[0].is_empty(), "loop", "{}", why());
            Ok("alias loop")
        }
    }
}

fn same_set_seq(a: &[RRec], b: &[RRec]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_set(std::slice::from_ref(x), std::slice::from_ref(y)))
}

pub fn ctx(net: &WNet, from: usize) -> String {
    net.with(|i| format!("\nqueries sent:\n{}world:\n{}", show_log(&i.far, from), show(&i.far)))
}

fn add_ctx(r: Result<&'static str, Bad>, net: &WNet, from: usize, hist: &[String]) -> Result<&'static str, Bad> {
    match r {
        Err(Bad::Violation(s, d)) => Err(Bad::Violation(s, format!("{}\nearlier lookups: {}{}", d, hist.join("; "), ctx(net, from)))),
        x => x,
    }
}

pub fn absorb(c: &mut Case, net: &WNet) {
    let (counts, sends, streams, filtered, got) = net.with(|i| (i.far.counts.clone(), i.sends, i.streams, i.filtered, i.far.got.len()));
    for (k, v) in counts {
        c.add(k, v);
    }
    c.add("upstream queries", sends);
    c.add("upstream replies taken", got as u64);
    c.add("tcp connections", streams);
    c.add("datagrams kept from connected sockets", filtered);
}

// ---------------------------------------------------------------- what was learned

/// Everything genuine upstream responses carried.
pub struct Learned {
    seen: usize,
    /// (name, address) -> (time, end of life)
    a: BTreeMap<(RName, Ip), Vec<(u64, u64)>>,
    /// nameserver -> (zone, time, end of life)
    ns: BTreeMap<RName, Vec<(RName, u64, u64)>>,
    /// record -> (time, ttl of the record, end of life of its set)
    recs: BTreeMap<String, Vec<(u64, u32, u64)>>,
}

fn rkey(r: &RRec) -> String {
    let n = norm(r);
    format!("{:?} {:?}", n.name, n.data)
}

impl Learned {
    pub fn new() -> Self {
        Learned { seen: 0, a: BTreeMap::new(), ns: BTreeMap::new(), recs: BTreeMap::new() }
    }
    pub fn update(&mut self, w: &World) {
        for g in &w.got[self.seen..] {
            for s in &g.msg.sec {
                for r in s {
                    let min = s.iter().filter(|x| x.data.rtype() == r.data.rtype() && name_eq(&x.name, &r.name)).map(|x| x.ttl).min().unwrap();
                    let end = g.t + min as u64 * SEC;
                    match &r.data {
                        RData::A(ip) => self.a.entry((lower(&r.name), *ip)).or_default().push((g.t, end)),
                        RData::Name(NS, n) => self.ns.entry(lower(n)).or_default().push((r.name.clone(), g.t, end)),
                        _ => {}
                    }
                    self.recs.entry(rkey(r)).or_default().push((g.t, r.ttl, end));
                }
            }
        }
        self.seen = w.got.len();
    }

    /// May a lookup that began at ts ask this address about this name at time t?
    pub fn may_ask(&self, ip: &Ip, name: &RName, ts: u64, t: u64) -> bool {
        if is_root(ip) {
            return true;
        }
        let live = |at: u64, end: u64| at <= t && (at >= ts || end + SLACK > ts);
        self.a.iter().filter(|((_, i), v)| i == ip && v.iter().any(|(at, end)| live(*at, *end))).any(|((o, _), _)| {
            self.ns.get(o).map_or(false, |v| v.iter().any(|(z, at, end)| in_zone(name, z) && live(*at, *end)))
        })
    }

    /// Is this answer record backed by a response, with a legal time to live?
    pub fn backed(&self, r: &RRec, ts: u64) -> Result<bool, String> {
        let v = match self.recs.get(&rkey(r)) {
            Some(v) => v,
            None => return Err("no upstream response ever carried it".into()),
        };
        let mut why = String::new();
        for (at, ttl, end) in v.iter().rev() {
            if *at >= ts {
                if r.ttl <= *ttl {
                    return Ok(true);
                }
                why += &format!(" received with ttl {} in this lookup;", ttl);
            } else if end + SLACK <= ts {
                why += &format!(" expired {:.3} s ago;", (ts - end) as f64 / 1e9);
            } else if r.ttl as u64 * SEC > end + SLACK - ts {
                why += &format!(" has {:.3} s left;", (end - ts.min(*end)) as f64 / 1e9);
            } else {
                return Ok(false);
            }
        }
        Err(why)
    }
}

/// All queries of a lookup went where they may.
pub fn check_asked(l: &mut Learned, net: &WNet, from: usize, ts: u64) -> Result<u64, Bad> {
    let r = net.with(|i| {
        l.update(&i.far);
        for x in &i.far.sent[from..] {
            if let (Some((_, q)), Some(ip)) = (&x.q, ip_of(&x.dst)) {
                if !l.may_ask(&ip, &q.name, ts, x.t) {
                    return Err(format!("asked {} about {} at {:.3} (lookup began {:.3}), which no unexpired data names as a nameserver for it", x.dst, text(&q.name), x.t as f64 / 1e9, ts as f64 / 1e9));
                }
            }
        }
        Ok((i.far.sent.len() - from) as u64)
    });
    match r {
        Ok(n) => Ok(n),
        Err(e) => bad("asked a wrong server", format!("{}{}", e, ctx(net, from))),
    }
}

/// Lets time pass: sometimes exactly to around the end of some record's life.
fn pass_time(r: &mut Rng, net: &WNet) {
    let now = net.time();
    let d = match r.below(8) {
        0 | 1 => 0,
        2 => r.range(1, 900) as u64 * MS,
        3 => r.range(1, 10) as u64 * SEC,
        4 => r.range(1, 4000) as u64 * SEC,
        5 => 1 << r.range(30, 52),
        _ => {
            let ends: Vec<u64> = net.with(|i| {
                i.far.got.iter().rev().take(30).flat_map(|g| g.msg.sec.iter().flatten().map(move |x| g.t + x.ttl as u64 * SEC)).filter(|e| *e > now).collect()
            });
            if ends.is_empty() {
                0
            } else {
                let e = *r.pick(&ends);
                let d = e - now;
                match r.below(4) {
                    0 => d + 2 * SLACK,
                    1 => d.saturating_sub(SEC / 2),
                    2 => d.saturating_sub(2 * SLACK),
                    _ => d + SEC / 2,
                }
            }
        }
    };
    net.pass(d.min(1 << 53));
}

// ---------------------------------------------------------------- R01

pub fn r01(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let o = GenOpt { ttl: *r.pick(&[0, 1, 2, 3]), ns_ttl: *r.pick(&[0, 1, 2, 3]), oob: *r.pick(&[0, 25, 60]), mixed_ttl: *r.pick(&[0, 30]), ..Default::default() };
    let mut w = gen(&mut r, &o);
    let mut p = gen_params(&mut r);
    let concurrent = r.one_in(5);
    if concurrent {
        // A thread waiting moves the clock of one that was not scheduled meanwhile.
        p.read_timeout = std::time::Duration::from_secs(86400);
        p.write_timeout = std::time::Duration::from_secs(86400);
    } else if r.one_in(25) {
        // The configuration has no upper limits.
        if r.bool() {
            p.read_timeout = std::time::Duration::from_secs(*r.pick(&[u64::MAX, i64::MAX as u64, u32::MAX as u64]));
        }
        if r.bool() {
            p.write_timeout = std::time::Duration::from_secs(*r.pick(&[u64::MAX, i64::MAX as u64, u32::MAX as u64]));
        }
        if r.bool() {
            p.max_ns_queried = usize::MAX;
        }
        if r.bool() {
            p.max_upd_retries = usize::MAX;
        }
        c.count("enormous limits");
    }
    let mut qs: Vec<RQ> = (0..r.range(1, 12)).map(|_| gen_question(&w, &mut r)).collect();
    // Chains around the limit.
    for _ in 0..r.range(0, 2) {
        let q = gen_question(&w, &mut r);
        let k = r.range(p.max_cname_redir.saturating_sub(2), p.max_cname_redir + 2);
        if w.zone_of(&q.name) != 0 {
            let n = add_chain(&mut w, &mut r, k, q.name.clone(), o.ttl);
            let at = r.below(qs.len() + 1);
            qs.insert(at, RQ { name: n, qtype: if q.qtype == CNAME { A } else { q.qtype } });
        }
    }
    let tick = *r.pick(&[0, 0, 2000]);
    let mut rig = Rig::new(w, p, gen_trace(&mut r), tick);
    if concurrent {
        return r01_concurrent(c, r, rig, qs);
    }
    let mut hist: Vec<String> = vec![];
    for _ in 0..r.range(1, 2) {
        for q in &qs {
            let from = rig.net.with(|i| i.far.sent.len());
            let (m, _, _) = rig.client(q)?;
            let t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
            let kind = add_ctx(judge(&t, rig.p.max_cname_redir, q, &m), &rig.net, from, &hist)?;
            c.count(kind);
            let n = rig.net.with(|i| (i.far.sent.len() - from) as u64);
            c.max("queries in one lookup", n);
            c.count(if n == 0 { "from cache" } else { "with upstream queries" });
            if n > 0 || !m.sec[0].is_empty() {
                c.distinct(fnv(format!("{:?}{:?}", q, m.sec[0].iter().map(rkey).collect::<Vec<_>>()).as_bytes()));
            }
            if kind == "aliases and records" {
                c.sample("aliases", || format!("{} {} -> {}", text(&q.name), q.qtype, show_recs(&m.sec[0])));
            }
            hist.push(format!("{} {} -> {}", text(&q.name), q.qtype, m.h.rcode));
            pass_time(&mut r, &rig.net);
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

/// Several clients at once, on one cache.
fn r01_concurrent(c: &mut Case, mut r: Rng, rig: Rig, qs: Vec<RQ>) -> Res {
    let n = r.range(2, 4);
    let lists: Vec<Vec<RQ>> = (0..n)
        .map(|_| {
            let mut l: Vec<RQ> = qs.clone();
            r.shuffle(&mut l);
            l.truncate(6);
            l
        })
        .collect();
    let net = &rig.net;
    let h = &rig.h;
    let results: Vec<Vec<(RQ, Result<(RMsg, u64, u64), Bad>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = lists
            .iter()
            .enumerate()
            .map(|(k, l)| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || l.iter().enumerate().map(|(i, q)| (q.clone(), client(net, h, (k * 100 + i) as u16, q))).collect())
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for l in results {
        for (q, res) in l {
            let (m, _, _) = res?;
            let t = net.with(|i| i.far.truth(&q.name, q.qtype));
            add_ctx(judge(&t, rig.p.max_cname_redir, &q, &m), net, 0, &["concurrent".into()])?;
            c.count("lookups by concurrent clients");
        }
    }
    problems(net)?;
    absorb(c, net);
    Ok(())
}

// ---------------------------------------------------------------- R02

fn mutate(w: &mut World, r: &mut Rng, o: &GenOpt) -> &'static str {
    let z = r.below(w.zones.len());
    let names: Vec<RName> = w.zones[z].data.keys().cloned().collect();
    match r.below(6) {
        // New data and lifetimes at a name.
        0 | 1 if !names.is_empty() => {
            let n = r.pick(&names).clone();
            let old = w.zones[z].data[&n].clone();
            let isns = w.zones.iter().any(|x| x.nss.iter().any(|y| name_eq(y, &n)));
            let mut new: Vec<RRec> = vec![];
            let types: BTreeSet<u16> = old.iter().map(|x| x.data.rtype()).collect();
            for t in types {
                if t == A && isns {
                    new.extend(old.iter().filter(|x| x.data.rtype() == A).cloned());
                } else if t == CNAME {
                    let end = w.zones[r.below(w.zones.len())].name.clone();
                    new.push(RRec { name: old[0].name.clone(), ttl: gen_ttl(r, o.ttl), data: RData::Name(CNAME, if end.is_empty() { labels("gone.") } else { end }) });
                } else {
                    new.extend(gen_set(r, o, &old[0].name, t));
                }
            }
            w.zones[z].data.insert(n, new);
            "changed data"
        }
        2 if !names.is_empty() => {
            let n = r.pick(&names).clone();
            if w.zones.iter().any(|x| x.nss.iter().any(|y| name_eq(y, &n))) {
                return "nothing changed";
            }
            w.zones[z].data.remove(&n);
            "removed a name"
        }
        // Only the lifetime.
        3 if !names.is_empty() => {
            let n = r.pick(&names).clone();
            let t = gen_ttl(r, o.ttl);
            for x in w.zones[z].data.get_mut(&n).unwrap() {
                x.ttl = t;
            }
            w.zones[z].ns_ttl = gen_ttl(r, o.ns_ttl);
            "changed lifetimes"
        }
        // A nameserver moves to another address; the old one may live on.
        _ if z != 0 => {
            let ns = r.pick(&w.zones[z].nss).clone();
            let home = w.zone_of(&ns);
            let old = w.addrs(&ns);
            if old.is_empty() {
                return "nothing changed";
            }
            let new = w.fresh_ip();
            let oldip = match old[0].data {
                RData::A(ip) => ip,
                _ => unreachable!(),
            };
            let mut s = w.servers[&oldip].clone();
            s.fault = Fault::None;
            w.servers.insert(new, s);
            let ttl = gen_ttl(r, o.ns_ttl);
            let set = w.zones[home].data.get_mut(&lower(&ns)).unwrap();
            set.retain(|x| x.data.rtype() != A);
            set.push(RRec { name: ns, ttl, data: RData::A(new) });
            if r.bool() {
                w.servers.get_mut(&oldip).unwrap().fault = Fault::Silent;
            }
            "moved a nameserver"
        }
        _ => "nothing changed",
    }
}

pub fn r02(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let o = GenOpt { ttl: *r.pick(&[0, 0, 2, 3]), ns_ttl: *r.pick(&[0, 2, 3]), zones: (1, 5), oob: *r.pick(&[0, 30]), big: 3, mixed_ttl: *r.pick(&[0, 40]), ..Default::default() };
    let w = gen(&mut r, &o);
    let mut p = gen_params(&mut r);
    p.max_cname_redir = r.range(3, 12);
    let qs: Vec<RQ> = (0..r.range(1, 5)).map(|_| gen_question(&w, &mut r)).collect();
    let tick = *r.pick(&[0, 0, 50, 2000]);
    let mut rig = Rig::new(w, p, gen_trace(&mut r), tick);
    let mut l = Learned::new();
    let mut hist: Vec<String> = vec![];
    let mut ever: BTreeSet<String> = BTreeSet::new();
    for _ in 0..r.range(4, 24) {
        let mut q = r.pick(&qs).clone();
        if r.one_in(5) {
            q.name = random_case(&mut r, &q.name);
        }
        let from = rig.net.with(|i| i.far.sent.len());
        let (m, ts, te) = rig.client(&q)?;
        let note = format!("t={:.3} {} {} -> {} {}", ts as f64 / 1e9, text(&q.name), q.qtype, m.h.rcode, show_recs(&m.sec[0]));
        let e = check_asked(&mut l, &rig.net, from, ts);
        let e = e.and_then(|n| {
            for a in &m.sec[0] {
                match l.backed(a, ts) {
                    Ok(fresh) => {
                        if fresh {
                            c.count("records from upstream")
                        } else {
                            c.count("records from cache")
                        }
                    }
                    Err(why) => return bad("stale record", format!("{} {} {} served at {:.3}:{}", text(&a.name), a.ttl, brief(&a.data), ts as f64 / 1e9, why)),
                }
            }
            Ok(n)
        });
        let n = match e {
            Ok(n) => n,
            Err(Bad::Violation(s, d)) => return Err(Bad::Violation(s, format!("{}\nthis lookup: {}\nearlier: {}", d, note, hist.join("; ")))),
            Err(e) => return Err(e),
        };
        let key = format!("{:?}{}", lower(&q.name), q.qtype);
        if m.h.rcode == 0 && !m.sec[0].is_empty() {
            if n == 0 {
                c.count("lookups from cache");
            } else if !ever.insert(key) {
                c.count("asked again after expiry");
            }
            c.distinct(fnv(format!("{:?}{:?}{}", q, m.sec[0], n).as_bytes()));
        }
        c.max("seconds of simulated history", te / SEC);
        hist.push(note);
        if hist.len() > 12 {
            hist.remove(0);
        }
        pass_time(&mut r, &rig.net);
        if r.pct(35) {
            let what = rig.net.with(|i| mutate(&mut i.far, &mut r, &o));
            c.count(what);
            hist.push(what.into());
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

// ---------------------------------------------------------------- R03

pub fn r03(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    if c.index % 16 == 15 {
        return r03_ids(c, r);
    }
    let o = GenOpt { ttl: 1, ns_ttl: 1, zones: (1, 6), oob: *r.pick(&[0, 30]), mixed_ttl: 0, ..Default::default() };
    let mut w = gen(&mut r, &o);
    let off_path_only = r.one_in(3);
    w.junk = Junk { pct: *r.pick(&[5, 20, 50, 90]), off_path_only };
    for s in w.servers.values_mut() {
        if r.pct(10) {
            s.style.cut_all = true;
        }
    }
    let mut p = gen_params(&mut r);
    p.max_cname_redir = 12;
    let qs: Vec<RQ> = (0..r.range(1, 6)).map(|_| gen_question(&w, &mut r)).collect();
    let mut rig = Rig::new(w, p, gen_trace(&mut r), 0);
    let mut l = Learned::new();
    let mut hist = vec![];
    for round in 0..2 {
        if round == 1 {
            // What was planted would show now.
            rig.net.with(|i| i.far.junk.pct = 0);
        }
        for q in &qs {
            let from = rig.net.with(|i| i.far.sent.len());
            let (m, ts, _) = rig.client(q)?;
            let t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
            check_asked(&mut l, &rig.net, from, ts)?;
            let attacked = round == 0 && !off_path_only;
            if attacked && m.h.rcode == 2 && m.sec[0].is_empty() {
                c.count("attempts failed by junk");
            } else {
                let k = add_ctx(judge(&t, rig.p.max_cname_redir, q, &m), &rig.net, from, &hist)?;
                c.count(k);
                if round == 0 {
                    c.count(if off_path_only { "right despite off-path datagrams" } else { "right despite forged replies" });
                }
                c.distinct(fnv(format!("{:?}{:?}{}", q, m.sec[0].iter().map(rkey).collect::<Vec<_>>(), rig.net.with(|i| i.far.seed)).as_bytes()));
            }
            let liar = rig.net.with(|i| i.far.sent.iter().any(|x| ip_of(&x.dst).map_or(false, |ip| ip[0] == 66)));
            ensure!(!liar, "asked a forged address", "{}", ctx(&rig.net, from));
            hist.push(format!("{} {} -> {}", text(&q.name), q.qtype, m.h.rcode));
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

/// Query ids over many queries: no structure that lets one guess the next.
fn r03_ids(c: &mut Case, mut r: Rng) -> Res {
    let mut w = gen(&mut r, &GenOpt { zones: (3, 3), oob: 0, ns_ttl: 1, ..Default::default() });
    for s in w.servers.values_mut() {
        s.fault = Fault::Flaky(4);
    }
    let mut p = gen_params(&mut r);
    p.max_upd_retries = 4;
    p.max_cname_redir = 12;
    let mut rig = Rig::new(w, p, TraceParams { silent: true, verbose: false, color: false }, 0);
    let mut ids: Vec<u16> = vec![];
    while ids.len() < 4000 {
        let q = rig.net.with(|i| gen_question(&i.far, &mut r));
        let q = RQ { name: { let mut n = q.name; if wire_len(&n) < 200 { n.insert(0, format!("r{}", r.u32()).into_bytes()); } n }, qtype: q.qtype };
        rig.client(&q)?;
        rig.net.with(|i| {
            for s in i.far.sent.drain(..) {
                if let Some((h, _)) = s.q {
                    if !s.tcp {
                        ids.push(h.id);
                    }
                }
            }
            i.far.got.clear();
        });
    }
    c.add("ids observed", ids.len() as u64);
    let n = ids.len() as f64;
    let six = 6.0 * (n / 4.0).sqrt();
    // Each bit is balanced, and so is its change from one query to the next.
    for b in 0..16 {
        let ones = ids.iter().filter(|x| *x >> b & 1 == 1).count() as f64;
        ensure!((ones - n / 2.0).abs() < six, "ids predictable", "bit {} of the query ids is set in {} of {}", b, ones, n);
        let flips = ids.windows(2).filter(|x| (x[0] ^ x[1]) >> b & 1 == 1).count() as f64;
        ensure!((flips - n / 2.0).abs() < six, "ids predictable", "bit {} of the query ids changes {} times in {}", b, flips, n);
        // Within the retries of one query.
        let flips = ids.windows(5).filter(|x| (x[0] ^ x[4]) >> b & 1 == 1).count() as f64;
        ensure!((flips - n / 2.0).abs() < six, "ids predictable", "bit {} of every fourth query id changes {} times in {}", b, flips, n);
    }
    let set: BTreeSet<u16> = ids.iter().copied().collect();
    // About 3880 distinct values are expected of 4000.
    ensure!(set.len() as f64 > 0.92 * 65536.0 * (1.0 - (-n / 65536.0).exp()), "ids predictable", "only {} distinct ids in {}", set.len(), n);
    for lag in 1..=8usize {
        let mut d: BTreeMap<u16, u32> = BTreeMap::new();
        for x in ids.windows(lag + 1) {
            *d.entry(x[lag].wrapping_sub(x[0])).or_default() += 1;
            // Any fixed relation to the previous id shows as a repeated difference or a repeated xor.
        }
        let worst = d.iter().max_by_key(|x| *x.1).unwrap();
        ensure!(*worst.1 < 12, "ids predictable", "the difference {} between ids {} apart occurs {} times in {}", worst.0, lag, worst.1, n);
    }
    // Multiplicative sequences x' = a x + c: differences d' = a d.
    let mut hits: BTreeMap<u16, u32> = BTreeMap::new();
    for x in ids.windows(3) {
        let (d, e) = (x[1].wrapping_sub(x[0]), x[2].wrapping_sub(x[1]));
        if d & 1 == 1 {
            // Inverse of an odd number modulo 2^16.
            let mut inv: u16 = 1;
            for _ in 0..5 {
                inv = inv.wrapping_mul(2u16.wrapping_sub(d.wrapping_mul(inv)));
            }
            *hits.entry(e.wrapping_mul(inv)).or_default() += 1;
        }
    }
    let worst = hits.iter().max_by_key(|x| *x.1).unwrap();
    ensure!(*worst.1 < 14, "ids predictable", "ids follow x' = {} x + c in {} of {} steps", worst.0, worst.1, n);
    c.count("id sequences tested");
    absorb(c, &rig.net);
    Ok(())
}

// ---------------------------------------------------------------- R04

/// Zones that a hostile zone's nameservers may legitimately influence.
fn tainted(w: &World, h: usize) -> (Vec<bool>, BTreeSet<Ip>) {
    let hostile: BTreeSet<Ip> = w.zone_ips(h).into_iter().collect();
    let n = w.zones.len();
    let mut t = vec![false; n];
    t[h] = true;
    loop {
        let mut changed = false;
        for z in 1..n {
            if t[z] {
                continue;
            }
            let bad = t[w.zones[z].parent]
                || w.zone_ips(z).iter().any(|ip| hostile.contains(ip))
                || w.zones[z].nss.iter().any(|ns| t[w.zone_of(ns)]);
            if bad {
                t[z] = true;
                changed = true;
            }
        }
        if !changed {
            return (t, hostile);
        }
    }
}

pub fn r04(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let o = GenOpt { ttl: *r.pick(&[0, 1]), ns_ttl: *r.pick(&[0, 1]), zones: (4, 10), oob: *r.pick(&[0, 25]), mixed_ttl: 0, ..Default::default() };
    let mut w = gen(&mut r, &o);
    let cands: Vec<usize> = (1..w.zones.len()).filter(|z| { let (t, _) = tainted(&w, *z); t.iter().filter(|x| !**x).count() >= 2 }).collect();
    if cands.is_empty() {
        c.count("no victim in this world");
        return Ok(());
    }
    let hz = *r.pick(&cands);
    // Names that only look related.
    if r.bool() {
        let mut n = w.zones[hz].name.clone();
        let parent = w.zones[hz].parent;
        let mut l = b"x".to_vec();
        l.extend(&n[0]);
        l.truncate(63);
        n[0] = l;
        add_zone(&mut w, &mut r, &GenOpt { oob: 0, ns_ttl: 1, ..Default::default() }, parent, n.clone());
        let z = w.zones.len() - 1;
        if name_eq(&w.zones[z].name, &n) {
            let mut a = n.clone();
            a.insert(0, b"www".to_vec());
            if w.zone_of(&a) == z && !w.zones[z].data.contains_key(&lower(&a)) {
                w.zones[z].data.insert(lower(&a), vec![RRec { name: a.clone(), ttl: 60, data: RData::A([192, 0, 2, 77]) }]);
            }
        }
    }
    let (taint, hostile) = tainted(&w, hz);
    let victims: Vec<RRec> = w.zones.iter().enumerate().filter(|(z, _)| !taint[*z]).flat_map(|(_, z)| z.data.values().flatten().cloned()).collect();
    let victim_zones: Vec<(RName, Vec<RName>)> = w.zones.iter().enumerate().filter(|(z, _)| !taint[*z] && *z > 0).map(|(_, z)| (z.name.clone(), z.nss.clone())).collect();
    let mut p = gen_params(&mut r);
    p.max_cname_redir = 12;
    p.max_ns_queried = r.range(2, 5);
    // The hostile servers.
    let evil_ips: Vec<Ip> = hostile.iter().copied().collect();
    let mut er = Rng::new(r.u64());
    let hset = hostile.clone();
    let (vs, vz, zname) = (victims.clone(), victim_zones.clone(), w.zones[hz].name.clone());
    w.custom = Some(Box::new(move |w: &mut World, _now, ip: Ip, h: &RHdr, q: &RQ, _n, _tcp| {
        let liar_ip = ip[0] == 66;
        if !hset.contains(&ip) && !liar_ip {
            return None;
        }
        let r = &mut er;
        let mut m;
        if liar_ip {
            m = RMsg { h: RHdr { id: h.id, qr: true, aa: true, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
            m.sec[0].push(RRec { name: q.name.clone(), ttl: 600_000, data: if q.qtype == A { RData::A([66, 6, 6, 6]) } else { RData::Name(CNAME, labels("liar.")) } });
        } else {
            let s = w.servers[&ip].clone();
            m = w.honest(&s.zones, &s.style, h, q, &mut r.clone());
            m.h.aa = m.h.aa || r.bool();
            if r.one_in(3) {
                m.h.rcode = 0;
            }
        }
        let lie_a = RData::A([66, 6, 6, r.u8()]);
        // The liars' nameserver: with a name of no zone, of the hostile one, of one below it, of the victims.
        let own_ns = match r.below(6) {
            0 | 1 => labels("ns.liar."),
            2 => crate::zone::cat(&[&labels("ns66."), &zname]),
            3 => w.zones[hz].nss.first().cloned().unwrap_or_else(|| labels("ns.liar.")),
            4 => crate::zone::cat(&[&labels("ns.deep."), &zname]),
            _ => match (vz.is_empty(), r.bool()) {
                (false, true) => crate::zone::cat(&[&labels("ns66."), &r.pick(&vz).0]),
                _ => crate::zone::cat(&[&labels("a66."), &zname[1..].to_vec()]),
            },
        };
        let own_ns = if wire_len(&own_ns) > 255 { labels("ns.liar.") } else { own_ns };
        let zero_or_long = *r.pick(&[600_000u32, 600_000, 0x7fff_ffff]);
        let rec = |n: &RName, d: RData| RRec { name: n.clone(), ttl: zero_or_long, data: d };
        for _ in 0..r.range(1, 4) {
            let v = if vs.is_empty() || r.one_in(4) { None } else { Some(r.pick(&vs).clone()) };
            let z = if vz.is_empty() { None } else { Some(r.pick(&vz).clone()) };
            match r.below(13) {
                // Foreign records in the answers.
                0 => {
                    if let Some(v) = v {
                        m.sec[0].push(rec(&v.name, lie_a.clone()));
                    }
                    w.count("poison: foreign answer");
                }
                1 => {
                    if let Some(v) = v {
                        // An alias to a victim along with a false record for it.
                        m.h.rcode = 0;
                        m.sec[0].clear();
                        m.sec[0].push(rec(&q.name, RData::Name(CNAME, v.name.clone())));
                        m.sec[0].push(rec(&v.name, lie_a.clone()));
                        if let Some((z, _)) = &z {
                            m.sec[1].push(rec(z, RData::Name(NS, own_ns.clone())));
                        }
                        // And false nameservers for it.
                        for k in 0..v.name.len() {
                            if r.bool() {
                                m.sec[1].push(rec(&v.name[k..].to_vec(), RData::Name(NS, own_ns.clone())));
                            }
                        }
                        m.sec[1].push(rec(&v.name, RData::Name(NS, own_ns.clone())));
                        m.sec[2].push(rec(&own_ns, lie_a.clone()));
                        w.count("poison: alias to a victim");
                    }
                }
                2 => {
                    if let Some(v) = v {
                        m.sec[0].push(rec(&v.name, RData::Name(CNAME, labels("liar."))));
                    }
                    w.count("poison: foreign alias");
                }
                // False delegations: parents, siblings, the root.
                3 => {
                    if let Some((z, _)) = &z {
                        m.sec[1].push(rec(z, RData::Name(NS, own_ns.clone())));
                        m.sec[2].push(rec(&own_ns, lie_a.clone()));
                    }
                    w.count("poison: sibling delegation");
                }
                4 => {
                    for k in 1..=zname.len() {
                        m.sec[1].push(rec(&zname[k..].to_vec(), RData::Name(NS, own_ns.clone())));
                    }
                    m.sec[2].push(rec(&own_ns, lie_a.clone()));
                    w.count("poison: parent delegation");
                }
                5 => {
                    // Only the false delegation.
                    m.sec[0].clear();
                    m.h.rcode = 0;
                    m.h.aa = false;
                    m.sec[1].clear();
                    let z = match (&z, r.bool()) {
                        (Some((z, _)), true) => z.clone(),
                        _ => zname[r.below(zname.len()) + 1..].to_vec(),
                    };
                    m.sec[1].push(rec(&z, RData::Name(NS, own_ns.clone())));
                    m.sec[2].push(rec(&own_ns, lie_a.clone()));
                    w.count("poison: bare false delegation");
                }
                // False addresses for the victims' nameservers.
                6 => {
                    if let Some((_, nss)) = &z {
                        for n in nss {
                            m.sec[2].push(rec(n, lie_a.clone()));
                        }
                    }
                    w.count("poison: nameserver addresses");
                }
                7 => {
                    // A deeper delegation of our own to the victim's nameservers, with false addresses.
                    if let Some((_, nss)) = &z {
                        if in_zone(&q.name, &zname) && q.name.len() > zname.len() {
                            m.sec[0].clear();
                            m.h.rcode = 0;
                            m.h.aa = false;
                            m.sec[1].clear();
                            let sub = q.name[q.name.len() - zname.len() - 1..].to_vec();
                            for n in nss {
                                m.sec[1].push(rec(&sub, RData::Name(NS, n.clone())));
                                m.sec[2].push(rec(n, lie_a.clone()));
                            }
                            w.count("poison: own delegation to foreign nameservers");
                        }
                    }
                }
                8 => {
                    // Alias to a victim with the victim's nameservers and false addresses.
                    if let (Some(v), Some((z, nss))) = (v, &z) {
                        m.h.rcode = 0;
                        m.sec[0] = vec![rec(&q.name, RData::Name(CNAME, v.name.clone()))];
                        for n in nss {
                            m.sec[1].push(rec(z, RData::Name(NS, n.clone())));
                            m.sec[2].push(rec(n, lie_a.clone()));
                        }
                        w.count("poison: alias with foreign nameservers");
                    }
                }
                9 => {
                    // Own zone, nameserver named like a victim's.
                    if let Some((_, nss)) = &z {
                        let n = r.pick(nss).clone();
                        m.sec[1].push(rec(&zname, RData::Name(NS, n.clone())));
                        m.sec[2].push(rec(&n, lie_a.clone()));
                    }
                    w.count("poison: own zone at foreign nameservers");
                }
                10 => {
                    for (z, nss) in &vz {
                        for n in nss {
                            m.sec[1].push(rec(z, RData::Name(NS, n.clone())));
                            m.sec[2].push(rec(n, lie_a.clone()));
                        }
                    }
                    w.count("poison: everything");
                }
                11 => {
                    for i in 0..13u8 {
                        let n = labels(&format!("{}.root-servers.net.", (b'a' + i) as char));
                        m.sec[1].push(rec(&vec![], RData::Name(NS, n.clone())));
                        m.sec[2].push(rec(&n, lie_a.clone()));
                    }
                    w.count("poison: root");
                }
                _ => {
                    if let Some(v) = v {
                        m.sec[2].push(rec(&v.name, lie_a.clone()));
                    }
                    w.count("poison: foreign address");
                }
            }
        }
        Some(Act::Msg(m))
    }));
    let mut rig = Rig::new(w, p, gen_trace(&mut r), 0);
    let mut hist: Vec<String> = vec![];
    for _ in 0..r.range(4, 16) {
        let q = match r.below(5) {
            // Make the hostile servers speak.
            0 | 1 => {
                let mut n = rig.net.with(|i| i.far.zones[hz].name.clone());
                for _ in 0..r.range(0, 3) {
                    n.insert(0, gen_lbl(&mut r));
                }
                if wire_len(&n) > 255 {
                    continue;
                }
                RQ { name: n, qtype: *r.pick(&[A, A, A, NS, CNAME, MX, TXT]) }
            }
            2 if !victims.is_empty() => {
                let v = r.pick(&victims);
                RQ { name: v.name.clone(), qtype: if r.pct(80) { v.data.rtype() } else { A } }
            }
            _ => rig.net.with(|i| gen_question(&i.far, &mut r)),
        };
        let from = rig.net.with(|i| i.far.sent.len());
        let (m, _, _) = rig.client(&q)?;
        hist.push(format!("{} {} -> {} {}", text(&q.name), q.qtype, m.h.rcode, show_recs(&m.sec[0])));
        let why = |d: String| format!("{}\nhostile zone {} servers {:?}\nlookups: {}{}", d, rig.net.with(|i| text(&i.far.zones[hz].name)), evil_ips, hist.join("; "), ctx(&rig.net, from));
        // Nothing about untainted names is asked of anyone but the servers above them.
        let wrong = rig.net.with(|i| {
            let w = &i.far;
            w.sent[from..].iter().find_map(|x| {
                let (_, q) = x.q.as_ref()?;
                let ip = ip_of(&x.dst)?;
                let mut z = w.zone_of(&q.name);
                if taint[z] {
                    return None;
                }
                loop {
                    if w.zone_ips(z).contains(&ip) || is_root(&ip) {
                        return None;
                    }
                    if z == 0 {
                        return Some(format!("{} asked about {}", x.dst, text(&q.name)));
                    }
                    z = w.zones[z].parent;
                }
            })
        });
        if let Some(d) = wrong {
            return bad("misdirected query", why(d));
        }
        // The answer: per name, while names are untainted.
        let mut cur = q.name.clone();
        let mut idx = 0;
        let mut lied = false;
        for hop in 0.. {
            let (z, at) = rig.net.with(|i| {
                let z = i.far.zone_of(&cur);
                (z, i.far.at(z, &cur))
            });
            if taint[z] {
                // Follow what was said, as long as it is an alias.
                lied = true;
                match m.sec[0].get(idx) {
                    Some(RRec { data: RData::Name(CNAME, n), name, .. }) if q.qtype != CNAME && name_eq(name, &cur) => {
                        cur = n.clone();
                        idx += 1;
                    }
                    _ => {
                        if idx < m.sec[0].len() {
                            let foreign = m.sec[0][idx..].iter().find(|x| !taint[rig.net.with(|i| i.far.zone_of(&x.name))]);
                            ensure!(foreign.is_none(), "poisoned answer", "{}", why(format!("{:?}", foreign)));
                        }
                        break;
                    }
                }
                continue;
            }
            let set: Vec<RRec> = at.iter().filter(|x| x.data.rtype() == q.qtype).cloned().collect();
            let rest = &m.sec[0][idx.min(m.sec[0].len())..];
            if !set.is_empty() {
                if m.h.rcode == 2 && lied {
                    // The hostile part may well fail; but it must not fail ours.
                    c.count("hostile lookup failed");
                    break;
                }
                if m.h.rcode == 3 && lied {
                    break;
                }
                ensure!(m.h.rcode == 0 && same_set(rest, &set), "poisoned answer", "{}", why(format!("{} {}: expected {}", text(&cur), q.qtype, show_recs(&set))));
                c.count(if lied { "victim reached through hostile alias" } else { "victim answered right" });
                break;
            }
            if let Some(cn) = at.iter().find(|x| x.data.rtype() == CNAME) {
                if m.h.rcode != 0 {
                    // Loops, name errors and hostile ends further on.
                    let t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
                    let all_clean = t.chain.iter().all(|x| !taint[rig.net.with(|i| i.far.zone_of(&x.name))]);
                    if hop == 0 && all_clean && t.chain.len() < 12 {
                        let end = match t.chain.last().map(|x| &x.data) {
                            Some(RData::Name(_, n)) => n.clone(),
                            _ => unreachable!(),
                        };
                        if !taint[rig.net.with(|i| i.far.zone_of(&end))] {
                            if let Err(Bad::Violation(s, d)) = judge(&t, 12, &q, &m) {
                                return bad(&s, why(d));
                            }
                        }
                    }
                    break;
                }
                ensure!(rest.first().map_or(false, |x| same_set(std::slice::from_ref(x), std::slice::from_ref(cn))), "poisoned answer", "{}", why(format!("expected {}", show_recs(std::slice::from_ref(cn)))));
                if let RData::Name(_, n) = &cn.data {
                    cur = n.clone();
                }
                idx += 1;
                continue;
            }
            // Nothing there.
            ensure!(rest.is_empty() || m.h.rcode != 0, "poisoned answer", "{}", why(format!("nothing exists at {} {}", text(&cur), q.qtype)));
            if !lied {
                let t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
                if let Err(Bad::Violation(s, d)) = judge(&t, 12, &q, &m) {
                    return bad(&s, why(d));
                }
                c.count("victim's absence right");
            }
            break;
        }
        c.distinct(fnv(format!("{:?}{:?}{}", q, m.sec[0].iter().map(rkey).collect::<Vec<_>>(), hist.len()).as_bytes()));
        if r.one_in(4) {
            rig.net.pass(r.range(1, 40) as u64 * SEC);
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

// ---------------------------------------------------------------- R05

/// Servers that do anything at all, by strategies that try to keep a lookup going.
fn adversary(seed: u64, strategy: usize) -> Custom {
    let mut r = Rng::new(seed);
    let mut n = 0u32;
    let mut last_names: Vec<RName> = vec![];
    let main = strategy;
    Box::new(move |w: &mut World, _now, _ip: Ip, h: &RHdr, q: &RQ, _attempt, tcp| {
        let r = &mut r;
        n += 1;
        // Mostly stick to the plan.
        let s = if main >= 21 || r.one_in(12) { r.below(21) } else { main };
        let mut m = RMsg { h: RHdr { id: h.id, qr: true, aa: true, ra: r.bool(), ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        let ttl = *r.pick(&[0u32, 1, 300, 86400, u32::MAX]);
        let rec = |name: &RName, d: RData| RRec { name: name.clone(), ttl, data: d };
        let fresh = |r: &mut Rng, base: &RName| -> RName {
            let mut b = base.clone();
            b.insert(0, format!("f{}-{}", n, r.below(10)).into_bytes());
            if wire_len(&b) > 255 {
                return labels(&format!("f{}.x.", n));
            }
            b
        };
        let rand_ip = |r: &mut Rng| [10, r.u8(), r.u8(), r.u8()];
        // A referral for ever longer suffixes of the name.
        let suffix = |r: &mut Rng, len: usize| -> RName {
            if q.name.is_empty() {
                return vec![];
            }
            let l = len.min(q.name.len()).max(1);
            let _ = r;
            q.name[q.name.len() - l..].to_vec()
        };
        last_names.push(q.name.clone());
        if last_names.len() > 50 {
            last_names.remove(0);
        }
        match s {
            // Glueless referrals to fresh zones, of several nameservers each.
            0 => {
                m.h.aa = false;
                let z = suffix(r, 1 + n as usize % 120);
                for _ in 0..*r.pick(&[1, 3, 10, 20]) {
                    let b = labels(&format!("t{}.", r.below(1000)));
                    let x = fresh(r, &b);
                    m.sec[1].push(rec(&z, RData::Name(NS, x)));
                }
            }
            // The same, each nameserver inside a fresh deep name.
            1 => {
                m.h.aa = false;
                let z = suffix(r, q.name.len());
                for k in 0..*r.pick(&[1, 2, 5]) {
                    let mut x = labels(&format!("g{}-{}.", n, k));
                    for _ in 0..r.range(1, 40) {
                        x.insert(0, vec![b'a' + r.below(26) as u8]);
                    }
                    m.sec[1].push(rec(&z, RData::Name(NS, x)));
                }
            }
            // One label deeper each time, with an address.
            2 => {
                m.h.aa = false;
                let z = suffix(r, n as usize % (q.name.len() + 1));
                let mut x = z.clone();
                if wire_len(&x) < 250 {
                    x.insert(0, b"ns".to_vec());
                }
                m.sec[1].push(rec(&z, RData::Name(NS, x.clone())));
                let ip = rand_ip(r);
                m.sec[2].push(rec(&x, RData::A(ip)));
            }
            // Fresh aliases for ever.
            3 => {
                let x = fresh(r, &q.name[q.name.len().min(1)..].to_vec());
                m.sec[0].push(rec(&q.name, RData::Name(CNAME, x)));
            }
            // Aliases to names seen, and to itself.
            4 => {
                let t = if r.one_in(4) { q.name.clone() } else { r.pick(&last_names).clone() };
                m.sec[0].push(rec(&q.name, RData::Name(CNAME, t)));
            }
            // Aliases with nameservers without address.
            5 => {
                let x = fresh(r, &vec![]);
                let y = fresh(r, &labels("zz."));
                m.sec[0].push(rec(&q.name, RData::Name(CNAME, x.clone())));
                for _ in 0..r.range(1, 6) {
                    m.sec[1].push(rec(&x, RData::Name(NS, if r.bool() { y.clone() } else { x.clone() })));
                    m.sec[1].push(rec(&vec![], RData::Name(NS, y.clone())));
                }
            }
            // Two zones whose nameservers live in each other.
            6 => {
                m.h.aa = false;
                let (a, b) = (labels("aa."), labels("bb."));
                let z = if q.name.last() == a.last() { a.clone() } else if q.name.last() == b.last() { b.clone() } else { suffix(r, 1) };
                let mut x = if name_eq(&z, &a) { b } else { a };
                x.insert(0, format!("ns{}", r.below(4)).into_bytes());
                m.sec[1].push(rec(&z, RData::Name(NS, x)));
            }
            // Longer rings.
            7 => {
                m.h.aa = false;
                let k = r.range(3, 30);
                let cur = q.name.last().map(|l| String::from_utf8_lossy(l).trim_start_matches("ring").parse::<usize>().unwrap_or(0)).unwrap_or(0);
                let z = suffix(r, 1);
                for j in 0..r.range(1, 4) {
                    m.sec[1].push(rec(&z, RData::Name(NS, labels(&format!("n{}.ring{}.", j, (cur + 1) % k)))));
                }
            }
            8 => return Some(Act::Silence),
            9 => return Some(Act::Err(*r.pick(&[libc::ECONNREFUSED, libc::EHOSTUNREACH]))),
            10 => {
                let k = r.range(0, 700);
                let mut b = r.bytes(k);
                if b.len() > 2 {
                    b[..2].copy_from_slice(&h.id.to_be_bytes());
                    b[2] |= 0x80;
                    if b.len() > 12 && r.bool() {
                        let e = encode(&m);
                        let k = e.len().min(b.len());
                        b[..k].copy_from_slice(&e[..k]);
                        b[4..12].copy_from_slice(&[0, 1, r.u8(), r.u8(), r.u8(), r.u8(), 0, r.u8()]);
                    }
                }
                return Some(Act::Raw(b));
            }
            // Truncated, then the slowest stream.
            11 => {
                if !tcp {
                    m.h.tc = true;
                    return Some(Act::Msg(m));
                }
                let step = *r.pick(&[1u64, 150, 190, 400, 900, 4000]) * MS;
                let mut v: Vec<(u64, Piece)> = vec![];
                let mut b = vec![0xff, 0xff];
                b.extend(r.bytes(600));
                for (k, x) in b.iter().enumerate() {
                    v.push((step * k as u64, Piece::Data(vec![*x])));
                }
                return Some(Act::Pieces(v));
            }
            12 => {
                if !tcp {
                    m.h.tc = true;
                    return Some(Act::Msg(m));
                }
                // Truncated over TCP as well, or closed, or too short.
                return Some(match r.below(4) {
                    0 => {
                        m.h.tc = true;
                        Act::Msg(m)
                    }
                    1 => Act::Pieces(vec![(MS, Piece::Close)]),
                    2 => Act::Pieces(vec![(MS, Piece::Data(vec![0])), (2 * MS, Piece::Close)]),
                    _ => Act::Pieces(vec![(MS, Piece::Data(vec![0, 0])), (2 * MS, Piece::Reset)]),
                });
            }
            // Enormous stream replies.
            13 => {
                if !tcp {
                    m.h.tc = true;
                    return Some(Act::Msg(m));
                }
                m.h.aa = false;
                let z = suffix(r, q.name.len());
                for k in 0..*r.pick(&[60usize, 200]) {
                    m.sec[1].push(rec(&z, RData::Name(NS, labels(&format!("n{}-{}.q{}.", n, k, k % 17)))));
                    if r.bool() {
                        let ip = rand_ip(r);
                        m.sec[2].push(rec(&labels(&format!("n{}-{}.q{}.", n, k, k % 17)), RData::A(ip)));
                    }
                }
            }
            // Referral to the same place.
            14 => {
                m.h.aa = false;
                let l = r.range(0, q.name.len());
                let z = suffix(r, l);
                let ns = r.pick(&last_names).clone();
                m.sec[1].push(rec(&z, RData::Name(NS, ns.clone())));
                if r.bool() {
                    let ip = rand_ip(r);
                    m.sec[2].push(rec(&ns, RData::A(ip)));
                }
            }
            15 => m.h.rcode = r.range(0, 5) as u8,
            // Right owner, wrong order, many types.
            16 => {
                let mut pool = vec![q.name.clone()];
                for s in 0..3 {
                    for _ in 0..r.range(0, 5) {
                        let mut x = gen_rec(r, &mut pool);
                        if r.bool() {
                            x.name = q.name.clone();
                        }
                        m.sec[s].push(x);
                    }
                }
            }
            // Answers without owner or of no use: zero lifetimes.
            17 => {
                if r.one_in(3) {
                    m.sec[0].push(RRec { name: q.name.clone(), ttl: 0, data: RData::A([10, 1, 1, 1]) });
                } else {
                    m.sec[0].push(RRec { name: q.name.clone(), ttl: 0, data: RData::Name(CNAME, fresh(r, &vec![])) });
                }
            }
            // Nameservers that are aliases.
            18 => {
                if q.qtype == A && r.bool() {
                    m.sec[0].push(rec(&q.name, RData::Name(CNAME, fresh(r, &vec![]))));
                } else {
                    m.h.aa = false;
                    let z = suffix(r, q.name.len());
                    for _ in 0..4 {
                        let x = fresh(r, &labels("al."));
                        m.sec[1].push(rec(&z, RData::Name(NS, x)));
                    }
                }
            }
            // Layers of zones, each served by all of the next layer's: exponentially many
            // ways through delegations that are all in the cache.
            20 => {
                m.h.aa = false;
                let z = suffix(r, 1);
                let k = z.first().and_then(|l| String::from_utf8_lossy(l).strip_prefix("layer").and_then(|s| s.split('-').next().unwrap().parse::<usize>().ok())).map_or(0, |k| k + 1);
                for j in 0..8 {
                    m.sec[1].push(rec(&z, RData::Name(NS, labels(&format!("ns.layer{}-{}.", k, j)))));
                }
            }
            // Long names.
            _ => {
                m.h.aa = false;
                let z = suffix(r, 1);
                for k in 0..3 {
                    let mut x: RName = vec![];
                    while wire_len(&x) < 190 {
                        x.insert(0, vec![b'a' + (k + (n % 26) as u8) % 26]);
                    }
                    x.push(format!("w{}", n).into_bytes());
                    m.sec[1].push(rec(&z, RData::Name(NS, x)));
                }
            }
        }
        // Sometimes an answer nonetheless.
        if r.one_in(40) && q.qtype == A {
            let ip = rand_ip(r);
            m.sec[0].push(RRec { name: q.name.clone(), ttl, data: RData::A(ip) });
        }
        for s in &mut m.sec {
            s.retain(|x| name_ok(&x.name));
        }
        w.count("hostile replies");
        Some(Act::Msg(m))
    })
}

pub fn r05(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let mut w = World::empty(r.u64());
    let strategy = r.below(25);
    w.custom = Some(adversary(r.u64(), strategy));
    if r.one_in(4) {
        for _ in 0..3 {
            let m = r.below(3) as u8;
            w.tcp_modes.insert(ROOTS[0], m);
        }
    }
    let mut p = gen_params(&mut r);
    p.max_ns_queried = r.range(1, 8);
    if r.one_in(6) {
        p.max_cname_redir = r.range(12, 60);
    }
    let verbose = gen_trace(&mut r);
    let mut rig = Rig::new(w, p, verbose, 0);
    let bound = 4000 * rig.p.max_upd_retries as u64;
    for k in 0..r.range(1, 3) {
        let mut name: RName = vec![];
        match r.below(3) {
            0 => {
                while wire_len(&name) < 250 {
                    name.push(vec![b'a' + r.below(26) as u8]);
                }
            }
            _ => {
                for _ in 0..r.range(0, 6) {
                    name.push(gen_lbl(&mut r));
                }
            }
        }
        if !name_ok(&name) {
            continue;
        }
        let q = RQ { name, qtype: *r.pick(&TYPES) };
        let from = rig.net.with(|i| {
            i.longest_wait = 0;
            i.longest_stream = 0;
            i.far.sent.clear();
            i.sends
        });
        let (m, ts, te) = match rig.client(&q) {
            Err(Bad::Violation(s, d)) => return Err(Bad::Violation(s, format!("strategy {}: {}{}", strategy, d, ctx(&rig.net, 0)))),
            x => x?,
        };
        let (sends, wait, stream) = rig.net.with(|i| (i.sends - from, i.longest_wait, i.longest_stream));
        c.count(&format!("strategy {}", strategy));
        c.count(&format!("ended with code {}", m.h.rcode));
        c.max("upstream sends in one lookup", sends);
        c.max("simulated seconds of one lookup", (te - ts) / SEC);
        let (rt, wt) = (rig.p.read_timeout.as_nanos() as u64, rig.p.write_timeout.as_nanos() as u64);
        c.max("longest wait over the read timeout, ms", wait.saturating_sub(rt) / MS);
        ensure!(sends <= bound, "too many queries", "{} upstream queries in one lookup (strategy {}): {} {}{}", sends, strategy, text(&q.name), q.qtype, ctx(&rig.net, 0));
        ensure!(wait <= rt.max(wt) + 100 * MS, "long wait", "a single wait took {} ms (read timeout {:?}, write timeout {:?})", wait / MS, rig.p.read_timeout, rig.p.write_timeout);
        ensure!(stream <= rt + 2 * wt + SEC, "long wait", "one stream query took {} ms (read timeout {:?}, write timeout {:?})", stream / MS, rig.p.read_timeout, rig.p.write_timeout);
        if sends > 2 {
            c.distinct(mix(sends, mix(strategy as u64, mix((te - ts) / MS, k as u64))));
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

// ---------------------------------------------------------------- R06

fn gen_fault(r: &mut Rng) -> Fault {
    match r.below(22) {
        0 | 1 => Fault::Silent,
        2 => Fault::Refused,
        3 => Fault::Rcode(*r.pick(&[1, 2, 4, 5])),
        4 => Fault::Rcode(2),
        5 => Fault::Rcode(5),
        6 => Fault::Garbage,
        7 => Fault::Short,
        8 => Fault::WrongId,
        9 => Fault::WrongName,
        10 => Fault::WrongType,
        11 => Fault::NoQuestion,
        12 => Fault::NotResponse,
        13 => Fault::Empty(r.bool()),
        14 => Fault::NxNoAa,
        15 => Fault::Lame(0),
        16 => Fault::Lame(1),
        17 => Fault::Unrelated,
        18 => Fault::TcDead(r.below(11) as u8),
        19 => Fault::SendErr(*r.pick(&[libc::EPERM, libc::ENETUNREACH, libc::ECONNREFUSED])),
        20 => Fault::ConnectErr(*r.pick(&[libc::ENETUNREACH, libc::EHOSTUNREACH])),
        _ => {
            if r.bool() {
                Fault::TwoQuestions
            } else {
                Fault::Cut
            }
        }
    }
}

/// For every zone, how many nameserver names are bad.
fn bad_count(w: &World, z: usize) -> usize {
    w.zones[z].nss.iter().filter(|n| !good_ns(w, n)).count()
}

fn good_ns(w: &World, n: &RName) -> bool {
    let a = w.addrs(n);
    !a.is_empty()
        && a.iter().all(|x| match x.data {
            RData::A(ip) => w.servers.get(&ip).map_or(false, |s| matches!(s.fault, Fault::None | Fault::Flaky(_) | Fault::Fickle(_))),
            _ => false,
        })
}

fn sane(w: &World, m: usize) -> bool {
    (1..w.zones.len()).all(|z| {
        let n = w.zones[z].nss.len();
        bad_count(w, z) < n.min(m)
    }) && ROOTS.iter().filter(|ip| !matches!(w.servers[*ip].fault, Fault::None | Fault::Flaky(_) | Fault::Fickle(_))).count() < m
}

pub fn r06(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let o = GenOpt { zones: (1, 5), oob: *r.pick(&[0, 15, 40]), ttl: *r.pick(&[0, 1]), ns_ttl: *r.pick(&[0, 0, 1, 2]), max_ns: 5, depth: 4, mixed_ttl: *r.pick(&[0, 20]), big: 8, aliases: 3, ..Default::default() };
    let mut w = gen(&mut r, &o);
    let mut p = gen_params(&mut r);
    p.max_cname_redir = 12;
    p.max_ns_queried = r.range(1, 5);
    p.read_timeout = Duration::from_millis(*r.pick(&[200, 500, 2000]));
    let m = p.max_ns_queried;
    // Nameservers that do not resolve.
    if r.pct(40) && w.zones.len() > 1 {
        for _ in 0..r.range(1, 3) {
            let z = r.range(1, w.zones.len() - 1);
            let n = match r.below(4) {
                0 => labels(&format!("gone{}.no-such-tld.", r.below(5))),
                1 => {
                    // Its own zone, without address.
                    let mut n = w.zones[z].name.clone();
                    n.insert(0, format!("noaddr{}", r.below(5)).into_bytes());
                    n
                }
                2 => {
                    // An alias.
                    let mut n = w.zones[0].name.clone();
                    n.insert(0, format!("aliasns{}", r.below(5)).into_bytes());
                    let k = lower(&n);
                    if !w.zones[0].data.contains_key(&k) {
                        w.zones[0].data.insert(k, vec![RRec { name: n.clone(), ttl: 60, data: RData::Name(CNAME, labels("no-such-tld.")) }]);
                    }
                    n
                }
                _ => {
                    let mut n = w.zones[r.below(w.zones.len())].name.clone();
                    n.insert(0, format!("missing{}", r.below(5)).into_bytes());
                    n
                }
            };
            if wire_len(&n) > 250 || w.zones[z].nss.iter().any(|x| name_eq(x, &n)) {
                continue;
            }
            let at = r.below(w.zones[z].nss.len() + 1);
            w.zones[z].nss.insert(at, n);
            if sane(&w, m) {
                c.count("nameserver names that do not resolve");
            } else {
                w.zones[z].nss.remove(at);
            }
        }
    }
    // Faults, as long as every zone keeps a nameserver that must be tried.
    let mut names: Vec<RName> = w.zones.iter().skip(1).flat_map(|z| z.nss.clone()).collect();
    r.shuffle(&mut names);
    let mut given: Vec<String> = vec![];
    for n in names {
        if r.pct(15) {
            continue;
        }
        let ips: Vec<Ip> = w.addrs(&n).iter().filter_map(|a| if let RData::A(ip) = a.data { Some(ip) } else { None }).collect();
        let f = gen_fault(&mut r);
        let old: Vec<Fault> = ips.iter().map(|ip| w.servers[ip].fault.clone()).collect();
        for ip in &ips {
            w.servers.get_mut(ip).unwrap().fault = f.clone();
        }
        if !sane(&w, m) {
            for (ip, f) in ips.iter().zip(old) {
                w.servers.get_mut(ip).unwrap().fault = f;
            }
        } else if !ips.is_empty() {
            given.push(format!("{:?}", f));
        }
    }
    for ip in ROOTS {
        if r.pct(25) {
            let f = gen_fault(&mut r);
            w.servers.get_mut(&ip).unwrap().fault = f.clone();
            if !sane(&w, m) {
                w.servers.get_mut(&ip).unwrap().fault = Fault::None;
            } else {
                given.push(format!("root {:?}", f));
            }
        }
    }
    // The good ones may need all the retries.
    if r.pct(30) && p.max_upd_retries > 1 {
        let n = p.max_upd_retries as u32;
        for s in w.servers.values_mut() {
            if s.fault == Fault::None && r.bool() {
                s.fault = if r.bool() { Fault::Flaky(n) } else { Fault::Fickle(n) };
                c.count("servers that need every retry");
            }
        }
    }
    for g in &given {
        let k = g.split('(').next().unwrap().trim_start_matches("root ").to_string();
        c.count(&format!("fault {}", k));
    }
    let qs: Vec<RQ> = (0..r.range(1, 6)).map(|_| gen_question(&w, &mut r)).collect();
    let mut rig = Rig::new(w, p, gen_trace(&mut r), 0);
    let mut hist: Vec<String> = vec![];
    let outage = r.one_in(3);
    let ask_one = |c: &mut Case, rig: &mut Rig, q: &RQ, hist: &mut Vec<String>, must: bool| -> Res {
        let from = rig.net.with(|i| i.far.sent.len());
        let (m, ts, te) = rig.client(q)?;
        let mut t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
        // A referral names nameservers without an address, which are of no use;
        // the set it leaves behind may lack them.
        if let (NS, End::Records(set)) = (q.qtype, &mut t.end) {
            let useless = |x: &RRec| matches!(&x.data, RData::Name(_, n) if rig.net.with(|i| i.far.addrs(n).is_empty()));
            set.retain(|x| m.sec[0].iter().any(|y| y.data == x.data) || !useless(x));
        }
        let n = rig.net.with(|i| (i.far.sent.len() - from) as u64);
        c.max("queries in one lookup", n);
        c.max("queries per allowed retry in one lookup", n / rig.p.max_upd_retries as u64);
        if must {
            let k = add_ctx(judge(&t, rig.p.max_cname_redir, q, &m), &rig.net, from, hist);
            let k = match k {
                Err(Bad::Violation(s, d)) => return Err(Bad::Violation(s, format!("at most {} nameservers, {} retries, read timeout {:?}\n{}", rig.p.max_ns_queried, rig.p.max_upd_retries, rig.p.read_timeout, d))),
                k => k?,
            };
            c.count(k);
            if n > 0 {
                c.distinct(fnv(format!("{:?}{:?}{}{}", q, m.sec[0].iter().map(rkey).collect::<Vec<_>>(), n, te - ts).as_bytes()));
            }
        } else if m.h.rcode == 2 {
            c.count("failed during outage");
        } else {
            let k = add_ctx(judge(&t, rig.p.max_cname_redir, q, &m), &rig.net, from, hist)?;
            c.count(&format!("during outage: {}", k));
        }
        hist.push(format!("t={:.3} {} {} -> {}", ts as f64 / 1e9, text(&q.name), q.qtype, m.h.rcode));
        Ok(())
    };
    for q in &qs {
        ask_one(c, &mut rig, q, &mut hist, true)?;
        pass_time(&mut r, &rig.net);
        if outage && r.one_in(3) {
            // Everything of some zone (or the whole network) is gone for a while.
            let saved = rig.net.with(|i| {
                let w = &mut i.far;
                let saved: Vec<(Ip, Fault)> = w.servers.iter().map(|(k, s)| (*k, s.fault.clone())).collect();
                let z = r.below(w.zones.len());
                let ips = if r.one_in(3) { w.servers.keys().copied().collect() } else { w.zone_ips(z) };
                for ip in ips {
                    let f = loop {
                        match gen_fault(&mut r) {
                            // These would be believed, were there nothing else.
                            Fault::Lame(_) | Fault::Empty(_) => continue,
                            f => break f,
                        }
                    };
                    if let Some(s) = w.servers.get_mut(&ip) {
                        s.fault = f;
                    }
                }
                saved
            });
            hist.push("outage".into());
            for _ in 0..r.range(1, 3) {
                let q = r.pick(&qs).clone();
                ask_one(c, &mut rig, &q, &mut hist, false)?;
                pass_time(&mut r, &rig.net);
            }
            rig.net.with(|i| {
                for (ip, f) in saved {
                    i.far.servers.get_mut(&ip).unwrap().fault = f;
                }
            });
            hist.push("recovered".into());
            c.count("outages");
            ask_one(c, &mut rig, q, &mut hist, true)?;
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}

// ---------------------------------------------------------------- R08

pub fn r08(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let kind = r.below(4);
    let o = GenOpt { ttl: 3, ns_ttl: 3, zones: (1, 6), oob: *r.pick(&[0, 40]), mixed_ttl: 20, ..Default::default() };
    let wseed = r.u64();
    let aseed = r.u64();
    let strategy = r.below(25);
    let fseed = r.u64();
    let p = gen_params(&mut r);
    // The same world for every setting.
    let build = || {
        let mut wr = Rng::new(wseed);
        let mut w = gen(&mut wr, &o);
        match kind {
            1 => {
                let mut fr = Rng::new(fseed);
                for s in w.servers.values_mut() {
                    if fr.one_in(3) {
                        s.fault = gen_fault(&mut fr);
                    }
                }
            }
            2 => w.custom = Some(adversary(aseed, strategy)),
            3 => w.junk.pct = 20,
            _ => {}
        }
        w
    };
    let w0 = build();
    let qs: Vec<RQ> = (0..r.range(1, 4)).map(|_| gen_question(&w0, &mut r)).collect();
    drop(w0);
    let gaps: Vec<u64> = qs.iter().map(|_| *r.pick(&[0, 0, 1, 30, 4000]) as u64 * SEC).collect();
    let mut settings: Vec<(TraceParams, log::LevelFilter)> = vec![];
    for (silent, verbose) in [(true, false), (false, false), (false, true), (true, true)] {
        let color = r.bool();
        let lvl = *r.pick(&[log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace]);
        settings.push((TraceParams { silent, verbose, color }, lvl));
    }
    settings.push((TraceParams { silent: true, verbose: false, color: false }, log::LevelFilter::Off));
    let mut first: Option<(String, Vec<String>, Vec<String>)> = None;
    for (t, lvl) in settings {
        log::set_max_level(lvl);
        let what = format!("{:?} log {}", t, lvl);
        let mut rig = Rig::new(build(), p.clone(), t.clone(), 0);
        let mut replies = vec![];
        for (q, gap) in qs.iter().zip(&gaps) {
            let r = rig.client(q);
            let r = match r {
                Ok(x) => x,
                Err(e) => {
                    log::set_max_level(log::LevelFilter::Off);
                    return match e {
                        Bad::Violation(s, d) => Err(Bad::Violation(s, format!("{} ({})", d, what))),
                        e => Err(e),
                    };
                }
            };
            let mut m = r.0;
            m.h.id = 0;
            replies.push(format!("{:?}", m));
            rig.net.pass(*gap);
        }
        log::set_max_level(log::LevelFilter::Off);
        let sent: Vec<String> = rig.net.with(|i| i.far.sent.iter().map(|s| format!("{} {} {:?}", s.t, s.dst, s.q.as_ref().map(|x| &x.1))).collect());
        match &first {
            None => first = Some((what, replies, sent)),
            Some((w0, r0, s0)) => {
                ensure!(*r0 == replies, "reply depends on tracing", "{:?}\n {}: {:?}\n {}: {:?}", qs, w0, r0, what, replies);
                if *s0 != sent {
                    let k = s0.iter().zip(&sent).position(|(a, b)| a != b).unwrap_or(s0.len().min(sent.len()));
                    return bad("queries depend on tracing", format!("query {}: {} sent {:?}, {} sent {:?}", k, w0, s0.get(k), what, sent.get(k)));
                }
            }
        }
        problems(&rig.net)?;
    }
    c.count("worlds compared under all settings");
    c.count(["honest worlds", "faulty worlds", "hostile worlds", "forged replies"][kind]);
    // The trace itself, on fresh caches.
    for (silent, verbose) in [(true, true), (true, false), (false, false), (false, true)] {
        let t = TraceParams { silent, verbose, color: r.bool() };
        let rig = Rig::new(build(), p.clone(), t.clone(), 0);
        for q in &qs {
            let from = rig.net.with(|i| i.far.sent.len());
            let (name, ty) = (c_name(&q.name), c_type(q.qtype));
            let res = rig.net.run(|| {
                let (res, trace) = rig.h.0.new_lookup(&name, ty).perform();
                let e = trace.is_empty();
                (format!("{:?}", res).len(), e, format!("{}", trace), format!("{:?}", trace))
            });
            let (_, empty, shown, debug) = match res {
                Ok(x) => x,
                Err(p) => return bad("panic", format!("{} tracing {} {} ({:?})", p, text(&q.name), q.qtype, t)),
            };
            if silent {
                ensure!(empty, "silent trace", "a silent trace is not empty: {}", clip(&shown, 500));
                continue;
            }
            ensure!(!shown.is_empty() && !debug.is_empty(), "trace", "nothing printed");
            let missing = rig.net.with(|i| {
                let w = &i.far;
                for s in &w.sent[from..] {
                    let ip = ip_of(&s.dst)?;
                    let addr = s.dst.ip().to_string();
                    let mut names: Vec<RName> = vec![];
                    for (k, x) in ROOTS.iter().enumerate() {
                        if *x == ip {
                            names.push(labels(&format!("{}.root-servers.net.", (b'a' + k as u8) as char)));
                        }
                    }
                    if ip == ROOT_B2 {
                        names.push(labels("b.root-servers.net."));
                    }
                    // Any name this address was given under.
                    for g in &w.got {
                        for x in g.msg.sec.iter().flatten() {
                            if x.data == RData::A(ip) {
                                names.push(x.name.clone());
                            }
                        }
                    }
                    let low = shown.to_ascii_lowercase();
                    if !low.contains(&addr) && !names.iter().any(|n| low.contains(&text(&lower(n)))) {
                        return Some(format!("{} ({:?})", addr, names.iter().map(text).collect::<Vec<_>>()));
                    }
                }
                None
            });
            if let Some(m) = missing {
                return bad("trace misses a server", format!("{} was asked but is not in the trace ({:?}):\n{}", m, t, clip(&shown, 3000)));
            }
            c.count("traces read");
            if t.verbose {
                c.count("verbose traces read");
            }
            c.distinct(fnv(shown.as_bytes()));
        }
        absorb(c, &rig.net);
    }
    Ok(())
}

// ---------------------------------------------------------------- R09

pub fn r09(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let o = GenOpt { ttl: *r.pick(&[0, 1, 2]), ns_ttl: *r.pick(&[1, 2]), zones: (1, 7), oob: *r.pick(&[0, 30]), mixed_ttl: *r.pick(&[0, 30]), ..Default::default() };
    let w = gen(&mut r, &o);
    let mut p = gen_params(&mut r);
    p.max_cname_redir = r.range(6, 12);
    let tick = *r.pick(&[0, 100]);
    let mut rig = Rig::new(w, p.clone(), gen_trace(&mut r), tick);
    // A second service thread sharing the cache, with its own settings.
    let h2 = ResolverHandler(Resolver::new(&rig.cache, p.clone(), gen_trace(&mut r)));
    for _ in 0..r.range(1, 5) {
        let q = rig.net.with(|i| gen_question(&i.far, &mut r));
        let from = rig.net.with(|i| i.far.sent.len());
        let (m, ts, te) = rig.client(&q)?;
        let t = rig.net.with(|i| i.far.truth(&q.name, q.qtype));
        add_ctx(judge(&t, p.max_cname_redir, &q, &m), &rig.net, from, &[])?;
        if m.h.rcode != 0 || m.sec[0].is_empty() {
            continue;
        }
        // The shortest lifetime among what was found. A set lives as long as its shortest record.
        let min = m.sec[0].iter().map(|x| x.ttl).min().unwrap() as u64;
        // Counted from the start of the lookup: nothing found was received before.
        let end = ts + min * SEC;
        for _ in 0..r.range(1, 3) {
            let now = rig.net.time();
            if now + SEC >= end {
                break;
            }
            let d = match r.below(4) {
                0 => 0,
                1 => end - now - SEC,
                _ => (r.u64() % (end - now - SEC + 1)) / 2,
            };
            rig.net.pass(d);
            let q2 = RQ { name: if r.bool() { random_case(&mut r, &q.name) } else { q.name.clone() }, qtype: q.qtype };
            let from = rig.net.with(|i| i.far.sent.len());
            let (m2, ts2, _) = if r.bool() { client(&rig.net, &h2, 5, &q2)? } else { rig.client(&q2)? };
            let n = rig.net.with(|i| i.far.sent.len()) - from;
            let why = || format!("{} {} found at {:.3} with {} s to live ({}), asked again at {:.3}: {} queries, code {}, {}{}", text(&q2.name), q2.qtype, te as f64 / 1e9, min, show_recs(&m.sec[0]), ts2 as f64 / 1e9, n, m2.h.rcode, show_recs(&m2.sec[0]), ctx(&rig.net, from));
            ensure!(n == 0, "asked again", "{}", why());
            ensure!(m2.h.rcode == 0 && same_set(&m.sec[0], &m2.sec[0]), "other records from cache", "{}", why());
            let k = m.sec[0].iter().filter(|x| x.data.rtype() == CNAME && q.qtype != CNAME).count();
            ensure!(same_set_seq(&m.sec[0][..k], &m2.sec[0][..k.min(m2.sec[0].len())]), "other records from cache", "{}", why());
            c.count(if k > 0 { "repeated lookups with aliases" } else { "repeated lookups" });
            c.distinct(fnv(format!("{:?}{:?}", q2, m2.sec[0]).as_bytes()));
        }
        // Another name under the same zone.
        let last = match m.sec[0].last() {
            Some(x) => x.name.clone(),
            None => continue,
        };
        let now = rig.net.time();
        let target = rig.net.with(|i| {
            let w = &i.far;
            let z = w.zone_of(&last);
            if z == 0 {
                return None;
            }
            // Was a delegation of this zone taken, with addresses, and does all of it still live?
            let live = |t: u64, ttl: u32| t + ttl as u64 * SEC > now + SEC;
            let ok = w.got.iter().any(|g| {
                !g.msg.h.aa
                    && g.msg.sec[0].is_empty()
                    && g.msg.sec[1].iter().any(|x| x.data.rtype() == NS && name_eq(&x.name, &w.zones[z].name))
                    && g.msg.sec[1].iter().all(|x| live(g.t, x.ttl))
                    && w.zones[z].nss.iter().any(|n| {
                        in_zone(n, &w.zones[z].name)
                            && g.msg.sec[2].iter().any(|x| name_eq(&x.name, n))
                            && g.msg.sec[2].iter().filter(|x| name_eq(&x.name, n)).all(|x| live(g.t, x.ttl))
                    })
            });
            if !ok {
                return None;
            }
            // The latest word counts, and it may be shorter: other sets for this zone must live too.
            let shorter = w.got.iter().any(|g| {
                g.msg.sec.iter().flatten().any(|x| {
                    !live(g.t, x.ttl) && (name_eq(&x.name, &w.zones[z].name) || w.zones[z].nss.iter().any(|n| name_eq(n, &x.name)))
                })
            });
            if shorter {
                return None;
            }
            let n = owner_in(w, &mut r, z)?;
            Some((z, n))
        });
        if let Some((z, n)) = target {
            let q3 = RQ { name: n, qtype: *r.pick(&[A, MX, TXT]) };
            let from = rig.net.with(|i| i.far.sent.len());
            let (m3, _, _) = rig.client(&q3)?;
            let t = rig.net.with(|i| i.far.truth(&q3.name, q3.qtype));
            add_ctx(judge(&t, p.max_cname_redir, &q3, &m3), &rig.net, from, &[])?;
            // Unless the name is a cached alias, and it was its target that was looked up.
            let first = rig.net.with(|i| i.far.sent.get(from).filter(|x| x.q.as_ref().map_or(true, |(_, q)| name_eq(&q.name, &q3.name))).map(|x| ip_of(&x.dst).unwrap()));
            if let Some(ip) = first {
                let ok = rig.net.with(|i| i.far.zone_ips(z).contains(&ip));
                ensure!(ok, "not started at the cached zone", "{} under {} was first asked of {:?}{}", text(&q3.name), rig.net.with(|i| text(&i.far.zones[z].name)), ip, ctx(&rig.net, from));
                c.count("lookups started at a cached zone");
            }
        }
        if r.bool() {
            rig.net.pass(r.range(0, 100) as u64 * SEC);
        }
    }
    problems(&rig.net)?;
    absorb(c, &rig.net);
    Ok(())
}
