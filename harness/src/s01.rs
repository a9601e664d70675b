//! S01: each client gets its own complete reply; S02: hostile clients do not stop the servers.
use crate::ensure;
use crate::res::*;
use crate::run::*;
use crate::serv::*;
use crate::util::*;
use crate::wire::*;
use crate::world::*;
use crate::zone::*;
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::net::{start_servers, TcpParams, UdpParams};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::*;
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

pub fn rec_len(r: &RRec) -> usize {
    let mut b = vec![];
    put_rec(&mut b, r);
    b.len()
}

/// Records of one name and type whose encodings have this length in total, if possible.
fn fill(r: &mut Rng, name: &RName, ttl: u32, mut len: usize) -> Vec<RRec> {
    let base = wire_len(name) + 10;
    let mut v = vec![];
    // Many small records or few large ones.
    let most = *r.pick(&[30, 300, 3000, 60_000]);
    while len > 0 {
        if len < base + 2 {
            break;
        }
        let mut n = r.range(1, most).min(len - base);
        if n < 2 {
            n = 2;
        }
        if len - base - n < base + 2 {
            // The rest does not suffice for another one.
            n = (len - base).min(60_000);
        }
        // A TXT record of n octets of data.
        let mut d: Vec<Vec<u8>> = vec![];
        let mut left = n;
        while left > 0 {
            let k = (left - 1).min(255);
            d.push(vec![b'a' + (v.len() % 26) as u8; k]);
            left -= k + 1;
        }
        v.push(RRec { name: name.clone(), ttl, data: RData::Txt(d) });
        len -= base + n;
    }
    v
}

/// The zone set as loaded, without files.
pub fn build(z: &ZSet) -> ManagedZone {
    let mk = |top: &RName, recs: &[RRec]| {
        let mut zone = Zone::new(&c_name(top));
        for r in recs {
            zone.insert(c_rec(r));
        }
        zone
    };
    ManagedZone { auth_zone: mk(&z.zone, &z.recs), sub_zones: z.subs.iter().map(|s| mk(&s.zone, &s.recs)).collect() }
}

/// A zone set with record sets of telling sizes, and questions for them.
pub fn gen_sized(r: &mut Rng, huge: bool) -> (ZSet, Vec<RQ>) {
    let mut z = gen_zset(r, 12);
    let ttl = z.ttl0;
    let mut qs: Vec<RQ> = (0..r.range(2, 10)).map(|_| gen_query(r, &z)).collect();
    for k in 0..r.range(2, 6) {
        let mut n = z.zone.clone();
        n.insert(0, format!("sized{}", k).into_bytes());
        if !name_ok(&n) || !z.in_auth(&n) {
            continue;
        }
        let head = 12 + wire_len(&n) + 4;
        let total = match r.below(if huge { 8 } else { 5 }) {
            0 | 1 => r.range(505, 520),
            2 => r.range(520, 1500),
            3 => r.range(1500, 9000),
            4 => r.range(9000, 30_000),
            5 => r.range(65_530, 65_540),
            6 => r.range(60_000, 65_535),
            _ => r.range(65_540, 150_000),
        };
        z.recs.extend(fill(r, &n, ttl, total - head));
        for _ in 0..r.range(1, 3) {
            qs.push(RQ { name: n.clone(), qtype: TXT });
        }
    }
    (z, qs)
}

/// What was cut: the reply must be the reference up to a limit.
fn judge_cut(z: &ZSet, q: &RQ, m: &RMsg, len: usize, limit: usize) -> Result<&'static str, Bad> {
    let want = reference(z, q);
    let qlen = m.q.len() * (wire_len(&q.name) + 4);
    let secs = [want.ans.clone(), want.auth.clone(), want.add.clone().unwrap_or_default()];
    let full: usize = 12 + qlen + secs.iter().flatten().map(rec_len).sum::<usize>();
    let what = || format!("{} type {}: a reply of {} octets for a full one of {} (limit {}), {} of {} records", text(&q.name), q.qtype, len, full, limit, m.sec.iter().map(|s| s.len()).sum::<usize>(), secs.iter().map(|s| s.len()).sum::<usize>());
    ensure!(len <= limit, "reply too long", "{}", what());
    if full <= limit {
        ensure!(!m.h.tc, "truncated without need", "{}", what());
        return judge_answer(z, q, m);
    }
    ensure!(m.h.tc, "cut without flag", "{}", what());
    ensure!(m.h.rcode == want.rcode, "response code", "{} instead of {}: {}", m.h.rcode, want.rcode, what());
    // Nothing foreign, whole sections before the cut, none after, and no cut too early.
    let mut cut = false;
    for s in 0..3 {
        let mut left = secs[s].clone();
        for x in &m.sec[s] {
            match left.iter().position(|y| *y == norm(x)) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => return bad("foreign record", format!("{:?} in {}", brief(&x.data), what())),
            }
        }
        ensure!(!cut || m.sec[s].is_empty(), "records after the cut", "{}", what());
        if !left.is_empty() {
            if !cut {
                let largest = left.iter().map(rec_len).max().unwrap();
                ensure!(len + largest > limit, "cut too early", "{} octets would fit: {}", largest, what());
            }
            cut = true;
        }
    }
    Ok("cut")
}

/// Judges one reply of a nameserver.
fn judge_reply(z: &ZSet, q: &RQ, id: u16, b: &[u8], limit: usize) -> Result<&'static str, Bad> {
    let d = match decode_strict(b) {
        Ok(d) => d,
        Err(e) => return bad("reply does not decode", format!("{}: {}", e, hexs(b))),
    };
    ensure!(d.used == b.len(), "bytes after the reply", "{} of {}: {}", b.len() - d.used, b.len(), hexs(b));
    ensure!(d.msg.h.id == id, "reply to another request", "id {} instead of {}", d.msg.h.id, id);
    ensure!(d.msg.h.qr, "not a response", "{}", hexs(b));
    for x in &d.msg.q {
        ensure!(x.qtype == q.qtype && name_eq(&x.name, &q.name), "reply to another request", "it asks {} {} instead of {} {}", text(&x.name), x.qtype, text(&q.name), q.qtype);
    }
    judge_cut(z, q, &d.msg, b.len(), limit)
}

enum Truths {
    Zones(ZSet),
    Tree(HashMap<(RName, u16), Truth>, usize),
}

impl Truths {
    fn judge(&self, q: &RQ, id: u16, b: &[u8], limit: usize) -> Result<&'static str, Bad> {
        match self {
            Truths::Zones(z) => judge_reply(z, q, id, b, limit),
            Truths::Tree(t, max) => {
                let d = match decode_strict(b) {
                    Ok(d) => d,
                    Err(e) => return bad("reply does not decode", format!("{}: {}", e, hexs(b))),
                };
                ensure!(d.used == b.len(), "bytes after the reply", "{} of {}: {}", b.len() - d.used, b.len(), hexs(b));
                ensure!(d.msg.h.id == id, "reply to another request", "id {} instead of {}", d.msg.h.id, id);
                ensure!(b.len() <= limit, "reply too long", "{}", b.len());
                if d.msg.h.tc {
                    ensure!(limit == 512, "truncated without need", "{} octets over TCP", b.len());
                    return Ok("cut");
                }
                match crate::res::judge(&t[&(lower(&q.name), q.qtype)], *max, q, &d.msg) {
                    // The limit itself is nobody's business here.
                    Err(Bad::Violation(s, d)) => bad(&s, d),
                    x => x,
                }
            }
        }
    }
}

type Log = (HashMap<&'static str, u64>, Vec<u64>);

/// One client over UDP: some requests outstanding at a time on one socket.
fn udp_client(s: &Server, t: &Truths, qs: &[RQ], first: u16, window: usize, lossy: bool, dup: bool, log: &mut Log) -> Res {
    // One at a time, the ids may well be the same.
    let same_id = window == 0;
    let window = window.max(1);
    let sock = match s.udp() {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("client socket: {}", e)),
    };
    let _ = sock.set_read_timeout(Some(Duration::from_millis(1500)));
    let mut out: HashMap<u16, (usize, usize, usize)> = HashMap::new();
    let mut next = 0;
    let mut open = 0;
    let mut buf = vec![0; 70_000];
    let mut silences = 0;
    let id_of = |k: usize| if same_id { first } else { first.wrapping_add(k as u16) };
    let req = |k: usize| {
        let b = encode(&RMsg { h: RHdr { id: id_of(k), rd: k % 2 == 0, ..Default::default() }, q: vec![qs[k].clone()], ..Default::default() });
        let x = mix(first as u64 * 64 + window as u64, (k + qs.len()) as u64);
        let room = 512 - b.len();
        match x % 10 {
            0 => extended(b, room),
            1 => extended(b, (x >> 8) as usize % (room + 1)),
            _ => b,
        }
    };
    while next < qs.len() || open > 0 {
        while next < qs.len() && open < window {
            let b = req(next);
            if b.len() == 512 {
                *log.0.entry("requests of 512 octets over UDP").or_default() += 1;
            }
            let _ = sock.send_to(&b, s.addr);
            // Twice in a row: two requests, two replies.
            let twice = dup && !same_id && next % 2 == 1;
            if twice {
                let _ = sock.send_to(&req(next), s.addr);
                *log.0.entry("datagrams sent twice").or_default() += 1;
            }
            if same_id {
                *log.0.entry("ids used again").or_default() += 1;
            }
            out.insert(id_of(next), (next, if twice { 2 } else { 1 }, 0));
            next += 1;
            open += 1;
        }
        match sock.recv_from(&mut buf) {
            Ok((n, from)) => {
                ensure!(from == s.addr, "reply from elsewhere", "from {} instead of {}", from, s.addr);
                ensure!(n >= 12, "reply too short", "{}", n);
                let id = (buf[0] as u16) << 8 | buf[1] as u16;
                let e = match out.get_mut(&id) {
                    Some(e) => e,
                    None => return bad("reply to another request", format!("id {} was never used on this socket ({}..{}): {}", id, first, first.wrapping_add(next as u16), hexs(&buf[..n]))),
                };
                e.2 += 1;
                ensure!(e.2 <= e.1, "several replies", "to {} {}, sent {} times", text(&qs[e.0].name), qs[e.0].qtype, e.1);
                if e.2 == 1 {
                    open -= 1;
                    let k = t.judge(&qs[e.0], id, &buf[..n], 512)?;
                    *log.0.entry(k).or_default() += 1;
                    *log.0.entry("replies over UDP").or_default() += 1;
                    log.1.push(fnv(&buf[2..n]));
                }
            }
            Err(_) => {
                silences += 1;
                if silences > 12 {
                    let v: Vec<String> = out.values().filter(|e| e.2 == 0).map(|e| format!("{} {}", text(&qs[e.0].name), qs[e.0].qtype)).collect();
                    return bad("no reply", format!("over UDP, sent again and again: {:?}; {:?}", v, s.front.panics.lock().unwrap().pop()));
                }
                // Datagrams may be late.
                for e in out.values_mut().filter(|e| e.2 == 0 && !same_id && (lossy || silences % 4 == 0)) {
                    let _ = sock.send_to(&req(e.0), s.addr);
                    e.1 += 1;
                    *log.0.entry("datagrams sent again").or_default() += 1;
                }
            }
        }
    }
    // Every copy has its reply: nothing is lost on the way, the queues are far larger.
    let start = Instant::now();
    let _ = sock.set_read_timeout(Some(Duration::from_millis(500)));
    while !lossy && out.values().any(|e| e.2 < e.1) {
        if let Ok((n, _)) = sock.recv_from(&mut buf) {
            let id = if n >= 2 { (buf[0] as u16) << 8 | buf[1] as u16 } else { 0 };
            match out.get_mut(&id) {
                Some(e) if e.2 < e.1 => {
                    e.2 += 1;
                    t.judge(&qs[e.0], id, &buf[..n], 512)?;
                }
                _ => return bad("several replies", format!("an extra datagram: {}", hexs(&buf[..n]))),
            }
        } else if start.elapsed() > Duration::from_secs(20) {
            let v: Vec<String> = out.values().filter(|e| e.2 < e.1).map(|e| format!("{} {} sent {} times, {} replies", text(&qs[e.0].name), qs[e.0].qtype, e.1, e.2)).collect();
            return bad("request ignored", format!("over UDP: {:?}; {:?}", v, s.front.panics.lock().unwrap().pop()));
        }
    }
    // Nothing more must come.
    let _ = sock.set_read_timeout(Some(Duration::from_millis(2)));
    while let Ok((n, _)) = sock.recv_from(&mut buf) {
        let id = if n >= 2 { (buf[0] as u16) << 8 | buf[1] as u16 } else { 0 };
        match out.get_mut(&id) {
            Some(e) if e.2 < e.1 => e.2 += 1,
            _ => return bad("several replies", format!("an extra datagram: {}", hexs(&buf[..n]))),
        }
    }
    Ok(())
}

/// The request with additional records of types unknown to the servers, `n` octets longer if that can be.
fn extended(mut b: Vec<u8>, n: usize) -> Vec<u8> {
    let mut left = n;
    while left >= 11 {
        // What is left over has to be a whole record too.
        let mut d = (left - 11).min(60_000);
        if (1..11).contains(&(left - 11 - d)) {
            d -= 11;
        }
        b[11] += 1;
        b.extend([0, 0xff, 0xf0, 0, 1, 0, 0, 0, 0, (d >> 8) as u8, d as u8]);
        b.resize(b.len() + d, d as u8);
        left -= 11 + d;
    }
    b
}

fn tcp_client(s: &Server, t: &Truths, qs: &[RQ], first: u16, r: &mut Rng, log: &mut Log) -> Res {
    for (k, q) in qs.iter().enumerate() {
        let id = first.wrapping_add(k as u16);
        let mut h = RHdr { id, rd: k % 2 == 0, ..Default::default() };
        h.z = 0;
        let mut req = encode(&RMsg { h, q: vec![q.clone()], ..Default::default() });
        let room = 65_535 - req.len();
        match r.below(60) {
            0 => req = extended(req, room),
            1 => {
                let n = r.range(0, room);
                req = extended(req, n);
            }
            2..=6 => {
                let n = r.range(0, 1000);
                req = extended(req, n);
            }
            _ => {}
        }
        if req.len() == 65_535 {
            *log.0.entry("requests of 65535 octets over TCP").or_default() += 1;
        }
        let style = r.below(16);
        let v = match s.tcp(&req, r, style) {
            Ok(v) => v,
            Err(e) => return bad("TCP", format!("{} asking {} {} (style {}); {:?}", e, text(&q.name), q.qtype, style, s.front.panics.lock().unwrap().pop())),
        };
        ensure!(v.len() == 1, "number of replies", "{} over TCP to {} {} (style {}): {:?}; {:?}", v.len(), text(&q.name), q.qtype, style, v.iter().map(|b| hexs(b)).collect::<Vec<_>>(), s.front.panics.lock().unwrap().pop());
        let kind = t.judge(q, id, &v[0], 65_535)?;
        *log.0.entry(if kind == "cut" { "cut at 65535" } else { kind }).or_default() += 1;
        *log.0.entry("replies over TCP").or_default() += 1;
        if v[0].len() > 65_500 {
            *log.0.entry("replies of nearly 65535 octets").or_default() += 1;
        }
        log.1.push(fnv(&v[0][2..]));
        *log.0.entry(["sent at once", "sent in pieces", "sent byte by byte", "sent with pauses"][style & 3]).or_default() += 1;
    }
    Ok(())
}

pub fn s01(c: &mut Case) -> Res {
    let (u, t) = [(1, 1), (4, 4), (3, 8), (2, 3)][c.shard as usize / 2 % 4];
    let s = server(u, t, Duration::from_secs(20), c.shard % 2 == 1)?;
    let mut r = c.rng.clone();
    let recursive = r.one_in(4);
    let herd = recursive && r.one_in(2);
    let (svc, truths, qs) = if recursive {
        let w = gen(&mut r, &GenOpt { zones: (1, 4), ..Default::default() });
        let mut p = gen_params(&mut r);
        p.read_timeout = Duration::from_secs(86400);
        p.write_timeout = Duration::from_secs(86400);
        p.max_cname_redir = 12;
        let mut qs: Vec<RQ> = (0..r.range(4, 30)).map(|_| gen_question(&w, &mut r)).collect();
        // Often everyone is after the same few things, nothing of which is cached yet.
        if herd {
            let al: Vec<RName> = w.zones.iter().flat_map(|z| z.data.values()).filter(|v| v[0].data.rtype() == CNAME).map(|v| v[0].name.clone()).collect();
            qs.truncate(r.range(1, 3));
            if !al.is_empty() {
                let n = r.pick(&al).clone();
                qs.truncate(1);
                qs.extend([CNAME, CNAME, A].map(|qtype| RQ { name: n.clone(), qtype }));
            }
        }
        let ts = qs.iter().map(|q| ((lower(&q.name), q.qtype), w.truth(&q.name, q.qtype))).collect();
        let max = p.max_cname_redir;
        let Rig { net, h, .. } = Rig::new(w, p, gen_trace(&mut r), 0);
        (Svc::Res(h, net), Truths::Tree(ts, max), qs)
    } else {
        let huge = r.one_in(if c.thorough { 4 } else { 8 });
        let (z, qs) = gen_sized(&mut r, huge);
        (Svc::Name(NameserverHandler(build(&z))), Truths::Zones(z), qs)
    };
    s.front.pauses.store(if r.bool() { r.u64() | 1 } else { 0 }, SeqCst);
    let svc = s.front.set(svc);
    let clients = if herd { r.range(4, 12) } else { r.range(1, 8) };
    let each = if herd { r.range(1, 4) } else { r.range(1, 12) };
    // Same ids everywhere, or different ones.
    let same = r.bool();
    let plans: Vec<(Vec<RQ>, bool, u16, usize, u64)> = (0..clients)
        .map(|_| ((0..each).map(|_| r.pick(&qs).clone()).collect(), r.bool(), if same { 7 } else { r.u16() }, *r.pick(&[0, 0, 1, 2, 4, 8]), r.u64()))
        .collect();
    let gate = Barrier::new(clients);
    let (gate, truths) = (&gate, &truths);
    let done: Vec<(Res, Log)> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|(qs, tcp, first, window, seed)| {
                sc.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut log = Log::default();
                    gate.wait();
                    let res = if *tcp { tcp_client(s, truths, qs, *first, &mut r, &mut log) } else { udp_client(s, truths, qs, *first, *window, false, seed & 3 == 0, &mut log) };
                    (res, log)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (inconclusive("a client thread ended"), Log::default()))).collect()
    });
    s.front.set(Svc::Idle);
    let mut h = 0;
    let mut first_bad = Ok(());
    for (res, log) in done {
        for (k, n) in log.0 {
            c.add(k, n);
        }
        for x in log.1 {
            h = mix(h, x);
            c.distinct(x);
        }
        if first_bad.is_ok() {
            first_bad = res;
        }
    }
    c.distinct(h);
    if let Err(Bad::Violation(s, d)) = first_bad {
        let ask = |(qs, tcp, first, w, _): &(Vec<RQ>, bool, u16, usize, u64)| format!("{} from id {} window {}: {}", if *tcp { "TCP" } else { "UDP" }, first, w, qs.iter().map(|q| format!("{} {}", text(&q.name), q.qtype)).collect::<Vec<_>>().join(", "));
        return bad(&s, format!("{}\nclients: {}{}", d, plans.iter().map(ask).collect::<Vec<_>>().join("\n "), if let Svc::Res(_, net) = &*svc { ctx(net, 0) } else { String::new() }));
    }
    first_bad?;
    if let Some(p) = s.front.panics.lock().unwrap().pop() {
        return bad("panic", p);
    }
    if let Svc::Res(_, net) = &*svc {
        absorb(c, net);
        c.count("rounds with a resolver");
        if herd {
            c.count("rounds of clients after the same things");
        }
    } else {
        c.count("rounds with a nameserver");
    }
    if clients > 1 {
        c.count("rounds of several clients");
    }
    if !s.addr.is_ipv4() {
        c.count("rounds over IPv6");
    }
    c.count(&format!("rounds with {} UDP and {} TCP workers", u, t));
    Ok(())
}

// ---------------------------------------------------------------- S02

const TIMEOUT: Duration = Duration::from_millis(300);

/// Reads until the server ends the connection; None if it never does.
fn wait_end(s: &mut TcpStream, limit: Duration) -> Option<Duration> {
    let start = Instant::now();
    let mut buf = [0; 65536];
    loop {
        if start.elapsed() > limit {
            return None;
        }
        let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
        match s.read(&mut buf) {
            Ok(0) => return Some(start.elapsed()),
            Ok(_) => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
            Err(_) => return Some(start.elapsed()),
        }
    }
}

fn linger0(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

/// Some hostile bytes of a message.
fn rubbish(r: &mut Rng, q: &RQ) -> Vec<u8> {
    let ok = encode(&RMsg { h: RHdr { id: r.u16(), ..Default::default() }, q: vec![q.clone()], ..Default::default() });
    match r.below(10) {
        0 => vec![],
        1 => {
            let n = r.range(1, 11);
            r.bytes(n)
        }
        2 => {
            let n = r.range(12, 512);
            r.bytes(n)
        }
        3 => {
            let mut b = ok;
            let n = r.below(b.len());
            b.truncate(n);
            b
        }
        4 => {
            // Counts without content, or more content than counted.
            let mut b = ok;
            for i in 4..12 {
                b[i] = *r.pick(&[0, 0, 1, 255]);
            }
            b
        }
        5 => {
            // A pointer into itself, or a chain of them.
            let mut b = vec![1, 2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
            for _ in 0..r.range(1, 60) {
                let t = r.range(0, b.len() + 3) as u16;
                b.extend((0xc000 | t).to_be_bytes());
            }
            b.extend([0, 0, 1, 0, 1]);
            b
        }
        6 => encode(&gen_msg(r, 3)).into_iter().take(512).collect(),
        7 => {
            let mut b = ok;
            b[2] |= r.u8();
            b[3] = r.u8();
            b
        }
        8 => {
            let mut b = ok;
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            b
        }
        _ => {
            // Many questions.
            let mut b = vec![1, 2, 0, 0, 0xff, 0xff, 0, 0, 0, 0, 0, 0];
            while b.len() < 505 {
                b.extend([0, 0, 1, 0, 1]);
            }
            b
        }
    }
}

struct Kept {
    s: TcpStream,
    what: &'static str,
    /// It was opened as the n-th one that occupies a worker.
    since: Instant,
}

const HOLD: Duration = Duration::from_secs(3);

/// Idle, half-sent and slow connections, each with a worker of its own: they end once the read
/// timeout is over, and a slow request that makes it in time is answered.
fn holding(c: &mut Case, r: &mut Rng) -> Res {
    let ip = IpAddr::V4(own_ip(3));
    let port = match free_port(ip, r) {
        Some(p) => p,
        None => return inconclusive("no free port".to_string()),
    };
    let front = Front::new();
    let (f, a) = (front.clone(), ip.to_string());
    let short = Duration::from_secs(2);
    std::thread::spawn(move || {
        start_servers(
            f,
            UdpParams { address: a.clone(), port, write_timeout: short, threads: 1 },
            TcpParams { address: a, port, write_timeout: short, read_timeout: HOLD, threads: 16 },
        );
    });
    let addr = SocketAddr::new(ip, port);
    let up = Instant::now();
    while TcpStream::connect_timeout(&addr, LONG).is_err() {
        if up.elapsed() > Duration::from_secs(30) {
            return bad("servers do not come up", format!("{}", addr));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Clients that ask for a lot and read nothing of it, as many as there are workers; none may be kept.
    let deafs: Vec<TcpStream> = (0..16).filter_map(|k| deaf(addr, &own_question(k, "huge"))).collect();
    std::thread::sleep(short * 3);
    let srv = Server { front: front.clone(), addr, udp_threads: 1, tcp_threads: 16, read_timeout: HOLD };
    let all = gates(c, &srv);
    c.max("clients reading nothing", deafs.len() as u64);
    match all {
        Err(Bad::Violation(x, d)) => return bad(&x, format!("{} clients that read nothing of a large reply, write timeout {:?}: {}", deafs.len(), short, d)),
        x => x?,
    }
    drop(deafs);
    let q = own_question(7, "up");
    let mut framed = (q.len() as u16).to_be_bytes().to_vec();
    framed.extend(&q);
    let parts = |cuts: &[(u32, usize, usize)]| -> Vec<(Duration, Vec<u8>)> { cuts.iter().map(|(at, a, b)| (HOLD * *at / 100, framed[*a..*b].to_vec())).collect() };
    let n = framed.len();
    let k = r.range(3, n - 2);
    let mut big = vec![(Duration::ZERO, vec![0xff, 0xff])];
    big.extend((1..200).map(|i| (HOLD * i / 10, vec![0; 300])));
    let drip = |step: u32| -> Vec<(Duration, Vec<u8>)> { (0..n - 1).map(|i| (HOLD * step * i as u32 / 100, vec![framed[i]])).collect() };
    let plans: Vec<(&str, Vec<(Duration, Vec<u8>)>, bool)> = vec![
        ("idle", vec![], false),
        ("half a length", parts(&[(0, 0, 1)]), false),
        ("only a length", parts(&[(0, 0, 2)]), false),
        ("half a request", parts(&[(0, 0, k)]), false),
        ("a late half of a length", parts(&[(85, 0, 1)]), false),
        ("a late length", parts(&[(85, 0, 2)]), false),
        ("a length, half a request later", parts(&[(0, 0, 2), (85, 2, k)]), false),
        ("a length in two halves, late", parts(&[(0, 0, 1), (85, 1, 2)]), false),
        ("all but one octet, late", parts(&[(0, 0, k), (85, k, n - 1)]), false),
        ("one octet at a time", drip(8), false),
        ("one octet at a time, slowly", drip(45), false),
        ("large pieces of a large request", big, false),
        ("a slow request", parts(&[(0, 0, 1), (20, 1, 2), (35, 2, k), (55, k, n)]), true),
        ("a late request", parts(&[(60, 0, n)]), true),
    ];
    let mut last = Ok(());
    for _ in 0..3 {
        let done = std::sync::atomic::AtomicBool::new(false);
        let mut outcome: Vec<(&str, bool, Option<Duration>, bool)> = vec![];
        let mut delay = Duration::ZERO;
        std::thread::scope(|sc| {
            // How late this machine is.
            let clock = sc.spawn(|| {
                let mut worst = Duration::ZERO;
                while !done.load(SeqCst) {
                    let t = Instant::now();
                    std::thread::sleep(Duration::from_millis(20));
                    worst = worst.max(t.elapsed() - Duration::from_millis(20));
                }
                worst
            });
            let hs: Vec<_> = plans
                .iter()
                .map(|(what, plan, answer)| {
                    sc.spawn(move || {
                        let mut s = match TcpStream::connect_timeout(&addr, LONG) {
                            Ok(s) => s,
                            Err(_) => return (*what, *answer, None, false),
                        };
                        let start = Instant::now();
                        let mut w = s.try_clone().ok();
                        let gone = std::sync::atomic::AtomicBool::new(false);
                        let mut got = vec![];
                        let end = std::thread::scope(|sc| {
                            sc.spawn(|| {
                                for (at, b) in plan {
                                    while start.elapsed() < *at {
                                        if gone.load(SeqCst) {
                                            return;
                                        }
                                        std::thread::sleep((*at - start.elapsed().min(*at)).min(Duration::from_millis(25)));
                                    }
                                    if w.as_mut().map_or(true, |w| w.write_all(b).is_err()) {
                                        return;
                                    }
                                }
                            });
                            let mut buf = [0; 4096];
                            let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
                            let end = loop {
                                if start.elapsed() > HOLD * 3 {
                                    break None;
                                }
                                match s.read(&mut buf) {
                                    Ok(0) => break Some(start.elapsed()),
                                    Ok(n) => got.extend_from_slice(&buf[..n]),
                                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
                                    Err(_) => break Some(start.elapsed()),
                                }
                            };
                            gone.store(true, SeqCst);
                            end
                        });
                        let answered = got.len() > 14 && got[2..4] == [0, 7];
                        (*what, *answer, end, answered)
                    })
                })
                .collect();
            outcome = hs.into_iter().filter_map(|h| h.join().ok()).collect();
            done.store(true, SeqCst);
            delay = clock.join().unwrap_or(LONG);
        });
        last = Ok(());
        for (what, answer, end, answered) in &outcome {
            let late = end.map_or(true, |e| e > HOLD * 13 / 10 + delay * 4);
            if *answer && !answered && delay < HOLD / 20 {
                last = bad("slow request", format!("{}: complete well before the read timeout of {:?} but never answered; ended after {:?}", what, HOLD, end));
            } else if !*answer && late {
                last = bad("connection held too long", format!("a connection ({}) ended after {:?}, with a free worker and a read timeout of {:?} (this machine is late by {:?} at most)", what, end, HOLD, delay));
            }
            c.count(&format!("held: {}", what));
        }
        if last.is_ok() {
            break;
        }
        c.count("holding measured again");
    }
    last
}

pub fn s02(c: &mut Case) -> Res {
    if c.index / 8 == 1 || (c.index / 8) % 500 == 499 {
        let mut r = c.rng.clone();
        return holding(c, &mut r);
    }
    let (u, t) = [(1, 1), (2, 2), (3, 2), (1, 4)][c.shard as usize / 2 % 4];
    let s = server(u, t, TIMEOUT, c.shard % 2 == 1)?;
    let mut r = c.rng.clone();
    let recursive = r.one_in(4);
    let (svc, truths, qs) = if recursive {
        let w = gen(&mut r, &GenOpt { zones: (1, 3), ..Default::default() });
        let mut p = gen_params(&mut r);
        p.read_timeout = Duration::from_secs(86400);
        p.write_timeout = Duration::from_secs(86400);
        p.max_cname_redir = 12;
        let qs: Vec<RQ> = (0..r.range(4, 12)).map(|_| gen_question(&w, &mut r)).collect();
        let ts = qs.iter().map(|q| ((lower(&q.name), q.qtype), w.truth(&q.name, q.qtype))).collect();
        let max = p.max_cname_redir;
        let Rig { net, h, .. } = Rig::new(w, p, gen_trace(&mut r), 0);
        (Svc::Res(h, net), Truths::Tree(ts, max), qs)
    } else {
        let huge = r.one_in(10);
        let (z, qs) = gen_sized(&mut r, huge);
        (Svc::Name(NameserverHandler(build(&z))), Truths::Zones(z), qs)
    };
    s.front.pauses.store(0, SeqCst);
    let svc = s.front.set(svc);
    let mut hist: Vec<String> = vec![];
    let res = hostile(c, &mut r, s, &truths, &qs, &mut hist);
    s.front.set(Svc::Idle);
    if let Svc::Res(_, net) = &*svc {
        absorb(c, net);
        c.count("services with a resolver");
    } else {
        c.count("services with a nameserver");
    }
    if !s.addr.is_ipv4() {
        c.count("services on IPv6");
    }
    c.distinct(fnv(hist.join(";").as_bytes()));
    match res {
        Err(Bad::Violation(x, d)) => bad(&x, format!("{}\nafter: {}\npanics: {:?}", d, hist.join("; "), s.front.panics.lock().unwrap().drain(..).collect::<Vec<_>>())),
        x => {
            // A worker survives a panic in its job; the request does not, which is not judged here.
            s.front.panics.lock().unwrap().clear();
            x
        }
    }
}

fn hostile(c: &mut Case, r: &mut Rng, s: &Server, truths: &Truths, qs: &[RQ], hist: &mut Vec<String>) -> Res {
    let rounds = r.range(1, 3);
    // Few cases wait for timeouts.
    let patient = r.one_in(12);
    for _ in 0..rounds {
        let mut kept: Vec<Kept> = vec![];
        let sock = match s.udp() {
            Ok(x) => x,
            Err(e) => return inconclusive(format!("client socket: {}", e)),
        };
        for _ in 0..r.range(1, 12) {
            let q = r.pick(qs).clone();
            let ok = encode(&RMsg { h: RHdr { id: r.u16(), ..Default::default() }, q: vec![q.clone()], ..Default::default() });
            let kind = r.below(if patient { 13 } else { 10 });
            if r.one_in(8) {
                // Too many clients: no descriptors for some.
                let k = r.below(3);
                let n = r.range(1, 5);
                hist.push(format!("{} calls fail: {}", n, ["accept", "recvfrom", "dup"][k]));
                crate::sim::SPARED.with(|s| s.set(true));
                crate::sim::FAULTS[k].store(n as u64, SeqCst);
                c.count("descriptors run out");
            }
            if kind < 4 {
                let n = r.range(1, 12);
                for _ in 0..n {
                    let b = rubbish(r, &q);
                    hist.push(format!("datagram {}", clip(&hexs(&b), 200)));
                    let _ = sock.send_to(&b, s.addr);
                    c.count("hostile datagrams");
                }
                continue;
            }
            let mut t = match TcpStream::connect_timeout(&s.addr, LONG) {
                Ok(t) => t,
                Err(e) => return bad("TCP connections are refused", format!("{}", e)),
            };
            let framed = |b: &[u8]| {
                let mut v = (b.len() as u16).to_be_bytes().to_vec();
                v.extend(b);
                v
            };
            let what = match kind {
                4 => {
                    // Rubbish, properly framed.
                    let b = rubbish(r, &q);
                    hist.push(format!("framed {}", clip(&hexs(&b), 200)));
                    let _ = t.write_all(&framed(&b));
                    if r.bool() {
                        kept.push(Kept { s: t, what: "served", since: Instant::now() });
                    }
                    "framed rubbish"
                }
                5 => "closed at once",
                6 => {
                    linger0(&t);
                    if r.bool() {
                        let _ = t.write_all(&framed(&ok)[..r.range(1, 10)]);
                    }
                    "reset"
                }
                7 => {
                    let v = framed(&ok);
                    let n = r.below(v.len());
                    let _ = t.write_all(&v[..n]);
                    let _ = t.shutdown(Shutdown::Write);
                    if r.bool() {
                        kept.push(Kept { s: t, what: "cut", since: Instant::now() });
                    }
                    "cut and closed"
                }
                8 => {
                    // A request whose reply nobody reads.
                    if r.bool() {
                        linger0(&t);
                    }
                    let _ = t.write_all(&framed(&ok));
                    if r.bool() {
                        std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                    }
                    "gone before the reply"
                }
                9 => {
                    // Lengths that lie, and more after the request.
                    let mut v = framed(&ok);
                    match r.below(3) {
                        0 => v[..2].copy_from_slice(&[0, 0]),
                        1 => v[..2].copy_from_slice(&((ok.len() / 2) as u16).to_be_bytes()),
                        _ => {
                            let n = r.range(1, 3000);
                            let x = r.bytes(n);
                            v.extend(x)
                        }
                    }
                    let _ = t.write_all(&v);
                    "lengths that lie"
                }
                10 => {
                    kept.push(Kept { s: t, what: "idle", since: Instant::now() });
                    "idle"
                }
                11 => {
                    let mut v = framed(&ok);
                    if r.bool() {
                        v[..2].copy_from_slice(&[0xff, 0xff]);
                    }
                    let n = r.range(1, v.len() - 1);
                    let _ = t.write_all(&v[..n]);
                    kept.push(Kept { s: t, what: "half sent", since: Instant::now() });
                    "half sent"
                }
                _ => {
                    kept.push(Kept { s: t, what: "dripping", since: Instant::now() });
                    "dripping"
                }
            };
            hist.push(what.to_string());
            c.count(&format!("connections {}", what));
        }
        for f in &crate::sim::FAULTS {
            f.store(0, SeqCst);
        }
        // Those that hold workers must not do so for long. A worker is held for one timeout by
        // each, whatever order they are served in.
        let held = kept.iter().filter(|k| k.what != "served" && k.what != "cut").count() as u32;
        let drips: Vec<TcpStream> = kept.iter().filter(|k| k.what == "dripping").filter_map(|k| k.s.try_clone().ok()).collect();
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let stop2 = stop.clone();
        let dripper = std::thread::spawn(move || {
            let mut drips = drips;
            // A request of 2000 octets, one octet at a time.
            for d in &mut drips {
                let _ = d.write_all(&[7, 208]);
            }
            while !drips.is_empty() && !stop2.load(SeqCst) {
                std::thread::sleep(TIMEOUT / 6);
                drips.retain_mut(|d| d.write_all(&[0]).is_ok());
            }
        });
        let limit = TIMEOUT * (held / s.tcp_threads as u32 + 2) + Duration::from_secs(6);
        // Probes: every kind of client is served, in spite of all that.
        let probes = r.range(1, 4);
        let mut log = Log::default();
        let some: Vec<RQ> = (0..probes).map(|_| r.pick(qs).clone()).collect();
        let first = r.u16();
        let before = Instant::now();
        let mut res = udp_client(s, truths, &some, first, 2, true, false, &mut log);
        if res.is_ok() {
            res = tcp_client(s, truths, &some, first, r, &mut log);
            if res.is_ok() && before.elapsed() > limit + Duration::from_secs(10) {
                res = bad("workers held too long", format!("{} idle or half-sent connections delayed {} queries by {:?}", held, probes, before.elapsed()));
            }
        }
        for (k, n) in log.0 {
            c.add(&format!("probes: {}", k), n);
        }
        let mut late = Ok(());
        if res.is_ok() {
            for k in &mut kept {
                let spent = k.since.elapsed();
                let left = limit.saturating_sub(spent) + Duration::from_millis(500);
                match wait_end(&mut k.s, left) {
                    Some(_) => c.count(&format!("ended: {}", k.what)),
                    None => {
                        late = bad("connection held too long", format!("a connection ({}) is still open after {:?}, the read timeout being {:?} and {} connections sharing {} workers", k.what, k.since.elapsed(), TIMEOUT, held, s.tcp_threads));
                        break;
                    }
                }
            }
        }
        stop.store(true, SeqCst);
        let _ = dripper.join();
        res?;
        late?;
        c.count("rounds survived");
    }
    // All workers are still there: as many requests as workers are inside at the same time.
    gates(c, s)
}

/// As many requests as there are workers, each answered only once all are being served.
pub fn gates(c: &mut Case, s: &Server) -> Res {
    let kind = format!("gate-{}", s.udp_threads);
    let sock = match s.udp() {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("client socket: {}", e)),
    };
    let _ = sock.set_read_timeout(Some(LONG + Duration::from_secs(5)));
    s.front.reset_gate();
    for k in 0..s.udp_threads {
        let _ = sock.send_to(&own_question(k as u16, &kind), s.addr);
    }
    let mut buf = [0; 600];
    for k in 0..s.udp_threads {
        if sock.recv_from(&mut buf).is_err() {
            return bad("workers lost", format!("of {} UDP workers, {} requests at a time are not served together ({} replies)", s.udp_threads, s.udp_threads, k));
        }
    }
    c.count("all UDP workers there");
    s.front.reset_gate();
    let kind = format!("gate-{}", s.tcp_threads);
    let ok: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..s.tcp_threads).map(|k| { let kind = kind.clone(); sc.spawn(move || s.tcp(&own_question(k as u16, &kind), &mut Rng::new(1), 0)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread ended".into()))).collect()
    });
    for x in ok {
        match x {
            Ok(v) if v.len() == 1 => {}
            x => return bad("workers lost", format!("of {} TCP workers, as many requests at a time are not served together: {:?}", s.tcp_threads, x)),
        }
    }
    c.count("all TCP workers there");
    Ok(())
}
