//! S03: starting the servers when one of them cannot, or both can.
use crate::ensure;
use crate::run::*;
use crate::serv::*;
use crate::sim;
use crate::util::*;
use ariadne_dns::shared::net::*;
use std::io::{self, Read, Write};
use std::net::*;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// "A few seconds".
const SOON: Duration = Duration::from_secs(20);

struct Kept {
    up: Up,
    front: Arc<Front>,
    started: Instant,
    what: String,
}

/// Where a service is, and whether starting it has returned.
struct Up {
    udp: SocketAddr,
    tcp: SocketAddr,
    done: Arc<Mutex<Option<Result<(), String>>>>,
}

/// Services that keep serving.
static KEPT: Mutex<Vec<Kept>> = Mutex::new(vec![]);

/// The address at which a client finds a server listening here.
fn reach(a: SocketAddr) -> SocketAddr {
    match a.ip() {
        IpAddr::V4(i) if i.is_unspecified() => SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), a.port()),
        IpAddr::V6(i) if i.is_unspecified() => SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), a.port()),
        _ => a,
    }
}

fn ask_udp(a: SocketAddr, kind: &str, wait: Duration) -> bool {
    let a = reach(a);
    let any = if a.is_ipv4() { "0.0.0.0:0" } else { "[::]:0" };
    let f = || -> io::Result<bool> {
        let s = UdpSocket::bind(any)?;
        s.connect(a)?;
        s.set_read_timeout(Some(wait))?;
        s.send(&own_question(77, kind))?;
        let mut b = [0; 600];
        let n = s.recv(&mut b)?;
        Ok(n > 12 && b[..2] == [0, 77] && b[2] & 0x80 != 0)
    };
    f().unwrap_or(false)
}

fn ask_tcp(a: SocketAddr, kind: &str, wait: Duration) -> bool {
    let f = || -> io::Result<bool> {
        let mut s = TcpStream::connect_timeout(&reach(a), wait)?;
        s.set_read_timeout(Some(wait))?;
        let q = own_question(78, kind);
        let mut b = (q.len() as u16).to_be_bytes().to_vec();
        b.extend(q);
        s.write_all(&b)?;
        let mut b = [0; 14];
        s.read_exact(&mut b)?;
        Ok(b[2..4] == [0, 78] && b[4] & 0x80 != 0)
    };
    f().unwrap_or(false)
}

/// Can a socket be bound there?
fn free_udp(a: SocketAddr) -> bool {
    UdpSocket::bind(a).is_ok()
}

fn free_tcp(a: SocketAddr) -> bool {
    TcpListener::bind(a).is_ok()
}

fn wait_for(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + limit;
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// A port in this shard's own range which is free everywhere.
fn port(r: &mut Rng, shard: u64, v6: bool) -> Option<u16> {
    for _ in 0..200 {
        let p = (12_000 + (shard % 16) * 1_200 + r.below(1_200) as u64) as u16;
        let any4: SocketAddr = (Ipv4Addr::UNSPECIFIED, p).into();
        let any6: SocketAddr = (Ipv6Addr::UNSPECIFIED, p).into();
        if free_udp(any4) && free_tcp(any4) && (!v6 || (free_udp(any6) && free_tcp(any6))) {
            return Some(p);
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Fine,
    /// Someone else has the port.
    Taken,
    /// The address is not of this host.
    Foreign,
    /// The address is no address.
    Rubbish,
    /// A timeout of zero, which sockets refuse.
    ZeroTimeout,
}

fn address(r: &mut Rng, v6: bool) -> IpAddr {
    let v = if v6 { 4 } else { 2 };
    match r.below(v) {
        0 => IpAddr::V4(own_ip(2 + r.below(4) as u8)),
        1 => IpAddr::V4(Ipv4Addr::UNSPECIFIED),
        2 => IpAddr::V6(Ipv6Addr::LOCALHOST),
        _ => IpAddr::V6(Ipv6Addr::UNSPECIFIED),
    }
}

fn family(a: IpAddr) -> &'static str {
    match a {
        IpAddr::V4(i) if i.is_unspecified() => "0.0.0.0",
        IpAddr::V4(_) => "IPv4",
        IpAddr::V6(i) if i.is_unspecified() => "::",
        IpAddr::V6(_) => "::1",
    }
}

fn foreign(r: &mut Rng, a: IpAddr) -> String {
    match a {
        IpAddr::V4(_) => r.pick(&["203.0.113.7", "198.51.100.1", "192.0.2.200"]).to_string(),
        IpAddr::V6(_) => r.pick(&["2001:db8::7", "2001:db8:1:2:3:4:5:6"]).to_string(),
    }
}

/// Holds a port against a server.
enum Blocker {
    Udp(#[allow(dead_code)] UdpSocket),
    Tcp(#[allow(dead_code)] TcpListener),
}

pub fn s03(c: &mut Case) -> Res {
    sim::SPARED.with(|s| s.set(true));
    let r = &mut Rng::new(c.rng.u64());
    let v6 = UdpSocket::bind("[::1]:0").is_ok();
    if c.index % 40 < 8 && c.index / 8 % 5 == 0 {
        kept_still_serve(c)?;
    }
    if r.one_in(25) {
        return program(c, r, v6);
    }
    let uip = address(r, v6);
    let tip = if r.one_in(2) { uip } else { address(r, v6) };
    let Some(p) = port(r, c.shard, v6) else { return inconclusive("no free port") };
    let uaddr = SocketAddr::new(uip, p);
    let tport = if r.one_in(2) { p } else { port(r, c.shard, v6).unwrap_or(p) };
    let taddr = SocketAddr::new(tip, tport);
    let (mut uh, mut th) = (How::Fine, How::Fine);
    let mut refuse = 0;
    let fails = |r: &mut Rng| *r.pick(&[How::Taken, How::Taken, How::Taken, How::Foreign, How::Rubbish]);
    match r.below(20) {
        0 => {}
        1 => refuse = r.range(1, 40),
        2 | 3 => {
            uh = fails(r);
            th = fails(r);
        }
        4 => uh = How::ZeroTimeout,
        k if k % 2 == 0 => uh = fails(r),
        _ => th = fails(r),
    }
    if uh == How::Fine && th == How::Fine && refuse == 0 && KEPT.lock().unwrap().len() >= 6 {
        th = How::Taken;
    }
    let sizes = [(1, 1), (1, 1), (2, 3), (1, 64), (64, 1), (16, 16), (1, 300), (300, 1)];
    let (ut, tt) = *r.pick(&sizes);
    let (ut, tt) = if uh == How::Fine && th == How::Fine { (ut.min(16), tt.min(16)) } else { (ut, tt) };
    // Who holds the port may hold it on the same address or on all of them.
    let mut blockers = vec![];
    if uh == How::Taken {
        match UdpSocket::bind(uaddr) {
            Ok(s) => blockers.push(Blocker::Udp(s)),
            Err(e) => return inconclusive(format!("cannot hold {}: {}", uaddr, e)),
        }
    }
    if th == How::Taken {
        match TcpListener::bind(taddr) {
            Ok(s) => blockers.push(Blocker::Tcp(s)),
            Err(e) => return inconclusive(format!("cannot hold {}: {}", taddr, e)),
        }
    }
    // Delays on the way: some calls of some side.
    for d in &sim::DELAYS {
        d.store(0, SeqCst);
    }
    let mut plan = String::new();
    if !r.one_in(4) {
        for _ in 0..r.range(1, 3) {
            let k = r.below(12);
            let us = match k & !1 {
                sim::D_THREAD => r.below(1000),
                sim::D_WAIT => *r.pick(&[100, 2_000, 50_000]),
                _ => *r.pick(&[50, 500, 3_000, 20_000, 150_000, 700_000]),
            };
            sim::DELAYS[k].store(us as u64, SeqCst);
            plan += &format!(" {}{}:{}us", ["socket", "bind", "listen", "option", "wait", "thread"][k / 2], if k & 1 == 1 { "(tcp)" } else { "(udp)" }, us);
        }
    }
    sim::DELAYED.store(0, SeqCst);
    sim::NO_THREAD.store(refuse as u64, SeqCst);
    let name = |r: &mut Rng, h: How, a: SocketAddr| match h {
        How::Foreign => foreign(r, a.ip()),
        How::Rubbish => r.pick(&["127.0.0.1.5", "::g", "300.1.1.1", "1:2:3:4:5:6:7:8:9", ""]).to_string(),
        _ => a.ip().to_string(),
    };
    let secs = |h: How| if h == How::ZeroTimeout { Duration::ZERO } else { Duration::from_secs(2) };
    let up = UdpParams { address: name(r, uh, uaddr), port: uaddr.port(), write_timeout: secs(uh), threads: ut };
    let tp = TcpParams { address: name(r, th, taddr), port: taddr.port(), write_timeout: Duration::from_secs(2), read_timeout: Duration::from_millis(500), threads: tt };
    let what = format!(
        "UDP on '{}' port {} with {} threads ({:?}), TCP on '{}' port {} with {} threads ({:?}), delays{}{}",
        up.address, up.port, ut, uh, tp.address, tp.port, tt, th, if plan.is_empty() { " none" } else { &plan },
        if refuse > 0 { format!(", thread {} refused", refuse) } else { String::new() }
    );
    let front = Front::new();
    let done = Arc::new(Mutex::new(None));
    let (f, d) = (front.clone(), done.clone());
    let started = Instant::now();
    std::thread::spawn(move || {
        // Faults are for the servers' own threads.
        sim::SPARED.with(|s| s.set(true));
        let res = guard(|| start_servers(f, up, tp));
        *d.lock().unwrap() = Some(res);
    });
    let up = Up { udp: uaddr, tcp: taddr, done: done.clone() };
    let returned = || done.lock().unwrap().is_some();

    // Some send requests meanwhile.
    let mut holding = 0;
    let pester = r.below(4);
    let mut clients = vec![];
    if pester > 0 && uh == How::Fine {
        if let Ok(s) = UdpSocket::bind(if uaddr.is_ipv4() { "0.0.0.0:0" } else { "[::]:0" }) {
            holding = if pester == 3 && th != How::Fine { r.range(1, ut + 2) } else { 0 };
            let to = reach(uaddr);
            let n = r.range(1, 200);
            let done = done.clone();
            clients.push(std::thread::spawn(move || {
                sim::SPARED.with(|s| s.set(true));
                for k in 0..n {
                    if done.lock().unwrap().is_some() {
                        break;
                    }
                    let _ = s.send_to(&own_question(1, if k < holding { "gate-9999" } else { "x" }), to);
                    std::thread::sleep(Duration::from_micros(300));
                }
            }));
        }
    }
    // Delays are for starting, not for serving.
    let calm = || {
        if started.elapsed() > Duration::from_secs(3) {
            for d in &sim::DELAYS {
                d.store(0, SeqCst);
            }
        }
    };
    let certain = matches!(uh, How::Taken | How::Foreign | How::Rubbish) || matches!(th, How::Taken | How::Foreign | How::Rubbish);
    let either = !certain && (uh == How::ZeroTimeout || refuse > 0);
    let verdict = if certain || either {
        let mut both = false;
        let ok = wait_for(SOON, || {
            calm();
            returned() || {
                both = either && ask_udp(uaddr, "up", Duration::from_millis(100)) && ask_tcp(taddr, "up", Duration::from_millis(100)) && !returned();
                both
            }
        });
        let took = started.elapsed();
        c.max("milliseconds until starting returned", took.as_millis() as u64);
        if !ok {
            bad("starting does not return", format!("{}: after {:?} starting the servers has not returned, although one of them cannot run", what, took))
        } else if both {
            c.count("ran all the same");
            Ok(())
        } else {
            match done.lock().unwrap().clone() {
                Some(Err(p)) => bad("starting panics", format!("{}: {}", what, p)),
                _ => {
                    if uh != How::Fine {
                        c.count(&format!("UDP could not start: {:?}", uh));
                    }
                    if th != How::Fine {
                        c.count(&format!("TCP could not start: {:?}", th));
                    }
                    if refuse > 0 {
                        c.count("a thread could not start");
                    }
                    if front.held() > 0 {
                        c.count("returned with requests in progress");
                    }
                    // Requests in progress may keep their socket until they are done.
                    front.open_gates();
                    let hint = (uh != How::Taken, th != How::Taken);
                    let gone = wait_for(Duration::from_secs(15), || (!hint.0 || uh == How::Foreign || uh == How::Rubbish || free_udp(uaddr)) && (!hint.1 || th == How::Foreign || th == How::Rubbish || free_tcp(taddr)));
                    if gone {
                        Ok(())
                    } else {
                        bad("a listener stays behind", format!("{}: starting returned after {:?}, but 15 s later a port is still in use (UDP free: {}, TCP free: {})", what, took, free_udp(uaddr), free_tcp(taddr)))
                    }
                }
            }
        }
    } else {
        let mut u = false;
        let mut t = false;
        let ok = wait_for(SOON, || {
            calm();
            u = u || ask_udp(uaddr, "up", Duration::from_millis(300));
            t = t || ask_tcp(taddr, "up", Duration::from_millis(300));
            (u && t) || returned()
        });
        front.open_gates();
        if returned() {
            bad("stops although both can run", format!("{}: starting the servers returned after {:?}", what, started.elapsed()))
        } else if !ok {
            bad("does not serve although both can run", format!("{}: after {:?}, UDP answers: {}, TCP answers: {}", what, SOON, u, t))
        } else {
            c.count("both run");
            Ok(())
        }
    };
    for k in clients {
        let _ = k.join();
    }
    for d in &sim::DELAYS {
        d.store(0, SeqCst);
    }
    sim::NO_THREAD.store(0, SeqCst);
    c.add("delayed calls", sim::DELAYED.load(SeqCst));
    verdict?;
    if !returned() {
        KEPT.lock().unwrap().push(Kept { up, front, started, what: what.clone() });
    }
    c.count("started");
    c.count(&format!("UDP on {}", family(uip)));
    c.count(&format!("TCP on {}", family(tip)));
    c.count(&format!("threads {}/{}", ut, tt));
    c.distinct(fnv(format!("{:?} {:?} {} {} {}/{} {} {} {}", uh, th, family(uip), family(tip), ut, tt, plan, pester, holding).as_bytes()));
    c.sample(&format!("{:?} {:?}", uh, th), || what);
    Ok(())
}

/// Services started before still serve.
fn kept_still_serve(c: &mut Case) -> Res {
    let kept = KEPT.lock().unwrap();
    for k in kept.iter() {
        let age = k.started.elapsed();
        if k.up.done.lock().unwrap().is_some() {
            return bad("stops although both can run", format!("{}: starting returned within {:?}", k.what, age));
        }
        k.front.reset_gate();
        if !ask_udp(k.up.udp, "up", LONG) {
            return bad("stops serving", format!("{}: after {:?} the UDP server does not answer", k.what, age));
        }
        if !ask_tcp(k.up.tcp, "up", LONG) {
            return bad("stops serving", format!("{}: after {:?} the TCP server does not answer", k.what, age));
        }
        c.count("still serving");
        c.max("seconds of service", age.as_secs());
    }
    Ok(())
}

/// One of the real programs.
pub struct Program(pub Child);

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// Where the check built the programs.
pub fn program_path(name: &str) -> std::path::PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().join("repo/debug").join(name)
}

fn program(c: &mut Case, r: &mut Rng, v6: bool) -> Res {
    let resolver = r.one_in(2);
    let uip = address(r, v6);
    let tip = if r.one_in(2) { uip } else { address(r, v6) };
    let Some(p) = port(r, c.shard, v6) else { return inconclusive("no free port") };
    let (ua, ta) = (SocketAddr::new(uip, p), SocketAddr::new(tip, p));
    let udp = r.one_in(2);
    let by_address = r.one_in(3);
    let mut blockers = vec![];
    if !by_address {
        let b = if udp { UdpSocket::bind(ua).map(Blocker::Udp) } else { TcpListener::bind(ta).map(Blocker::Tcp) };
        match b {
            Ok(b) => blockers.push(b),
            Err(e) => return inconclusive(format!("cannot hold {} or {}: {}", ua, ta, e)),
        }
    }
    let name = |r: &mut Rng, a: SocketAddr, f: bool| if f { foreign(r, a.ip()) } else { a.ip().to_string() };
    let (un, tn) = (name(r, ua, by_address && udp), name(r, ta, by_address && !udp));
    let threads = *r.pick(&[1, 4, 64]);
    let dir = format!("{}/program-{}", c.dir, c.shard);
    let _ = std::fs::create_dir_all(&dir);
    let zone = format!("{}/zone", dir);
    let _ = std::fs::write(&zone, "@ IN SOA ns.ok. h.ok. 1 2 3 4 5\n@ IN NS ns.ok.\nns IN A 127.0.0.1\n");
    let rest = if resolver {
        r#""resolver": {"max_ns_queried": 5, "max_ns_retries": 2, "max_cname_redir": 5, "read_timeout": 1, "write_timeout": 1,
            "cache_conf": {"clean_period": 20, "entries_cleaned": 1000}, "trace_conf": {"silent": true, "verbose": false, "color": false}}"#.to_string()
    } else {
        format!(r#""zone": {{"zone": "ok.", "file": "{}", "starting_ttl": 300, "sub_zones": []}}"#, zone)
    };
    let conf = format!(
        r#"{{"log_level": "ERROR", "udp_server": {{"address": "{}", "port": {}, "write_timeout": 2, "threads": {}}},
            "tcp_server": {{"address": "{}", "port": {}, "write_timeout": 2, "read_timeout": 2, "threads": {}}}, {}}}"#,
        un, p, threads, tn, p, threads, rest
    );
    let path = format!("{}/conf.json", dir);
    let _ = std::fs::write(&path, &conf);
    let bin = if resolver { "resolver" } else { "nameserver" };
    let child = match Command::new(program_path(bin)).arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("cannot run the program: {}", e)),
    };
    let mut child = Program(child);
    let t0 = Instant::now();
    let ended = wait_for(SOON, || matches!(child.0.try_wait(), Ok(Some(_))));
    ensure!(ended, "program does not end", "{}: {} cannot run on its {}, but the program is still there after {:?}; {}", bin, if udp { "UDP" } else { "TCP" }, if by_address { "address" } else { "port" }, t0.elapsed(), conf);
    c.count(&format!("{} ended", bin));
    c.max("milliseconds until a program ended", t0.elapsed().as_millis() as u64);
    c.distinct(fnv(format!("{} {} {} {} {} {}", bin, family(uip), family(tip), udp, by_address, threads).as_bytes()));
    Ok(())
}
