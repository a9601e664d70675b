//! The real UDP and TCP servers on loopback, and their clients.
use crate::res::WNet;
use crate::run::*;
use crate::util::*;
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::resolver::ResolverHandler;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::*;
use std::collections::HashMap;
use std::io::{self, Read, Write};
use std::net::*;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};

/// How long a client waits for what must come.
pub const LONG: Duration = Duration::from_secs(25);

pub enum Svc {
    Idle,
    Name(NameserverHandler),
    Res(ResolverHandler, WNet),
}

/// What was read, read again.
struct Again(DnsReadResult);

impl DnsRead for Again {
    fn read(self) -> DnsReadResult {
        self.0
    }
}

/// Serves with whatever service is current, and some questions of its own.
pub struct Front {
    pub cur: RwLock<Arc<Svc>>,
    /// Requests held, the most held at once, and how many open the gate.
    held: Mutex<(usize, usize)>,
    cv: Condvar,
    pub panics: Mutex<Vec<String>>,
    /// Seed of random pauses in handlers.
    pub pauses: AtomicU64,
    /// Requests that reached a handler.
    pub seen: AtomicU64,
}

impl Front {
    pub fn new() -> Arc<Front> {
        Arc::new(Front {
            cur: RwLock::new(Arc::new(Svc::Idle)),
            held: Mutex::new((0, 0)),
            cv: Condvar::new(),
            panics: Mutex::new(vec![]),
            pauses: AtomicU64::new(0),
            seen: AtomicU64::new(0),
        })
    }
    pub fn set(&self, s: Svc) -> Arc<Svc> {
        let s = Arc::new(s);
        *self.cur.write().unwrap() = s.clone();
        s
    }
    pub fn reset_gate(&self) {
        self.held.lock().unwrap().1 = 0;
    }
    /// Lets go of all requests held at gates.
    pub fn open_gates(&self) {
        self.held.lock().unwrap().1 = usize::MAX;
        self.cv.notify_all();
    }
    pub fn held(&self) -> usize {
        self.held.lock().unwrap().0
    }
    fn pause(&self) {
        let s = self.pauses.load(SeqCst);
        if s != 0 {
            let mut r = Rng::new(mix(s, self.seen.load(SeqCst)));
            if r.one_in(3) {
                std::thread::sleep(Duration::from_micros(r.below(1500) as u64));
            }
        }
    }
}

fn echo(m: &dns::Message) -> dns::Message {
    let mut h = m.header.clone();
    h.query_resp = true;
    h.questions_count = m.questions.len() as u16;
    h.answers_count = 0;
    h.authorities_count = 0;
    h.additionals_count = 0;
    dns::Message { header: h, questions: m.questions.clone(), answers: vec![], authorities: vec![], additionals: vec![] }
}

/// Close to what fits one message.
fn huge() -> Vec<dns::Record> {
    let mut b = vec![0, 1, 0x84, 0, 0, 0, 0x0f, 0xa0, 0, 0, 0, 0];
    for i in 0..4000u32 {
        b.extend([1, b'h', 0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 10, 0, (i >> 8) as u8, i as u8]);
    }
    dns::Message::decode_from_bytes(&b).map(|m| m.answers).unwrap_or_default()
}

/// A connection whose owner reads nothing, and whose system takes in little.
pub fn deaf(addr: SocketAddr, req: &[u8]) -> Option<TcpStream> {
    use std::os::fd::FromRawFd;
    let a = match addr {
        SocketAddr::V4(a) => a,
        _ => return None,
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let s = TcpStream::from_raw_fd(fd);
        for (l, o, v) in [(libc::SOL_SOCKET, libc::SO_RCVBUF, 1i32), (libc::IPPROTO_TCP, libc::TCP_MAXSEG, 88)] {
            libc::setsockopt(fd, l, o, &v as *const _ as *const _, 4);
        }
        let sa = libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: a.port().to_be(),
            sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(a.ip().octets()) },
            sin_zero: [0; 8],
        };
        if libc::connect(fd, &sa as *const _ as *const _, 16) != 0 {
            return None;
        }
        let mut b = (req.len() as u16).to_be_bytes().to_vec();
        b.extend(req);
        (&s).write_all(&b).ok()?;
        Some(s)
    }
}

impl DnsHandler for Front {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        let res = req.read();
        self.seen.fetch_add(1, SeqCst);
        if let DnsReadResult::FullMessage(m) = &res {
            let own = m.questions.first().map(|q| q.node.to_string()).unwrap_or_default();
            if own.ends_with(".hello-own-question.") {
                // "gate-N": wait until N of them are here.
                let first = own.split('.').next().unwrap_or("").to_string();
                if let Some(n) = first.strip_prefix("gate-").and_then(|n| n.parse::<usize>().ok()) {
                    let mut g = self.held.lock().unwrap();
                    g.0 += 1;
                    g.1 = g.1.max(g.0);
                    self.cv.notify_all();
                    let end = Instant::now() + LONG;
                    while g.1 < n && Instant::now() < end {
                        g = self.cv.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
                    }
                    let all = g.1 >= n;
                    g.0 -= 1;
                    drop(g);
                    if !all {
                        return;
                    }
                }
                let mut a = echo(m);
                if first == "huge" {
                    a.answers = huge();
                    a.header.answers_count = a.answers.len() as u16;
                }
                let _ = resp.reply(a);
                return;
            }
        }
        self.pause();
        let svc = self.cur.read().unwrap().clone();
        let r = match &*svc {
            Svc::Idle => Ok(()),
            Svc::Name(h) => guard(|| h.handle_request(Again(res), resp)),
            Svc::Res(h, net) => {
                // The resolver looks at the clock between the steps on its cache.
                let seed = self.pauses.load(SeqCst);
                set_jitter(if seed == 0 { 0 } else { mix(seed, self.seen.load(SeqCst)) | 1 });
                let r = net.run(|| h.handle_request(Again(res), resp));
                set_jitter(0);
                r
            }
        };
        if let Err(p) = r {
            // On to the pool, which has to cope.
            self.panics.lock().unwrap().push(p.clone());
            std::panic::resume_unwind(Box::new(p));
        }
    }
}

pub struct Server {
    pub front: Arc<Front>,
    pub addr: SocketAddr,
    pub udp_threads: usize,
    pub tcp_threads: usize,
    pub read_timeout: Duration,
}

static SERVER: OnceLock<Result<Server, String>> = OnceLock::new();

/// A port free for UDP and TCP at this address.
pub fn free_port(ip: IpAddr, r: &mut Rng) -> Option<u16> {
    for _ in 0..50 {
        let p = r.range(10_000, 30_000) as u16;
        if UdpSocket::bind((ip, p)).is_ok() && TcpListener::bind((ip, p)).is_ok() {
            return Some(p);
        }
    }
    None
}

/// An own loopback address for this process.
pub fn own_ip(k: u8) -> Ipv4Addr {
    let pid = std::process::id();
    Ipv4Addr::new(127, 64 + k, (pid >> 8) as u8, (pid as u8).max(1))
}

/// The server of this process, started on first use.
pub fn server(udp_threads: usize, tcp_threads: usize, read_timeout: Duration, v6: bool) -> Result<&'static Server, Bad> {
    let s = SERVER.get_or_init(|| {
        let mut r = Rng::new(std::process::id() as u64);
        let ip6 = IpAddr::V6(Ipv6Addr::LOCALHOST);
        let ip = if v6 && UdpSocket::bind((ip6, 0)).is_ok() { ip6 } else { IpAddr::V4(own_ip(0)) };
        let port = free_port(ip, &mut r).ok_or("no free port")?;
        let front = Front::new();
        let (f, a) = (front.clone(), ip.to_string());
        std::thread::spawn(move || {
            start_servers(
                f,
                UdpParams { address: a.clone(), port, write_timeout: Duration::from_secs(2), threads: udp_threads },
                TcpParams { address: a, port, write_timeout: Duration::from_secs(2), read_timeout, threads: tcp_threads },
            );
        });
        let s = Server { front, addr: SocketAddr::new(ip, port), udp_threads, tcp_threads, read_timeout };
        s.up().map(|_| s)
    });
    match s {
        Ok(s) => Ok(s),
        Err(e) => bad("servers do not come up", e.clone()),
    }
}

/// A query for one of the front's own questions.
pub fn own_question(id: u16, kind: &str) -> Vec<u8> {
    let mut b = vec![(id >> 8) as u8, id as u8, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    for l in [kind, "hello-own-question"] {
        b.push(l.len() as u8);
        b.extend(l.as_bytes());
    }
    b.extend([0, 0, 1, 0, 1]);
    b
}

impl Server {
    /// A UDP socket to this server.
    pub fn udp(&self) -> io::Result<UdpSocket> {
        let s = UdpSocket::bind(if self.addr.is_ipv4() { SocketAddr::new(IpAddr::V4(own_ip(1)), 0) } else { "[::1]:0".parse().unwrap() })?;
        s.set_read_timeout(Some(LONG))?;
        Ok(s)
    }
    /// Do both transports answer?
    pub fn up(&self) -> Result<(), String> {
        let end = Instant::now() + Duration::from_secs(30);
        let s = self.udp().map_err(|e| e.to_string())?;
        let _ = s.set_read_timeout(Some(Duration::from_millis(200)));
        let mut buf = [0; 1000];
        loop {
            let _ = s.send_to(&own_question(1, "up"), self.addr);
            if s.recv_from(&mut buf).is_ok() {
                break;
            }
            if Instant::now() > end {
                return Err("the UDP server does not answer".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        loop {
            if let Ok(v) = self.tcp(&own_question(1, "up"), &mut Rng::new(1), 0) {
                if v.len() == 1 {
                    return Ok(());
                }
            }
            if Instant::now() > end {
                return Err("the TCP server does not answer".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    /// Sends one request over its own connection, in pieces; the frames received until the end.
    /// The last frame may be incomplete: then it is an error.
    pub fn tcp(&self, req: &[u8], r: &mut Rng, style: usize) -> Result<Vec<Vec<u8>>, String> {
        let mut s = TcpStream::connect_timeout(&self.addr, LONG).map_err(|e| format!("connect: {}", e))?;
        let _ = s.set_nodelay(true);
        let mut b = (req.len() as u16).to_be_bytes().to_vec();
        b.extend(req);
        send_pieces(&mut s, &b, r, style).map_err(|e| format!("send: {}", e))?;
        if style & 4 != 0 {
            let _ = s.shutdown(Shutdown::Write);
        }
        read_frames(&mut s, r, style & 8 != 0)
    }
}

/// style: 0 at once, 1 in random pieces, 2 byte by byte (the first ones), 3 pieces with pauses; +4 half close; +8 slow reader.
pub fn send_pieces(s: &mut TcpStream, b: &[u8], r: &mut Rng, style: usize) -> io::Result<()> {
    match style & 3 {
        0 => s.write_all(b),
        k => {
            let mut p = 0;
            while p < b.len() {
                let n = match k {
                    2 if p < 20 => 1,
                    _ => r.range(1, 1 + b.len() - p).min(*r.pick(&[1, 2, 3, 7, 100, 100_000])).min(b.len() - p).max(1),
                };
                s.write_all(&b[p..p + n])?;
                p += n;
                if k == 3 && p < b.len() && r.one_in(3) {
                    std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                } else {
                    std::thread::yield_now();
                }
            }
            Ok(())
        }
    }
}

pub fn read_frames(s: &mut TcpStream, r: &mut Rng, slow: bool) -> Result<Vec<Vec<u8>>, String> {
    let _ = s.set_read_timeout(Some(LONG));
    let mut all = vec![];
    let mut buf = vec![0; if slow { 700 } else { 65536 }];
    let mut reset = false;
    loop {
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => {
                all.extend(&buf[..n]);
                if slow && r.one_in(10) {
                    std::thread::sleep(Duration::from_micros(r.below(2000) as u64));
                }
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) if e.kind() == io::ErrorKind::ConnectionReset => {
                reset = true;
                break;
            }
            Err(e) => return Err(format!("read: {} after {} bytes", e, all.len())),
        }
    }
    let mut v = vec![];
    let mut p = 0;
    while p < all.len() {
        if all.len() - p < 2 {
            return Err(format!("{} bytes and then half a length{}", p, if reset { " (reset)" } else { "" }));
        }
        let n = (all[p] as usize) << 8 | all[p + 1] as usize;
        if all.len() - p - 2 < n {
            return Err(format!("a frame of {} bytes says it has {}{}", all.len() - p - 2, n, if reset { " (reset)" } else { "" }));
        }
        v.push(all[p + 2..p + 2 + n].to_vec());
        p += 2 + n;
    }
    Ok(v)
}

/// Sends datagrams to a server with one UDP worker and collects the replies, by id,
/// until a last question is answered. Err: the last question was never answered.
pub fn udp_batch(s: &Server, reqs: &[Vec<u8>]) -> Result<(HashMap<u16, Vec<Vec<u8>>>, Vec<Vec<u8>>), String> {
    let sock = s.udp().map_err(|e| e.to_string())?;
    let _ = sock.set_read_timeout(Some(Duration::from_secs(5)));
    for q in reqs {
        let _ = sock.send_to(q, s.addr);
    }
    let mut by: HashMap<u16, Vec<Vec<u8>>> = HashMap::new();
    let mut odd = vec![];
    let mut buf = [0; 70_000];
    for _ in 0..5 {
        let _ = sock.send_to(&own_question(0xffff, "last"), s.addr);
        loop {
            match sock.recv_from(&mut buf) {
                Ok((n, from)) => {
                    let b = buf[..n].to_vec();
                    if from != s.addr || n < 12 {
                        odd.push(b);
                        continue;
                    }
                    let id = (b[0] as u16) << 8 | b[1] as u16;
                    if id == 0xffff {
                        return Ok((by, odd));
                    }
                    by.entry(id).or_default().push(b);
                }
                Err(_) => break,
            }
        }
    }
    Err("no answer to a query after these datagrams".into())
}
