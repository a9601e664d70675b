//! A simulated network and clock under the code under test.
//!
//! The socket, clock and sleep functions of the C library are defined here, so that the standard
//! library linked into this program calls them. On threads that run inside `Net::run` they act on
//! the simulated network; everywhere else they are plain system calls. Sockets are real descriptors
//! (their options, such as timeouts, are kept by the kernel), but nothing leaves the process.
use crate::run::guard;
use crate::util::*;
use libc::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// What the world does with a datagram it is sent.
pub enum Udp {
    /// send() fails with this error.
    SendErr(i32),
    /// Datagrams (or socket errors) that come back.
    Back(Vec<Dg>),
}

pub struct Dg {
    pub delay: u64,
    pub from: SocketAddr,
    pub what: Result<Vec<u8>, i32>,
    /// Identifies what is delivered, for the world's own log.
    pub tag: u64,
}

pub enum Conn {
    Ok(u64),
    Refused,
    Hole,
}

pub enum Piece {
    Data(Vec<u8>),
    Close,
    Reset,
}

/// The far side of the network.
pub trait Far: Send {
    fn udp(&mut self, now: u64, dst: SocketAddr, bytes: &[u8]) -> Udp;
    fn udp_connect(&mut self, _now: u64, _dst: SocketAddr) -> i32 {
        0
    }
    fn connect(&mut self, now: u64, dst: SocketAddr) -> Conn;
    /// The client sent `new` on a stream on which it has sent `all` (including new) so far.
    fn tcp(&mut self, now: u64, dst: SocketAddr, all: &[u8], new: usize) -> Vec<(u64, Piece, u64)>;
    /// The delivery with this tag was handed to the program.
    fn delivered(&mut self, now: u64, tag: u64);
}

struct In {
    at: u64,
    from: SocketAddr,
    piece: Piece,
    err: i32,
    tag: u64,
}

struct Sock {
    tcp: bool,
    peer: Option<SocketAddr>,
    inbox: Vec<In>,
    /// TCP: when the connection is up; sent bytes; read buffer; end reached.
    up_at: Option<u64>,
    refused: bool,
    sent: Vec<u8>,
    buf: Vec<u8>,
    buf_pos: usize,
    closed: bool,
    opened: u64,
    spins: u64,
}

pub struct Inner<F> {
    socks: HashMap<u64, Sock>,
    /// Descriptors may be duplicated.
    fds: HashMap<i32, u64>,
    next_id: u64,
    pub far: F,
    /// Things no program should do on a network.
    pub problems: Vec<String>,
    /// Longest blocking operation and longest stream life.
    pub longest_wait: u64,
    pub longest_stream: u64,
    pub sends: u64,
    pub spins: u64,
    pub streams: u64,
    pub filtered: u64,
}

pub struct Net<F: Far + 'static> {
    now: AtomicU64,
    tick: u64,
    seq: AtomicU64,
    inner: Mutex<Inner<F>>,
}

trait AnyNet: Sync {
    fn clock(&self) -> u64;
    fn advance(&self, d: u64);
    fn open(&self, fd: i32, tcp: bool);
    fn close(&self, fd: i32);
    fn dup(&self, fd: i32, new: i32);
    fn connect(&self, fd: i32, a: SocketAddr) -> i32;
    fn send(&self, fd: i32, b: &[u8], to: Option<SocketAddr>) -> Option<Result<usize, i32>>;
    fn recv(&self, fd: i32, b: &mut [u8], flags: i32) -> Option<Result<(usize, SocketAddr), i32>>;
    fn poll(&self, fd: i32, events: i16, timeout: u64) -> Option<i16>;
    fn peer(&self, fd: i32) -> Option<Option<SocketAddr>>;
    fn has(&self, fd: i32) -> bool;
}

thread_local! {
    static ON: Cell<Option<&'static dyn AnyNet>> = const { Cell::new(None) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

impl<F: Far + 'static> Net<F> {
    pub fn new(far: F, start: u64, tick: u64) -> Arc<Net<F>> {
        Arc::new(Net {
            now: AtomicU64::new(start),
            tick,
            seq: AtomicU64::new(0),
            inner: Mutex::new(Inner {
                socks: HashMap::new(),
                fds: HashMap::new(),
                next_id: 0,
                far,
                problems: vec![],
                longest_wait: 0,
                longest_stream: 0,
                sends: 0,
                spins: 0,
                streams: 0,
                filtered: 0,
            }),
        })
    }

    /// Runs code under test on the simulated network; Err is a panic.
    pub fn run<T>(self: &Arc<Self>, f: impl FnOnce() -> T) -> Result<T, String> {
        let me: &dyn AnyNet = &**self;
        // The reference lives in ON only while self is borrowed here.
        let me: &'static dyn AnyNet = unsafe { std::mem::transmute(me) };
        ON.with(|o| o.set(Some(me)));
        let r = guard(f);
        ON.with(|o| o.set(None));
        r
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut Inner<F>) -> T) -> T {
        f(&mut self.inner.lock().unwrap())
    }

    pub fn time(&self) -> u64 {
        self.now.load(SeqCst)
    }
    pub fn pass(&self, d: u64) {
        self.now.fetch_add(d, SeqCst);
    }
}

/// The code under test can read SO_RCVTIMEO/SO_SNDTIMEO back; so can we.
fn so_timeout(fd: i32, opt: i32) -> u64 {
    let mut tv = timeval { tv_sec: 0, tv_usec: 0 };
    let mut l = std::mem::size_of::<timeval>() as socklen_t;
    unsafe {
        syscall(SYS_getsockopt, fd, SOL_SOCKET, opt, &mut tv as *mut _, &mut l as *mut _);
    }
    tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * 1000
}

fn nonblocking(fd: i32) -> bool {
    unsafe { syscall(SYS_fcntl, fd, F_GETFL) as i32 & O_NONBLOCK != 0 }
}

impl<F: Far> Net<F> {
    fn wait_until(&self, t: u64) {
        let mut n = self.now.load(SeqCst);
        while n < t {
            match self.now.compare_exchange(n, t, SeqCst, SeqCst) {
                Ok(_) => return,
                Err(x) => n = x,
            }
        }
    }
}

const FOREVER: u64 = 3600 * SEC;

impl<F: Far + 'static> AnyNet for Net<F> {
    fn clock(&self) -> u64 {
        if self.tick == 0 {
            return self.now.load(SeqCst);
        }
        let s = self.seq.fetch_add(1, SeqCst);
        let d = mix(s, self.tick) % self.tick;
        self.now.fetch_add(d, SeqCst) + d
    }
    fn advance(&self, d: u64) {
        self.now.fetch_add(d, SeqCst);
    }
    fn has(&self, fd: i32) -> bool {
        self.inner.lock().unwrap().fds.contains_key(&fd)
    }
    fn dup(&self, fd: i32, new: i32) {
        let mut i = self.inner.lock().unwrap();
        if let Some(&id) = i.fds.get(&fd) {
            i.fds.insert(new, id);
        }
    }
    fn open(&self, fd: i32, tcp: bool) {
        let now = self.now.load(SeqCst);
        let mut i = self.inner.lock().unwrap();
        let id = i.next_id;
        i.next_id += 1;
        i.fds.insert(fd, id);
        i.socks.insert(
            id,
            Sock {
                tcp,
                peer: None,
                inbox: vec![],
                up_at: None,
                refused: false,
                sent: vec![],
                buf: vec![],
                buf_pos: 0,
                closed: false,
                opened: now,
                spins: 0,
            },
        );
    }
    fn close(&self, fd: i32) {
        let now = self.now.load(SeqCst);
        let mut i = self.inner.lock().unwrap();
        let id = match i.fds.remove(&fd) {
            Some(id) => id,
            None => return,
        };
        if i.fds.values().any(|x| *x == id) {
            return;
        }
        if let Some(s) = i.socks.remove(&id) {
            if s.tcp {
                i.longest_stream = i.longest_stream.max(now - s.opened);
            }
        }
    }
    fn connect(&self, fd: i32, a: SocketAddr) -> i32 {
        let now = self.now.load(SeqCst);
        let mut i = self.inner.lock().unwrap();
        let i = &mut *i;
        let s = match i.fds.get(&fd).and_then(|id| i.socks.get_mut(id)) {
            Some(s) => s,
            None => return EBADF,
        };
        if !s.tcp {
            let e = i.far.udp_connect(now, a);
            if e == 0 {
                s.peer = Some(a);
                s.inbox.clear();
            }
            return e;
        }
        if s.peer.is_some() {
            return EISCONN;
        }
        s.peer = Some(a);
        s.opened = now;
        i.streams += 1;
        match i.far.connect(now, a) {
            Conn::Ok(d) => {
                s.up_at = Some(now + d);
                if nonblocking(fd) && d > 0 {
                    return EINPROGRESS;
                }
                self.wait_until(now + d);
                0
            }
            Conn::Refused => {
                s.refused = true;
                ECONNREFUSED
            }
            Conn::Hole => {
                if nonblocking(fd) {
                    return EINPROGRESS;
                }
                // What a kernel does by default.
                let t = match so_timeout(fd, SO_SNDTIMEO) {
                    0 => 130 * SEC,
                    t => t,
                };
                i.longest_wait = i.longest_wait.max(t);
                self.wait_until(now + t);
                ETIMEDOUT
            }
        }
    }
    fn peer(&self, fd: i32) -> Option<Option<SocketAddr>> {
        {
        let i = self.inner.lock().unwrap();
        i.fds.get(&fd).and_then(|id| i.socks.get(id)).map(|s| s.peer)
        }
    }
    fn send(&self, fd: i32, b: &[u8], to: Option<SocketAddr>) -> Option<Result<usize, i32>> {
        let now = self.now.load(SeqCst);
        let mut i = self.inner.lock().unwrap();
        let i = &mut *i;
        let s = i.socks.get_mut(i.fds.get(&fd)?)?;
        let dst = match to.or(s.peer) {
            Some(d) => d,
            None => return Some(Err(EDESTADDRREQ)),
        };
        i.sends += 1;
        if s.tcp {
            if s.closed || s.up_at.is_none() {
                return Some(Err(EPIPE));
            }
            s.sent.extend_from_slice(b);
            for (delay, piece, tag) in i.far.tcp(now, dst, &s.sent, b.len()) {
                s.inbox.push(In { at: now + delay, from: dst, piece, err: 0, tag });
            }
            return Some(Ok(b.len()));
        }
        match i.far.udp(now, dst, b) {
            Udp::SendErr(e) => Some(Err(e)),
            Udp::Back(v) => {
                for d in v {
                    let (piece, err) = match d.what {
                        Ok(b) => (Piece::Data(b), 0),
                        Err(e) => (Piece::Reset, e),
                    };
                    s.inbox.push(In { at: now + d.delay, from: d.from, piece, err, tag: d.tag });
                }
                Some(Ok(b.len()))
            }
        }
    }
    fn recv(&self, fd: i32, b: &mut [u8], flags: i32) -> Option<Result<(usize, SocketAddr), i32>> {
        let mut i = self.inner.lock().unwrap();
        let i = &mut *i;
        let s = i.socks.get_mut(i.fds.get(&fd)?)?;
        let start = self.now.load(SeqCst);
        let nb = nonblocking(fd) || flags & MSG_DONTWAIT != 0;
        let limit = so_timeout(fd, SO_RCVTIMEO);
        let deadline = if nb {
            start
        } else if limit == 0 {
            start + FOREVER
        } else {
            start + limit
        };
        let res = loop {
            // A connected socket is not given what others send.
            if !s.tcp {
                if let Some(p) = s.peer {
                    let n = s.inbox.len();
                    s.inbox.retain(|x| x.from == p);
                    i.filtered += (n - s.inbox.len()) as u64;
                }
            }
            if s.tcp && s.buf_pos < s.buf.len() {
                let n = b.len().min(s.buf.len() - s.buf_pos);
                b[..n].copy_from_slice(&s.buf[s.buf_pos..s.buf_pos + n]);
                if flags & MSG_PEEK == 0 {
                    s.buf_pos += n;
                }
                break Ok((n, s.peer.unwrap()));
            }
            if s.tcp && s.closed {
                break Ok((0, s.peer.unwrap()));
            }
            let next = s.inbox.iter().enumerate().min_by_key(|(k, x)| (x.at, *k)).map(|(k, x)| (k, x.at));
            match next {
                Some((k, at)) if at <= deadline => {
                    self.wait_until(at);
                    if flags & MSG_PEEK != 0 && !s.tcp {
                        let x = &s.inbox[k];
                        if let Piece::Data(d) = &x.piece {
                            let n = b.len().min(d.len());
                            b[..n].copy_from_slice(&d[..n]);
                            break Ok((n, x.from));
                        }
                    }
                    let x = s.inbox.remove(k);
                    i.far.delivered(self.now.load(SeqCst), x.tag);
                    match x.piece {
                        Piece::Data(d) => {
                            if s.tcp {
                                s.buf = d;
                                s.buf_pos = 0;
                                continue;
                            }
                            let n = b.len().min(d.len());
                            b[..n].copy_from_slice(&d[..n]);
                            break Ok((n, x.from));
                        }
                        Piece::Close => {
                            s.closed = true;
                            continue;
                        }
                        Piece::Reset => break Err(if x.err == 0 { ECONNRESET } else { x.err }),
                    }
                }
                _ => {
                    if !nb && limit == 0 {
                        i.problems.push("the program waits for a reply without any time limit".into());
                    }
                    if nb {
                        s.spins += 1;
                        i.spins += 1;
                        // Busy waiting makes time pass too.
                        self.now.fetch_add(50_000, SeqCst);
                    } else {
                        self.wait_until(deadline);
                    }
                    break Err(EAGAIN);
                }
            }
        };
        i.longest_wait = i.longest_wait.max(self.now.load(SeqCst) - start);
        Some(res)
    }
    fn poll(&self, fd: i32, events: i16, timeout: u64) -> Option<i16> {
        let mut i = self.inner.lock().unwrap();
        let i = &mut *i;
        let s = i.socks.get_mut(i.fds.get(&fd)?)?;
        let start = self.now.load(SeqCst);
        if timeout == u64::MAX {
            i.problems.push("the program polls without any time limit".into());
        }
        let deadline = start.saturating_add(timeout.min(FOREVER));
        let mut got = 0;
        if s.tcp && s.refused {
            return Some(POLLERR | POLLHUP);
        }
        if events & POLLOUT != 0 {
            if !s.tcp {
                got |= POLLOUT;
            } else if let Some(u) = s.up_at {
                if u <= deadline {
                    self.wait_until(u);
                    got |= POLLOUT;
                }
            }
        }
        if events & POLLIN != 0 && got == 0 {
            if s.buf_pos < s.buf.len() || s.closed {
                got |= POLLIN;
            } else if let Some(at) = s.inbox.iter().filter(|x| s.tcp || s.peer.map_or(true, |p| p == x.from)).map(|x| x.at).min() {
                if at <= deadline {
                    self.wait_until(at);
                    got |= POLLIN;
                }
            }
        }
        if got == 0 {
            self.wait_until(deadline);
        }
        i.longest_wait = i.longest_wait.max(self.now.load(SeqCst) - start);
        Some(got)
    }
}

// ---------------------------------------------------------------- interposed functions

fn on() -> Option<&'static dyn AnyNet> {
    ON.try_with(|o| o.get()).ok().flatten().filter(|_| !INSIDE.try_with(|i| i.get()).unwrap_or(true))
}

/// Runs simulation code: no re-entry, and no unwinding into foreign frames.
fn inside<T>(d: T, f: impl FnOnce() -> T) -> T {
    INSIDE.with(|i| i.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.with(|i| i.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            BROKEN.with(|b| b.set(true));
            d
        }
    }
}

thread_local! {
    static BROKEN: Cell<bool> = const { Cell::new(false) };
}

/// Did simulation code itself fail on this thread? (Resets the flag.)
pub fn broken() -> bool {
    BROKEN.with(|b| b.replace(false))
}

unsafe fn fail(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}

unsafe fn addr_in(a: *const sockaddr, len: socklen_t) -> Option<SocketAddr> {
    if a.is_null() || (len as usize) < 2 {
        return None;
    }
    match (*a).sa_family as i32 {
        AF_INET if len as usize >= std::mem::size_of::<sockaddr_in>() => {
            let s = &*(a as *const sockaddr_in);
            Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr))), u16::from_be(s.sin_port)))
        }
        AF_INET6 if len as usize >= std::mem::size_of::<sockaddr_in6>() => {
            let s = &*(a as *const sockaddr_in6);
            Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(s.sin6_addr.s6_addr)), u16::from_be(s.sin6_port)))
        }
        _ => None,
    }
}

unsafe fn addr_out(a: SocketAddr, out: *mut sockaddr, len: *mut socklen_t) {
    if out.is_null() || len.is_null() {
        return;
    }
    if let SocketAddr::V4(v) = a {
        let s = sockaddr_in {
            sin_family: AF_INET as u16,
            sin_port: v.port().to_be(),
            sin_addr: in_addr { s_addr: u32::from(*v.ip()).to_be() },
            sin_zero: [0; 8],
        };
        let n = std::mem::size_of::<sockaddr_in>();
        let m = n.min(*len as usize);
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, m);
        *len = n as socklen_t;
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if let Some(n) = on() {
        if matches!(clk, CLOCK_MONOTONIC | CLOCK_REALTIME | CLOCK_BOOTTIME | CLOCK_MONOTONIC_RAW | CLOCK_MONOTONIC_COARSE | CLOCK_REALTIME_COARSE) {
            jitter();
            let t = n.clock();
            (*ts).tv_sec = (t / SEC) as i64;
            (*ts).tv_nsec = (t % SEC) as i64;
            if matches!(clk, CLOCK_REALTIME | CLOCK_REALTIME_COARSE) {
                (*ts).tv_sec += 1_700_000_000;
            }
            return 0;
        }
    }
    syscall(SYS_clock_gettime, clk, ts) as c_int
}

unsafe fn ts_ns(t: *const timespec) -> u64 {
    (*t).tv_sec as u64 * SEC + (*t).tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(n) = on() {
        n.advance(ts_ns(req));
        return 0;
    }
    syscall(SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(n) = on() {
        let t = ts_ns(req);
        if flags & TIMER_ABSTIME != 0 {
            let now = n.clock();
            n.advance(t.saturating_sub(now));
        } else {
            n.advance(t);
        }
        return 0;
    }
    let r = syscall(SYS_clock_nanosleep, clk, flags, req, rem);
    if r == 0 {
        0
    } else {
        *__errno_location()
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    delay_now(D_SOCKET + (ty & 0xf == SOCK_STREAM) as usize);
    let fd = syscall(SYS_socket, dom, ty, proto) as c_int;
    if fd >= 0 && (dom == AF_INET || dom == AF_INET6) {
        if let Some(n) = on() {
            inside((), || n.open(fd, ty & 0xf == SOCK_STREAM));
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(n) = on() {
        inside((), || n.close(fd));
    }
    syscall(SYS_close, fd) as c_int
}

/// How many of the next calls of the servers fail for want of descriptors: accepting, receiving, duplicating.
pub static FAULTS: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

thread_local! {
    /// Threads of the harness are spared.
    pub static SPARED: Cell<bool> = const { Cell::new(false) };
}

fn fault(k: usize) -> bool {
    FAULTS[k].load(SeqCst) > 0 && !SPARED.with(|s| s.get()) && FAULTS[k].fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok()
}

/// Delays (in microseconds) of the calls of the servers while they start, by call and by kind of socket.
pub static DELAYS: [AtomicU64; 12] = [const { AtomicU64::new(0) }; 12];
pub const D_SOCKET: usize = 0;
pub const D_BIND: usize = 2;
pub const D_LISTEN: usize = 4;
pub const D_OPTION: usize = 6;
pub const D_WAIT: usize = 8;
pub const D_THREAD: usize = 10;
/// Delayed calls.
pub static DELAYED: AtomicU64 = AtomicU64::new(0);
/// The n-th next thread created by the servers is refused (0: none).
pub static NO_THREAD: AtomicU64 = AtomicU64::new(0);

fn delay_now(k: usize) {
    let us = DELAYS[k].load(SeqCst);
    if us > 0 && !SPARED.with(|s| s.get()) {
        DELAYED.fetch_add(1, SeqCst);
        let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000 * 1000) as i64 };
        unsafe { syscall(SYS_nanosleep, &t, std::ptr::null::<timespec>()) };
    }
}

unsafe fn delay(k: usize, fd: c_int) {
    if DELAYS[k].load(SeqCst) | DELAYS[k + 1].load(SeqCst) > 0 && !SPARED.with(|s| s.get()) {
        let (mut ty, mut len): (c_int, socklen_t) = (0, 4);
        if syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, &mut ty, &mut len) == 0 {
            delay_now(k + (ty == SOCK_STREAM) as usize);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    delay(D_BIND, fd);
    syscall(SYS_bind, fd, a, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    delay(D_LISTEN, fd);
    syscall(SYS_listen, fd, n) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, len: socklen_t) -> c_int {
    if name == SO_SNDTIMEO {
        delay(D_OPTION, fd);
    }
    syscall(SYS_setsockopt, fd, level, name, v, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    static REAL: AtomicU64 = AtomicU64::new(0);
    if REAL.load(SeqCst) == 0 {
        REAL.store(dlsym(RTLD_NEXT, c"pthread_create".as_ptr()) as u64, SeqCst);
    }
    if NO_THREAD.load(SeqCst) > 0 && !SPARED.with(|s| s.get()) && NO_THREAD.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)) == Ok(1) {
        return EAGAIN;
    }
    delay_now(D_THREAD);
    let real: F = std::mem::transmute(REAL.load(SeqCst) as usize);
    real(t, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    delay(D_WAIT, fd);
    if fault(0) {
        return fail(EMFILE);
    }
    syscall(SYS_accept4, fd, a, len, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && fault(2) {
        return fail(EMFILE);
    }
    let r = syscall(SYS_fcntl, fd, cmd, arg) as c_int;
    if r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        if let Some(n) = on() {
            inside((), || n.dup(fd, r));
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    if let Some(n) = on() {
        if let Some(dst) = addr_in(a, len) {
            return match inside(EIO, || n.connect(fd, dst)) {
                0 => 0,
                e => fail(e),
            };
        }
    }
    syscall(SYS_connect, fd, a, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, len: size_t, flags: c_int, a: *const sockaddr, alen: socklen_t) -> ssize_t {
    if let Some(n) = on() {
        let s = std::slice::from_raw_parts(b as *const u8, len);
        let to = addr_in(a, alen);
        match inside(Some(Err(EIO)), || n.send(fd, s, to)) {
            Some(Ok(k)) => return k as ssize_t,
            Some(Err(e)) => return fail(e) as ssize_t,
            None => {}
        }
    }
    syscall(SYS_sendto, fd, b, len, flags, a, alen) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    sendto(fd, b, len, flags, std::ptr::null(), 0)
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, len: size_t, flags: c_int, a: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    if let Some(n) = on() {
        let s = std::slice::from_raw_parts_mut(b as *mut u8, len);
        match inside(Some(Err(EIO)), || n.recv(fd, s, flags)) {
            Some(Ok((k, from))) => {
                addr_out(from, a, alen);
                return k as ssize_t;
            }
            Some(Err(e)) => return fail(e) as ssize_t,
            None => {}
        }
    }
    delay(D_WAIT, fd);
    if fault(1) {
        return fail(ENOMEM) as ssize_t;
    }
    syscall(SYS_recvfrom, fd, b, len, flags, a, alen) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, b, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if let Some(n) = on() {
        if inside(false, || n.has(fd)) {
            let mut all = vec![];
            for k in 0..cnt as usize {
                let v = &*iov.add(k);
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            return sendto(fd, all.as_ptr() as *const c_void, all.len(), 0, std::ptr::null(), 0);
        }
    }
    syscall(SYS_writev, fd, iov, cnt) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if let Some(n) = on() {
        if cnt > 0 && inside(false, || n.has(fd)) {
            let v = &*iov;
            return recvfrom(fd, v.iov_base, v.iov_len, 0, std::ptr::null_mut(), std::ptr::null_mut());
        }
    }
    syscall(SYS_readv, fd, iov, cnt) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if let Some(n) = on() {
        match inside(None, || n.peer(fd)) {
            Some(Some(p)) => {
                addr_out(p, a, len);
                return 0;
            }
            Some(None) => return fail(ENOTCONN),
            None => {}
        }
    }
    syscall(SYS_getpeername, fd, a, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if let Some(n) = on() {
        if inside(false, || n.has(fd)) {
            return 0;
        }
    }
    syscall(SYS_shutdown, fd, how) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if let Some(net) = on() {
        if n == 1 {
            let p = &mut *fds;
            let t = if timeout < 0 { u64::MAX } else { timeout as u64 * MS };
            if let Some(r) = inside(None, || net.poll(p.fd, p.events, t)) {
                p.revents = r;
                return (r != 0) as c_int;
            }
        }
    }
    syscall(SYS_poll, fds, n, timeout) as c_int
}

#[allow(dead_code)]
pub type Table = BTreeMap<String, u64>;
